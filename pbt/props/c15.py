"""logical names, their patterns, addresses in dotted text"""
import random
from hypothesis import strategies as st
from ..core import Prop, Facet
from src.DLMS_SPODES.types import cst, ut
from src.DLMS_SPODES.types.implementations.double_long_usingneds import IPAddress
from src.DLMS_SPODES.cosem_interface_classes import collection
from src.DLMS_SPODES.obis import abstract_objects

octet = st.one_of(st.integers(0, 255), st.sampled_from([0, 1, 9, 10, 99, 100, 127, 128, 254, 255]))
six = st.lists(octet, min_size=6, max_size=6)


def text(ctx, c):
    groups, n = c
    b = bytes(groups)
    full = ".".join(map(str, groups))
    ctx.nt(len(set(groups)) > 2)
    ln = cst.LogicalName(full)
    ctx.eq((ln.contents, ln.encoding, str(ln)), (b, b"\x09\x06" + b, full), "six groups")
    ctx.eq((ln.a, ln.b, ln.c, ln.d, ln.e, ln.f), tuple(groups), "groups")
    for arg in (bytearray(b), b"\x09\x06" + b, full, ln):
        other = cst.LogicalName(arg)
        ctx.check(other == ln and hash(other) == hash(ln) and other.encoding == ln.encoding, F"same name from {arg!r}")
    part = ".".join(map(str, groups[:n]))
    want = bytes(groups[:n]) + bytes(max(0, 5 - n)) + (b"\xff" if n < 6 else b"")
    ctx.eq(cst.LogicalName(part).contents, want, F"omitted groups of {part!r}")
    ctx.eq(ut.CosemObjectInstanceId.from_str(part).contents, want, "instance id of the service layer")
    ident = ut.CosemObjectInstanceId.from_contents(b + b"\x00\x01")
    ctx.eq((ident.contents, str(ident)), (b, full), "instance id from octets")
    ctx.eq(int.from_bytes(ln.contents, "big"), int.from_bytes(bytes(groups), "big"), "octets")


def wrong(ctx, c):
    groups, i, v, how = c
    ctx.nt()
    parts = list(map(str, groups))
    if how == "range":
        parts[i] = str(v)
    elif how == "letter":
        parts[i] = "abcdefxyz"[v % 9]
    elif how == "more":
        parts.append(str(v % 256))
    elif how == "negative":
        parts[i] = str(-1 - v)
    t = ".".join(parts)
    ctx.raises(lambda: cst.LogicalName(t), F"wrong name {t!r}")
    ctx.raises(lambda: ut.CosemObjectInstanceId.from_str(t), F"wrong instance id {t!r}")
    ln = cst.LogicalName(".".join(map(str, groups)))
    ctx.raises(lambda: ln.set(t), "set of wrong name")
    ctx.eq(ln.contents, bytes(groups), "unchanged after rejection")
    for n in range(6):
        ctx.raises(lambda: cst.LogicalName(bytearray(groups[:n])), F"name of {n} octets")
        ctx.raises(lambda: cst.LogicalName(bytes((9, n)) + bytes(groups[:n])), F"encoding of {n} octets")
    ctx.raises(lambda: cst.LogicalName(bytearray(groups + [v % 256])), "name of 7 octets")


def order(ctx, c):
    names = [bytes(x) for x in c]
    ctx.nt(len(set(names)) > 2)
    lns = [cst.LogicalName(bytearray(x)) for x in names]
    ctx.eq([x.contents for x in sorted(lns)], sorted(names), "order of names is order of octets")
    ctx.eq({x.contents for x in set(lns)}, set(names), "set of names")
    ctx.eq(len(set(lns)), len(set(names)), "equal names are one key")
    d = {x: i for i, x in enumerate(lns)}
    for i, x in enumerate(names):
        ctx.eq(d[cst.LogicalName(bytearray(x))], max(j for j, y in enumerate(names) if y == x), "key of a dictionary")


@st.composite
def pattern(draw):
    """[per group: None | int | list of [a] / [a, b]]"""
    ret = []
    for _ in range(draw(st.sampled_from([6, 6, 6, 6, 1, 2, 3, 4, 5]))):
        k = draw(st.integers(0, 3))
        if k == 0:
            ret.append(None)
        elif k == 1:
            ret.append(draw(octet))
        else:
            ret.append(draw(st.lists(st.one_of(octet.map(lambda v: [v]), st.tuples(octet, octet).map(lambda t: sorted(t))), min_size=1, max_size=4)))
    return ret


def members_of(el):
    if el is None:
        return set(range(256))
    if isinstance(el, int):
        return {el}
    ret = set()
    for it in el:
        ret |= set(range(it[0], it[-1] + 1))
    return ret


def write(p, space, nested):
    out = []
    for i, el in enumerate(p):
        if el is None:
            out.append("abcdef"[i])
        elif isinstance(el, int):
            out.append(str(el))
        else:
            items = []
            for it in el:
                s = (" - " if space else "-").join(map(str, it))
                items.append(F"({s})" if nested and len(it) == 2 else s)
            out.append("(" + (", " if space else ",").join(items) + ")")
    return ".".join(out)


def match(ctx, c):
    p, space, nested, seed = c
    t = write(p, space, nested)
    pat = collection.LNPattern(t)
    sets = [members_of(el) for el in p] + [set(range(256))] * (6 - len(p))
    ctx.nt(sum(len(s) not in (1, 256) for s in sets) > 1)
    r = random.Random(seed)
    for _ in range(6):
        ln = [r.choice(sorted(s)) for s in sets]
        ctx.check(pat == cst.LogicalName(bytearray(ln)), F"{t!r} does not match {ln}")
        for i in range(6):
            edge = {v + d for v in (min(sets[i]), max(sets[i])) for d in (-1, 1)} & set(range(256))
            for v in sorted(edge) + [r.randrange(256)]:
                m = list(ln)
                m[i] = v
                ctx.eq(pat == cst.LogicalName(bytearray(m)), v in sets[i], F"{t!r} against {m}")


def wrong_pattern(ctx, c):
    p, i, how, v = c
    ctx.nt()
    p = (p + [None] * 6)[:6]
    good = write(p, False, False).split(".")
    bad = {"letter": "abcdef"[(i + 1 + v % 5) % 6], "big": str(256 + v), "big_in": F"({256 + v})", "big_to": F"(1-{256 + v})", "word": "x", "empty_in": "()",
           "open": F"({v % 256}", "minus": F"-{v}", "twice": "(1-2-3)", "letter_in": "(a)"}[how]
    good[i] = bad
    t = ".".join(good)
    ctx.raises(lambda: collection.LNPattern(t), F"wrong pattern {t!r}")


def ip(ctx, c):
    g4, v, i = c
    t = ".".join(map(str, g4))
    ctx.nt(len(set(g4)) > 2)
    x = IPAddress(t)
    ctx.eq((x.contents, str(x), x.encoding), (bytes(g4), t, b"\x06" + bytes(g4)), "address of text")
    ctx.eq(int(x), int.from_bytes(bytes(g4), "big"), "number of the address")
    ctx.eq(str(IPAddress(b"\x06" + bytes(g4))), t, "text of octets")
    bad = list(map(str, g4))
    bad[i] = str(256 + v)
    ctx.raises(lambda: IPAddress(".".join(bad)), "part above 255")
    ctx.raises(lambda: x.set(".".join(bad)), "set of part above 255")
    ctx.eq(str(x), t, "unchanged")


def constants(ctx, c):
    b, f = c
    ctx.nt()
    ctx.eq(str(abstract_objects.BILLING_PERIOD_COUNTER(b, f)), F"0.{b}.0.1.0.{f}", "billing period counter")
    ctx.eq(str(abstract_objects.LDN), "0.0.42.0.0.255", "logical device name")
    ctx.eq(str(abstract_objects.SPODES3_DISPLAY_MODE()), "0.0.96.4.1.255", "display mode")


PROP = Prop("C15", rule="six random groups with prefixes, wrong groups, patterns of values, sets and ranges judged at their edges; non-trivial: several different groups / sets in several groups",
            facets=[
                Facet("text", st.tuples(six, st.integers(1, 6)), text, quick=1500, thorough=15000),
                Facet("wrong", st.tuples(six, st.integers(0, 5), st.integers(256, 70000), st.sampled_from(["range", "letter", "more", "negative"])), wrong, quick=800, thorough=8000),
                Facet("order", st.lists(st.one_of(six, st.lists(st.integers(0, 1), min_size=6, max_size=6)), min_size=1, max_size=12), order, quick=500, thorough=5000),
                Facet("match", st.tuples(pattern(), st.booleans(), st.booleans(), st.integers(0, 1 << 30)), match, quick=700, thorough=10000),
                Facet("wrong_pattern", st.tuples(pattern(), st.integers(0, 5), st.sampled_from(["letter", "big", "big_in", "big_to", "word", "empty_in", "open", "minus", "twice", "letter_in"]),
                                                 st.integers(0, 999)), wrong_pattern, quick=800, thorough=8000),
                Facet("ip", st.tuples(st.lists(octet, min_size=4, max_size=4), st.integers(0, 1000), st.integers(0, 3)), ip, quick=600, thorough=6000),
                Facet("constants", st.tuples(octet, octet), constants, quick=100, thorough=1000),
            ])
