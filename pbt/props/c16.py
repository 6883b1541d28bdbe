"""values whose type is chosen: by tag, by length, by selector"""
from hypothesis import strategies as st
from .. import gens as g
from ..core import Prop, Facet
from src.DLMS_SPODES.types import choices, cdt, cst, ut
from src.DLMS_SPODES.cosem_interface_classes.push_setup import ver2

SIMPLE = set(g.SIMPLE)
EXT = {"null", "bits", "u32", "octets", "visible", "utf8", "u8", "u16", "u64"}
LEGAL = {"simple_dt": SIMPLE, "common_dt": SIMPLE | {"array", "structure"}, "complex_dt": {"array", "structure"}, "extended_register": EXT,
         "register": EXT | {"i32", "i8", "i16", "i64", "enum", "f32", "f64"}, "access_selectors": {"null", "array"},
         "device_id_object": {"u32", "octets", "visible", "utf8", "u8", "u16"}, "any_date_time": {"datetime", "date", "time"}}
DATES = {12: "DateTime", 5: "Date", 4: "Time"}


def by_tag(ctx, c):
    name, spec, tail = c
    ch = getattr(choices, name)
    enc = g.ref_enc(spec)
    t = spec[0]
    if t in LEGAL[name]:
        ctx.nt()
        x = ch(enc + bytes.fromhex(tail))
        ctx.check(type(x) is getattr(cdt, g.CLASS[t]), F"{name}: type {type(x)} of tag {g.TAGS[t]}")
        ctx.eq(x.encoding, enc, F"{name}: value")
        ctx.check(ch.is_key(g.TAGS[t]), "is_key")
        d = ch(g.TAGS[t])
        ctx.check(type(d) is type(x), "default instance by tag")
    else:
        if name == "any_date_time" and t == "octets" and len(spec[1]) // 2 in DATES:
            return
        ctx.label("illegal")
        ctx.nt()
        ctx.raises(lambda: ch(enc), F"{name}: value of not listed type {t}")
        if not (name == "any_date_time" and t == "octets"):
            ctx.raises(lambda: ch(g.TAGS[t]), F"{name}: default of not listed tag")
            ctx.check(not ch.is_key(g.TAGS[t]), "is_key of not listed tag")
        y = ch(g.TAGS[t], force=True)
        ctx.check(type(y) is getattr(cdt, g.CLASS[t]), "forced type by tag")


def dates(ctx, c):
    kind, h = c
    b = bytes.fromhex(h)
    ctx.nt()
    ch = choices.any_date_time
    tag = {"datetime": 25, "date": 26, "time": 27}[kind]
    x = ch(bytes((tag,)) + b)
    ctx.check(type(x) is getattr(cdt, g.CLASS[kind]), "type by tag")
    ctx.eq(x.encoding, bytes((tag,)) + b, "value by tag")
    o = ch(bytes((9, len(b))) + b)
    ctx.check(type(o) is getattr(cst, "OctetString" + DATES[len(b)]), "type by length of octets")
    ctx.eq(o.encoding, bytes((9, len(b))) + b, "value in octets")
    ctx.eq(str(o), str(x), "text is the same in both forms")
    for n in {1, 3, 6, 11, 13}:
        ctx.raises(lambda: ch(bytes((9, n)) + (b + b)[:n]), F"octets of length {n}")
    ctx.raises(lambda: ch(bytes((9, len(b))) + b[:-1]), "cut octets")


def selectors(ctx, c):
    """RestrictionValue, KeyInfoOptions: selector then the value of its type"""
    sel, a, b, h = c
    ctx.nt()
    dates2 = [bytes.fromhex(x) for x in (a, b)]
    lim = [int.from_bytes(bytes.fromhex(h)[i:i + 4], "big") for i in (0, 4)]
    r = choices.restriction_value
    want = {0: b"\x00", 1: b"\x02\x02" + b"".join(b"\x09\x05" + d for d in dates2), 2: b"\x02\x02" + b"".join(b"\x06" + v.to_bytes(4, "big") for v in lim)}[sel]
    t = r.ELEMENTS[sel].TYPE
    x = t(want)
    ctx.eq(x.encoding, want, "restriction")
    for other in {0, 1, 2} - {sel}:
        ctx.raises(lambda: r.ELEMENTS[other].TYPE(want), "value of another selector")
    k = choices.key_info_options
    data = bytes.fromhex(h)
    o = b"\x09" + g.ref_len(len(data)) + data
    want = {0: b"\x16\x01", 1: b"\x02\x02\x16\x00" + o, 2: b"\x02\x02" + o + o}[sel]
    x = k.ELEMENTS[sel].TYPE(want)
    ctx.eq(x.encoding, want, "key info")
    for other in {0, 1, 2} - {sel}:
        ctx.raises(lambda: k.ELEMENTS[other].TYPE(want), "key info of another selector")


def selected(ctx, c):
    """structures of a selector and the value it selects: restriction of a push object, key information"""
    name, steps = c
    cls = {"restriction": ver2.RestrictionElement, "key": ver2.KeyInfoElement}[name]
    values = [option(name, *s) for s in steps]
    first = values[0]
    inst = cls(b"\x02\x02" + b"\x16" + bytes((steps[0][0],)) + first[0])
    now = b"\x02\x02\x16" + bytes((steps[0][0],)) + first[0]
    d = cls()
    ctx.eq(d.encoding[:4], b"\x02\x02\x16\x00", "selector by default")
    ctx.check(type(d[1]) is cls.ELEMENTS[1].TYPE.ELEMENTS[0].TYPE, "value of the default selector")
    ctx.nt(len({s[0] for s in steps}) > 1)
    for (sel, _, _, _), (enc, seq) in zip(steps, values):
        whole = b"\x02\x02\x16" + bytes((sel,)) + enc
        x, rest = cdt.get_instance_and_pdu(cls, whole + b"\x01\x02")
        ctx.eq((x.encoding, rest), (whole, b"\x01\x02"), "value and the octets behind it")
        ctx.eq(int(x[0]), sel, "selector")
        ctx.check(type(x[1]) is cls.ELEMENTS[1].TYPE.ELEMENTS[sel].TYPE, "type of the selected value")
        ctx.eq(cls(x).encoding, whole, "from instance")
        ctx.eq(cls([sel, seq]).encoding, whole, "from sequence")
        ctx.raises(lambda: x[0].set((sel + 1) % 3), "selector alone")
        ctx.eq(x.encoding, whole, "value after the rejected selector")
        for other in {0, 1, 2, 3} - {sel}:
            bad = b"\x02\x02\x16" + bytes((other,)) + enc
            ctx.raises(lambda: cls(bad), f"value of selector {sel} under {other}")
            ctx.raises(lambda: inst.set(bad), f"set to a value of selector {sel} under {other}")
            ctx.eq(inst.encoding, now, "value after rejected set")
        inst.set(whole)
        now = whole
        ctx.eq(inst.encoding, now, "value after set")


def option(name, sel, a, b, h):
    """encoding and sequence of the value"""
    a, b, h = (bytes.fromhex(x) for x in (a, b, h))
    if name == "restriction":
        lim = [int.from_bytes(h[i:i + 4], "big") for i in (0, 4)]
        return [(b"\x00", None), (b"\x02\x02" + b"".join(b"\x09\x05" + d for d in (a, b)), [b"\x09\x05" + a, b"\x09\x05" + b]), (b"\x02\x02" + b"".join(b"\x06" + v.to_bytes(4, "big") for v in lim), lim)][sel]
    o = b"\x09" + g.ref_len(len(h)) + h
    return [(b"\x16" + bytes((h[0] % 2,)), h[0] % 2), (b"\x02\x02\x16\x00" + o, [0, o]), (b"\x02\x02" + o + o, [o, bytearray(h)])][sel]


def listing(ctx, c):
    name, = c
    ch = getattr(choices, name)
    ctx.nt()
    ctx.eq(len(ch.get_types()), len(LEGAL[name]) + {"any_date_time": 3, "complex_dt": 1, "common_dt": 1}.get(name, 0), "number of types")
    got = {t.TAG for t in ch.get_types()}
    want = {bytes((g.TAGS[t],)) for t in LEGAL[name]} | ({b"\x09"} if name == "any_date_time" else {b"\x13"} if name in ("complex_dt", "common_dt") else set())
    ctx.eq({bytes(x) for x in got}, want, "types of the choice")
    for junk in ("text", 1.5, [1], 300, -1):
        ctx.raises(lambda: ch(junk), F"{junk!r} chooses nothing")


specs = st.one_of(g.any_simple(), g.containers(2))
PROP = Prop("C16", rule="values of every type offered to every choice of the package against the list of legal types; all dates by tag and by length; non-trivial: every case",
            facets=[
                Facet("by_tag", st.tuples(st.sampled_from(sorted(LEGAL)), specs, st.binary(max_size=3).map(bytes.hex)), by_tag, quick=2500, thorough=20000),
                Facet("dates", st.one_of(*[st.tuples(st.just(k), s.map(bytes.hex)) for k, s in (("datetime", g.datetime_octets()), ("date", g.date_octets()), ("time", g.time_octets()))]),
                      dates, quick=1200, thorough=10000),
                Facet("selectors", st.tuples(st.integers(0, 2), g.date_octets().map(bytes.hex), g.date_octets().map(bytes.hex), st.binary(min_size=8, max_size=20).map(bytes.hex)), selectors, quick=500, thorough=5000),
                Facet("selected", st.tuples(st.sampled_from(["restriction", "key"]), st.lists(st.tuples(st.integers(0, 2), g.date_octets().map(bytes.hex), g.date_octets().map(bytes.hex), st.binary(min_size=8, max_size=20).map(bytes.hex)),
                                                                                                min_size=1, max_size=4)), selected, quick=400, thorough=5000),
                Facet("listing", None, listing, exhaustive=lambda: ([n] for n in sorted(LEGAL))),
            ])
