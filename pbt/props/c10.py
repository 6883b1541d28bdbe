"""bit strings and flags as lists of bits"""
from hypothesis import strategies as st
from .. import gens as g
from ..core import Prop, Facet
from src.DLMS_SPODES.types import cdt, ut
from src.DLMS_SPODES.types.implementations.bitstrings import Conformance
from src.DLMS_SPODES.cosem_interface_classes.security_setup.ver1 import SecurityPolicyVer1


def enc(bits):
    s = "".join(map(str, bits))
    return b"\x04" + g.ref_len(len(bits)) + g.pack_bits(s)


def same(ctx, x, m, what):
    ctx.eq(x.decode(), m, what)
    ctx.eq(str(x), "".join(map(str, m)), "text")
    ctx.eq(len(x), len(m), "length")
    ctx.eq(x.encoding, enc(m), "encoding")
    for i in range(len(m)):
        ctx.eq(x[i], bytes((m[i],)), F"bit {i}")
        ctx.eq(x[i - len(m)], bytes((m[i],)), F"bit {i - len(m)}")


def history(ctx, case):
    kind, first, ops = case
    m = [int(c) for c in first]
    if kind == "conformance":
        m = (m + [0] * 24)[:24]
        cls = Conformance
    else:
        cls = cdt.BitString
    x = cls("".join(map(str, m)))
    same(ctx, x, m, "from text")
    ctx.nt(len(m) > 8 and len(ops) > 1)
    for op, k, v, text in ops:
        n = len(m)
        if op == "setitem" and n:
            k = k % n - (n if k > 20 else 0)
            x[k] = v
            m[k] = int(v)
        elif op == "beyond":
            def change(): x[n + k] = v
            def change2(): x[-n - 1 - k] = v
            ctx.raises(change2, "change of an absent bit at the left")
            ctx.raises(lambda: x[n + k], "absent bit")
            ctx.raises(lambda: x[-n - 1 - k], "absent bit at the left")
            ctx.raises(change, "change of an absent bit")
            ctx.raises(lambda: x.inverse(n + k), "inversion of an absent bit")
        elif op == "inverse" and n:
            x.inverse(k % n)
            m[k % n] ^= 1
        elif op == "left" and n:
            x << k
            k %= n
            m = m[k:] + m[:k]
        elif op == "right" and n:
            x >> k
            k %= n
            m = m[n - k:] + m[:n - k]
        elif op == "clear":
            x.clear()
            m = [0] * n
        elif op == "set" and (kind != "conformance" or len(text) == 24):
            x.set(text)
            m = [int(c) for c in text]
        elif op == "set_wrong":
            if kind == "conformance" and len(text) != 24:
                ctx.label("wrong_length")
                ctx.raises(lambda: x.set(text), F"{len(text)} bits")
                ctx.raises(lambda: x.set(enc([int(c) for c in text])), F"encoding of {len(text)} bits")
            ctx.raises(lambda: x.set(text + "2"), "not a bit")
        elif op == "reload":
            x = cls(enc(m))
        elif op == "instance":
            x = cls(x)
        elif op == "list" and kind != "conformance":
            x = cls(list(m))
        same(ctx, x, m, F"bits after {op}({k})")


def conformance_int(ctx, case):
    v, = case
    m = [(v >> i) & 1 for i in range(24)]
    ctx.nt(v not in (0, 0xffffff))
    x = Conformance(v)
    same(ctx, x, m, F"Conformance({v}), the first bit is the lowest one")
    ctx.eq([x.general_protection, x.general_block_transfer, x.selective_access], [m[1], m[2], m[21]], "named bits")
    ctx.raises(lambda: Conformance(-v - 1), "negative number")
    ctx.raises(lambda: Conformance(bytearray(b"\x00" * (v % 3))), "contents of a wrong length")
    ctx.raises(lambda: Conformance(bytearray(b"\x00" * (4 + v % 3))), "contents of a wrong length")


def flags(ctx, case):
    v, = case
    ctx.nt(v > 0)
    m = [(v >> (7 - i)) & 1 for i in range(8)]
    text = "".join(map(str, m))
    for arg in (v, bytes((22, v)), bytearray((v,)), text):
        if arg == text and text.isdigit() and len(arg) != 8:
            continue
        x = SecurityPolicyVer1(arg)
        ctx.eq((int(x), x.decode(), str(x), x.encoding), (v, m, text, bytes((22, v))), F"flags from {arg!r}")


_part = {}


def partial(ctx, case):
    """flags with some bits of the octet only: a bit without a name is refused"""
    elements = tuple(sorted(set(case[0])))
    if elements not in _part:
        class Part(cdt.FlagMixin, cdt.Enum, elements=elements):
            """generated"""
        _part[elements] = Part
    cls = _part[elements]
    free = 255 - sum(1 << i for i in elements)
    ctx.nt(0 < len(elements) < 8)
    v = case[1]
    for v in (v, v & ~free):
        for arg in (v, bytes((22, v)), bytearray((v,))):
            if v & free:
                ctx.raises(lambda: cls(arg), f"flags {v:08b} from {arg!r} with bits {elements}")
                x = cls(bytearray((0,)))
                ctx.raises(lambda: x.set(arg), f"set of flags {v:08b} from {arg!r} with bits {elements}")
                ctx.eq(x.encoding, b"\x16\x00", "flags after a refused set")
            else:
                x = cls(arg)
                ctx.eq((int(x), x.encoding), (v, bytes((22, v))), f"flags from {arg!r}")


def equal(ctx, case):
    a, b = case
    x, y = cdt.BitString(a), cdt.BitString(b)
    ctx.nt(a != b and bool(a) and len(a) <= (len(b) + 7) // 8 * 8)
    ctx.eq((x == y, x == y.encoding), (a == b, a == b), f"equality of {a!r} and {b!r}")
    if a == b:
        ctx.eq(hash(x), hash(y), "hash")


def ut_bits(ctx, case):
    first, ops, tail = case
    m = [int(c) for c in first]
    x = ut.BitString.from_str(first)
    ctx.nt(len(m) > 8)
    for op, k, v in ops:
        if not m:
            break
        k %= len(m)
        if op == "set":
            x[k] = v
            m[k] = int(v)
        elif op == "inverse":
            x.inverse(k)
            m[k] ^= 1
        elif op == "clear":
            x.clear()
            m = [0] * len(m)
        s = "".join(map(str, m))
        ctx.eq((str(x), len(x), x.contents), (s, len(m), g.ref_len(len(m)) + g.pack_bits(s)), F"after {op}")
    s = "".join(map(str, m))
    y = ut.BitString.from_contents(g.ref_len(len(m)) + g.pack_bits(s) + bytes.fromhex(tail))
    ctx.eq(str(y), s, "from contents with a tail")
    ctx.check(y == x, "equality")
    c = x.contents
    for i in range(len(c)):
        ctx.raises(lambda: ut.BitString.from_contents(c[:i]), F"contents cut to {i} octets")


bits = st.one_of(st.text("01", max_size=30), st.sampled_from([7, 8, 9, 15, 16, 17, 24, 127, 128, 129]).flatmap(lambda n: st.text("01", min_size=n, max_size=n)))
ops = st.lists(st.tuples(st.sampled_from(["setitem", "beyond", "inverse", "left", "right", "clear", "set", "set_wrong", "reload", "instance", "list"]), st.integers(0, 40), st.booleans(),
                         st.one_of(bits, st.text("01", min_size=24, max_size=24))), min_size=1, max_size=7)
PROP = Prop("C10", rule="histories of changes of single bits, rotations, inversions and replacements against a python list of bits; every flag octet; non-trivial: more than one octet of bits and several steps",
            facets=[
                Facet("history", st.tuples(st.sampled_from(["plain", "plain", "conformance"]), bits, ops), history, quick=1000, thorough=15000),
                Facet("conformance_int", st.one_of(st.integers(0, 0xffffff), st.integers(0, 23).map(lambda i: 1 << i)).map(lambda v: [v]), conformance_int, quick=500, thorough=5000),
                Facet("flags", None, flags, exhaustive=lambda: ([v] for v in range(256))),
                Facet("partial", st.tuples(st.lists(st.integers(0, 7), min_size=1, max_size=8), st.integers(0, 255)).map(list), partial, quick=300, thorough=3000),
                Facet("equal", bits.flatmap(lambda a: st.tuples(st.just(a), st.one_of(st.just(a), bits, st.just(a + "0"), st.text("01", max_size=3).map(lambda t: a + t), st.just(a[:-1])))).map(list), equal, quick=500, thorough=5000),
                Facet("ut_bits", st.tuples(bits, st.lists(st.tuples(st.sampled_from(["set", "inverse", "clear"]), st.integers(0, 40), st.booleans()), max_size=5),
                                           st.binary(max_size=3).map(bytes.hex)), ut_bits, quick=800, thorough=8000),
            ])
