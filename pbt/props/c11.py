"""floating point types are IEEE 754"""
import math
import struct
from hypothesis import strategies as st
from ..core import Prop, Facet
from src.DLMS_SPODES.types import cdt

KIND = {"f32": (cdt.Float32, ">f", 23), "f64": (cdt.Float64, ">d", 24)}


def bits_eq(a, b):
    return struct.pack(">d", a) == struct.pack(">d", b)


def values(ctx, case):
    t, v, text = case
    cls, fmt, tag = KIND[t]
    try:
        raw = struct.pack(fmt, v)
    except OverflowError:
        raw = None
    ctx.nt(v not in (0.0, 1.0))
    ctx.label("subnormal", v != 0 and abs(v) < (2.0 ** -126 if t == "f32" else 2.0 ** -1022))
    forms = [v, repr(v), v.hex(), "%.25e" % v]
    if raw is None or math.isinf(v):
        ctx.label("overflow")
        x = cls(1.5)
        for arg in forms:
            ctx.raises(lambda: cls(arg), F"{cls.__name__}({arg!r})")
            ctx.raises(lambda: x.set(arg), F"set({arg!r})")
        ctx.eq(x.decode(), 1.5, "value after a rejected set")
        return
    want = struct.unpack(fmt, raw)[0]
    for arg in forms[:3] + [bytes((tag,)) + raw, bytearray(raw)]:
        x = cls(arg)
        ctx.eq(x.contents, raw, F"contents of {cls.__name__}({arg!r})")
        ctx.check(bits_eq(x.decode(), want), F"decode of {cls.__name__}({arg!r})")
    ctx.check(cls("%.25e" % v).contents == raw if t == "f64" else True, "decimal text")
    ctx.eq(cls(str(x)).contents, raw, F"own text {str(x)!r}")
    ctx.eq(x.encoding, bytes((tag,)) + raw, "encoding")
    if float(int(v)) == v and abs(v) < 1 << 60:
        ctx.eq(struct.pack(">d", cls(int(v)).decode()), struct.pack(">d", float(int(v))) if t == "f64" else struct.pack(">d", struct.unpack(">f", struct.pack(">f", float(int(v))))[0]), "from int")


def raw_octets(ctx, case):
    """any octets are a number (nan and infinity too) and stay the same"""
    t, hx = case
    cls, fmt, tag = KIND[t]
    raw = bytes.fromhex(hx)
    raw = raw[:struct.calcsize(fmt)]
    want = struct.unpack(fmt, raw)[0]
    ctx.nt(not math.isnan(want))
    x = cls(bytes((tag,)) + raw)
    ctx.eq(x.encoding, bytes((tag,)) + raw, "encoding")
    got = x.decode()
    ctx.check((math.isnan(got) and math.isnan(want)) or bits_eq(got, want), F"decode of {raw.hex()}: {got}, expected {want}")
    ctx.eq(x.copy().encoding, x.encoding, "copy")


def order(ctx, case):
    """rounding keeps the order and is the nearest of the type"""
    a, b = sorted(case)
    ctx.nt(a != b)
    x, y = cdt.Float32(a).decode(), cdt.Float32(b).decode()
    ctx.check(x <= y, F"Float32 of {a} and {b}")
    u = math.ulp(abs(a)) * (1 << 29) if abs(a) >= 2.0 ** -126 else 2.0 ** -149
    ctx.check(abs(x - a) <= u / 2 * 1.0000001, F"Float32({a}) is {x}")


fl = st.one_of(st.floats(), st.floats(width=32), st.integers(-10 ** 6, 10 ** 6).map(float), st.sampled_from([0.0, -0.0, 5e-324, 2.0 ** -149, 2.0 ** -126, 3.4028234663852886e38, 3.4028235677973366e38,
                                                                                                          1.7976931348623157e308, math.inf, -math.inf])).filter(lambda v: not math.isnan(v))


def encode_case(c):
    return [c[0], c[1], c[2]]


PROP = Prop("C11", rule="doubles and singles of every class (zero, subnormal, limits, overflow) as number, decimal and hexadecimal text, and all octet patterns, against struct; non-trivial: not 0 or 1 / not NaN",
            facets=[
                Facet("values", st.tuples(st.sampled_from(["f32", "f64"]), fl, st.just(0)), values, quick=2500, thorough=40000),
                Facet("raw_octets", st.tuples(st.sampled_from(["f32", "f64"]), st.binary(min_size=8, max_size=8).map(bytes.hex)), raw_octets, quick=1200, thorough=20000),
                Facet("order", st.tuples(*[st.floats(min_value=-3.4e38, max_value=3.4e38)] * 2), order, quick=800, thorough=8000),
            ])
