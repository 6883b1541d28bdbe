"""Generators of JSON-able value specs and the reference encoding (written from the A-XDR/BER rules, not from the code)."""
from __future__ import annotations
import struct
from hypothesis import strategies as st

TAGS = {"null": 0, "array": 1, "structure": 2, "bool": 3, "bits": 4, "i32": 5, "u32": 6, "octets": 9, "visible": 10, "utf8": 12,
        "bcd": 13, "i8": 15, "i16": 16, "u8": 17, "u16": 18, "i64": 20, "u64": 21, "enum": 22, "f32": 23, "f64": 24,
        "datetime": 25, "date": 26, "time": 27}
INTS = {"i8": (1, True), "i16": (2, True), "i32": (4, True), "i64": (8, True), "u8": (1, False), "u16": (2, False), "u32": (4, False), "u64": (8, False)}
CLASS = {"null": "NullData", "array": "Array", "structure": "Structure", "bool": "Boolean", "bits": "BitString", "i32": "DoubleLong", "u32": "DoubleLongUnsigned",
         "octets": "OctetString", "visible": "VisibleString", "utf8": "Utf8String", "bcd": "Bcd", "i8": "Integer", "i16": "Long", "u8": "Unsigned",
         "u16": "LongUnsigned", "i64": "Long64", "u64": "Long64Unsigned", "enum": "Enum", "f32": "Float32", "f64": "Float64", "datetime": "DateTime",
         "date": "Date", "time": "Time"}


def ref_len(n: int) -> bytes:
    """shortest form the package documents: 1 octet below 0x80, then 0x81/0x82/0x84 prefixed"""
    if n < 0x80:
        return bytes((n,))
    for k in (1, 2, 4):
        if n < 256 ** k:
            return bytes((0x80 | k,)) + n.to_bytes(k, "big")
    k = (n.bit_length() + 7) // 8
    return bytes((0x80 | k,)) + n.to_bytes(k, "big")


def int_range(t: str) -> tuple[int, int]:
    n, signed = INTS[t]
    return (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)


def pack_bits(bits: str) -> bytes:
    padded = bits + "0" * (-len(bits) % 8)
    return bytes(int(padded[i:i + 8], 2) for i in range(0, len(padded), 8))


def ref_contents(spec) -> bytes:
    t, v = spec
    if t in INTS:
        n, s = INTS[t]
        return v.to_bytes(n, "big", signed=s)
    if t == "null":
        return b""
    if t == "bool":
        return b"\x01" if v else b"\x00"
    if t == "bits":
        return pack_bits(v)
    if t in ("octets", "visible", "datetime", "date", "time"):
        return bytes.fromhex(v)
    if t == "utf8":
        return v.encode("utf-8")
    if t in ("bcd", "enum"):
        return bytes((v,))
    if t == "f32":
        return struct.pack(">f", v)
    if t == "f64":
        return struct.pack(">d", v)
    if t in ("array", "structure"):
        return b"".join(ref_enc(it) for it in v)
    raise KeyError(t)


def ref_enc(spec) -> bytes:
    t, v = spec
    c = ref_contents(spec)
    if t in ("octets", "visible", "utf8"):
        head = ref_len(len(c))
    elif t in ("bits", "array", "structure"):
        head = ref_len(len(v))
    else:
        head = b""
    return bytes((TAGS[t],)) + head + c


_int_special = [0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 53, (1 << 53) + 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]


def ints(t: str, lo=None, hi=None):
    a, b = int_range(t)
    lo, hi = a if lo is None else lo, b if hi is None else hi
    sp = sorted({v for x in _int_special for v in (x, -x, -x - 1) if lo <= v <= hi} | {lo, hi})
    return st.one_of(st.sampled_from(sp), st.integers(lo, hi))


def _dim(y, m):
    return 31 if m in (1, 3, 5, 7, 8, 10, 12) else 30 if m != 2 else 29 if (y % 4 == 0 and (y % 100 or y % 400 == 0)) else 28


def weekday_of(y, m, d):
    import datetime
    return datetime.date(y, m, d).weekday() + 1


@st.composite
def date_octets(draw, special=True, years=(1, 9999)):
    """valid Date contents: consistent weekday or unspecified; month/day codes"""
    y = draw(st.one_of(st.just(0xffff), st.integers(*years), st.integers(1990, 2060)))
    m = draw(st.one_of(st.just(0xff), *([st.sampled_from([0xfd, 0xfe])] if special else []), st.integers(1, 12), st.integers(1, 12)))
    yy = 4 if y == 0xffff else y
    mm = 1 if m >= 0xfd else m
    d = draw(st.one_of(st.just(0xff), *([st.sampled_from([0xfd, 0xfe])] if special else []), st.integers(1, _dim(yy, mm)), st.integers(1, _dim(yy, mm))))
    if y != 0xffff and m < 0xfd and d < 0xfd:
        w = draw(st.sampled_from([0xff, weekday_of(y, m, d)]))
    else:
        w = draw(st.sampled_from([0xff, 1, 2, 3, 4, 5, 6, 7]))
    return y.to_bytes(2, "big") + bytes((m, d, w))


@st.composite
def time_octets(draw, unspecified=True):
    u = [st.just(0xff)] if unspecified else []
    return bytes((draw(st.one_of(*u, st.integers(0, 23))), draw(st.one_of(*u, st.integers(0, 59))),
                  draw(st.one_of(*u, st.integers(0, 59))), draw(st.one_of(*u, st.integers(0, 99)))))


@st.composite
def datetime_octets(draw, special=True, unspecified=True, years=(1, 9999)):
    d = draw(date_octets(special=special, years=years))
    t = draw(time_octets(unspecified=unspecified))
    dev = draw(st.one_of(st.just(-0x8000), st.integers(-720, 720), st.sampled_from([-720, -1, 0, 1, 720, 180, -180])))
    return d + t + dev.to_bytes(2, "big", signed=True) + bytes((draw(st.integers(0, 255)),))


def blobs(max_size=40):
    return st.one_of(st.binary(max_size=max_size), st.integers(0, 4).flatmap(lambda i: st.sampled_from([126, 127, 128, 129, 255, 256, 257]).flatmap(
        lambda n: st.binary(min_size=1, max_size=4).map(lambda s, n=n: (s * n)[:n])) if i == 0 else st.binary(max_size=max_size)))


def f32s():
    return st.one_of(st.floats(width=32, allow_nan=False, allow_infinity=False), st.integers(-1000, 1000).map(float))


def simple(t: str):
    if t in INTS:
        v = ints(t)
    elif t == "null":
        v = st.none()
    elif t == "bool":
        v = st.booleans()
    elif t == "bits":
        v = st.one_of(st.text("01", max_size=40), st.sampled_from([127, 128, 129, 300]).flatmap(lambda n: st.text("01", min_size=n, max_size=n)))
    elif t in ("octets", "visible"):
        v = blobs().map(bytes.hex)
    elif t == "utf8":
        v = st.text(st.characters(codec="utf-8"), max_size=20)
    elif t in ("bcd", "enum"):
        v = st.integers(0, 255)
    elif t == "f32":
        v = f32s()
    elif t == "f64":
        v = st.floats(allow_nan=False, allow_infinity=False)
    elif t == "datetime":
        v = datetime_octets().map(bytes.hex)
    elif t == "date":
        v = date_octets().map(bytes.hex)
    elif t == "time":
        v = time_octets().map(bytes.hex)
    return v.map(lambda x: [t, x])


SIMPLE = [t for t in TAGS if t not in ("array", "structure")]
_simple_strategies = {t: simple(t) for t in SIMPLE}


def any_simple():
    return st.sampled_from(SIMPLE).flatmap(_simple_strategies.__getitem__)


@st.composite
def shape(draw, depth):
    """a type: simple name, ["array", elem shape] or ["structure", [shapes]]"""
    k = draw(st.integers(0, 9)) if depth else 0
    if k < 6:
        return draw(st.sampled_from(SIMPLE))
    if k < 8:
        return ["array", draw(shape(depth - 1))]
    return ["structure", draw(st.lists(shape(depth - 1), max_size=4))]


@st.composite
def value_of(draw, sh):
    if isinstance(sh, str):
        return draw(_simple_strategies[sh])
    if sh[0] == "array":
        return ["array", draw(st.lists(value_of(sh[1]), max_size=4))]
    return ["structure", [draw(value_of(s)) for s in sh[1]]]


@st.composite
def any_value(draw, depth=3):
    return draw(value_of(draw(shape(depth))))


def containers(depth=3):
    return st.one_of(shape(depth - 1).map(lambda s: ["array", s]), st.lists(shape(depth - 1), max_size=5).map(lambda s: ["structure", s])).flatmap(value_of)


def count(spec) -> int:
    t, v = spec
    return 1 + sum(map(count, v)) if t in ("array", "structure") else 1


def depth_of(spec) -> int:
    t, v = spec
    return 1 + max(map(depth_of, v), default=0) if t in ("array", "structure") else 0
