from hypothesis import strategies as st
import math
import struct
from .. import gens as g
from ..core import Prop, Facet
from src.DLMS_SPODES.types import cdt


def expected_python(spec):
    """plain python value of a spec, or NotImplemented where the type has no python value"""
    t, v = spec
    if t in g.INTS or t in ("enum", "f64"):
        return v
    if t == "f32":
        return v
    if t == "null":
        return None
    if t == "bool":
        return v
    if t == "bits":
        return [int(i) for i in v]
    if t == "octets":
        return bytes.fromhex(v)
    if t in ("array", "structure"):
        items = [expected_python(it) for it in v]
        if any(it is NotImplemented for it in items):
            return NotImplemented
        return items if t == "array" else tuple(items)
    return NotImplemented   # text and dates have their own properties, Utf8String/Bcd have no decode


def same(a, b):
    if isinstance(b, float):
        return isinstance(a, float) and struct.pack(">d", a) == struct.pack(">d", b)
    if isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and a == b


def consume(ctx, case):
    spec, tail = case[0], bytes.fromhex(case[1])
    enc = g.ref_enc(spec)
    ctx.nt(bool(tail) and len(enc) > 2)
    ctx.label("container", spec[0] in ("array", "structure"))
    ctx.label("long_length", len(enc) > 130)
    ctx.label("depth>=2", g.depth_of(spec) >= 2)
    inst, rest = cdt.get_instance_and_pdu_from_value(enc + tail)
    ctx.eq(rest, tail, "octets left after the value")
    ctx.eq(inst.encoding, enc, "re-encoding")
    ctx.eq(type(inst).__name__, g.CLASS[spec[0]], "type chosen by tag")
    exp = expected_python(spec)
    if exp is not NotImplemented:
        got = inst.decode()
        ctx.check(same(got, exp), lambda: F"decode() gives {got!r}, expected {exp!r}")
    # a bytearray input and a copy behave the same
    cp = inst.copy()
    ctx.eq(cp.encoding, enc, "encoding of a copy")
    ctx.check(cp == inst and inst == enc, "equality with copy/encoding")
    again = type(inst)(inst) if spec[0] != "structure" else type(inst)(inst.encoding)
    ctx.eq(again.encoding, enc, "built from an instance of the same type")


def build(ctx, case):
    """python value -> instance -> encoding"""
    t, v = case
    cls = getattr(cdt, g.CLASS[t])
    enc = g.ref_enc(case)
    ctx.nt(v not in (0, "", None, False))
    ctx.label(t)
    if t in g.INTS or t in ("enum", "bcd", "bool", "f32", "f64"):
        inst = cls(v)
    elif t == "null":
        inst = cls(None)
    elif t == "bits":
        inst = cls(v)
        ctx.eq(cls([int(i) for i in v]).encoding, enc, "from list of bits")
        if len(v) % 8 == 0:
            ctx.eq(cls(bytearray(g.ref_contents(case))).encoding, enc, "from contents")
    elif t in ("octets", "visible"):
        inst = cls(bytearray(bytes.fromhex(v)))
        if t == "octets":
            ctx.eq(cls(v).encoding, enc, "from hex string")
            ctx.eq(bytes(inst), bytes.fromhex(v), "bytes()")
    elif t == "utf8":
        inst = cls(v)
        ctx.eq(str(inst), v, "text of Utf8String")
    else:
        inst = cls(bytearray(bytes.fromhex(v)))
    ctx.eq(inst.encoding, enc, F"encoding of {cls.__name__}({v!r})")
    if t not in ("bits",):
        ctx.eq(cls(bytearray(g.ref_contents(case))).encoding if t != "null" else enc, enc, "from contents")
    ctx.eq(cls(enc).encoding, enc, "from own encoding")
    ctx.eq(inst.contents, g.ref_contents(case), "contents")


_typed_cache = {}


def typed_class(shape):
    """declared Structure/Array class for a shape"""
    key = repr(shape)
    if key in _typed_cache:
        return _typed_cache[key]
    if isinstance(shape, str):
        ret = getattr(cdt, g.CLASS[shape])
    elif shape[0] == "array":
        ret = type("A", (cdt.Array,), {"TYPE": typed_class(shape[1])})
    else:
        ret = type("S", (cdt.Structure,), {"__annotations__": {F"e{i}": typed_class(s) for i, s in enumerate(shape[1])}})
    _typed_cache[key] = ret
    return ret


def typed(ctx, case):
    sh, spec, tail = case
    tail = bytes.fromhex(tail)
    cls = typed_class(sh)
    enc = g.ref_enc(spec)
    ctx.nt(g.count(spec) > 2)
    ctx.label("depth>=2", g.depth_of(spec) >= 2)
    inst, rest = cdt.get_instance_and_pdu(cls, enc + tail)
    ctx.eq(rest, tail, "octets left")
    ctx.eq(inst.encoding, enc, "re-encoding of declared type")
    ctx.eq(len(inst), len(spec[1]), "number of members")
    for i, sub in enumerate(spec[1]):
        ctx.eq(inst[i].encoding, g.ref_enc(sub), F"member {i}")
        if spec[0] == "structure":
            ctx.eq(getattr(inst, F"e{i}").encoding, g.ref_enc(sub), F"member {i} by name")
    # built from its own members
    ctx.eq(cls([inst[i] for i in range(len(inst))]).encoding, enc, "built from the sequence of members") if all(
        it[0] not in ("array", "structure") for it in spec[1]) else None
    ctx.eq(inst.copy().encoding, enc, "copy")
    if spec[0] == "structure":
        ctx.eq(cls(inst).encoding, enc, "built from instance")
        ctx.eq(cls(bytearray(inst.contents)).encoding, enc, "built from contents")


def long_strings(ctx, case):
    t, n, fill, tail, wrap = case
    body = (bytes.fromhex(fill) * n)[:n]
    tail = bytes.fromhex(tail)
    if t == "bits":
        spec = ["bits", "".join("01"[(body[i % len(body)] >> (i % 8)) & 1] for i in range(n))] if n else ["bits", ""]
    else:
        spec = [t, body.hex()]
    if wrap:
        spec = ["structure", [spec, ["u8", 7]]]
    ctx.nt(n > 127)
    ctx.label(F"len_octets_{len(g.ref_len(n))}")
    enc = g.ref_enc(spec)
    inst, rest = cdt.get_instance_and_pdu_from_value(enc + tail)
    ctx.eq(rest, tail, "rest")
    ctx.check(inst.encoding == enc, F"re-encoding of {t} of length {n}")


def many_members(ctx, case):
    n, vals, wrap = case
    spec = ["array", [["u16", vals[i % len(vals)]] for i in range(n)]]
    if wrap:
        spec = ["structure", [spec, ["i8", -1]]]
    ctx.nt(n > 127)
    enc = g.ref_enc(spec)
    inst, rest = cdt.get_instance_and_pdu_from_value(enc + b"\x01")
    ctx.eq(rest, b"\x01", "rest")
    ctx.eq(inst.encoding, enc, "re-encoding")
    arr = inst[0] if wrap else inst
    ctx.eq(arr.decode(), [v for _, v in (spec[1][0][1] if wrap else spec[1])], "decode")


def non_minimal(ctx, case):
    """length octets in a longer form than needed (allowed by X.690 8.1.3.5)"""
    t, body, k, wrap = case
    body = bytes.fromhex(body)
    n = len(body) * 8 if t == "bits" else len(body)
    head = bytes((0x80 | k,)) + n.to_bytes(k, "big")
    enc = bytes((g.TAGS[t],)) + head + body
    if wrap:
        if ctx.known("C01-longform-in-container"):
            return
        enc = b"\x02\x02" + enc + b"\x11\x07"
    ctx.nt(bool(body))
    inst = cdt.get_common_data_type_from(enc)(enc)
    if wrap:
        ctx.eq(inst[0].contents, body, "contents of member 0")
        ctx.eq(inst[1].decode(), 7, "member behind a string with long form of length")
    else:
        ctx.eq(inst.contents, body, "contents")


tails = st.one_of(st.just(""), *[st.binary(min_size=1, max_size=6).map(bytes.hex)]*3)
_long_n = st.sampled_from([126, 127, 128, 255, 256, 257, 1000, 0x7fff, 0xfffe, 0xffff, 0x10000, 0x10001])
PROP = Prop(
    "C01",
    rule="random values of every common data type and nested arrays/structures, encoded by a reference encoder, with random octets behind; "
         "non-trivial: more than a bare tag+octet and something behind the value / container of several members / length above 127",
    facets=[
        Facet("consume", st.tuples(st.one_of(g.any_simple(), g.containers(3), g.containers(3)), tails), consume, quick=2500, thorough=40000),
        Facet("build", g.any_simple(), build, quick=2000, thorough=20000),
        Facet("typed", st.one_of(st.lists(g.shape(2), max_size=6).map(lambda s: ["structure", s]), g.shape(2).map(lambda s: ["array", s]))
              .flatmap(lambda sh: st.tuples(st.just(sh), g.value_of(sh), tails)), typed, quick=1500, thorough=15000),
        Facet("long_strings", st.tuples(st.sampled_from(["octets", "visible", "bits"]), st.one_of(_long_n, st.integers(0, 600)),
                                        st.binary(min_size=1, max_size=5).map(bytes.hex), tails, st.booleans()).filter(lambda c: c[0] != "bits" or c[1] < 2000),
              long_strings, quick=250, thorough=3000),
        Facet("many_members", st.tuples(st.one_of(st.sampled_from([126, 127, 128, 129, 255, 256, 257, 300]), st.integers(0, 400)),
                                        st.lists(st.integers(0, 65535), min_size=1, max_size=7), st.booleans()), many_members, quick=150, thorough=1500),
        Facet("non_minimal", st.tuples(st.sampled_from(["octets", "visible"]), st.binary(max_size=20).map(bytes.hex), st.integers(1, 4), st.booleans()), non_minimal, quick=300),
    ],
    assumptions=["CompactArray (declared untested by its author), don't-care and the reserved tags are outside the domain",
                 "padding bits of a bit-string are zero; dates are valid"])
