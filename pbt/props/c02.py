from hypothesis import strategies as st
from .. import gens as g
from ..core import Prop, Facet
from .c01 import typed_class
from src.DLMS_SPODES.types import cdt, cst


def truncated(ctx, case):
    spec = case
    enc = g.ref_enc(spec)
    ctx.nt(len(enc) > 3)
    ctx.label("container", spec[0] in ("array", "structure"))
    n = len(enc)
    cuts = range(1, n) if n < 60 else sorted({1, 2, 3, 4, 5, n // 2, n - 3, n - 2, n - 1})
    for i in cuts:
        ctx.raises(lambda: cdt.get_instance_and_pdu_from_value(enc[:i])[0].encoding, F"{enc.hex()} cut to {i} octets")


def wrong_tag(ctx, case):
    t, other = case
    if t == other[0]:
        return
    enc = g.ref_enc(other)
    ctx.nt(len(enc) > 1)
    cls = getattr(cdt, g.CLASS[t])
    ctx.raises(lambda: cls(enc), F"{cls.__name__} from {enc.hex()}")


def wrong_tag_declared(ctx, case):
    """declared types: the tag of a member is replaced by another one"""
    sh, spec, path, new = case
    cls = typed_class(sh)
    node, s = spec, sh
    for i in path:
        if isinstance(s, str) or not node[1]:
            break
        i %= len(node[1])
        s = s[1] if s[0] == "array" else s[1][i]
        node = node[1][i]
    enc = bytearray(g.ref_enc(spec))
    # replace the member by a value of another type
    if g.TAGS[new[0]] == g.TAGS[node[0]]:
        return
    node[:] = new
    enc = g.ref_enc(spec)
    ctx.nt(spec is not node)
    ctx.raises(lambda: cls(enc), F"{sh} from {enc.hex()}")


def wrong_amount(ctx, case):
    sh, spec, k = case
    cls = typed_class(sh)
    if spec[0] == "structure":
        if k == 0:
            return
        n = len(spec[1]) + k
        if n < 0:
            return
        body = g.ref_contents(spec) + b"\x11\x01" * max(k, 0)
        enc = b"\x02" + g.ref_len(n) + body
        ctx.nt(len(spec[1]) > 0)
        ctx.raises(lambda: cls(enc), F"structure of {len(spec[1])} members from {enc.hex()}")
        ctx.raises(lambda: cls([it for it in cls(g.ref_enc(spec))][:-1] if k < 0 and spec[1] else [1] * n), "wrong number of members in a sequence") if all(
            it[0] in g.INTS for it in spec[1]) and spec[1] else None


OCT = {"OctetStringDateTime": 12, "OctetStringDate": 5, "OctetStringTime": 4, "LogicalName": 6}


def octet_based(ctx, case):
    name, tag, n, fill = case
    cls = getattr(cst, name)
    body = {"OctetStringDateTime": bytes.fromhex("07e40101ff00000000800000"), "OctetStringDate": bytes.fromhex("07e40101ff"),
            "OctetStringTime": bytes.fromhex("01020304"), "LogicalName": bytes(6)}[name]
    body = (body + bytes([fill]) * 32)[:n]
    enc = bytes((tag, n)) + body
    good = tag == 9 and n == OCT[name]
    ctx.nt(not good)
    if good:
        ctx.eq(cls(enc).encoding, enc, "good value")
        for i in range(len(enc)):
            ctx.raises(lambda: cls(enc[:i]), F"{name} from {enc[:i].hex()}")
    else:
        ctx.raises(lambda: cls(enc), F"{name} from {enc.hex()}")


FIXED = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "u8": 1, "u16": 2, "u32": 4, "u64": 8, "bool": 1, "bcd": 1, "enum": 1, "f32": 4, "f64": 8, "datetime": 12, "date": 5, "time": 4}


def contents_length(ctx, case):
    """contents given directly have the length of the type"""
    t, spec, n, use_set = case
    cls = getattr(cdt, g.CLASS[t])
    body = (g.ref_contents(spec) + bytes(20))[:n]
    ctx.nt(n != FIXED[t])
    if n == FIXED[t]:
        ctx.eq(cls(bytearray(body)).contents, body, "contents")
    else:
        ctx.raises(lambda: cls(bytearray(body)), F"{t} from {n} octets of contents")
        x = cls(g.ref_enc(spec))
        ctx.raises(lambda: x.set(bytearray(body)), F"{t} set to {n} octets of contents")
        ctx.eq(x.encoding, g.ref_enc(spec), "value after a rejected set")


def noise(ctx, case):
    """any octets: rejected, or accepted as a value that is a stable prefix of the input"""
    data = bytes.fromhex(case)
    try:
        inst, rest = cdt.get_instance_and_pdu_from_value(data)
        enc = inst.encoding
    except Exception:
        ctx.label("rejected")
        return
    ctx.label("accepted")
    ctx.nt(len(enc) > 1)
    ctx.check(data.endswith(rest), "the rest is not the end of the input")
    ctx.eq(enc[:1], data[:1], "tag")
    inst2, rest2 = cdt.get_instance_and_pdu_from_value(enc)
    ctx.eq(inst2.encoding, enc, "decode of re-encoding")
    ctx.eq(rest2, b"", "rest of re-encoding")


@st.composite
def noisy(draw):
    """valid encodings with a few octets changed, or tag-heavy noise"""
    if draw(st.booleans()):
        enc = bytearray(g.ref_enc(draw(g.any_value(2))))
        for _ in range(draw(st.integers(1, 3))):
            i = draw(st.integers(0, len(enc) - 1))
            enc[i] = draw(st.integers(0, 255))
        return bytes(enc).hex()
    return bytes(draw(st.lists(st.one_of(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 9, 10, 12, 13, 15, 16, 17, 18, 20, 21, 22, 23, 24, 25, 26, 27]), st.integers(0, 255)),
                               min_size=1, max_size=40))).hex()


def noise_minimal(ctx, case):
    # long-form lengths that are not minimal are the recorded finding of C01; keep the stability claim to what is left
    data = bytes.fromhex(case)
    if any(0x80 <= b <= 0x90 for b in data[:-1]):
        ctx.label("may_have_long_length")
        return
    noise(ctx, case)


shapes = st.one_of(st.lists(g.shape(1), min_size=1, max_size=4).map(lambda s: ["structure", s]), g.shape(1).map(lambda s: ["array", s]))
def tags(ctx, case):
    """the tag of no type is refused wherever it stands"""
    n, form = case
    tag = bytes((n,))
    if n in set(g.TAGS.values()):
        ctx.eq(bytes(cdt.get_common_data_type_from(tag).TAG), tag, "type of the tag")
        ctx.check(cdt.get_common_data_type_from(tag + b"\x01\x02") is cdt.get_common_data_type_from(tag), "octets behind the tag")
        return
    if n == 0x13:
        return   # compact array
    ctx.nt(True)
    if form == "plain":
        ctx.raises(lambda: cdt.get_common_data_type_from(tag), "type of an unknown tag", ValueError)
        ctx.raises(lambda: cdt.get_common_data_type_from(tag + bytes(20)), "type of an unknown tag", ValueError)
        ctx.raises(lambda: cdt.get_instance_and_pdu_from_value(tag + bytes(20)), "value of an unknown tag", ValueError)
    elif form == "array":
        ctx.raises(lambda: cdt.Array(b"\x01\x01" + tag + bytes(20)), "array of an unknown type", ValueError)
    else:
        head = b"\x02\x01" if form == "structure" else b"\x02\x02\x11\x00"
        ctx.raises(lambda: cdt.Structure(head + tag + bytes(20)), "structure with an unknown type", ValueError)


PROP = Prop(
    "C02",
    rule="every strict prefix of generated encodings, values under another tag, member types/counts that contradict the declaration, mutated and random octets; "
         "non-trivial: an encoding longer than 3 octets was cut / a nested member was replaced / noise that was accepted",
    facets=[
        Facet("truncated", st.one_of(g.any_simple(), g.containers(2)).filter(lambda s: s[0] != "null"), truncated, quick=1200, thorough=15000),
        Facet("wrong_tag", st.tuples(st.sampled_from(list(g.TAGS)), g.any_value(1)), wrong_tag, quick=1500, thorough=8000),
        Facet("wrong_tag_declared", shapes.flatmap(lambda sh: st.tuples(st.just(sh), g.value_of(sh), st.lists(st.integers(0, 5), min_size=1, max_size=2), g.any_value(1))),
              wrong_tag_declared, quick=1000, thorough=8000),
        Facet("wrong_amount", st.lists(g.shape(1), min_size=0, max_size=4).map(lambda s: ["structure", s]).flatmap(
            lambda sh: st.tuples(st.just(sh), g.value_of(sh), st.integers(-2, 3))), wrong_amount, quick=600),
        Facet("tags", None, tags, exhaustive=lambda: ([n, form] for n in range(256) for form in ("plain", "structure", "array", "second"))),
        Facet("octet_based", st.tuples(st.sampled_from(list(OCT)), st.one_of(st.just(9), st.integers(0, 255)), st.one_of(st.sampled_from(list(OCT.values())), st.integers(0, 20)),
                                       st.integers(0, 9)), octet_based, quick=800),
        Facet("contents_length", st.sampled_from(list(FIXED)).flatmap(lambda t: st.tuples(st.just(t), g.simple(t), st.one_of(st.integers(0, 14), st.just(FIXED[t])), st.booleans())),
              contents_length, quick=800),
        Facet("noise", noisy(), noise_minimal, quick=2500, thorough=60000),
    ],
    assumptions=["rejection = any exception; CompactArray is outside the domain"])
