"""object identifiers of application context and authentication mechanism"""
from hypothesis import strategies as st
from .. import gens as g
from ..core import Prop, Facet
from src.DLMS_SPODES.types import cdt
from src.DLMS_SPODES.cosem_interface_classes.association_ln import ver1, ver0
from src.DLMS_SPODES.cosem_interface_classes.association_ln.authentication_mechanism_name import AuthenticationMechanismName

CLS = {"context": ver1.ContextNameType, "mechanism": ver1.MechanismNameType}


def base128(v):
    out = [v & 0x7f]
    v >>= 7
    while v:
        out.insert(0, 0x80 | (v & 0x7f))
        v >>= 7
    return bytes(out)


def oid(arcs):
    """X.690 8.19: two first arcs in one sub-identifier, then base 128"""
    return base128(arcs[0] * 40 + arcs[1]) + b"".join(map(base128, arcs[2:]))


def members(kind, arcs):
    spec = [["u8", arcs[0]], ["u8", arcs[1]], ["u16", arcs[2]], ["u8", arcs[3]], ["u8", arcs[4]], ["u8", arcs[5]], ["u8", arcs[6]]]
    return g.ref_enc(["structure", spec])


@st.composite
def case(draw):
    kind = draw(st.sampled_from(sorted(CLS)))
    first = draw(st.integers(0, 2))
    arcs = [first, draw(st.one_of(st.integers(0, 39), st.integers(40, 255)) if first == 2 else st.integers(0, 39)), draw(g.ints("u16")), draw(g.ints("u8")), draw(g.ints("u8")), draw(g.ints("u8")),
            draw(g.ints("u8")) if kind == "context" else draw(st.integers(0, 7))]
    return [kind, arcs, draw(st.binary(max_size=3).map(bytes.hex))]


def round_trip(ctx, c):
    kind, arcs, tail = c
    cls = CLS[kind]
    ctx.nt(any(a > 127 for a in arcs[2:]))
    o = oid(arcs)
    enc = b"\x09" + g.ref_len(len(o)) + o
    x = cls(enc)
    ctx.eq([int(v) for v in x], arcs, "arcs of the object identifier")
    ctx.eq(x.encoding, enc, "encoding as object identifier")
    ctx.eq(cls(enc + bytes.fromhex(tail)).encoding, enc, "octets behind are not taken")
    y = cls(members(kind, arcs))
    ctx.eq([int(v) for v in y], arcs, "arcs of the structure")
    ctx.eq(y.encoding, members(kind, arcs), "encoding as structure")
    back = cdt.get_common_data_type_from(x.encoding[:1])
    ctx.check(back is not None, "tag of the value is known")


def damaged(ctx, c):
    kind, arcs, tail = c
    cls = CLS[kind]
    ctx.nt()
    o = oid(arcs)
    enc = b"\x09" + g.ref_len(len(o)) + o
    for n in range(1, len(enc)):
        ctx.raises(lambda: cls(enc[:n]), F"object identifier cut to {n}")
    for n in range(1, len(o)):
        short = b"\x09" + g.ref_len(n) + o[:n]
        ctx.raises(lambda: cls(short), F"object identifier of too few arcs {short.hex()}")
    more = b"\x09" + g.ref_len(len(o) + 1) + o + b"\x01"
    ctx.raises(lambda: cls(more), "object identifier of too many arcs")
    open_ = b"\x09" + g.ref_len(len(o) + 1) + o + bytes((0x80 | arcs[3] & 0x7f,))
    ctx.raises(lambda: cls(open_), "object identifier with an unfinished arc at the end")
    open_ = b"\x09" + g.ref_len(len(o)) + o[:-1] + bytes((o[-1] | 0x80,))
    ctx.raises(lambda: cls(open_), "object identifier with an unfinished last arc")
    wide = list(arcs)
    for i in (3, 4, 5, 6):
        wide = list(arcs)
        wide[i] = 256
        w = oid(wide)
        ctx.raises(lambda: cls(b"\x09" + g.ref_len(len(w)) + w), F"arc {i} does not fit its element")
    wide = list(arcs)
    wide[2] = 65536
    w = oid(wide)
    ctx.raises(lambda: cls(b"\x09" + g.ref_len(len(w)) + w), "arc 2 does not fit its element")


def octets(ctx, c):
    """any octets: refused, or an identifier whose own encoding is the same octets (an arc in more octets than it needs stays the same arc)"""
    kind, arcs, changes = c
    o = bytearray(oid(arcs))
    for at, v, how in changes:
        at %= len(o)
        if how == 0:
            o[at] = v
        elif how == 1:
            o.insert(at, v)
        else:
            o[at] ^= 0x80
    enc = b"\x09" + g.ref_len(len(o)) + bytes(o)
    try:
        x = CLS[kind](enc)
    except Exception:
        ctx.label("refused")
        return
    ctx.nt(bytes(o) != oid(arcs))
    short, empty = bytearray(), True        # without empty groups in front of an arc
    for b in o:
        if b != 0x80 or not empty:
            short.append(b)
            empty = b < 0x80
    ctx.eq(x.encoding, b"\x09" + g.ref_len(len(short)) + bytes(short), f"own encoding of {enc.hex()}")
    ctx.eq(CLS[kind](x.encoding).encoding, x.encoding, "own encoding taken again")
    m = members(kind, [int(v) for v in x])
    ctx.eq([int(v) for v in CLS[kind](m)], [int(v) for v in x], "the same arcs as structure")


def aarq(ctx, c):
    crypto, algorithm = c
    ctx.nt(crypto > 2 or algorithm > 1)
    ctx.eq(AuthenticationMechanismName.get_AARQ_mechanism_name(crypto, algorithm), oid([2, 16, 756, 5, 8, crypto, algorithm]), "mechanism name of AARQ")


def setting(ctx, c):
    kind, arcs, arcs2 = c
    cls = CLS[kind]
    ctx.nt(arcs != arcs2)
    if kind == "mechanism":
        arcs, arcs2 = arcs[:6] + [arcs[6] % 8], arcs2[:6] + [arcs2[6] % 8]
    e = [b"\x09" + g.ref_len(len(oid(a))) + oid(a) for a in (arcs, arcs2)]
    x = cls(e[0])
    cp = x.copy()
    x.set(e[1])
    ctx.eq(x.encoding, e[1], "after set")
    ctx.eq([int(v) for v in x], arcs2, "arcs after set")
    ctx.eq(cp.encoding, e[0], "copy is not changed")
    ctx.raises(lambda: x.set(e[0][:-1]), "set of cut identifier")
    ctx.eq(x.encoding, e[1], "rejected set")
    gc = x.get_copy(e[0])
    ctx.eq((gc.encoding, x.encoding), (e[0], e[1]), "get_copy")


arcs7 = st.tuples(st.integers(0, 2), st.integers(0, 39), g.ints("u16"), g.ints("u8"), g.ints("u8"), g.ints("u8"), g.ints("u8")).map(list)
PROP = Prop("C14", rule="object identifiers with random arcs against a base-128 reference, their prefixes, arcs too wide; non-trivial: an arc above 127 or a damaged identifier",
            facets=[Facet("round_trip", case(), round_trip, quick=800, thorough=10000),
                    Facet("damaged", case(), damaged, quick=400, thorough=4000),
                    Facet("octets", st.tuples(st.sampled_from(sorted(CLS)), case().map(lambda c: c[1]), st.lists(st.tuples(st.sampled_from([0, 0, 0, 1, 2, 6]), st.integers(0, 255), st.integers(0, 2)),
                                                                                               min_size=1, max_size=2)).map(list), octets, quick=800, thorough=10000),
                    Facet("aarq", None, aarq, exhaustive=lambda: ([a, b] for a in range(256) for b in range(8))),
                    Facet("setting", st.tuples(st.sampled_from(sorted(CLS)), arcs7, arcs7), setting, quick=500, thorough=5000)])
