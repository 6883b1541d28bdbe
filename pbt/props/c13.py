"""string types: octets, text in cp1251, text in UTF-8"""
from hypothesis import strategies as st
from .. import gens as g
from ..core import Prop, Facet
from src.DLMS_SPODES.types import cdt
from src.DLMS_SPODES.types import ut


def enc(tag, b):
    return bytes((tag,)) + g.ref_len(len(b)) + b


def octets(ctx, c):
    h, style, extra = c
    b = bytes.fromhex(h)
    ctx.nt(len(b) > 1)
    text = {"plain": h, "upper": h.upper(), "spaced": b.hex(" ")}[style]
    x = cdt.OctetString(text)
    ctx.eq(x.contents, b, "octets of the hexadecimal text")
    ctx.eq(x.encoding, enc(9, b), "encoding")
    ctx.eq(str(x), b.hex(" "), "text")
    ctx.eq(bytes.fromhex(str(x)), b, "text back")
    ctx.eq((len(x), bytes(x), x.decode()), (len(b), b, b), "len, bytes, decode")
    ctx.eq([x[i] for i in range(len(b))], list(b), "items")
    for y in (cdt.OctetString(bytearray(b)), cdt.OctetString(enc(9, b)), cdt.OctetString(enc(9, b) + bytes.fromhex(extra)), cdt.OctetString(x)):
        ctx.eq(y.encoding, enc(9, b), "same value from octets")
        ctx.check(y == x, "equality")
    t = x.to_str("cp1251")
    ctx.eq(len(t), len(b), "to_str: one character for one octet")
    for ch, o in zip(t, b):
        if 0x21 <= o <= 0x7e:
            ctx.eq(ch, chr(o), "to_str printable")
        elif o < 0x20 or o == 0x98:
            ctx.eq(ch, "?", "to_str control or absent in cp1251")
        elif o >= 0xa1:
            ctx.eq(ch, bytes((o,)).decode("cp1251"), "to_str cp1251")


def octets_int(ctx, c):
    v, = c
    ctx.nt(v > 255)
    if v >= 1 << 256:
        ctx.raises(lambda: cdt.OctetString(v), "int longer than 32 octets")
        return
    b = v.to_bytes(max(1, (v.bit_length() + 7) // 8), "big")
    ctx.eq(cdt.OctetString(v).contents, b, "octets of the int")
    if v:
        ctx.raises(lambda: cdt.OctetString(-v), "negative int")


def bad_hex(ctx, c):
    text, = c
    try:
        b = bytes.fromhex(text)
    except ValueError:
        ctx.nt()
        ctx.raises(lambda: cdt.OctetString(text), F"no hexadecimal text {text!r}")
    else:
        ctx.eq(cdt.OctetString(text).contents, b, F"hex {text!r}")
        x = cdt.OctetString(text)
        t2, pos = x.validate_from(text, len(text))
        ctx.eq(bytes.fromhex(t2), b, "validate_from keeps the octets")


CP = "".join(bytes((i,)).decode("cp1251", "ignore") for i in range(256))
PRINT = [ch for ch in CP if ord(ch) >= 32]


def visible(ctx, c):
    text, = c
    ctx.nt(any(ord(ch) > 127 for ch in text))
    try:
        b = text.encode("cp1251")
    except UnicodeEncodeError:
        ctx.label("absent in cp1251")
        ctx.raises(lambda: cdt.VisibleString(text), F"character absent in cp1251 {text!r}")
        return
    x = cdt.VisibleString(text)
    ctx.eq((x.contents, x.encoding, len(x)), (b, enc(10, b), len(b)), "octets of the text")
    want = "".join(ch if o >= 32 else "?" for ch, o in zip(text, b))
    ctx.eq((str(x), x.decode(), x.to_str()), (want, want, want), "text of the octets")
    y = cdt.VisibleString(enc(10, b))
    ctx.check(y == x and str(y) == want, "from encoding")
    if all(o >= 32 for o in b):
        ctx.eq(cdt.VisibleString(str(x)).encoding, x.encoding, "text back")
        ctx.label("round trip")


def visible_octets(ctx, c):
    b = bytes.fromhex(c[0])
    ctx.nt(any(o >= 0x80 for o in b))
    x = cdt.VisibleString(bytearray(b))
    ctx.eq(x.encoding, enc(10, b), "encoding")
    ctx.eq(str(x), "".join("?" if o < 32 or o == 0x98 else bytes((o,)).decode("cp1251") for o in b), "text of any octets")


def utf8(ctx, c):
    text, tail = c
    b = text.encode("utf-8")
    ctx.nt(len(b) != len(text))
    x = cdt.Utf8String(text)
    ctx.eq((x.contents, x.encoding, len(x), str(x)), (b, enc(12, b), len(b), text), "utf-8 octets")
    y = cdt.Utf8String(enc(12, b) + bytes.fromhex(tail))
    ctx.eq((str(y), y.encoding), (text, enc(12, b)), "back")
    z = ut.UTF8String(text)
    ctx.eq((z.contents, str(z)), (g.ref_len(len(b)) + b, text), "ut.UTF8String")
    ctx.eq(str(ut.UTF8String.from_contents(g.ref_len(len(b)) + b + bytes.fromhex(tail))), text, "ut.UTF8String back")
    if text.isascii():
        v = ut.VisibleString(text)
        ctx.eq((v.contents, str(v)), (g.ref_len(len(b)) + b, text), "ut.VisibleString")
        ctx.eq(str(ut.VisibleString.from_contents(g.ref_len(len(b)) + b + bytes.fromhex(tail))), text, "ut.VisibleString back")
    else:
        ctx.raises(lambda: ut.VisibleString(text), "visible string of the service layer is 7 bit")
        ctx.raises(lambda: ut.VisibleString.from_contents(g.ref_len(len(b)) + b), "octets above 127 in a 7 bit string")


_sized = {}


def sized(ctx, c):
    """declared size: exactly this number of octets"""
    n, m, fill = c
    if n not in _sized:
        _sized[n] = type(F"Sized{n}", (cdt.OctetString,), {"DEFAULT": bytes(n)}, size=n)
    cls = _sized[n]
    b = (bytes.fromhex(fill) * (m + 1))[:m] if fill else bytes(m)
    m = len(b)
    ctx.nt(m != n)
    for arg in (bytearray(b), b.hex(" "), enc(9, b)):
        if m == n:
            ctx.eq(cls(arg).encoding, enc(9, b), "sized value")
        else:
            ctx.raises(lambda: cls(arg), F"{m} octets where {n} are declared")
    x = cls()
    ctx.eq(x.encoding, enc(9, bytes(n)), "default")
    if m != n:
        ctx.raises(lambda: x.set(bytearray(b)), "set of wrong size")
        ctx.raises(lambda: x.set(enc(9, b)), "set of wrong size")
        ctx.eq(x.encoding, enc(9, bytes(n)), "unchanged")
    else:
        x.set(bytearray(b))
        ctx.eq(x.encoding, enc(9, b), "after set")


PROP = Prop("C13", rule="octets, hexadecimal texts, ints up to 260 bit, texts over all of cp1251 and unicode, declared sizes; non-trivial: more than one octet / characters above 127 / a size other than declared",
            facets=[
                Facet("octets", st.tuples(g.blobs().map(bytes.hex), st.sampled_from(["plain", "upper", "spaced"]), st.binary(max_size=3).map(bytes.hex)), octets, quick=1500, thorough=20000),
                Facet("octets_int", st.one_of(st.integers(0, 1 << 260), st.integers(0, 260).flatmap(lambda n: st.sampled_from([(1 << n), (1 << n) - 1]))).map(lambda v: [v]), octets_int, quick=800, thorough=8000),
                Facet("bad_hex", st.one_of(st.text("0123456789abcdefABCDEF gGxX-", max_size=12), st.text(max_size=6)).map(lambda s: [s]), bad_hex, quick=1000, thorough=10000),
                Facet("visible", st.one_of(st.text(st.sampled_from(PRINT), max_size=30), st.text(st.sampled_from(CP), max_size=30), st.text(max_size=8)).map(lambda s: [s]), visible, quick=1500, thorough=20000),
                Facet("visible_octets", st.one_of(st.binary(max_size=30), st.just(bytes(range(256)))).map(lambda b: [b.hex()]), visible_octets, quick=800, thorough=8000),
                Facet("utf8", st.tuples(st.one_of(st.text(st.characters(codec="utf-8"), max_size=20), st.text(st.characters(codec="utf-8"), min_size=1, max_size=3).map(lambda s: s * 60)),
                                        st.binary(max_size=3).map(bytes.hex)), utf8, quick=1000, thorough=10000),
                Facet("sized", st.tuples(st.integers(1, 20), st.integers(0, 22), st.binary(max_size=4).map(bytes.hex)), sized, quick=800, thorough=8000),
            ], assumptions=["to_str of 0x20 and 0x7f..0xa0 is not judged"])
