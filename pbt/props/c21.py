"""HDLC: a damaged frame is never taken for a good one"""
from hypothesis import strategies as st
from ..core import Prop, Facet
from .. import hdlcref as h
from .c20 import members
from src.DLMS_SPODES.hdlc.frame import Frame, CRC

pos = st.integers(0, 1 << 16)
mutation = st.one_of(
    st.tuples(st.just("flip"), st.lists(pos, min_size=1, max_size=4)),
    st.tuples(st.just("burst"), pos, st.integers(1, 0xffff)),
    st.tuples(st.just("set"), pos, st.integers(0, 255)),
    st.tuples(st.just("drop"), pos),
    st.tuples(st.just("insert"), pos, st.integers(0, 255)),
    st.tuples(st.just("swap"), pos, pos),
    st.tuples(st.just("length"), st.integers(0, 2047)),
    st.tuples(st.just("nohcs"),),
    st.tuples(st.just("hcs"), st.integers(1, 0xffff)),
    st.tuples(st.just("fcs"), st.integers(1, 0xffff)),
    st.tuples(st.just("type"), st.integers(0, 15)),
    st.tuples(st.just("even"), st.integers(0, 1)),
    st.tuples(st.just("behind"), st.one_of(st.binary(max_size=4), st.binary(max_size=40)).map(bytes.hex), st.integers(0, 3), st.integers(0, 4)),
).map(list)


RAW = ("flip", "burst", "set", "drop", "insert", "swap")


def mutate(c, m):
    b = bytearray(c.octets)
    n = len(b)
    match m[0]:
        case "flip":
            for p in m[1]:
                b[p // 8 % n] ^= 1 << p % 8
        case "burst":
            i = m[1] % (n - 2)
            for k in range(3):
                b[i + k] ^= (m[2] << 4 >> 8 * (2 - k)) & 0xff
        case "set":
            b[m[1] % n] = m[2]
        case "drop":
            del b[m[1] % n]
        case "insert":
            b.insert(m[1] % (n + 1), m[2])
        case "swap":
            i, j = m[1] % n, m[2] % n
            b[i], b[j] = b[j], b[i]
        case "length":      # everything else consistent with the wrong length
            b[1:3] = (int.from_bytes(b[1:3], "big") & 0xf800 | m[1]).to_bytes(2, "big")
            k = 3 + len(c.da) + len(c.sa) + 1
            if c.info:
                b[k:k + 2] = h.crc(bytes(b[1:k]))
            b[-3:-1] = h.crc(bytes(b[1:-3]))
        case "nohcs":       # header without its own check sequence, the frame check right
            k = 3 + len(c.da) + len(c.sa) + 1
            if c.info:
                b[k] ^= 0x55
                b[-3:-1] = h.crc(bytes(b[1:-3]))
        case "hcs":
            k = 3 + len(c.da) + len(c.sa) + 1
            if c.info:
                b[k:k + 2] = bytes(x ^ y for x, y in zip(b[k:k + 2], m[1].to_bytes(2, "big")))
                b[-3:-1] = h.crc(bytes(b[1:-3]))
        case "fcs":
            b[-3:-1] = bytes(x ^ y for x, y in zip(b[-3:-1], m[1].to_bytes(2, "big")))
        case "type":
            b[1] = b[1] & 15 | m[1] << 4
            k = 3 + len(c.da) + len(c.sa) + 1
            if c.info:
                b[k:k + 2] = h.crc(bytes(b[1:k]))
            b[-3:-1] = h.crc(bytes(b[1:-3]))
        case "even":        # address without end bit, check sequences right
            k = 3 + len(c.da) + len(c.sa) + 1
            i = 3 + len(c.da) - 1 if m[1] else k - 2
            b[i] &= 0xfe
            if c.info:
                b[k:k + 2] = h.crc(bytes(b[1:k]))
            b[-3:-1] = h.crc(bytes(b[1:-3]))
        case "behind":      # other octets behind the header, check sequences over one part of the frame only, length right
            k = 3 + len(c.da) + len(c.sa) + 1
            junk = bytes.fromhex(m[1])
            n = k + 1 + (m[2] != 0) * 2 + len(junk)
            b[1:3] = (int.from_bytes(b[1:3], "big") & 0xf800 | n).to_bytes(2, "big")
            head = bytes(b[1:k])
            hcs = (b"", h.crc(head), h.crc(junk), h.crc(head + junk))[m[2]]
            fcs = h.crc((head, head + hcs, head + junk, head + hcs + junk, junk)[m[3]])
            b = b"\x7e" + head + hcs + junk + fcs + b"\x7e"
    return bytes(b)


def judge(ctx, b, tail, what):
    """what the code does with octets b + tail has to be what the reference does"""
    data = b + tail
    ref = h.read(data) if data[:1] == b"\x7e" else None
    if data[:1] == b"\x7e":
        buf = bytearray(data)
        try:
            f = Frame(buf)
        except Exception:
            f = None
        ctx.eq(f is not None, isinstance(ref, h.C), F"{what}: frame accepted")
        if f is not None:
            members(ctx, f, ref, what)
            ctx.eq(f.content, ref.octets, F"{what}: octets of accepted frame")
    buf = bytearray(data)
    f = Frame.try_from(buf)
    i = data.find(b"\x7e")
    ref = h.read(data[i:]) if i >= 0 else ...
    ctx.eq(f is not None, isinstance(ref, h.C), F"{what}: frame found")
    if f is not None:
        members(ctx, f, ref, what)
        ctx.eq(bytes(buf), data[i + len(ref.octets) - 1:], F"{what}: rest")
    elif ref is ...:
        ctx.eq(bytes(buf), data[i:] if i >= 0 else b"", F"{what}: incomplete octets are kept")
    else:
        ctx.eq(bytes(buf), data[i + 1:], F"{what}: search goes on behind the flag of the damaged frame")
    return ref


def damaged(ctx, case):
    spec, muts, tail = case
    c = h.make(spec)
    b = c.octets
    for m in muts:
        if m[0] in RAW or b == c.octets:      # changes of one field with fitting check sequences need the intact frame
            b = mutate(c._replace(octets=b), m)
    ctx.nt(b != c.octets)
    ref = judge(ctx, b, bytes.fromhex(tail), "damaged frame")
    ctx.label("still a frame", isinstance(ref, h.C))
    ctx.label("incomplete", ref is ...)
    ctx.label("rejected", ref is None)


def behind(ctx, case):
    """a few octets behind the header, check sequences of one part of the frame only"""
    da, sa, control, junk, hcs, fcs = case
    c = h.make([da, sa, control, "", False])
    b = mutate(c, ["behind", junk, hcs, fcs])
    ctx.nt(bool(junk))
    for tail in (b"", b"\x01\x02\x03"):
        ref = judge(ctx, b, tail, "octets behind the header")
        ctx.label("frame", isinstance(ref, h.C))


def single_bits(ctx, case):
    """every single bit, every pair of neighbour bits of one frame"""
    spec, = case
    c = h.make(spec)
    n = len(c.octets)
    ctx.nt(len(c.info) > 0)
    for p in range(8, (n - 1) * 8):
        for w in (1, 2):
            b = bytearray(c.octets)
            for q in range(p, min(p + w, (n - 1) * 8)):
                b[q // 8] ^= 1 << q % 8
            ref = h.read(bytes(b))
            buf = bytearray(b)
            try:
                f = Frame(buf)
            except Exception:
                f = None
            ctx.eq(f is not None, isinstance(ref, h.C), F"bits from {p}, {w} of them, damaged")
            if f is not None:
                ctx.eq(f.content, ref.octets, "octets of accepted frame")


def wrong_crc(ctx, case):
    b, p, tail = bytes.fromhex(case[0]), case[1], bytes.fromhex(case[2])
    good = h.crc(b)
    ctx.nt(len(b) > 2)
    d = bytearray(b)
    d[p // 8 % len(d)] ^= 1 << p % 8
    buf = bytearray(good + tail)
    ctx.raises(lambda: CRC.from_frame(buf, bytes(d)), "message with a flipped bit")
    ctx.raises(lambda: CRC.from_frame(bytearray(good[:1]), b), "check sequence of one octet")
    ctx.raises(lambda: CRC.from_frame(bytearray(), b), "no check sequence")
    ctx.raises(lambda: CRC.from_frame(bytearray(good[::-1]), b) if good[::-1] != good else 1 / 0, "octets of check sequence swapped")


SMALL = h.frame_spec(60)
PROP = Prop("C21", rule="good frames with bits flipped, octets changed, dropped, inserted, swapped, or one field made wrong while all check sequences fit, judged by an independent frame reader: accepted exactly when "
            "the reader accepts, with the same members; non-trivial: the octets differ from the good frame",
            facets=[
                Facet("damaged", st.tuples(SMALL, st.lists(mutation, min_size=1, max_size=2), st.binary(max_size=12).map(bytes.hex)), damaged, quick=4000, thorough=40000),
                Facet("behind", None, behind, exhaustive=lambda: ([da, "21", k, junk, hcs, fcs] for da in ("03", "0203", "0002fe03") for k in (0x10, 0x93) for junk in ("", "00", "7f", "7e", "0102", "010203", "01020304")
                                                                  for hcs in range(4) for fcs in range(5))),
                Facet("single_bits", st.tuples(h.frame_spec(24)), single_bits, quick=60, thorough=800),
                Facet("wrong_crc", st.tuples(st.binary(min_size=1, max_size=40).map(bytes.hex), pos, st.binary(max_size=3).map(bytes.hex)), wrong_crc, quick=500, thorough=5000),
            ])
