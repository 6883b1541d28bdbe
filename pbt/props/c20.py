"""HDLC frames: building and parsing"""
from hypothesis import strategies as st
from ..core import Prop, Facet
from .. import hdlcref as h
from src.DLMS_SPODES.hdlc.frame import Address, Frame, Control, CRC, Format


def members(ctx, f, c, what):
    ctx.eq((bytes(f.info), int(f.control), f.is_segmentation), (c.info, c.control, c.seg), what)
    ctx.eq([(a.upper, a.lower) for a in f.get_header()], [h.parts(c.da), h.parts(c.sa)], F"{what}: addresses")
    ctx.eq(len(f), len(c.octets) - 2, F"{what}: length")


def build(c):
    return Frame(DA=Address(content=c.da), SA=Address(content=c.sa), control=Control(c.control), info=c.info, is_segmentation=c.seg)


def round_trip(ctx, case):
    c = h.make(case[0])
    tail = bytes.fromhex(case[1])
    ctx.nt(len(c.info) > 0)
    ctx.label("segmentation", c.seg)
    ctx.label("long", len(c.info) > 255)
    if len(c.octets) - 2 > 2047:
        ctx.label("too long")
        ctx.raises(lambda: build(c), "frame longer than its length field")
        return
    f = build(c)
    ctx.eq(f.content, c.octets, "octets of the frame")
    members(ctx, f, c, "built frame")
    buf = bytearray(c.octets + tail)
    p = Frame(buf)
    members(ctx, p, c, "parsed frame")
    ctx.eq(p.content, c.octets, "octets of the parsed frame")
    ctx.eq(bytes(buf), b"\x7e" + tail, "octets from the end flag on are left")
    buf = bytearray(c.octets + tail)
    q = Frame.try_from(buf)
    ctx.check(q is not None, "try_from finds the frame")
    members(ctx, q, c, "found frame")
    ctx.eq(bytes(buf), b"\x7e" + tail, "octets from the end flag on are left by try_from")
    for k in {0, 1, 2, 3, 8, len(c.octets) // 2, len(c.octets) - 1}:
        buf = bytearray(c.octets[:k])
        ctx.check(Frame.try_from(buf) is None, F"frame out of {k} of {len(c.octets)} octets")
        ctx.eq(bytes(buf), c.octets[:k], "incomplete frame waits for more octets")


def control(ctx, case):
    v, = case
    ctx.nt()
    c = Control(v)
    ctx.eq((c.content, Control.from_frame(bytearray((v, 1))).value), (bytes((v,)), v), "octet")
    ctx.eq(c.is_info(), v & 1 == 0, "information")
    ctx.eq(c.is_supervisory(), v & 3 == 1, "supervisory")
    ctx.eq(c.is_unnumbered(), v & 3 == 3, "unnumbered")
    ctx.eq([c.is_receive_ready(), c.is_receive_not_ready(), c.is_reject(), c.is_selective_reject()], [v & 15 == k for k in (1, 5, 9, 13)], "supervisory functions")
    ctx.eq(c.is_information(), v & 1 == 0 or v & 0xef == 3, "carries information")
    ctx.eq(c.is_poll, v & 3 != 3 and bool(v & 0x10), "poll/final")
    for name in ("SNRM", "DISC", "UA", "DM", "FRMR", "UI"):
        want = {"SNRM": 0x83, "DISC": 0x43, "UA": 0x63, "DM": 0x0f, "FRMR": 0x87, "UI": 0x03}[name]
        ctx.eq(Control[name].value, want, name)
    for s in range(8):
        for r in range(8):
            ctx.eq(Control[F"S{s}_R{r}"].value, s << 1 | r << 5, "name of sequence numbers")
            ctx.eq(Control[F"S{s}_R{r}_PF"].value, s << 1 | r << 5 | 0x10, "name of sequence numbers")
        for i, n in enumerate(("RR", "RNR", "REJ", "SREJ")):
            ctx.eq((Control[F"{n}_R{s}"].value, Control[F"{n}_R{s}_PF"].value), (s << 5 | i << 2 | 1, s << 5 | i << 2 | 0x11), "name of supervisory")


def crc(ctx, case):
    b = bytes.fromhex(case[0])
    ctx.nt(len(b) > 1)
    v = h.crc(b)
    ctx.eq(CRC(message=b).content, v, "frame check sequence")
    buf = bytearray(v + b"\x01\x02")
    ctx.eq(CRC.from_frame(buf, b).content, v, "accepted")
    ctx.eq(bytes(buf), b"\x01\x02", "rest")
    for i in range(16):
        w = bytes(o ^ (m & 0xff) for o, m in zip(v, ((1 << i) & 0xff, (1 << i) >> 8)))
        ctx.raises(lambda: CRC.from_frame(bytearray(w), b), "wrong frame check sequence")


def formats(ctx, case):
    v, seg = case
    ctx.nt()
    if v > 2047:
        ctx.raises(lambda: Format(is_segmentation=seg, length=v), "length beyond 11 bits")
        return
    f = Format(is_segmentation=seg, length=v)
    want = (0xa000 | seg << 11 | v).to_bytes(2, "big")
    ctx.eq((f.content, f.length, f.is_segmentation, f.type), (want, v, seg, 10), "format field")
    g = Format(want)
    ctx.eq((g.length, g.is_segmentation), (v, seg), "format of octets")
    for t in range(16):
        if t != 10:
            ctx.raises(lambda: Format(bytes(((want[0] & 15) | t << 4, want[1]))), "frame of another type")


PROP = Prop("C20", rule="frames with every address form, control octet, segmentation and information 0..2100 octets against an independent frame writer; all control octets; check sequences against a bitwise CRC; "
            "non-trivial: information present",
            facets=[
                Facet("round_trip", st.tuples(h.frame_spec(), st.binary(max_size=4).map(bytes.hex)), round_trip, quick=1500, thorough=20000),
                Facet("control", None, control, exhaustive=lambda: ([v] for v in range(256))),
                Facet("crc", st.binary(max_size=60).map(lambda b: [b.hex()]), crc, quick=600, thorough=6000),
                Facet("formats", None, formats, exhaustive=lambda: ([v, s] for v in list(range(0, 2048, 7)) + [2046, 2047, 2048, 2049, 4095, 4096, 8191, 8192, 70000] for s in (False, True))),
            ])
