"""HDLC: frames out of a stream of octets, information out of segments"""
from collections import deque
from hypothesis import strategies as st
from ..core import Prop, Facet
from .. import hdlcref as h
from .c20 import members, build
from src.DLMS_SPODES.hdlc.frame import Frame

SMALL = h.frame_spec(40)
# octets between frames: may not look like the first octets of a frame behind a flag, there is no telling then (the reader has to wait)
noise = st.lists(st.integers(0, 255).filter(lambda o: o >> 4 != 10), max_size=8).map(lambda v: bytes(v).hex())
item = st.integers(0, 9).flatmap(lambda k: st.tuples(st.just("frame"), SMALL) if k < 6 else st.tuples(st.just("noise"), noise) if k < 8 else st.tuples(st.just("bad"), SMALL, st.integers(0, 1 << 16)))


def feed(octets, cuts):
    """as a client reads from its medium: octets arrive in pieces, after each the buffer is searched for frames"""
    buf, found, i = bytearray(), [], 0
    for c in [*cuts, len(octets)]:
        buf += octets[i:i + c]
        i += c
        while True:
            n = len(buf)
            f = Frame.try_from(buf)
            if f is not None:
                found.append(f)
            elif len(buf) == n or len(buf) < 9:
                break
            assert len(buf) < n, "no progress"
        if i >= len(octets):
            break
    return found, bytes(buf)


def stream(ctx, case):
    items, shared, cuts = case
    data, want, bad = b"", [], 0
    for it in items:
        if it[0] == "noise":
            data += bytes.fromhex(it[1])
            continue
        c = h.make(it[1])
        o = c.octets
        if it[0] == "bad":      # damaged behind its format field, flags in place: it takes its own octets and no more
            p = 3 * 8 + it[2] % ((len(o) - 4) * 8)
            o = bytearray(o)
            o[p // 8] ^= 1 << p % 8
            o = bytes(o)
            if 0x7e in o[1:-1] or isinstance(h.read(o), h.C):
                continue        # a flag inside makes it another stream
            bad += 1
        else:
            want.append(c)
        data += o[1:] if shared and data[-1:] == b"\x7e" else o
    ctx.nt(len(want) >= 2)
    ctx.label("damaged between", bad > 0)
    ctx.label("shared flags", shared)
    found, rest = feed(data, cuts)
    ctx.eq([f.content.hex() for f in found], [c.octets.hex() for c in want], "frames of the stream")
    for f, c in zip(found, want):
        members(ctx, f, c, "frame of the stream")
    once, rest1 = feed(data, [])
    ctx.eq(([f.content for f in once], rest1), ([f.content for f in found], rest), "the same frames however the octets arrive")


@st.composite
def segments(draw):
    """information in segments, with other frames among them"""
    parts = draw(st.lists(st.binary(min_size=draw(st.sampled_from([1, 1, 0])), max_size=12).map(bytes.hex), min_size=1, max_size=10))
    return [parts, draw(st.integers(0, 255)) & 0xfe, draw(st.lists(st.tuples(st.integers(0, 10), st.sampled_from(["rr", "u", "ui", "repeat", "skip", "segment"])), max_size=3)),
            draw(st.booleans()), draw(st.booleans()), draw(st.booleans())]


def join(ctx, case):
    parts, control, extra, cut, after, octets = case
    da, sa = b"\x03", b"\x21"
    frames, c = [], control
    infos = [bytes.fromhex(p) for p in parts]
    last = len(infos) - 1
    for i, p in enumerate(infos):
        frames.append(h.C(da, sa, c, p, i != last or cut, None))
        c = c & 0xf0 | (c + 2) & 0xe
    # at each place other frames may come in: no information frames, or information frames out of sequence
    out = []
    for i, f in enumerate(frames):
        for k, what in extra:
            if k == i and (i > 0 or what in ("rr", "u", "ui")):
                prev = frames[i - 1].control if i else 0
                m = {"rr": (0x11, b"", False), "u": (0x63, b"", False), "ui": (0x13, b"notification", k % 2 == 1), "repeat": (prev, b"dup", True), "skip": (prev & 0xf0 | (prev + 4) & 0xe, b"skip", False),
                     "segment": ((prev & 0xf0 | (prev + 2) & 0xe) ^ 0x20, b"other acknowledge", True)}[what]
                out.append(h.C(da, sa, m[0], m[1], m[2], None))
        out.append(f)
    ctx.nt(len(parts) > 1)
    ctx.label("other frames among", len(out) > len(frames))
    ctx.label("no end", cut)
    tail = [h.C(da, sa, c & 0xf0 | (c + 2) & 0xe, b"next", False, None)] if after and not cut else []

    def frame(x):
        f = build(x)
        return Frame(bytearray(f.content)) if octets else f
    q = deque(frame(x) for x in out + tail)
    if cut:
        ctx.raises(lambda: Frame.join_info(q), "segments without the last one")
        return
    ctx.eq(bytes(Frame.join_info(q)), b"".join(infos), "information of the segments in order")
    ctx.eq([f.info for f in q], [b"next"] * len(tail), "frames behind the last segment are left")


def join_none(ctx, case):
    ctx.nt(bool(case[0]))
    q = deque(build(h.C(b"\x03", b"\x21", c | 1, b"", False, None)) for c in case[0])
    ctx.raises(lambda: Frame.join_info(q), "no information frame")


PROP = Prop("C22", rule="streams of frames, noise and damaged frames, with shared or double flags, arriving in pieces cut anywhere; segmented information with other frames among the segments; non-trivial: two or more frames, "
            "more than one segment",
            assumptions=["octets between frames do not imitate the format field of a frame behind a flag: a reader cannot tell such octets from a frame still arriving"],
            facets=[
                Facet("stream", st.tuples(st.lists(item, min_size=1, max_size=7), st.booleans(), st.lists(st.integers(1, 40), max_size=12)), stream, quick=1000, thorough=15000),
                Facet("join", segments(), join, quick=800, thorough=8000),
                Facet("join_none", st.tuples(st.lists(st.integers(0, 255), max_size=4)), join_none, quick=60, thorough=300),
            ])
