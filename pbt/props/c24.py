"""HDLC sequence numbers"""
from hypothesis import strategies as st
from ..core import Prop, Facet
from .. import hdlcref as h
from .c20 import build
from src.DLMS_SPODES.hdlc.frame import Frame, Control, Address


def i_frame(s, r, pf):
    return s << 1 | r << 5 | pf << 4


def step(ctx, case):
    s, r, pf = case
    ctx.nt()
    c = Control(i_frame(s, r, pf))
    n = Control.next_send_sequence(c)
    ctx.eq(n.value, i_frame((s + 1) % 8, r, pf), "N(S) one further, the rest as it was")
    n = Control.next_receiver_sequence(c)
    ctx.eq(n.value, i_frame(s, (r + 1) % 8, 1), "N(R) one further with poll")
    ctx.check(isinstance(n, Control), "type of control")
    for k in range(4):
        v = r << 5 | pf << 4 | k << 2 | 1
        ctx.eq(Control.next_receiver_sequence(Control(v)).value & 0xf0, ((r + 1) % 8) << 5 | 0x10, "N(R) of a supervisory frame one further with poll")


def window(ctx, case):
    """a history of information frames sent and acknowledged"""
    s0, r0, moves = case
    c, s, r, pf = Control(i_frame(s0, r0, 1)), s0, r0, 1
    ctx.nt(len(moves) > 8)
    for m in moves:
        if m:
            c, s = Control.next_send_sequence(c), (s + 1) % 8
        else:
            c, r, pf = Control.next_receiver_sequence(c), (r + 1) % 8, 1
        ctx.eq(c.value, i_frame(s, r, pf), "sequence numbers count modulo 8")
        ctx.check(c.is_info(), "stays an information frame")


def follows(ctx, case):
    """which frame is the next one"""
    a, b = case
    fa, fb = (build(h.C(b"\x03", b"\x21", c, b"\x01", False, None)) for c in (a, b))
    if a & 1 == 0:
        sa, ra, pa = a >> 1 & 7, a >> 5, a >> 4 & 1
        nxt = i_frame((sa + 1) % 8, ra, pa)
        ctx.nt(b == nxt or b == i_frame((sa + 1) % 8, (ra + 1) % 8, 1))
        ctx.eq(fb.is_next_send(fa), b == nxt, "next segment")
        ctx.eq(fb.is_next(fa), b == i_frame((sa + 1) % 8, (ra + 1) % 8, 1), "next information frame with acknowledge")


def for_me(ctx, case):
    da, sa, da2, sa2 = (bytes.fromhex(x) for x in case)
    ctx.nt((da, sa) == (sa2, da2))
    f = build(h.C(da, sa, 0x10, b"", False, None))
    r = build(h.C(da2, sa2, 0x30, b"", False, None))
    ctx.eq(r.is_for_me(*f.get_header()), (da2, sa2) == (sa, da), "answer to my frame")
    ctx.check(build(h.C(sa, da, 0x30, b"", False, None)).is_for_me(Address(da), Address(sa)), "answer of the addressed station")


def near(t, which, bit):
    """the answer with one bit of an address changed"""
    a = [bytearray.fromhex(t[1]), bytearray.fromhex(t[0])]
    bit %= len(a[which]) * 8
    if bit % 8 == 0:
        bit += 1        # the end bit stays
    a[which][bit // 8] ^= 1 << bit % 8
    return [*t, a[0].hex(), a[1].hex()]


PROP = Prop("C24", rule="all information control octets, all pairs of control octets, histories of sent and acknowledged frames longer than the modulus; non-trivial: a following frame, wrap of the numbers",
            facets=[
                Facet("step", None, step, exhaustive=lambda: ([s, r, p] for s in range(8) for r in range(8) for p in (0, 1))),
                Facet("window", st.tuples(st.integers(0, 7), st.integers(0, 7), st.lists(st.integers(0, 1), max_size=30)), window, quick=300, thorough=3000),
                Facet("follows", st.integers(0, 255).flatmap(lambda a: st.tuples(st.just(a), st.one_of(st.integers(0, 255), st.just(a & 0xf0 | (a + 2) & 0xe), st.just(((a + 0x20) & 0xe0) | 0x10 | (a + 2) & 0xe)))), follows,
                      quick=800, thorough=8000),
                Facet("for_me", st.tuples(h.addr(), h.addr()).flatmap(lambda t: st.one_of(st.just([*t, t[1], t[0]]), st.tuples(h.addr(), h.addr()).map(lambda u: [*t, *u]), st.just([*t, *t]), st.tuples(st.integers(0, 1), st.integers(0, 31)).map(lambda u: near(t, *u)))), for_me, quick=300, thorough=3000),
            ])
