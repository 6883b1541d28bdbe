"""HDLC addresses"""
from hypothesis import strategies as st
from ..core import Prop, Facet
from src.DLMS_SPODES.hdlc.frame import Address, AddressLength, Frame, Control

part = st.one_of(st.integers(0, 0x3fff), st.sampled_from([0, 1, 0x10, 0x3f, 0x7e, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x3f80, 0x3ffe, 0x3fff]))


def ref(upper, lower, n):
    if n == 1:
        return bytes((upper << 1 | 1,))
    if n == 2:
        return bytes((upper << 1, lower << 1 | 1))
    return bytes((upper >> 7 << 1, (upper & 0x7f) << 1, lower >> 7 << 1, (lower & 0x7f) << 1 | 1))


def auto(upper, lower):
    """shortest form that holds both parts"""
    if not lower:
        return (1, None) if upper < 0x80 else (4, 0)
    return (2, lower) if max(upper, lower) < 0x80 else (4, lower)


def encode(ctx, c):
    upper, lower, length = c
    need, low = auto(upper, lower)
    ctx.nt(need == 4 or length not in (-1, need))
    def make():
        return Address(upper_address=upper, lower_address=lower, length=AddressLength(length))
    if length != -1 and length < need:
        ctx.label("too short")
        ctx.raises(make, "length does not hold the address")
        return
    n = need if length == -1 else length
    if n > 1 and lower is None and low is None:
        ctx.raises(make, "length of two parts without the lower part")
        return
    low = None if n == 1 else (lower if lower is not None else low)
    a = make()
    ctx.eq(a.content, ref(upper, low, n), "octets")
    ctx.eq((a.upper, a.lower, len(a)), (upper, low, n), "parts")
    b = Address(content=ref(upper, low, n))
    ctx.check(a == b and hash(a) == hash(b), "equal address from octets")
    ctx.eq((b.upper, b.lower), (upper, low), "parts of octets")
    for n2 in {1, 2, 4} - {n}:
        if n2 == 1 and upper < 0x80 and not low or n2 == 2 and max(upper, low or 0) < 0x80 or n2 == 4:
            o = Address(content=ref(upper, low or 0, n2))
            ctx.check(a != o and not a == o and o not in [a], F"address of other octets: {a!r} and {o!r}")
            f = Frame(DA=a, SA=Address(content=b"\x21"), control=Control.UA_F, info=b"")
            ctx.check(f.is_for_me(Address(content=b"\x21"), a) and not f.is_for_me(Address(content=b"\x21"), o), "frame for an address of other octets")
    ctx.eq(str(a), str(upper) if low is None else F"{upper}/{low}", "text")


def parse(ctx, c):
    upper, lower, n, tail = c
    if n < 4:
        upper, lower = upper & 0x7f, lower & 0x7f
    tail = bytes.fromhex(tail)
    con = ref(upper, lower, n)
    ctx.nt(n > 1)
    buf = bytearray(con + tail)
    a = Address.from_frame(buf)
    ctx.eq((a.upper, a.lower, a.content), (upper, None if n == 1 else lower, con), "address in a frame")
    ctx.eq(bytes(buf), tail, "octets behind the address")
    for k in range(n):
        ctx.raises(lambda: Address.from_frame(bytearray(con[:k])), F"address cut to {k}")
    ctx.raises(lambda: Address.from_frame(bytearray(o & 0xfe for o in con + b"\x02\x02\x02\x02")), "address without end bit")


def wrong(ctx, c):
    upper, lower, length = c
    ctx.nt()
    ctx.raises(lambda: Address(upper_address=upper, lower_address=lower, length=AddressLength(length)), F"address {upper}/{lower} out of range")


def lengths(ctx, c):
    n, = c
    ctx.nt()
    if n in (-1, 1, 2, 4):
        ctx.eq(int(AddressLength(n)), n, "length")
        t = "AUTO" if n == -1 else str(n)
        ctx.eq(str(AddressLength(n)), t, "text")
        ctx.eq(int(AddressLength.from_str(t)), n, "length of text")
    else:
        ctx.raises(lambda: AddressLength(n), "impossible length")
        ctx.raises(lambda: AddressLength.from_str(str(n)), "impossible length")
    if n >= 0 and n not in (1, 2, 4):
        ctx.raises(lambda: Address(content=bytes(n)), "content of impossible length")


def pair(ctx, c):
    a, b = (Address(upper_address=u, lower_address=l) for u, l in c)
    x, y = (auto(u, l)[0:2] + (u,) for u, l in c)
    ctx.nt(x != y)
    ctx.eq(a == b, x == y, "equality")
    f = Frame(DA=a, SA=b, control=Control.SNRM_P, info=b"")
    back = Frame(DA=b, SA=a, control=Control.UA_F, info=b"")
    ctx.eq(back.is_for_me(*f.get_header()), True, "answer to the frame")
    ctx.eq(back.is_for_me(b, a), x == y, "frame of the same direction")
    ctx.eq(f.get_header(), (a, b), "header")


out = st.one_of(st.integers(0x4000, 1 << 20), st.integers(-300, -1))
PROP = Prop("C19", rule="both parts 0..16383 with every requested length against the octet form of the standard; cut and unterminated addresses; parts out of range; non-trivial: four octets or a requested length",
            facets=[
                Facet("encode", st.tuples(part, st.one_of(st.none(), part), st.sampled_from([-1, -1, 1, 2, 4])), encode, quick=1500, thorough=20000),
                Facet("parse", st.tuples(part, part, st.sampled_from([1, 2, 4]), st.binary(max_size=5).map(bytes.hex)), parse, quick=1200, thorough=10000),
                Facet("wrong", st.one_of(st.tuples(out, st.one_of(st.none(), part), st.sampled_from([-1, 4])), st.tuples(part, out, st.sampled_from([-1, 4]))), wrong, quick=800, thorough=8000),
                Facet("lengths", None, lengths, exhaustive=lambda: ([n] for n in range(-3, 10))),
                Facet("pair", st.tuples(st.tuples(part, st.one_of(st.none(), part)), st.tuples(part, st.one_of(st.none(), part))), pair, quick=500, thorough=5000),
            ])
