from hypothesis import strategies as st
from .. import gens as g
from ..core import Prop, Facet
from src.DLMS_SPODES.types import cdt, ut
from src.DLMS_SPODES.types import cosem_pdu as pdu

BOUNDS = [0, 1, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x100, 0x101, 0x7fff, 0x8000, 0xffff, 0x10000, 0x10001, 0xffffff, 0x1000000, 0x7fffffff, 0xffffffff, 0x100000000,
          0x100000001] + [256 ** k + d for k in (5, 6, 7, 8) for d in (-1, 0, 1)]
lengths = st.one_of(st.sampled_from(BOUNDS), st.integers(0, 400), st.integers(0, 70000), st.integers(0, 1 << 33), st.integers(0, (1 << 64) + 2))


def encode(ctx, case):
    n, tail = case[0], bytes.fromhex(case[1])
    want = g.ref_len(n)
    ctx.nt(n > 0x7f)
    ctx.label(F"octets_{len(want)}")
    for name, mod in (("common_data_types", cdt), ("useful_types", ut), ("cosem_pdu", pdu)):
        enc = mod.encode_length(n)
        ctx.eq(enc, want, F"{name}: length octets of {n}")
    for name, mod in (("common_data_types", cdt), ("useful_types", ut)):
        got = mod.get_length_and_pdu(want + tail)
        ctx.eq((got[0], bytes(got[1])), (n, tail), F"{name}: length back from {want.hex()}")
    ctx.eq(pdu.decide_len(n), len(want), "octets to allocate for a length")


def buffer(ctx, case):
    n, start, spare = case
    want = g.ref_len(n)
    ctx.nt(n > 0x7f and start > 0)
    buf = pdu.Buffer.allocate(start + len(want) + spare)
    buf.set_pos(start)
    ctx.eq(buf.put_len(n), len(want), "octets written")
    ctx.eq(buf.get_pos(), start + len(want), "position behind the written length")
    ctx.eq(bytes(buf), bytes(start) + want + bytes(spare), "octets in the buffer")
    buf.set_pos(start)
    ctx.eq(buf.get_length(), n, "length read back")
    ctx.eq(buf.get_pos(), start + len(want), "position behind the read length")
    if spare == 0:
        small = pdu.Buffer.allocate(start + len(want) - 1)
        small.set_pos(start)
        ctx.raises(lambda: small.put_len(n), "length does not fit")


def longform(ctx, case):
    """any number of length octets up to the declared amount is decoded; an incomplete one is rejected"""
    n, k, tail = case
    tail = bytes.fromhex(tail)
    n &= 256 ** k - 1
    enc = bytes((0x80 | k,)) + n.to_bytes(k, "big")
    ctx.nt(k > 1)
    for name, mod in (("common_data_types", cdt), ("useful_types", ut)):
        got = mod.get_length_and_pdu(enc + tail)
        ctx.eq((got[0], bytes(got[1])), (n, tail), F"{name}: {enc.hex()}")
        for i in range(len(enc)):
            ctx.raises(lambda: mod.get_length_and_pdu(enc[:i]), F"{name}: incomplete length {enc[:i].hex()}")
    buf = pdu.Buffer(memoryview(enc + tail))
    ctx.eq(buf.get_length(), n, "buffer")
    for i in range(len(enc)):
        ctx.raises(lambda: pdu.Buffer(memoryview(enc[:i])).get_length(), F"buffer: incomplete length {enc[:i].hex()}")


def order(ctx, case):
    """the encoding is injective and its size is monotone"""
    a, b = sorted(case)
    ctx.nt(a != b)
    if a != b:
        ctx.check(cdt.encode_length(a) != cdt.encode_length(b), "different lengths with the same octets")
    ctx.check(len(cdt.encode_length(a)) <= len(cdt.encode_length(b)), "a longer length takes less octets")


tails = st.binary(max_size=5).map(bytes.hex)
PROP = Prop("C03", rule="lengths around every power of 256 and uniformly up to 2^64, compared with a reference encoder and decoded back; non-trivial: long form",
            facets=[
                Facet("encode", st.tuples(lengths, tails), encode, quick=3000, thorough=60000),
                Facet("encode_small", None, encode, exhaustive=lambda: ([n, "aa"] for n in range(0, 1200))),
                Facet("buffer", st.tuples(lengths, st.integers(0, 20), st.integers(0, 3)), buffer, quick=2500, thorough=30000),
                Facet("longform", st.tuples(lengths, st.integers(1, 9), tails), longform, quick=2000, thorough=20000),
                Facet("order", st.tuples(lengths, lengths), order, quick=1500),
            ])
