"""HDLC type 3 frames written and read independently of the package (ISO/IEC 13239)"""
from collections import namedtuple
from hypothesis import strategies as st

C = namedtuple("C", "da sa control info seg octets")


def crc(b: bytes) -> bytes:
    v = 0xffff
    for o in b:
        v ^= o
        for _ in range(8):
            v = v >> 1 ^ (0x8408 if v & 1 else 0)
    return (v ^ 0xffff).to_bytes(2, "little")


def address(upper, lower, n) -> bytes:
    if n == 1:
        return bytes(((upper & 0x7f) << 1 | 1,))
    if n == 2:
        return bytes(((upper & 0x7f) << 1, (lower & 0x7f) << 1 | 1))
    return bytes((upper >> 7 << 1, (upper & 0x7f) << 1, lower >> 7 << 1, (lower & 0x7f) << 1 | 1))


def parts(con):
    if len(con) == 1:
        return con[0] >> 1, None
    if len(con) == 2:
        return con[0] >> 1, con[1] >> 1
    return (con[0] >> 1) << 7 | con[1] >> 1, (con[2] >> 1) << 7 | con[3] >> 1


def write(da, sa, control, info, seg) -> bytes:
    n = 2 + len(da) + len(sa) + 1 + (2 + len(info) if info else 0) + 2
    head = (0xa000 | seg << 11 | n).to_bytes(2, "big") if n <= 2047 else b"\x00\x00"
    head += da + sa + bytes((control,))
    body = head + (crc(head) + info if info else b"")
    return b"\x7e" + body + crc(body) + b"\x7e"


def read(b: bytes):
    """members of a frame that starts at b[0], or None if it is damaged, or ... if octets are missing"""
    if len(b) < 9:
        return ...
    if b[0] != 0x7e or b[1] >> 4 != 10:
        return None
    n = int.from_bytes(b[1:3], "big") & 0x7ff
    if n + 2 > len(b):
        return ...
    if b[n + 1] != 0x7e:
        return None
    body, pos, adr = b[1:n + 1], 2, []
    for _ in range(2):
        for k in (1, 2, 4):
            if pos + k <= len(body) and body[pos + k - 1] & 1:
                adr.append(body[pos:pos + k])
                pos += k
                break
        else:
            return None
    if pos >= len(body):
        return None
    control, pos = body[pos], pos + 1
    rest = body[pos:]
    if len(rest) < 2 or crc(body[:-2]) != body[-2:]:
        return None
    if len(rest) == 2:
        info = b""
    elif len(rest) < 4 or crc(body[:pos]) != rest[:2]:
        return None
    else:
        info = rest[2:-2]
    return C(adr[0], adr[1], control, info, bool(b[1] & 8), b[:n + 2])


@st.composite
def addr(draw):
    n = draw(st.sampled_from([1, 1, 2, 4]))
    return address(draw(st.integers(0, 0x3fff)), draw(st.integers(0, 0x3fff)), n).hex()


@st.composite
def info_(draw, max_size=60):
    if draw(st.integers(0, 9)) == 0 and max_size > 200:
        n = draw(st.one_of(st.integers(200, max_size), st.sampled_from([255, 256, 257, 2030, 2038, 2040, 2047, 2050])))
        return (draw(st.binary(min_size=1, max_size=5)) * n)[:n].hex()
    return draw(st.one_of(st.binary(max_size=60), st.lists(st.sampled_from([0x7e, 0xa0, 0x7d, 3, 0x21]), max_size=20).map(bytes))).hex()


def frame_spec(max_size=2100):
    """[da, sa, control, info, segmentation]"""
    return st.tuples(addr(), addr(), st.one_of(st.integers(0, 255), st.sampled_from([0x93, 0x73, 0x10, 0x30, 0x53])), info_(max_size), st.booleans()).map(list)


def make(spec) -> C:
    da, sa, control, info, seg = spec
    da, sa, info = map(bytes.fromhex, (da, sa, info))
    return C(da, sa, control, info, seg, write(da, sa, control, info, seg))
