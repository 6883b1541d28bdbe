"""HDLC parameter negotiation and LLC header"""
from hypothesis import strategies as st
from ..core import Prop, Facet
from .. import hdlcref as h
from src.DLMS_SPODES.hdlc.negotiation import Negotiation
from src.DLMS_SPODES.hdlc.sub_layer import LLC
from src.DLMS_SPODES.hdlc.frame import Frame, Address, Control

size = st.one_of(st.integers(32, 2030), st.sampled_from([32, 127, 128, 129, 255, 256, 257, 1023, 2029, 2030]))
window = st.one_of(st.integers(1, 7), st.just(1))
four = st.tuples(size, size, window, window).map(list)


def state(n):
    return [n.max_info_transmit, n.max_info_receive, n.window_transmit, n.window_receive]


def ref_info(p):
    body = b""
    for tag, v, default, wide in ((5, p[0], 128, False), (6, p[1], 128, False), (7, p[2], 1, True), (8, p[3], 1, True)):
        if v != default:
            o = v.to_bytes(4, "big") if wide else v.to_bytes(1 if v < 256 else 2, "big")
            body += bytes((tag, len(o))) + o
    return b"\x81\x80" + bytes((len(body),)) + body if body else b""


def ref_set(con):
    """parameters a UA information field asks for, seen from the server's side; None if it is not one"""
    v = {5: 128, 6: 128, 7: 1, 8: 1}
    if con:
        if len(con) < 3 or con[:2] != b"\x81\x80" or con[2] != len(con) - 3:
            return None
        i = 3
        while i < len(con):
            if con[i] not in v or i + 2 > len(con) or i + 2 + con[i + 1] > len(con):
                return None
            x = int.from_bytes(con[i + 2:i + 2 + con[i + 1]], "big")
            if not (32 <= x <= 2030 if con[i] < 7 else 1 <= x <= 7):
                return None
            v[con[i]] = x
            i += 2 + con[i + 1]
    return [v[6], v[5], v[8], v[7]]


def snrm(ctx, case):
    """each step changes the parameters, the SNRM information follows"""
    n = None
    ctx.nt(any(p != [128, 128, 1, 1] for p in case))
    for p in case:
        if n is None:
            n = Negotiation(*p)
        else:
            n.max_info_transmit, n.max_info_receive, n.window_transmit, n.window_receive = p
        want = ref_info(p)
        ctx.eq((bytes(n.SNRM), n.info, n.content, len(n)), (want, want, want, len(want)), F"SNRM information of {p}")
        f = Frame(DA=Address(b"\x03"), SA=Address(b"\x21"), control=Control.SNRM_P, info=n.info, is_segmentation=False)
        ctx.eq(f.content, h.write(b"\x03", b"\x21", 0x93, want, False), "SNRM frame")


def exchange(ctx, case):
    """client and server agree: what one may send the other takes"""
    p, old = case
    server, client = Negotiation(*p), Negotiation(*old)
    ctx.nt(p != old)
    client.set_from_UA(server.info)
    ctx.eq(state(client), [p[1], p[0], p[3], p[2]], "parameters of the client after the UA of the server")
    server.set_from_UA(client.info)
    ctx.eq(state(server), p, "parameters stay agreed")


def ua(ctx, case):
    con, old = bytes.fromhex(case[0]), case[1]
    n = Negotiation(*old)
    want = ref_set(con)
    ctx.nt(len(con) > 3)
    ctx.label("valid", want is not None)
    ctx.label("wrong", want is None)
    if want is None:
        ctx.raises(lambda: n.set_from_UA(con), "wrong UA information", ValueError)
        ctx.eq(state(n), old, "parameters after a rejected UA")
    else:
        n.set_from_UA(con)
        ctx.eq(state(n), want, "parameters of the UA")


@st.composite
def ua_octets(draw):
    body = b""
    for _ in range(draw(st.integers(0, 5))):
        tag = draw(st.sampled_from([5, 6, 7, 8, 5, 6, 7, 8, 4, 9]))
        if draw(st.integers(0, 4)):
            v = draw(size if tag < 7 else window)
            k = draw(st.sampled_from([k for k in (1, 2, 3, 4, 5) if v < 256 ** k]))
        else:
            v = draw(st.one_of(size, window, st.integers(0, 70000), st.sampled_from([0, 1, 7, 8, 31, 32, 2030, 2031, 65535])))
            k = draw(st.sampled_from([1, 2, 4, 3, 0]))
        o = (v & (1 << 8 * k) - 1).to_bytes(k, "big")
        body += bytes((tag, k)) + o
    con = bytearray(b"\x81\x80" + bytes((len(body),)) + body)
    if draw(st.integers(0, 3)) == 0:
        match draw(st.integers(0, 3)):
            case 0: con = con[:draw(st.integers(0, len(con)))]
            case 1: con[draw(st.integers(0, len(con) - 1))] = draw(st.integers(0, 255))
            case 2: con += bytes((draw(st.integers(0, 255)),))
            case 3:
                con = con[:draw(st.integers(3, len(con)))]
                con[2] = len(con) - 3
    return [bytes(con).hex(), draw(four)]


def llc(ctx, case):
    head, info = bytes.fromhex(case[0]), bytes.fromhex(case[1])
    ctx.nt(len(info) > 0)
    m = LLC(message=info)
    ctx.eq((m.content, m.info, len(m)), (b"\xe6\xe6\x00" + info, info, len(info) + 3), "header in front of a message")
    back = LLC(bytearray(m.content))
    ctx.eq((back.info, back.content), (info, m.content), "message behind the header")
    good = len(head) >= 3 and head[0] in (0xe6, 0xff) and head[1] in (0xe6, 0xe7) and head[2] == 0
    ctx.label("header", good)
    if good:
        r = LLC(bytearray(head + info))
        ctx.eq((r.info, r.content), (head[3:] + info, head + info), "message behind the header of the other side")
    elif len(head) >= 3:
        ctx.raises(lambda: LLC(bytearray(head + info)), "wrong header")
    else:
        ctx.raises(lambda: LLC(bytearray(head)), "incomplete header")


HEAD = st.one_of(st.sampled_from(["e6e600", "e6e700", "ffe600", "ffe700"]), st.tuples(st.sampled_from([0xe6, 0xff, 0xe7, 0]), st.sampled_from([0xe6, 0xe7, 0xff, 0]), st.sampled_from([0, 0, 1, 0xe6])).map(lambda t: bytes(t).hex()),
                 st.binary(max_size=3).map(bytes.hex))
PROP = Prop("C23", rule="all parameter values, histories of changed parameters, UA information fields built from any parameters with octets changed, cut or added, against a reference reader and writer; all LLC headers; "
            "non-trivial: parameters other than the default ones",
            facets=[
                Facet("snrm", st.lists(four, min_size=1, max_size=4), snrm, quick=800, thorough=8000),
                Facet("exchange", st.tuples(four, four), exchange, quick=500, thorough=5000),
                Facet("ua", ua_octets(), ua, quick=2000, thorough=25000),
                Facet("llc_octets", None, llc, exhaustive=lambda: ([bytes((o if k == i else v for k, v in enumerate(good))).hex(), "010203"] for good in (b"\xe6\xe6\x00", b"\xe6\xe7\x00", b"\xff\xe6\x00", b"\xff\xe7\x00")
                                                               for i in range(3) for o in range(256))),
                Facet("llc", st.tuples(HEAD, st.binary(max_size=12).map(bytes.hex)), llc, quick=600, thorough=6000),
            ])
