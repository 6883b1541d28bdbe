"""parameters of the communication channel and secrets in their setup objects"""
from hypothesis import strategies as st
from ..core import Prop, Facet
from src.DLMS_SPODES.types import cdt, cst
from src.DLMS_SPODES.cosem_interface_classes import collection as col
from src.DLMS_SPODES.cosem_interface_classes.iec_hdlc_setup.ver1 import IECHDLCSetup
from src.DLMS_SPODES.cosem_interface_classes.association_ln import ver0
from src.DLMS_SPODES.types.cosemClassID import CosemClassId
from .c31 import mechanism

# tag of the negotiated parameter: attribute (IEC 62056-46 6.4.4.4.3.2, Blue Book 4.7.2)
ATTR = {5: 5, 6: 6, 7: 3, 8: 4}
BITS = {5: 16, 6: 16, 7: 8, 8: 8}
DEFAULT = {3: 1, 4: 1, 5: 128, 6: 128}


def make():
    o = IECHDLCSetup(cst.LogicalName("0.0.22.0.0.255"))
    o.collection = col.Collection()
    for i, v in {2: 5, **DEFAULT, 7: 25, 8: 120, 9: 16}.items():
        o.set_attr(i, v)
    return o


def state(o):
    return {i: int(o.get_attr(i)) if i > 2 else o.get_attr(i).contents[0] for i in range(2, 10)}


def parameter():
    return st.sampled_from(sorted(ATTR)).flatmap(lambda t: st.tuples(st.just(t), st.one_of(st.integers(0, 2 ** BITS[t] - 1), st.sampled_from([1, 7, 128])), st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(1, 4), st.integers(100, 130))).map(list))


def group(params):
    body = b""
    for t, v, n in params:
        n = max(n, 1, (v.bit_length() + 7) // 8)
        body += bytes((t, n)) + v.to_bytes(n, "big")
    return b"\x81\x80" + bytes((len(body),)) + body


@st.composite
def infos(draw):
    """[kind, hex of information field, parameters]"""
    params = draw(st.lists(parameter(), max_size=5))
    while sum(2 + max(n, 2) for _, v, n in params) > 240:
        params.pop()
    if draw(st.integers(0, 7)) == 0:    # padded to a length with the codes of the head
        rest = draw(st.sampled_from([127, 128, 129, 130])) - sum(2 + max(n, 1, (v.bit_length() + 7) // 8) for _, v, n in params)
        if rest > 4:
            params.append([draw(st.sampled_from(sorted(ATTR))), 100, rest - 2])
    kind = draw(st.sampled_from(["good", "good", "good", "good", "none", "cut", "tag", "big", "length", "head", "inside"]))
    b = group(params)
    if kind == "none":
        b, params = b"", []
    elif kind == "cut":
        b = b[:draw(st.integers(1, len(b) - 1))]
    elif kind == "tag":
        bad = bytes((draw(st.sampled_from([0, 1, 4, 9, 10, 255])), 1, 1))
        b = b[:2] + bytes((b[2] + 3,)) + (b[3:] + bad if draw(st.booleans()) else bad + b[3:])
    elif kind == "big":
        t = draw(st.sampled_from(sorted(ATTR)))
        bad = bytes((t, 4)) + draw(st.integers(2 ** BITS[t], 2 ** 32 - 1)).to_bytes(4, "big")
        b = b[:2] + bytes((b[2] + 6,)) + b[3:] + bad
    elif kind == "length":
        d = draw(st.integers(1, 5)) * draw(st.sampled_from([-1, 1]))
        b = b[:2] + bytes(((b[2] + d) % 256,)) + b[3:]
    elif kind == "head":
        b = draw(st.sampled_from([b"\x81", b"\x80\x81", b"\x82\x80", b"\x81\x81", b"\x00\x80"])) + b[2:]
    elif kind == "inside":      # the last value is shorter than announced
        if not params:
            kind = "good"
        else:
            b = b[:2] + bytes((b[2] - 1,)) + b[3:-1]
    return [kind, b.hex(), params]


def _negotiation(ctx, case):
    o = make()
    want = state(o)
    sets = 0
    for kind, h, params in case:
        b = bytes.fromhex(h)
        if kind in ("good", "none"):
            o.set_from_info(b)
            if kind == "none":
                want.update(DEFAULT)
            for t, v, _ in params:
                want[ATTR[t]] = v
            sets += len(params)
        else:
            ctx.raises(lambda: o.set_from_info(b), f"{kind} {h}", ValueError)
        ctx.label(kind)
        ctx.eq(state(o), want, f"parameters after {kind} {h}")
        for name, i, n in (("max_info_transmit", 5, 2), ("max_info_receive", 6, 2), ("window_transmit", 3, 1), ("window_receive", 4, 1)):
            ctx.eq(getattr(o, name), None if want[i] == DEFAULT[i] else want[i].to_bytes(n, "big"), name)
    ctx.nt(sets > 1)


def _speed(ctx, case):
    """speed in bauds and its code are the same"""
    n, = case
    bauds = (300, 600, 1200, 2400, 4800, 9600, 19200, 38400, 57600, 115200)
    o = make()
    if n in bauds or n < len(bauds):
        o.set_attr(2, n)
        code = bauds.index(n) if n in bauds else n
        ctx.eq(o.comm_speed.contents, bytes((code,)), "code of speed")
        ctx.eq(o.comm_speed.decode(), bauds[code], "bauds")
        ctx.nt(True)
    else:
        ctx.raises(lambda: o.set_attr(2, n), f"speed {n}", ValueError)
        ctx.eq(o.comm_speed.decode(), 9600, "speed stays")


def _address(ctx, case):
    n, = case
    o = make()
    o.set_attr(9, n)
    ctx.eq(o.get_device_address(), n or None, "device address")
    ctx.nt(n > 0)


# ----------------------------------------------------------------- secrets
REP = {0: ver0.Representation.HEX, 1: ver0.Representation.ASCII, 2: ver0.Representation.HIDDEN, 3: ver0.Representation.ASCII_HIDDEN}


def _secret(ctx, case):
    """the way a secret is shown changes its text only; a hidden one is not disclosed"""
    high, text, steps = case
    cls = ver0.LLCSecretHigh if high else ver0.LLCSecret
    raw = text.encode("ascii")
    s = cls(bytearray(raw))
    try:
        for r in steps:
            s.representation = REP[r]
            ctx.eq((s.contents, s.representation), (raw, REP[r]), "contents")
            shown = {0: raw.hex(" "), 1: text, 2: raw.hex(" "), 3: text}[r]
            if r < 2:
                ctx.eq(str(s).lower() if r == 0 else str(s), shown, f"text as {REP[r]!r}")
                ctx.eq(cls(str(s)).contents, raw, f"from text as {REP[r]!r}")
            else:
                ctx.eq(str(s), "".join(c if c == " " else "*" for c in shown), f"hidden text as {REP[r]!r}")
                ctx.eq(cls(raw.hex() if r == 2 else text).contents, raw, f"from text as {REP[r]!r}")
            ctx.eq(s.encoding, bytes((9, len(raw))) + raw, "encoding")
        ctx.raises(lambda: setattr(s, "representation", 1), "representation of another type", ValueError)
    finally:
        s.representation = REP[0]
    if high:
        for n in (0, 8, 15, 17, 32):
            ctx.raises(lambda: cls(bytearray(n)), f"high secret of {n} octets", ValueError)
    ctx.nt(len(set(steps)) > 1 and len(raw) > 0)


def _mechanism(ctx, case):
    """the secret of an association follows its authentication mechanism; case: version, mechanism, secrets before and after it"""
    ver, m, before, after, *later = case
    c = col.Collection()
    a = c.add(CosemClassId(15), cdt.Unsigned(ver), cst.LogicalName("0.0.40.0.2.255"))
    if before is not None:
        a.set_attr(7, cdt.OctetString(bytearray(bytes.fromhex(before))).encoding)
        ctx.check(a.LLS_secret is None, "secret without mechanism")
    data = mechanism(ver, m)
    a.set_attr(6, data)
    ctx.eq(a.get_attr(6).encoding, data, "mechanism")
    ctx.check(isinstance(a.LLS_secret, ver0.LLCSecretHigh if m == 2 else ver0.LLCSecret), f"type of secret: {a.LLS_secret.__class__}")
    for x in after:
        b = bytes.fromhex(x)
        f = lambda: a.set_attr(7, b"\x09" + bytes([len(b)]) + b)
        if m == 2 and len(b) != 16:
            old = a.LLS_secret.contents
            ctx.raises(f, "high secret of another length", ValueError)
            ctx.eq(a.LLS_secret.contents, old, "secret after rejection")
        else:
            f()
            ctx.eq(a.LLS_secret.contents, b, "secret")
            a.set_attr(6, data)
            ctx.eq(a.LLS_secret.contents, b, "secret after the same mechanism again")
    for x in later:     # another mechanism: the secret is kept when it is of the same kind
        old = a.LLS_secret
        same = (x == 2) == isinstance(old, ver0.LLCSecretHigh)
        a.set_attr(6, mechanism(ver, x))
        ctx.eq(a.get_attr(6).encoding, mechanism(ver, x), "another mechanism")
        ctx.check((a.LLS_secret.__class__ is ver0.LLCSecretHigh) == (x == 2), f"type of secret after mechanism {x}: {a.LLS_secret.__class__}")
        ctx.check((a.LLS_secret is old) == same, "secret is kept, if it is of the same kind")
        ctx.label("changed kind", not same)
    ctx.nt(m > 1 and len(after) > 0)


ASCII = st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=20)
PROP = Prop("C43", rule="non-trivial: several parameters set (negotiation), several representations of a secret", facets=[
    Facet("negotiation", st.lists(infos(), min_size=1, max_size=4), _negotiation, quick=1500, thorough=50000),
    Facet("speed", st.integers(0, 200000).map(lambda n: [n]), _speed, quick=100, thorough=3000, examples=[[n] for n in (*range(12), 300, 600, 1200, 2400, 4800, 9600, 19200, 38400, 57600, 115200)]),
    Facet("address", st.integers(0, 65535).map(lambda n: [n]), _address, quick=100, thorough=2000, examples=[[0], [1], [16], [0x3ffd]]),
    Facet("secret", st.booleans().flatmap(lambda h: st.tuples(st.just(h), st.text(st.characters(min_codepoint=32, max_codepoint=126), min_size=16, max_size=16) if h else ASCII, st.lists(st.integers(0, 3), min_size=1, max_size=5)).map(list)), _secret,
          quick=500, thorough=10000),
    Facet("mechanism", st.tuples(st.integers(0, 2), st.integers(0, 7), st.one_of(st.none(), st.binary(max_size=16).map(bytes.hex)), st.lists(st.one_of(st.binary(max_size=20), st.binary(min_size=16, max_size=16)).map(bytes.hex), max_size=3), st.lists(st.sampled_from([2, 2, 1, 0, 5]), max_size=3)).map(lambda x: [*x[:4], *x[4]]),
          _mechanism, quick=200, thorough=3000, examples=[[v, m, None, ["00" * 16], k] for v in range(3) for m in range(8) for k in (1, 2)]),
], assumptions=["Parameters absent from a negotiation keep their value, as in the code; an empty information field means the defaults of the setup class."])
