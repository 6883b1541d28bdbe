"""encodings of values of declared types (classes and CHOICE objects of the framework)"""
import functools
from hypothesis import strategies as st
from . import gens as g
from src.DLMS_SPODES.types import cdt, cst, ut

BY_TAG = {v: k for k, v in g.TAGS.items()}
UNSUPPORTED = {19, 13, 12}
"""compact array, bcd, utf8 (without the extension of C13) are covered on their own"""


OCT = lambda b: b"\x09" + g.ref_len(len(b)) + b
OVER = {
    "ModemProfileElement": [OCT(b) for b in (b"OK", b"CONNECT", b"RING", b"NO CARRIER", b"ERROR", b"CONNECT 1 200", b"BUSY", b"CONNECT 56 000")],
    "SPODES3MeasurementPeriodValue": [b"\x11" + bytes((n,)) for n in (1, 5, 10, 15, 30, 60)],
    "SPODES3SPODESVersionValue": [OCT(b"3.0"), OCT(b"2.11"), OCT(b"0.1")],
    "ServerSAP": [b"\x12" + n.to_bytes(2, "big") for n in (0, 1, 16, 127, 128, 0x3ffe, 0x3fff)],
}
"""values of types that have rules of their own; of the ones in OPEN other values are tried too"""
OPEN = {"SPODES3MeasurementPeriodValue", "SPODES3SPODESVersionValue", "ModemProfileElement"}


def size_of(t):
    """declared length of a string type, None if any"""
    for k in ("SIZE", "size", "LENGTH"):
        v = getattr(t, k, None)
        if isinstance(v, int):
            return v
    return None


@functools.lru_cache(None)
def enc(t, free_depth=1):
    """strategy of encodings of declared type t (bytes)"""
    if isinstance(t, ut.CHOICE):
        return choice(t, free_depth)
    if t.__name__ in OVER:
        return st.one_of(st.sampled_from(OVER[t.__name__]), *([g.simple(BY_TAG[t.TAG[0]]).map(g.ref_enc)] if t.__name__ in OPEN else []))
    tag = t.TAG[0]
    name = BY_TAG.get(tag)
    if issubclass(t, cst.LogicalName):
        return st.binary(min_size=6, max_size=6).map(lambda b: b"\x09\x06" + b)
    for c, head, s in ((cst.OctetStringDateTime, b"\x09\x0c", g.datetime_octets()), (cst.OctetStringDate, b"\x09\x05", g.date_octets()), (cst.OctetStringTime, b"\x09\x04", g.time_octets())):
        if issubclass(t, c):
            return s.map(lambda b, head=head: head + b)
    if issubclass(t, cdt.AXDR):
        return axdr(t)
    if issubclass(t, cdt.Structure):
        if not getattr(t, "ELEMENTS", None):
            return st.lists(free(0), max_size=3).map(lambda l: b"\x02" + bytes((len(l),)) + b"".join(l))
        els = t.ELEMENTS
        if len(els) == 2 and isinstance(els[0].TYPE, type) and issubclass(els[0].TYPE, cdt.Enum) and hasattr(els[1].TYPE, "ELEMENTS") and isinstance(els[1].TYPE.ELEMENTS, dict) and not (
                isinstance(els[1].TYPE, type) and issubclass(els[1].TYPE, cdt.CommonDataType)):  # selector and its value
            sel = els[1].TYPE.ELEMENTS
            keys = [k for k in sel if els[0].TYPE.ELEMENTS is None or bytes((k,)) in els[0].TYPE.ELEMENTS]
            return st.sampled_from(keys).flatmap(lambda k: enc(sel[k].TYPE).map(lambda e: b"\x02\x02\x16" + bytes((k,)) + e))
        return st.tuples(*(enc(e.TYPE) for e in els)).map(lambda l: b"\x02" + g.ref_len(len(l)) + b"".join(l))
    if issubclass(t, cdt.Array):
        if t.TYPE is None:
            return st.one_of(st.just(b"\x01\x00"), g.shape(1).flatmap(lambda s: st.lists(g.value_of(s), min_size=1, max_size=3)).map(lambda v: g.ref_enc(["array", v])))
        one = enc(t.TYPE)
        return st.lists(one, max_size=4, unique=bool(t.unique)).map(lambda l: b"\x01" + g.ref_len(len(l)) + b"".join(l))
    if issubclass(t, cdt.Enum):
        keys = [bytes((k,)) if isinstance(k, int) else k for k in t.ELEMENTS] if t.ELEMENTS and not issubclass(t, cdt.FlagMixin) else None
        return (st.sampled_from(sorted(keys)) if keys else st.binary(min_size=1, max_size=1)).map(lambda b: bytes(t.TAG) + b)
    if issubclass(t, cdt.Digital):
        lo, hi = g.int_range(name)
        if isinstance(t.VALUE, int):
            s = st.just(t.VALUE)
        else:
            lo, hi = lo if t.MIN is None else t.MIN, hi if t.MAX is None else t.MAX
            s = g.ints(name, lo, hi)
        return s.map(lambda v: g.ref_enc([name, v]))
    if issubclass(t, cdt.BitString) and t is not cdt.BitString:
        n = len(t())
        return st.text("01", min_size=n, max_size=n).map(lambda v: g.ref_enc(["bits", v]))
    if issubclass(t, (cdt.OctetString, cdt.VisibleString)):
        n = size_of(t)
        if n is not None:
            return st.binary(min_size=n, max_size=n).map(lambda b: t.TAG + g.ref_len(n) + b)
    return g.simple(name).map(g.ref_enc)


def axdr(t):
    """object identifier, as structure of arcs or as octets"""
    arcs = st.tuples(st.integers(0, 2), st.integers(0, 39), *(enc(e.TYPE).map(lambda b: int.from_bytes(b[1:], "big")) for e in t.ELEMENTS[2:])).map(list)

    def struct(a):
        return b"\x02" + bytes((len(a),)) + b"".join(g.ref_enc([BY_TAG[e.TYPE.TAG[0]], v]) if e.TYPE.TAG[0] != 22 else bytes((22, v)) for e, v in zip(t.ELEMENTS, a))

    def octets(a):
        ret = bytes((40 * a[0] + a[1],))
        for v in a[2:]:
            x = [v & 127]
            while v := v >> 7:
                x.insert(0, v & 127 | 128)
            ret += bytes(x)
        return b"\x09" + bytes((len(ret),)) + ret
    return st.one_of(arcs.map(struct), arcs.map(octets))


def free(depth):
    return g.any_value(depth).map(g.ref_enc)


@functools.lru_cache(None)
def choice(t, depth):
    ret = []
    for k, e in t.ELEMENTS.items():
        if isinstance(e, dict):
            ret += [enc(x.TYPE) for x in e.values()]
        elif e.TYPE.TAG[0] in UNSUPPORTED:
            continue
        elif e.TYPE is cdt.Structure or e.TYPE is cdt.Array:
            ret.append(g.containers(2).map(g.ref_enc).filter(lambda b, x=e.TYPE: b[:1] == x.TAG))
        else:
            ret.append(enc(e.TYPE))
    return st.one_of(ret)
