"""interface classes against the tables of the Blue Book: every attribute and method has the index, the name, the type and the kind given there"""
import functools
import re
from hypothesis import strategies as st
from .. import gens as g
from .. import bluebook as bb
from ..core import Prop, Facet
from src.DLMS_SPODES.types import cdt, cst, ut
from src.DLMS_SPODES.types.cosemClassID import CosemClassId
from src.DLMS_SPODES.cosem_interface_classes import collection as col
from src.DLMS_SPODES.cosem_interface_classes import cosem_interface_class as ic

PUSH = (0, 0, 25, 9, 0, 255)
LN = {k: (0, 0, 199, 0, 0, 255) for k in bb.CLASSES} | {(40, 2): PUSH}
TAG = {"null": 0, "bool": 3, "bits": 4, "i32": 5, "u32": 6, "o": 9, "ln": 9, "odt": 9, "od": 9, "ot": 9, "sap": 18, "modem": 9, "vs": 10, "utf8": 12, "bcd": 13, "i8": 15, "i16": 16, "u8": 17, "u16": 18,
       "i64": 20, "u64": 21, "anyenum": 22, "f32": 23, "f64": 24, "dt": 25, "d": 26, "t": 27, "array": 1, "structure": 2}
MODEM = (b"OK", b"CONNECT", b"RING", b"NO CARRIER", b"ERROR", b"CONNECT 1 200", b"BUSY")
octets = lambda b: b"\x09" + g.ref_len(len(b)) + b

SIMPLE = {
    "null": st.just(b"\x00"), "bool": st.booleans().map(lambda b: bytes((3, b))), "ln": st.binary(min_size=6, max_size=6).map(octets), "odt": g.datetime_octets().map(lambda x: octets(bytes(x))),
    "od": g.date_octets().map(lambda x: octets(bytes(x))), "ot": g.time_octets().map(lambda x: octets(bytes(x))), "sap": st.sampled_from([0, 1, 16, 127, 128, 0x3fff]).map(lambda n: b"\x12" + n.to_bytes(2, "big")),
    "modem": st.sampled_from(MODEM).map(octets), "anyenum": st.integers(0, 255).map(lambda n: bytes((22, n))),
    "dt": g.datetime_octets().map(lambda x: b"\x19" + bytes(x)), "d": g.date_octets().map(lambda x: b"\x1a" + bytes(x)), "t": g.time_octets().map(lambda x: b"\x1b" + bytes(x)),
    "array": g.containers(2).map(g.ref_enc).filter(lambda b: b[0] == 1), "structure": g.containers(2).map(g.ref_enc).filter(lambda b: b[0] == 2),
}
SIZE = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "i8": 1, "i16": 2, "i32": 4, "i64": 8}


def tags(t):
    """tags of the type; None if any may be"""
    if isinstance(t, str):
        return {TAG[t]}
    if t is None:
        return None
    match t[0]:
        case "arr": return {1}
        case "struct": return {2}
        case "enum": return {22}
        case "few" | "some": return {t[1]}
        case "int": return {TAG[t[1]]}
        case "bits": return {4}
        case "lit": return {int(h[:2], 16) for h in t[1:]}
        case "any": return {x for k in t[1] for x in tags(k)} | ({12, 13, 19} if len(t[1]) > 6 else set())
        case "by": return {x for k in t[1].values() for x in tags(k)}


@functools.lru_cache(None)
def good(t):
    """encodings of the type"""
    return _good(t)


def num(t, lo, hi):
    n, signed = SIZE[t], t[0] == "i"
    lo = (-(1 << 8 * n - 1) if signed else 0) if lo is None else lo
    hi = ((1 << 8 * n - 1) - 1 if signed else (1 << 8 * n) - 1) if hi is None else hi
    return st.one_of(st.integers(lo, hi), st.sampled_from([lo, hi])).map(lambda v: bytes((TAG[t],)) + v.to_bytes(n, "big", signed=signed))


def ident(b):
    """elements of tables have different names or numbers: the first member"""
    return b if b[0] != 2 else b[2:4 + b[3]] if b[2] == 9 else b[2:4] if b[2] == 17 else b[2:5]


def _good(t):
    if isinstance(t, str):
        if t in SIZE:
            return num(t, None, None)
        if t in SIMPLE:
            return SIMPLE[t]
        if t == "o":
            return st.binary(max_size=20).map(octets)
        return g.simple({"f32": "f32", "f64": "f64", "bits": "bits", "vs": "visible"}[t]).map(g.ref_enc)
    match t[0]:
        case "arr": return st.lists(key(t[1]), max_size=3, unique_by=ident).map(lambda x: b"\x01" + g.ref_len(len(x)) + b"".join(x))
        case "struct":
            if isinstance(t[-1][1], tuple) and t[-1][1][0] == "by":
                k, by = t[1][1], t[-1][1][1]
                return st.sampled_from(sorted(by)).flatmap(lambda n: st.tuples(st.just(bytes((22, n))), key(by[n])).map(lambda x: b"\x02\x02" + b"".join(x)))
            return st.tuples(*(key(m) for _, m in t[1:])).map(lambda x: b"\x02" + bytes((len(x),)) + b"".join(x))
        case "enum": return st.sampled_from(t[1]).map(lambda v: bytes((22, v)))
        case "few" | "some": return st.sampled_from(t[2]).map(lambda v: bytes((t[1], v & 255)))
        case "int": return num(t[1], t[2], t[3])
        case "bits": return st.text("01", min_size=t[1], max_size=t[1]).map(lambda s: b"\x04" + g.ref_len(t[1]) + g.pack_bits(s))
        case "lit": return st.sampled_from(t[1:]).map(bytes.fromhex)
        case "any": return st.one_of([key(k) for k in t[1]])


_keys = {}


def key(t):
    """cached by identity: types hold dicts"""
    if id(t) not in _keys:
        _keys[id(t)] = t, _good(t)
    return _keys[id(t)][1]


OTHER = {0: "00", 1: "0100", 2: "020106" + "00000001", 3: "0301", 4: "0408a5", 5: "0500000001", 6: "0600000001", 9: "0903010203", 10: "0a0161", 15: "0f01", 16: "100001", 17: "1101", 18: "120001", 20: "14" + "00" * 8,
         21: "15" + "00" * 8, 22: "1601", 23: "1700000000", 24: "18" + "00" * 8, 25: "1907e40101ffffffffff800000", 26: "1a07e40101ff", 27: "1b01020304"}


@st.composite
def bad(draw, t):
    """encoding that is not of the type, or None if none was made"""
    kinds = ["tag"]
    if isinstance(t, tuple):
        if t[0] == "arr":
            kinds = ["tag", "inside", "inside", "inside"]
        elif t[0] == "struct":
            kinds = ["tag", "member", "inside", "inside", "inside"]
        elif t[0] in ("enum", "few", "int", "bits"):
            kinds = ["tag", "value", "value"]
    elif t in ("ln", "odt", "od", "ot"):
        kinds = ["tag", "value"]
    kind = draw(st.sampled_from(kinds))
    if kind == "tag":
        ok = tags(t)
        if ok is None:
            return None
        rest = sorted(set(OTHER) - ok)
        return bytes.fromhex(OTHER[draw(st.sampled_from(rest))]) if rest else None
    if kind == "value":
        if isinstance(t, str):
            n = {"ln": (5, 7), "odt": (5, 11, 13), "od": (4, 6), "ot": (3, 5)}[t]
            return octets(draw(st.binary(min_size=1, max_size=1)) * draw(st.sampled_from(n)))
        if t[0] == "enum":
            rest = sorted(set(range(256)) - set(t[1]) - set(t[2]))
            return bytes((22, draw(st.one_of(st.sampled_from(rest), st.sampled_from([v for v in rest if v - 1 in t[1] or v + 1 in t[1]] or rest))))) if rest else None
        if t[0] == "few":
            return bytes((t[1], draw(st.sampled_from(sorted(set(range(256)) - {v & 255 for v in t[2]})))))
        if t[0] == "int":
            n, signed = SIZE[t[1]], t[1][0] == "i"
            top, low = (1 << 8 * n - signed) - 1, -(1 << 8 * n - 1) if signed else 0
            v = draw(st.sampled_from([v for v in (t[2] - 1, t[3] + 1, low, top) if low <= v <= top and not t[2] <= v <= t[3]]))
            return bytes((TAG[t[1]],)) + v.to_bytes(n, "big", signed=signed)
        n = draw(st.sampled_from([0, t[1] - 8, t[1] + 8, t[1] - 1]))
        return b"\x04" + g.ref_len(n) + bytes((n + 7) // 8)
    if t[0] == "arr":
        wrong = draw(bad(t[1]))
        if wrong is None:
            return None
        els = draw(st.lists(key(t[1]), max_size=2, unique_by=ident))
        els.insert(draw(st.integers(0, len(els))), wrong)
        return b"\x01" + bytes((len(els),)) + b"".join(els)
    by = t[-1][1][1] if isinstance(t[-1][1], tuple) and t[-1][1][0] == "by" else None
    if by:
        n = draw(st.sampled_from(sorted(by)))
        members = [bytes((22, n)), draw(key(by[n]))]
        types = [t[1][1], by[n]]
    else:
        types = [m for _, m in t[1:]]
        members = [draw(key(m)) for m in types]
    if kind == "member":
        i = draw(st.integers(0, len(members) - 1))
        if draw(st.booleans()):
            members.pop(i)
        else:
            members.insert(i, members[i])
    else:
        i = draw(st.integers(0, len(members) - 1))
        wrong = draw(bad(types[i]))
        if wrong is None:
            return None
        members[i] = wrong
    return b"\x02" + bytes((len(members),)) + b"".join(members)


def class_of(k):
    return col.get_type(CosemClassId(k[0]), cdt.Unsigned(k[1]), cst.LogicalName(bytearray(PUSH)), col.func_maps["DLMS_6"]) if k == (40, 2) else \
        col.get_interface_class(col.common_interface_class_map, CosemClassId(k[0]), cdt.Unsigned(k[1]))


ITEMS = [[*k, p, i] for k, v in bb.CLASSES.items() for p, first in (("a", 2), ("m", 1)) for i, row in enumerate(v[p], first) if row[1] is not None]
DATA = sorted(bb.DATA)
VERSION_CLASS = col.get_type(CosemClassId(1), cdt.Unsigned(0), cst.LogicalName(bytearray((0, 0, 96, 1, 6, 255))), col.func_maps["SPODES_3"])
MARK = len(ITEMS)


def row(n):
    """type of the item"""
    if n >= MARK:
        return bb.DATA[DATA[n - MARK]][0]
    cid, ver, p, i = ITEMS[n]
    return bb.CLASSES[cid, ver][p][i - (2 if p == "a" else 1)][1]


def declared(n):
    """name and declared type in the framework"""
    if n >= MARK:
        spec, ln = DATA[n - MARK]
        return f"{'.'.join(map(str, ln))} of {spec}", col.get_type(CosemClassId(1), cdt.Unsigned(0), cst.LogicalName(bytearray(ln)), col.func_maps[spec]).get_attr_element(2).DATA_TYPE
    cid, ver, p, i = ITEMS[n]
    cls = class_of((cid, ver))
    el = cls.get_attr_element(i) if p == "a" else cls.get_meth_element(i)
    return f"class {cid} version {ver} {'attribute' if p == 'a' else 'method'} {i}", el.DATA_TYPE


@st.composite
def accept_cases(draw, k=None):
    n = draw(st.integers(0, MARK + len(DATA) - 1)) if k is None else k
    return [n, draw(key(row(n))).hex()]


def _accept(ctx, case):
    n, h = case
    name, t = declared(n)
    b = bytes.fromhex(h)
    v = t(b)
    ctx.eq(v.encoding.hex(), h, f"value of {name}")
    ctx.nt(b not in (b"\x00", b"\x01\x00"))
    ctx.label(["attribute", "method", "data"][2 if n >= MARK else ITEMS[n][2] == "m"])
    if n < MARK and ITEMS[n][2] == "a" and plain(n):
        o = class_of(tuple(ITEMS[n][:2]))(cst.LogicalName(bytearray(LN[tuple(ITEMS[n][:2])])))
        o.set_attr(ITEMS[n][3], b)
        ctx.eq(o.get_attr(ITEMS[n][3]).encoding.hex(), h, f"{name} after set")


# attributes that need other objects
LINKED = {(5, 0): {3}, (7, 1): {2, 3, 6}, (15, 0): {2, 5, 6, 7}, (15, 1): {2, 4, 5, 6, 7}, (15, 2): {2, 4, 5, 6, 7}, (20, 0): {3, 4, 5, 7, 8, 9}, (21, 0): {2, 3}, (68, 0): {2, 3}, (71, 0): {2, 3, 4, 5}}


def plain(n):
    return ITEMS[n][3] not in LINKED.get(tuple(ITEMS[n][:2]), ())


def one(t):
    """a value of the type"""
    if isinstance(t, str):
        return {"ln": "0906000001000000", "odt": "090c" + OTHER[25][2:], "od": "0905" + OTHER[26][2:], "ot": "0904" + OTHER[27][2:], "sap": "120001", "modem": "09024f4b", "array": "0100", "structure": "0200",
                "anyenum": "1601"}.get(t, OTHER.get(TAG[t]))[:16 if t == "ln" else None]
    match t[0]:
        case "arr": return "0101" + one(t[1])
        case "struct":
            if isinstance(t[-1][1], tuple) and t[-1][1][0] == "by":
                n, m = next(iter(t[-1][1][1].items()))
                return f"020216{n:02x}" + one(m)
            return f"02{len(t) - 1:02x}" + "".join(one(m) for _, m in t[1:])
        case "enum": return f"16{t[1][0]:02x}"
        case "few" | "some": return f"{t[1]:02x}{t[2][0] & 255:02x}"
        case "int": return f"{TAG[t[1]]:02x}" + max(t[2], min(1, t[3])).to_bytes(SIZE[t[1]], "big", signed=t[1][0] == "i").hex()
        case "bits": return f"04{t[1]:02x}" + "00" * ((t[1] + 7) // 8)
        case "lit": return t[1]
        case "any": return one(t[1][0])


def errors(t, deep=0):
    """encodings with exactly one error"""
    ok = tags(t)
    if ok is not None:
        yield from (h for n, h in OTHER.items() if n not in ok)
    if isinstance(t, str):
        if t in ("ln", "odt", "od", "ot"):
            n = {"ln": 6, "odt": 12, "od": 5, "ot": 4}[t]
            yield from ("09" + f"{m:02x}" + "01" * m for m in (n - 1, n + 1))
        return
    match t[0]:
        case "arr":
            yield from ("0101" + e for e in errors(t[1], 1))
            if not deep:
                yield from ("0102" + one(t[1]) + e for e in errors(t[1], 1))
        case "struct":
            if isinstance(t[-1][1], tuple) and t[-1][1][0] == "by":
                ways = [[("lit", f"16{n:02x}"), m] for n, m in t[-1][1][1].items()]
                yield from (f"0202{e}" + one(next(iter(t[-1][1][1].values()))) for e in errors(t[1][1], 1))
            else:
                ways = [[m for _, m in t[1:]]]
            for way in ways:
                ms = [one(m) for m in way]
                for i, m in enumerate(way):
                    yield f"02{len(ms) - 1:02x}" + "".join(ms[:i] + ms[i + 1:])
                    yield f"02{len(ms) + 1:02x}" + "".join(ms[:i] + [ms[i]] + ms[i:])
                    if not isinstance(m, tuple) or m[0] != "lit":
                        yield from (f"02{len(ms):02x}" + "".join(ms[:i] + [e] + ms[i + 1:]) for e in errors(m, 1))
        case "enum":
            yield from (f"16{v:02x}" for v in sorted(set(range(256)) - set(t[1]) - set(t[2])) if not deep or v - 1 in t[1] or v + 1 in t[1])
        case "few":
            yield from (f"{t[1]:02x}{v:02x}" for v in sorted(set(range(256)) - {v & 255 for v in t[2]}))
        case "int":
            n, signed = SIZE[t[1]], t[1][0] == "i"
            top, low = (1 << 8 * n - signed) - 1, -(1 << 8 * n - 1) if signed else 0
            yield from (f"{TAG[t[1]]:02x}" + v.to_bytes(n, "big", signed=signed).hex() for v in (t[2] - 1, t[3] + 1, low, top) if low <= v <= top and not t[2] <= v <= t[3])
        case "bits":
            yield from (f"04{n:02x}" + "00" * ((n + 7) // 8) for n in (0, t[1] - 8, t[1] + 8, t[1] - 1))


def each(t):
    """encodings with every listed value of every member"""
    if isinstance(t, str):
        yield one(t)
        return
    match t[0]:
        case "arr":
            yield "0100"
            yield from ("0101" + e for e in each(t[1]))
        case "struct":
            if isinstance(t[-1][1], tuple) and t[-1][1][0] == "by":
                yield from (f"020216{n:02x}" + e for n, m in t[-1][1][1].items() for e in each(m))
            else:
                ms = [one(m) for _, m in t[1:]]
                yield from (f"02{len(ms):02x}" + "".join(ms[:i] + [e] + ms[i + 1:]) for i, (_, m) in enumerate(t[1:]) for e in each(m))
        case "enum": yield from (f"16{v:02x}" for v in t[1])
        case "few" | "some": yield from (f"{t[1]:02x}{v & 255:02x}" for v in t[2])
        case "int": yield from (f"{TAG[t[1]]:02x}" + v.to_bytes(SIZE[t[1]], "big", signed=t[1][0] == "i").hex() for v in t[2:])
        case "lit": yield from t[1:]
        case "any": yield from (e for k in t[1] for e in each(k))
        case _: yield one(t)


def _errors(ctx, case):
    """each single error of the item, each listed value of it"""
    n, = case
    name, t = declared(n)
    for h in each(row(n)):
        ctx.eq(t(bytes.fromhex(h)).encoding.hex(), h, f"value of {name}")
    for h in errors(row(n)):
        try:
            t(bytes.fromhex(h))
        except Exception:
            ctx.nt(True)
        else:
            ctx.fail(f"{name} takes {h}")


@st.composite
def reject_cases(draw):
    n = draw(st.integers(0, MARK + len(DATA) - 1))
    b = draw(bad(row(n)))
    return [n, None if b is None else b.hex()]


def _reject(ctx, case):
    n, h = case
    if h is None:
        return
    name, t = declared(n)
    ctx.raises(lambda: t(bytes.fromhex(h)), f"{name} takes {h}", Exception)
    ctx.nt(True)
    ctx.label(["attribute", "method", "data"][2 if n >= MARK else ITEMS[n][2] == "m"])


def _table(ctx, case):
    """names, kinds, amount and initial values"""
    k = tuple(case)
    cls = class_of(k)
    v = bb.CLASSES[k]
    ctx.eq(int(cls.CLASS_ID), k[0], "class")
    ctx.eq(int(cls.VERSION), k[1], "version")
    o = cls(cst.LogicalName(bytearray(LN[k])))
    ctx.eq([cls.get_attr_element(i).NAME for i in range(1, len(v["a"]) + 2)], ["logical_name", *(r[0] for r in v["a"])], "names of attributes")
    ctx.eq(o.get_attr_length(), len(v["a"]) + 1, "amount of attributes")
    ctx.eq([cls.get_meth_element(i).NAME for i in range(1, len(v["m"]) + 1)], [r[0] for r in v["m"]], "names of methods")
    for i, (name, t, kind) in enumerate(v["a"], 2):
        if kind is not None:
            ctx.eq(cls.get_attr_element(i).classifier == ic.Classifier.DYNAMIC, kind == bb.D, f"{name} is a process value")
        if (d := bb.DEFAULTS.get(k, {}).get(i)) is not None:
            ctx.eq(int.from_bytes(o.get_attr(i).contents, "big"), d, f"default of {name}")
        if (h := bb.EMPTY.get(k, {}).get(i)) is not None:
            ctx.eq(cls.get_attr_element(i).DATA_TYPE().encoding.hex(), h, f"empty {name}")
    ctx.nt(True)


def _spodes_version(ctx, case):
    """0.0.96.1.6.255 of SPODES 3: number of the edition, two numbers"""
    t, = case
    name, good = t.encode("utf-8"), re.fullmatch("[0-9]+[.][0-9]+", t) is not None
    if good and int(t.replace(".", "")) == 0 or not t.isascii() and not t.isprintable():
        return
    o = VERSION_CLASS(cst.LogicalName(bytearray((0, 0, 96, 1, 6, 255))))
    enc = b"\x09" + g.ref_len(len(name)) + name
    ctx.nt(good or t.count(".") == 1)
    ctx.label("good", good)
    if good:
        o.set_attr(2, enc)
        ctx.eq(o.value.encoding, enc, "edition of SPODES")
    else:
        o.set_attr(2, b"\x09\x033.0")
        ctx.raises(lambda: o.set_attr(2, enc), F"edition {t!r}", ValueError)
        ctx.eq(o.value.encoding, b"\x09\x033.0", "edition after the refused one")


def _kind(ctx, case):
    """process values are not copied, settings are"""
    k, values = tuple(case[:2]), case[2]
    cls = class_of(k)
    a, b = cls(cst.LogicalName(bytearray(LN[k]))), cls(cst.LogicalName(bytearray(LN[k])))
    fresh = cls(cst.LogicalName(bytearray(LN[k])))
    for i, h in values:
        a.set_attr(i, bytes.fromhex(h))
    b.copy(a)
    for i, h in values:
        name, t, kind = bb.CLASSES[k]["a"][i - 2]
        got, was = b.get_attr(i), fresh.get_attr(i)
        if kind == bb.S or isinstance(t, tuple) and t[0] == "any":
            ctx.eq(None if got is None else got.encoding.hex(), h, f"copy of {name}")
        elif kind == bb.D:
            ctx.eq(None if got is None else got.encoding, None if was is None else was.encoding, f"process value {name} in the copy")
    ctx.nt(len(values) > 1)


@st.composite
def kind_cases(draw):
    k = draw(st.sampled_from(sorted(bb.CLASSES)))
    values = []
    for i, (_, t, kind) in enumerate(bb.CLASSES[k]["a"], 2):
        if t is not None and i not in LINKED.get(k, ()) and draw(st.integers(0, 4)):
            if isinstance(t, tuple) and t[0] == "any" and k in ((3, 0), (4, 0), (5, 0)):
                t = "u32"
            values.append([i, draw(key(t)).hex()])
    return [*k, values]


PROP = Prop("C45", rule="non-trivial: the value is not empty (accept), something wrong was made (reject, errors), more than one attribute (copy)", facets=[
    Facet("accept", accept_cases(), _accept, quick=3000, thorough=100000),
    Facet("reject", reject_cases(), _reject, quick=3000, thorough=100000),
    Facet("errors", st.nothing(), _errors, exhaustive=lambda: ([n] for n in range(MARK + len(DATA)))),
    Facet("spodes_version", st.tuples(st.one_of(st.tuples(st.integers(0, 30), st.integers(0, 30)).map(lambda t: F"{t[0]}.{t[1]}"), st.text("0123456789.v ", max_size=6), st.text(max_size=5))).map(list), _spodes_version, quick=300, thorough=10000, examples=[
        ["3.0"], ["2.11"], ["3.0.0"], ["3.0.1"], ["3.0.0a"], ["3"], [""], ["."], ["3."], [".0"], ["a.b"], ["3.a"], ["v3.0"], ["3.0 "], ["0.0.0"], ["3,0"], ["1.2.3.4"]]),
    Facet("copy", kind_cases(), _kind, quick=400, thorough=20000),
    Facet("table", st.sampled_from(sorted(bb.CLASSES)).map(list), _table, exhaustive=lambda: (list(k) for k in sorted(bb.CLASSES))),
], assumptions=["Tables of the Blue Book (DLMS UA 1000-1 Ed.14) and of SPODES 3 are transcribed by hand; values they leave to manufacturers or reserve are not judged, where the code takes them.",
                "Bcd, utf8-string and compact-array values are not judged here."])
