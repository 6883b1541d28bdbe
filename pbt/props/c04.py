from hypothesis import strategies as st
from .. import gens as g
from ..core import Prop, Facet
from ..util import import_all, subclasses
from src.DLMS_SPODES.types import cdt, ut
from src.DLMS_SPODES.types import cosem_pdu as pdu
from src.DLMS_SPODES.cosem_interface_classes import collection  # noqa: registers the interface classes

UT = {"i8": "Integer8", "i16": "Integer16", "i32": "Integer32", "i64": "Integer64", "u8": "Unsigned8", "u16": "Unsigned16", "u32": "Unsigned32", "u64": "Unsigned64"}


@st.composite
def around(draw, t):
    lo, hi = g.int_range(t)
    return draw(st.one_of(g.ints(t), st.sampled_from([lo - 1, lo, hi, hi + 1, -1, 0, 1]), st.integers(lo - 300, lo), st.integers(hi, hi + 300), st.integers(-(1 << 70), 1 << 70)))


def plain(ctx, case):
    t, v = case
    lo, hi = g.int_range(t)
    cls, u, p = getattr(cdt, g.CLASS[t]), getattr(ut, UT[t]), getattr(pdu, UT[t])
    ctx.nt(not (0 <= v <= 1))
    if lo <= v <= hi:
        ctx.label("in")
        raw = v.to_bytes(g.INTS[t][0], "big", signed=g.INTS[t][1])
        for inst in (cls(v), cls(str(v)), cls(bytearray(raw))):
            ctx.eq(inst.contents, raw, F"{cls.__name__}: contents of {v}")
            ctx.eq(int(inst), v, "int()")
            ctx.eq(inst.decode(), v, "decode()")
            ctx.eq(str(inst), str(v), "str()")
            ctx.eq(len(inst.contents), g.INTS[t][0], "size")
        x = cls(0)
        x.set(v)
        ctx.eq(int(x), v, "after set")
        x.clear()
        ctx.eq(int(x), 0, "after clear")
        for inst in (u(v), u.from_str(str(v)), u.from_contents(raw + b"\x55")):
            ctx.eq(inst.contents, raw, F"ut.{UT[t]}: contents")
            ctx.eq((int(inst), str(inst)), (v, str(v)), "ut value")
        for inst in (p.from_int(v), p.from_str(str(v)), p.get(pdu.Buffer(memoryview(raw + b"\x55")))):
            ctx.eq(bytes(inst), raw, F"pdu.{UT[t]}: contents")
            ctx.eq((int(inst), str(inst)), (v, str(v)), "pdu value")
    else:
        ctx.label("out")
        ctx.raises(lambda: cls(v), F"{cls.__name__}({v})")
        ctx.raises(lambda: cls(str(v)), F"{cls.__name__}('{v}')")
        x = cls(1)
        ctx.raises(lambda: x.set(v), F"set({v})")
        ctx.eq(int(x), 1, "value after a rejected set")
        ctx.raises(lambda: u(v), F"ut.{UT[t]}({v})")
        ctx.raises(lambda: p.from_int(v), F"pdu.{UT[t]}({v})")


def compare(ctx, case):
    (t1, a), (t2, b) = case
    x, y = getattr(cdt, g.CLASS[t1])(a), getattr(cdt, g.CLASS[t2])(b)
    ctx.nt(a != b)
    ctx.eq(x > y, a > b, F"{x!r} > {y!r}")
    ctx.eq(x > b, a > b, F"{x!r} > {b}")
    ctx.eq(x < y, a < b, F"{x!r} < {y!r}")
    ctx.eq(x == y, t1 == t2 and a == b, "equality of values (same type and same value)")
    if t1 == t2 and a == b:
        ctx.eq(hash(x), hash(y), "hash of equal values")
    u, w = getattr(ut, UT[t1])(a), getattr(ut, UT[t2])(b)
    ctx.eq(u > w, a > b, "ut >")
    p, q = getattr(pdu, UT[t1]).from_int(a), getattr(pdu, UT[t2]).from_int(b)
    ctx.eq(p > q, a > b, "pdu >")


_limited = {}


def limited(t, lo, hi):
    k = (t, lo, hi)
    if k not in _limited:
        kw = {n: v for n, v in (("min", lo), ("max", hi)) if v is not None}
        base = getattr(cdt, g.CLASS[t])

        class Limited(base, **kw):
            """generated"""
        _limited[k] = Limited
    return _limited[k]


@st.composite
def limit_case(draw):
    t = draw(st.sampled_from(list(g.INTS)))
    a, b = sorted((draw(g.ints(t)), draw(g.ints(t))))
    which = draw(st.integers(0, 2))
    lo, hi = (a if which != 1 else None), (b if which != 0 else None)
    v = draw(st.one_of(g.ints(t), st.sampled_from([x for x in (a - 1, a, a + 1, b - 1, b, b + 1) if g.int_range(t)[0] <= x <= g.int_range(t)[1]])))
    return [t, lo, hi, v]


def constrained(ctx, case):
    t, lo, hi, v = case
    cls = limited(t, lo, hi)
    ok = (lo is None or lo <= v) and (hi is None or v <= hi)
    raw = v.to_bytes(g.INTS[t][0], "big", signed=g.INTS[t][1])
    enc = bytes((g.TAGS[t],)) + raw
    ctx.nt(lo is not None or hi is not None)
    ctx.label("in" if ok else "out")
    good = lo if lo is not None else hi
    for name, arg in (("int", v), ("str", str(v)), ("encoding", enc), ("contents", bytearray(raw))):
        x = cls(good)
        if ok:
            ctx.eq(int(cls(arg)), v, F"from {name}")
            x.set(arg)
            ctx.eq(int(x), v, F"set from {name}")
        else:
            ctx.raises(lambda: cls(arg), F"{v} for {lo}..{hi} from {name}")
            ctx.raises(lambda: x.set(arg), F"set {v} for {lo}..{hi} from {name}")
            ctx.eq(int(x), good, "value after a rejected set")
    if g.INTS[t][1]:
        ctx.eq(int(getattr(cdt, g.CLASS[t])("-")), 0, "minus, of a signed number only")
    else:
        ctx.raises(lambda: cls("-"), "minus, of an unsigned number")
        ctx.raises(lambda: getattr(cdt, g.CLASS[t])("-"), "minus, of an unsigned number")
    if hi is None or hi >= max(0, lo or 0):
        d = int(cls())
        ctx.eq(d, max(0, lo or 0), F"default for {lo}..{hi}")
        x = cls(good)
        x.clear()
        c = int(x)
        ctx.eq(c, d, F"value after clear for {lo}..{hi}")


def shift(ctx, case):
    """a shift moves the bits of the number within its width"""
    t, v, left, k = case
    n, signed = g.INTS[t]
    x = getattr(cdt, g.CLASS[t])(v)
    m = v % (1 << 8 * n)
    ctx.nt(m != 0 and k > 0)
    if left:
        x << k
        m = (m << k) % (1 << 8 * n)
    else:
        x >> k
        m >>= k
    raw = m.to_bytes(n, "big")
    ctx.eq((x.contents, x.encoding, int(x)), (raw, bytes((g.TAGS[t],)) + raw, int.from_bytes(raw, "big", signed=signed)), f"{t} {v} {'<<' if left else '>>'} {k}")


_const = {}


def constant(ctx, case):
    t, c, v = case
    if (t, c) not in _const:
        class Const(getattr(cdt, g.CLASS[t]), value=c):
            """generated"""
        _const[(t, c)] = Const
    cls = _const[(t, c)]
    ctx.nt(c != v)
    raw = v.to_bytes(g.INTS[t][0], "big", signed=g.INTS[t][1])
    for arg in (v, str(v), bytes((g.TAGS[t],)) + raw, bytearray(raw)):
        if v == c:
            ctx.eq(int(cls(arg)), c, "constant")
        else:
            ctx.raises(lambda: cls(arg), F"constant {c} from {arg!r}")


import_all()
ENUMS = {}
FLAGS = {}
for _c in subclasses(cdt.CommonDataType):
    if getattr(_c, "ELEMENTS", None) and isinstance(_c.ELEMENTS, dict) and _c.TAG is not None:
        if issubclass(_c, cdt.FlagMixin):
            FLAGS[F"{_c.__module__}.{_c.__qualname__}"] = _c
        elif issubclass(_c, cdt.Enum):
            ENUMS[F"{_c.__module__}.{_c.__qualname__}"] = _c


BAUD = [300, 600, 1200, 2400, 4800, 9600, 19200, 38400, 57600, 115200]
""" Blue Book: comm_speed """


def enum_all():
    return ([n] for n in sorted(ENUMS))


def enums(ctx, case):
    """every declared enumeration of the package against every octet"""
    cls = ENUMS[case[0]]
    keys = {int.from_bytes(k, "big") for k in cls.ELEMENTS}
    ctx.nt(len(keys) > 1)
    first = cls()
    ctx.check(int(first) in keys, "default is not an element")
    names = {}
    for k, name in cls.ELEMENTS.items():
        names.setdefault(str(name), k)
    for v in range(256):
        raw = bytes((v,))
        enc = bytes(cls.TAG) + raw
        for arg in (v, str(v), enc, bytearray(raw)):
            if v in keys:
                x = cls(arg)
                ctx.eq((int(x), x.encoding, x.decode()), (v, enc, BAUD[v] if cls.__name__ == "CommSpeed" else v), F"{case[0]} from {arg!r}")
                ctx.check(isinstance(str(x), str), "str()")
            else:
                ctx.raises(lambda: cls(arg), F"{case[0]} from {arg!r}")
        y = cls()
        if cls.__name__ == "MechanismIdElementConst":   # not settable by design
            ctx.raises(lambda: y.set(v), "set of a constant")
            ctx.eq(y.encoding, first.encoding, "value after a rejected set")
        elif v in keys:
            shown = str(y), y.value, y.value2, int(y), y.decode(), hash(y)
            y.set(v)
            ctx.eq((int(y), y.value2, y.encoding, str(y), y.value), (v, v, enc, str(cls(v)), str(cls(v))), F"set after {shown}")
            match y:
                case cdt.Enum(value):
                    ctx.eq(value, v, "number in a match")
            n = str(cls.ELEMENTS[raw])
            if not n.isdigit() and names[n] == raw:
                ctx.eq(int(cls(n)), v, F"{case[0]} from its name {n!r}")
        else:
            ctx.raises(lambda: y.set(v), "set")
            ctx.eq(y.encoding, first.encoding, "value after a rejected set")
    for v in (-1, 256, 1000):
        ctx.raises(lambda: cls(v), F"{case[0]} from {v}")


TRUES, FALSES = ["1", "True", "true", "TRUE", "Правда", "Yes", "Да", "yes", "да"], ["0", "False", "false", "Ложь", "No", "Нет", "нет"]


def boolean(ctx, case):
    kind, v = case
    if kind == "str":
        ctx.nt()
        if v in TRUES:
            ctx.eq(cdt.Boolean(v).decode(), True, v)
        elif v in FALSES:
            ctx.eq(cdt.Boolean(v).decode(), False, v)
        elif v.title() and not any(w.startswith(v.title()) for w in ("True", "Правда", "Yes", "Да", "1", "False", "Ложь", "No", "Нет", "0")):
            ctx.raises(lambda: cdt.Boolean(v).encoding, F"Boolean({v!r})")
    else:
        ctx.nt(v not in (0, 1))
        for arg in (v, bytes((3, v & 0xff))):
            want = bool(v) if arg is v else bool(v & 0xff)
            x = cdt.Boolean(arg)
            ctx.eq((x.decode(), int(x), x.encoding), (want, int(want), bytes((3, int(want)))), F"Boolean({arg!r})")
        y = cdt.Boolean(v)
        y.clear()
        ctx.eq(y.decode(), False, "after clear")


tv = st.sampled_from(list(g.INTS)).flatmap(lambda t: st.tuples(st.just(t), around(t)))
tin = st.sampled_from(list(g.INTS)).flatmap(lambda t: st.tuples(st.just(t), g.ints(t)))
PROP = Prop(
    "C04",
    rule="integers in, at and beyond every type limit; generated min/max/constant subclasses; every declared enumeration against every octet (exhaustive); "
         "non-trivial: limits given / value other than 0 and 1 / enumeration of several elements",
    facets=[
        Facet("plain", tv, plain, quick=2500, thorough=40000),
        Facet("compare", st.one_of(st.tuples(tin, tin), tin.map(lambda c: (c, c)), tin.flatmap(lambda c: st.tuples(st.just(c), g.ints(c[0]).map(lambda v: [c[0], v])))),
              compare, quick=1500, thorough=15000),
        Facet("constrained", limit_case(), constrained, quick=2000, thorough=30000),
        Facet("constant", tin.flatmap(lambda c: st.tuples(st.just(c[0]), st.just(c[1]), st.one_of(st.just(c[1]), g.ints(c[0])))), constant, quick=600),
        Facet("shift", st.tuples(tin, st.booleans(), st.integers(0, 70)).map(lambda c: [*c[0], c[1], c[2]]), shift, quick=500),
        Facet("enums", None, enums, exhaustive=enum_all),
        Facet("boolean", st.one_of(st.tuples(st.just("str"), st.one_of(st.sampled_from(TRUES + FALSES), st.text(max_size=6))), st.tuples(st.just("int"), st.integers(-2, 600))),
              boolean, quick=800),
    ],
    assumptions=["a negative upper limit without a lower one has no default"])
