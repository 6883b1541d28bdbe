import functools
from hypothesis import strategies as st
from .. import gens as g, util
from ..core import Prop, Facet
from .c01 import typed_class
from src.DLMS_SPODES.types import cdt

_unique_cls = {}


def get_cls(sh, unique):
    k = (repr(sh), unique)
    if k not in _unique_cls:
        _unique_cls[k] = type("Arr", (cdt.Array,), {"TYPE": typed_class(sh), "unique": unique})
    return _unique_cls[k]


def default_enc(sh):
    return typed_class(sh)().encoding


def elem(sh, spec):
    return typed_class(sh)(g.ref_enc(spec))


def history(ctx, case):
    sh, unique, dynamic, ops = case
    cls = get_cls(sh, unique)
    inst = cdt.Array(type_=typed_class(sh)) if dynamic and not unique else cls()
    model: list[bytes] = []
    alien = cdt.OctetString("0102") if sh != "octets" else cdt.Unsigned(3)
    for op, spec, k in ops:
        enc = g.ref_enc(spec)
        dup = unique and enc in model
        i = k % (len(model) + 1)
        if op == "append":
            if dup:
                ctx.label("duplicate")
                ctx.raises(lambda: inst.append(elem(sh, spec)), "append of a duplicate")
            else:
                inst.append(elem(sh, spec))
                model.append(enc)
        elif op == "append_raw":
            if dup:
                ctx.raises(lambda: inst.append(enc), "append of a duplicate encoding")
            else:
                inst.append(enc)
                model.append(enc)
        elif op == "append_default":
            d = default_enc(sh)
            if unique and d in model:
                ctx.raises(lambda: inst.append(), "append of a duplicate default")
            else:
                inst.append()
                model.append(d)
        elif op == "append_alien":
            if sh != "null":
                ctx.raises(lambda: inst.append(alien.encoding), "append of other type")
        elif op == "insert":
            if dup:
                ctx.label("duplicate")
                ctx.raises(lambda: inst.insert(i, elem(sh, spec)), "insert of a duplicate")
            else:
                inst.insert(i, elem(sh, spec))
                model.insert(i, enc)
        elif op == "pop":
            if model:
                ctx.eq(inst.pop().encoding, model.pop(), "pop()")
            else:
                ctx.raises(inst.pop, "pop of an empty array")
        elif op == "pop_at":
            if model:
                i = k % len(model)
                ctx.eq(inst.pop(i).encoding, model.pop(i), F"pop({i})")
        elif op == "remove":
            if model:
                e = model[k % len(model)]
                inst.remove(typed_class(sh)(e))
                model.remove(e)
        elif op == "clear":
            inst.clear()
            model.clear()
        elif op == "reload":
            inst = cls(b"\x01" + g.ref_len(len(model)) + b"".join(model))
        elif op == "set":
            new = model[::-1]
            if k % 3 == 0 and unique and model:
                bad = b"\x01" + g.ref_len(len(model) + 1) + b"".join(new + [model[0]])
                ctx.label("duplicate")
                ctx.raises(lambda: inst.set(bad), "set with duplicates")
                ctx.raises(lambda: cls(bad), "construct with duplicates")
            else:
                inst.set(b"\x01" + g.ref_len(len(model)) + b"".join(new))
                model = new
        elif op == "copy":
            c = inst.copy()
            c.append(enc) if not dup else c.clear()
        ctx.eq([e.encoding for e in inst], model, F"elements after {op}")
        ctx.eq(len(inst), len(model), "length")
        ctx.eq(inst.encoding, b"\x01" + g.ref_len(len(model)) + b"".join(model), "encoding")
        ctx.check(all(type(e) is typed_class(sh) for e in inst), "type of elements")
        if model:
            ctx.eq(inst[k % len(model)].encoding, model[k % len(model)], "index")
        ctx.check(inst.get_type() is typed_class(sh), "type of array")
        ctx.nt(len(model) > 1)
    ctx.label("unique", unique)


def structure(ctx, case):
    sh, spec, other, ops = case
    cls = typed_class(sh)
    n = len(sh[1])
    model = [g.ref_enc(m) for m in spec[1]]
    inst = cls(b"\x02" + g.ref_len(n) + b"".join(model))
    ctx.nt(n > 1)
    ctx.eq([e.NAME for e in cls.ELEMENTS], [F"e{i}" for i in range(n)], "names in the declared order")
    for op, k in ops:
        i = k % n
        enc = g.ref_enc(other[1][i])
        if op == "item":
            inst[i] = typed_class(sh[1][i])(enc)
            model[i] = enc
        elif op == "member_set":
            getattr(inst, F"e{i}").set(enc)
            model[i] = enc
        elif op == "index_set":
            inst[i].set(enc)
            model[i] = enc
        elif op == "alien":
            t = sh[1][i]
            alien = cdt.OctetString("01") if t != "octets" else cdt.Unsigned(1)
            def assign(): inst[i] = alien
            ctx.raises(assign, "assignment of a member of other type")
        elif op == "attribute":
            ctx.raises(lambda: setattr(inst, F"e{i}", typed_class(sh[1][i])(enc)), "assignment of an attribute")
        elif op == "short":
            ctx.raises(lambda: cls([inst[j] for j in range(n - 1)]), "sequence shorter than the structure")
            ctx.raises(lambda: cls([inst[j] for j in range(n)] + [inst[0]]), "sequence longer than the structure")
        elif op == "set_whole":
            inst.set(g.ref_enc(other))
            model = [g.ref_enc(m) for m in other[1]]
        elif op == "decode":
            ctx.eq(cls(bytearray(b"".join(model))).encoding, inst.encoding, "from contents")
            ctx.eq(cls(inst).encoding, inst.encoding, "from instance")
        ctx.eq([m.encoding for m in inst], model, F"members after {op}")
        ctx.eq([getattr(inst, F"e{j}").encoding for j in range(n)], model, "members by name")
        ctx.eq(inst.encoding, b"\x02" + g.ref_len(n) + b"".join(model), "encoding")
        ctx.eq(len(inst), n, "length")
    default = cls()
    ctx.eq([type(m) for m in default], [typed_class(s) for s in sh[1]], "types of the default structure")
    ctx.eq(default.encoding, b"\x02" + g.ref_len(n) + b"".join(default_enc(s) for s in sh[1]), "default structure")


@functools.lru_cache(None)
def declared():
    """{name: class} of all arrays and structures of the package with members of a narrower type than their tag"""
    util.import_all()
    ret = {}
    for c in util.subclasses(cdt.Structure) + util.subclasses(cdt.Array):
        if c.__module__.startswith("src.") and not getattr(c, "__abstractmethods__", None) and narrow(c):
            ret.setdefault(F"{c.__module__.removeprefix('src.DLMS_SPODES.')}:{c.__qualname__}", c)
    return ret


def base_of(t):
    """the common type of the tag"""
    if isinstance(t, type) and issubclass(t, cdt.SimpleDataType) and t.TAG is not None:
        b = cdt.get_common_data_type_from(bytes(t.TAG))
        if b is not t and issubclass(t, b):
            return b


def narrow(c):
    types = [e.TYPE for e in getattr(c, "ELEMENTS", None) or ()] if issubclass(c, cdt.Structure) else [c.TYPE]
    return [i for i, t in enumerate(types) if base_of(t)]


def narrower(ctx, case):
    """a value of the common type of the tag is not a member of the declared, narrower type"""
    name, k, raw = case
    c = declared()[name]
    i = narrow(c)[k % len(narrow(c))]
    array = issubclass(c, cdt.Array)
    t = c.TYPE if array else c.ELEMENTS[i].TYPE
    b = base_of(t)
    try:
        inst = c()
        own = t()
        alien = b(own.encoding) if raw is None else b(bytearray.fromhex(raw))
    except Exception:
        ctx.label("no value")
        return
    ctx.nt(True)
    if array:
        try:
            inst.append(t(own.encoding))
        except Exception:
            ctx.label("no value")
            return
    before = [(type(m), m.encoding) for m in inst]

    def put():
        if array:
            inst.insert(0, alien)
        else:
            inst[i] = alien
    try:
        put()
    except Exception:
        pass
    else:
        ctx.check(array, F"assignment of {b.__name__} to a member declared {t.__name__}")
    ctx.eq([(type(m), m.encoding) for m in inst], before, "members after the alien one")
    if array:
        try:
            inst.append(alien)
        except Exception:
            pass
        ctx.check(all(isinstance(m, t) for m in inst), "type of appended element")


def retype(ctx, case):
    t1, vals1, t2, vals2 = case
    inst = cdt.Array([getattr(cdt, g.CLASS[t1])(g.ref_enc(v)) for v in vals1], type_=getattr(cdt, g.CLASS[t1]))
    ctx.nt(t1 != t2)
    ctx.eq([e.encoding for e in inst], [g.ref_enc(v) for v in vals1], "array from list")
    inst.set_type(getattr(cdt, g.CLASS[t2]))
    ctx.eq((len(inst), inst.encoding), (0, b"\x01\x00"), "after set_type")
    for v in vals2:
        inst.append(g.ref_enc(v))
    ctx.eq([e.encoding for e in inst], [g.ref_enc(v) for v in vals2], "elements of the new type")
    if t1 != t2 and vals1:
        ctx.raises(lambda: inst.append(g.ref_enc(vals1[0])), "element of the former type")
    e = inst.copy()
    e.clear()
    f = e.copy()
    for v in vals2:
        f.append(g.ref_enc(v))
    ctx.eq(f.encoding, inst.encoding, "an emptied copy takes elements of the same type")


def untyped(ctx, case):
    """an array which learns the type of its elements from the first data it gets"""
    inst, typ, model = cdt.Array(), None, []
    ctx.nt(any(v for _, v, _ in case) and len(case) > 1)
    for t, vals, form in case:
        e = b"\x01" + bytes((len(vals),)) + b"".join(map(g.ref_enc, vals))
        value = [e, [getattr(cdt, g.CLASS[t])(g.ref_enc(v)) for v in vals], cdt.Array(e)][form if typ or not vals else form % 2 * 2]
        ctx.label("empty", not vals)
        if not vals or typ in (None, t):
            if vals:
                typ = t
            model = [g.ref_enc(v) for v in vals]
            inst.set(value)
        else:
            ctx.label("alien")
            ctx.raises(lambda: inst.set(e), "elements of another type")
        ctx.eq([x.encoding for x in inst], model, "elements")
        ctx.eq(inst.encoding, b"\x01" + bytes((len(model),)) + b"".join(model), "encoding")
        ctx.eq(inst.copy().encoding, inst.encoding, "copy")
        if typ:
            ctx.check(inst.get_type() is getattr(cdt, g.CLASS[typ]), "type of elements")


class Once(cdt.Array):
    """different elements of a type that is learned"""
    unique = True


def once(ctx, case):
    """a refused array teaches nothing: the type of elements is still free"""
    t1, vals1, t2, vals2 = case
    inst = Once()
    for v in (vals1 + vals1[:1], vals1[:1] * 2):
        e = b"\x01" + bytes((len(v),)) + b"".join(map(g.ref_enc, v))
        ctx.raises(lambda: inst.set(e), "element twice", ValueError)
        ctx.eq(inst.encoding, b"\x01\x00", "after a refused set")
    model = []
    for v in vals2:
        if g.ref_enc(v) not in model:
            model.append(g.ref_enc(v))
    inst.set(b"\x01" + bytes((len(model),)) + b"".join(model))
    ctx.eq([x.encoding for x in inst], model, "elements of another type")
    ctx.nt(t1 != t2)


OPS = ["append", "append", "append", "append_raw", "append_default", "append_alien", "insert", "pop", "pop_at", "remove", "clear", "reload", "set", "copy"]
nonnull = [t for t in g.SIMPLE if t not in ("null", "enum", "utf8")]


@st.composite
def hist_case(draw):
    sh = draw(st.one_of(st.sampled_from(nonnull), st.lists(st.sampled_from(nonnull), min_size=1, max_size=3).map(lambda s: ["structure", s])))
    pool = draw(st.lists(g.value_of(sh), min_size=1, max_size=5))
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.sampled_from(pool), st.integers(0, 10)), min_size=1, max_size=12))
    return [sh, draw(st.booleans()), draw(st.booleans()), ops]


st_shape = st.lists(st.one_of(st.sampled_from(nonnull), g.shape(1)), min_size=1, max_size=10).filter(lambda s: "enum" not in repr(s)).map(lambda s: ["structure", s])
simple_nn = st.sampled_from(nonnull)
PROP = Prop(
    "C06",
    rule="operation sequences on arrays (with few distinct elements, unique and not) against a list of encodings, and on declared structures of 1..10 members; non-trivial: two elements or members at the end",
    facets=[
        Facet("history", hist_case(), history, quick=1500, thorough=30000),
        Facet("structure", st_shape.flatmap(lambda sh: st.tuples(st.just(sh), g.value_of(sh), g.value_of(sh), st.lists(st.tuples(st.sampled_from(
            ["item", "member_set", "index_set", "alien", "attribute", "short", "set_whole", "decode"]), st.integers(0, 20)), min_size=1, max_size=6))), structure, quick=800, thorough=10000),
        Facet("narrower", st.deferred(lambda: st.tuples(st.sampled_from(sorted(declared())), st.integers(0, 20), st.one_of(st.none(), st.binary(max_size=8).map(bytes.hex)))), narrower, quick=600, thorough=5000),
        Facet("retype", st.tuples(simple_nn, simple_nn).flatmap(lambda tt: st.tuples(st.just(tt[0]), st.lists(g.simple(tt[0]), max_size=4), st.just(tt[1]), st.lists(g.simple(tt[1]), max_size=4))),
              retype, quick=400, thorough=4000),
        Facet("once", st.tuples(simple_nn, simple_nn).flatmap(lambda tt: st.tuples(st.just(tt[0]), st.lists(g.simple(tt[0]), min_size=1, max_size=3), st.just(tt[1]), st.lists(g.simple(tt[1]), min_size=1, max_size=3))), once, quick=200, thorough=2000),
        Facet("untyped", st.lists(simple_nn.flatmap(lambda t: st.tuples(st.just(t), st.lists(g.simple(t), max_size=3), st.integers(0, 2))), min_size=1, max_size=5), untyped, quick=300, thorough=3000),
    ])
