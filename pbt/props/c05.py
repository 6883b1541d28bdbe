import inspect
from hypothesis import strategies as st
from .. import fill, gens as g, util
from ..core import Prop, Facet
from .c01 import typed_class
from src.DLMS_SPODES.types import cdt


def py_value(spec):
    """a python value that the constructor takes, or None if there is none"""
    t, v = spec
    if t in g.INTS or t in ("enum", "bcd", "bool", "f32", "f64", "bits", "utf8"):
        return v
    if t == "octets":
        return v
    return None


def forms(spec):
    cls = getattr(cdt, g.CLASS[spec[0]])
    enc = g.ref_enc(spec)
    ret = [("encoding", enc), ("instance", cls(enc))]
    if spec[0] not in ("bits", "null"):
        ret.append(("contents", bytearray(g.ref_contents(spec))))
    if (v := py_value(spec)) is not None:
        ret.append(("python", v))
    return ret


def cleared(t, old):
    """contents spec after clear()"""
    if t in g.INTS or t == "bcd":
        return [t, 0]
    if t == "bool":
        return [t, False]
    if t in ("f32", "f64"):
        return [t, 0.0]
    if t == "bits":
        return [t, "0" * len(old[1])]
    if t == "octets" or t == "visible":
        return [t, ""]
    if t == "utf8":
        return [t, ""]
    if t in ("enum", "null"):
        return old
    return {"datetime": [t, "07e40101ff0000000000b4ff"], "date": [t, "07e4010103"], "time": [t, "00000000"]}[t]


def simple_history(ctx, case):
    first, ops = case
    t = first[0]
    cls = getattr(cdt, g.CLASS[t])
    inst = cls(g.ref_enc(first))
    cur = first
    witness = inst.copy()
    w_enc = g.ref_enc(first)
    log = []
    before = [None]
    veto = [False]

    def preset(v):
        log.append(("pre", v.encoding if isinstance(v, cdt.CommonDataType) else v, inst.encoding))
        if veto[0]:
            raise ValueError("veto")

    def post():
        log.append(("post", inst.encoding))
    inst.register_cb_preset(preset)
    inst.register_cb_post_set(post)
    ctx.nt(len(ops) > 1)
    for op, spec, k in ops:
        log.clear()
        old = g.ref_enc(cur)
        if op == "set":
            name, arg = (f := forms(spec))[k % len(f)]
            inst.set(arg)
            cur = spec
            ctx.eq(log, [("pre", g.ref_enc(spec), old), ("post", g.ref_enc(spec))], F"callbacks of set from {name}")
        elif op == "veto":
            veto[0] = True
            ctx.raises(lambda: inst.set(g.ref_enc(spec)), "set with a raising preset callback")
            veto[0] = False
            ctx.check(not any(it[0] == "post" for it in log), "post callback after a rejected set")
            ctx.label("veto")
        elif op == "bad":
            enc = g.ref_enc(spec)
            if t != "null":
                ctx.raises(lambda: inst.set(enc[:-1] if k % 2 and len(enc) > 1 else bytes((g.TAGS[t] ^ 1,)) + enc[1:]), "malformed encoding")
                ctx.eq(log, [], "callbacks of a rejected set")
            ctx.label("bad")
        elif op == "clear":
            inst.clear()
            cur = cleared(t, cur)
        elif op == "get_copy":
            c = inst.get_copy(g.ref_enc(spec))
            ctx.eq(c.encoding, g.ref_enc(spec), "get_copy")
            ctx.eq(log, [], "callbacks of the original at get_copy")
        ctx.eq(inst.encoding, g.ref_enc(cur), F"value after {op}")
        ctx.eq(witness.encoding, w_enc, "a copy follows the original")
    ctx.eq(cls(inst).encoding, g.ref_enc(cur), "instance from instance")


def mutate(inst, spec, new):
    """set the deepest first simple member; returns True if anything was changed"""
    if spec[0] in ("array", "structure"):
        for i, it in enumerate(spec[1]):
            if mutate(inst[i], it, new):
                return True
        return False
    if spec[0] in g.INTS:
        inst.set((spec[1] + 1) if spec[1] < g.int_range(spec[0])[1] else spec[1] - 1)
        return True
    if spec[0] == "octets":
        inst.set(spec[1] + "aa")
        return True
    if spec[0] == "bits":
        inst.set(spec[1] + "1")
        return True
    return False


def containers(ctx, case):
    sh, first, steps = case
    cls = typed_class(sh)
    inst = cls(g.ref_enc(first))
    cur = first
    ident = id(inst)
    ctx.nt(g.count(first) > 2)
    for op, spec in steps:
        enc = g.ref_enc(spec)
        if op == "set":
            inst.set(enc)
            cur = spec
        elif op == "instance":
            inst.set(cls(enc))
            cur = spec
        elif op == "sequence":
            inst.set([m for m in cls(enc)] if spec[0] == "array" else list(cls(enc)))
            cur = spec
        elif op == "cut":
            ctx.raises(lambda: inst.set(enc[:-1]), "cut encoding") if len(enc) > 2 and not only_null_tail(spec) else None
            ctx.label("rejected")
        elif op == "tag":
            ctx.raises(lambda: inst.set(b"\x09" + enc[1:]), "wrong tag")
            ctx.label("rejected")
        elif op == "copy":
            c = inst.copy()
            ctx.check(type(c) is type(inst), "type of a copy")
            ctx.eq(c.encoding, g.ref_enc(cur), "copy")
            if mutate(c, cur, None):
                ctx.label("copy_mutated")
                ctx.check(c.encoding != g.ref_enc(cur), "mutation is not visible")
        elif op == "built":
            src = cls(enc)
            inst = cls(src)
            cur = spec
            mutate(src, spec, None)
        elif op == "source":
            src = cls(enc)
            inst.set(src)
            cur = spec
            mutate(src, spec, None)
        ctx.eq(inst.encoding, g.ref_enc(cur), F"value after {op}")
    ctx.check(cls.TYPE is typed_class(sh[1]) if sh[0] == "array" else True, "element type")


def only_null_tail(spec):
    return False


def free_containers(ctx, case):
    """values whose member types are known from the received octets only"""
    a, b, good = case
    inst = cdt.get_common_data_type_from(g.ref_enc(a))(g.ref_enc(a))
    same = [it[0] for it in a[1]] == [it[0] for it in b[1]]
    ctx.nt(bool(a[1]) and bool(b[1]))
    ctx.label("same_types" if same else "other_types")
    if a[0] == "structure":
        if same:
            inst.set(g.ref_enc(b))
            ctx.eq(inst.encoding, g.ref_enc(b), "after set")
        else:
            ctx.raises(lambda: inst.set(g.ref_enc(b)), "structure of other types")
            ctx.eq(inst.encoding, g.ref_enc(a), "after rejected set")
    else:
        ok = not a[1] or not b[1] or a[1][0][0] == b[1][0][0]
        if ok:
            inst.set(g.ref_enc(b))
            ctx.eq(inst.encoding, g.ref_enc(b), "after set")
        else:
            ctx.raises(lambda: inst.set(g.ref_enc(b)), "array of other type")
            ctx.eq(inst.encoding, g.ref_enc(a), "after rejected set")
    now = inst.encoding
    spec = b if now == g.ref_enc(b) else a
    for other in (inst.__class__(inst), inst.copy()):
        ctx.eq(other.encoding, now, "value made of a value")
        ctx.label("apart", mutate(other, spec, None))
        ctx.eq(inst.encoding, now, "value after a change of one made of it")


def paths(spec, at=()):
    """places of simple members that are in structures only"""
    if spec[0] == "structure":
        for i, it in enumerate(spec[1]):
            yield from paths(it, (*at, i))
    elif spec[0] != "array":
        yield at


@st.composite
def veto_cases(draw):
    def shape(depth):
        one = st.sampled_from([x for x in g.SIMPLE if x != "null"]).map(lambda t: t)
        return ["structure", [draw(one) if depth == 0 or draw(st.integers(0, 3)) else draw(st.sampled_from([["array", "u8"], None])) or shape(depth - 1)
                              for _ in range(draw(st.integers(1, 4)))]]
    sh = shape(2)
    return [draw(g.value_of(sh)), draw(g.value_of(sh)), draw(st.integers(0, 50)), draw(st.booleans())]


def member_veto(ctx, case):
    """a member which refuses its new value keeps the whole structure as it was"""
    a, b, k, later = case
    where = list(paths(a))
    if not where:
        return
    inst = cdt.Structure(g.ref_enc(a))
    at = where[k % len(where)]
    member = inst
    for i in at:
        member = member[i]

    def preset(v):
        raise ValueError("veto")
    member.register_cb_preset(preset)
    old = g.ref_enc(a)
    ctx.raises(lambda: inst.set(g.ref_enc(b)), "set with a refusing member", ValueError)
    ctx.eq(inst.encoding, old, "after the refused set")
    m = inst
    for i in at:
        m = m[i]
    ctx.check(m is member, "the member is the same")
    ctx.raises(lambda: inst.set(g.ref_enc(b)), "the member refuses again", ValueError)
    member.register_cb_preset(lambda v: None)
    inst.set(g.ref_enc(b))
    ctx.eq(inst.encoding, g.ref_enc(b), "after the accepted set")
    ctx.nt(at != (0,))
    ctx.label("nested", len(at) > 1)


util.import_all()


def concrete(c):
    if "<locals>" in c.__qualname__ or inspect.isabstract(c) or c in (cdt.Structure, cdt.Enum):
        return False
    try:
        c()
        return True
    except ValueError:    # without a default value
        return False


DECLARED = {F"{c.__module__}.{c.__qualname__}": c for c in util.subclasses(cdt.CommonDataType) if concrete(c)}


@st.composite
def declared(draw):
    k = draw(st.sampled_from(sorted(DECLARED)))
    return [k, draw(fill.enc(DECLARED[k])).hex(), draw(fill.enc(DECLARED[k])).hex()]


def clearing(ctx, case):
    """a value of a declared type after clear() is a value of this type still, whatever it was before"""
    k, a, b = case
    c = DECLARED[k]
    try:
        x, y = c(bytes.fromhex(a)), c(bytes.fromhex(b))
    except ValueError:
        ctx.label("no value of the type")
        return
    bits = issubclass(c, cdt.BitString)
    before = x.encoding
    x.clear()
    ctx.nt(x.encoding != before)
    now = x.encoding
    ctx.eq(c(now).encoding, now, "the cleared value belongs to its type")
    x.clear()
    ctx.eq(x.encoding, now, "cleared twice")
    if not issubclass(c, cdt.Structure) and not issubclass(c, cdt.Enum) and not bits:
        y.clear()
        ctx.eq(y.encoding, now, "cleared from another value")
    if any(m.__name__ == "ConstantMixin" for m in c.__mro__):
        ctx.raises(lambda: x.set(bytes.fromhex(a)), "set of a constant", AttributeError)
        ctx.eq(x.encoding, now, "a constant")
        return
    x.set(bytes.fromhex(a))
    ctx.eq(x.encoding, c(bytes.fromhex(a)).encoding, "set afterwards")


def same_type_ops(t):
    s = g.simple(t)
    return st.tuples(s, st.lists(st.tuples(st.sampled_from(["set", "set", "veto", "bad", "clear", "get_copy"]), s, st.integers(0, 7)), min_size=1, max_size=6))


shapes = st.one_of(st.lists(g.shape(1), min_size=1, max_size=4).map(lambda s: ["structure", s]), g.shape(1).map(lambda s: ["array", s]))
flat = st.lists(g.any_simple(), max_size=4)


@st.composite
def free_case(draw):
    if draw(st.booleans()):
        tt = draw(st.lists(st.sampled_from(g.SIMPLE), max_size=4))
        a = ["structure", [draw(g.simple(t)) for t in tt]]
        if draw(st.booleans()):
            return [a, ["structure", [draw(g.simple(t)) for t in tt]], True]
        if tt and draw(st.booleans()):      # one member is absent
            n = draw(st.integers(0, len(tt) - 1))
            return [a, ["structure", [["null", None] if i == n else draw(st.one_of(st.just(v), g.simple(v[0]))) for i, v in enumerate(a[1])]], False]
        return [a, ["structure", draw(flat)], False]
    t = draw(st.sampled_from([x for x in g.SIMPLE if x != "null"]))
    u = draw(st.sampled_from([t, t, "u8", "octets"]))
    return [["array", draw(st.lists(g.simple(t), max_size=4))], ["array", draw(st.lists(g.simple(u), max_size=4))], True]


PROP = Prop(
    "C05",
    rule="histories of set (from python value, encoding, contents, instance), rejected set, vetoed set, clear and copy against the last accepted value; "
         "non-trivial: more than one step / container of several members",
    facets=[
        Facet("simple_history", st.sampled_from(g.SIMPLE).flatmap(same_type_ops), simple_history, quick=1500, thorough=30000),
        Facet("containers", shapes.flatmap(lambda sh: st.tuples(st.just(sh), g.value_of(sh), st.lists(
            st.tuples(st.sampled_from(["set", "instance", "sequence", "cut", "tag", "copy", "source", "built"]), g.value_of(sh)), min_size=1, max_size=5))), containers, quick=900, thorough=15000),
        Facet("free_containers", free_case(), free_containers, quick=800, thorough=8000),
        Facet("clearing", declared(), clearing, quick=700, thorough=20000, examples=[[k, c().encoding.hex(), c().encoding.hex()] for k, c in DECLARED.items()]),
        Facet("member_veto", veto_cases(), member_veto, quick=500, thorough=10000),
    ])
