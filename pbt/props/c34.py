"""views of the objects: pattern of logical names, filter, order, tree of objects, tree of attributes"""
import random
from hypothesis import strategies as st
from ..core import Prop, Facet
from src.DLMS_SPODES.types import cdt, cst
from src.DLMS_SPODES.types.cosemClassID import CosemClassId
from src.DLMS_SPODES.cosem_interface_classes import collection as col
from src.DLMS_SPODES.obis import media_id
from src.DLMS_SPODES.relation_to_OBIS import get_name
from .c30 import POOL, LDN
from .c31 import association, ENTRIES, rights
from .c35 import CLASSES, KEYS

MEDIA = [(media_id.ABSTRACT, (0,)), (media_id.ELECTRICITY, (1,)), (media_id.HCA, (4,)), (media_id.THERMAL, (5, 6)), (media_id.GAS, (7,)), (media_id.WATER, (8, 9)), (media_id.OTHER_MEDIA, (15,))]
A = [0, 1, 4, 5, 6, 7, 8, 9, 15]
USUAL = [p[0] for p in POOL]


def medium_of(a):
    return next(i for i, (_, v) in enumerate(MEDIA) if a in v)


# ---- pattern
octet = st.one_of(st.sampled_from([0, 1, 2, 10, 99, 100, 254, 255]), st.integers(0, 255))


def entry():
    """[number] or [first, last] of a set"""
    return st.one_of(st.tuples(octet), st.tuples(octet, octet)).map(list)


def part(i):
    return st.one_of(st.just(["skip"]), octet.map(lambda v: ["value", v]),
                     st.lists(entry(), min_size=1, max_size=4).map(lambda e: ["set", e]))


@st.composite
def patterns(draw, amount=st.integers(1, 6)):
    n = draw(amount)
    return [draw(part(i)) for i in range(n)], draw(st.booleans()), draw(st.booleans())


def text_of(pat):
    parts, spaces, nested = pat
    ret = []
    for i, p in enumerate(parts):
        if p[0] == "skip":
            ret.append("abcdef"[i])
        elif p[0] == "value":
            ret.append(str(p[1]))
        else:
            els = ["-".join(map(str, e)) for e in p[1]]
            if nested:
                els = [F"({e})" if "-" in e else e for e in els]
            ret.append("(" + (", " if spaces else ",").join(els) + ")")
    return ".".join(ret)


def within(pat, ln):
    for p, v in zip(pat[0], ln):
        if p[0] == "value" and p[1] != v:
            return False
        if p[0] == "set" and not any(e[0] <= v <= e[-1] for e in p[1]):
            return False
    return True


def near(pat):
    """logical names around the border of the pattern"""
    def one(p):
        if p[0] == "skip":
            return octet
        base = [p[1]] if p[0] == "value" else [x for e in p[1] for x in e]
        inner = [(e[0] + e[-1]) // 2 for e in p[1]] if p[0] == "set" else base
        return st.one_of(st.sampled_from(base + inner), st.sampled_from(base + inner), st.sampled_from(base).flatmap(lambda b: st.sampled_from([max(b - 1, 0), min(b + 1, 255)])), octet)
    return st.tuples(*[one(p) for p in pat[0]], *[octet] * (6 - len(pat[0]))).map(list)


def pattern_cases():
    return patterns().flatmap(lambda p: st.tuples(st.just(list(p)), st.lists(near(p), min_size=1, max_size=8)).map(list))


def _pattern(ctx, case):
    pat, lns = case
    t = text_of(pat)
    p = col.LNPattern(t)
    got = []
    for ln in lns:
        name = cst.LogicalName(bytearray(ln))
        want = within(pat, ln)
        ctx.eq(p == name, want, f"{ln} in {t}")
        ctx.eq(name in (p,), want, f"{ln} in ({t},)")
        got.append(want)
    ctx.nt(True in got and any(p[0] != "skip" for p in pat[0]))
    ctx.label("both", len(set(got)) == 2)


BAD = ["", "256", "-1", "0.256", "(", ")", "()", "(1,)", "(1-2-3)", "(256)", "(1-256)", "(-1)", "(1-)", "b", "a.a", "a.b.c.d.e.g", "g", "x", "1.2.3.4.5.6.7", "a..c", "A", "aa", "1.0x2", "(1;2)", "(a)", "1,2", "(1,2", "1)", "a.b.c.d.e.f.", "1. 2", "(1..3)", "+1", "1.5e1", "( )", "(1-2,,3)"]


def _bad_pattern(ctx, case):
    ctx.raises(lambda: col.LNPattern(case[0]), f"pattern {case[0]!r}", ValueError)
    ctx.nt(True)


@st.composite
def bad_patterns(draw):
    """one broken part in a good pattern"""
    parts, sp, ne = draw(patterns(st.just(6)))
    ts = text_of([parts, sp, ne])
    ts = [text_of([parts[:i] + [p], sp, ne]).split(".")[-1] for i, p in enumerate(parts)]
    i = draw(st.integers(0, 5))
    num = draw(st.integers(256, 9999))
    ts[i] = draw(st.sampled_from([str(num), F"({num})", F"(1-{num})", F"({num}-1)", F"(1,{num})", "()", "", "(1", "2)", "g", "-3", "(1-2-3)", "(x)", "badcfe"[i], "1 2"]))
    return [".".join(ts)]


# ---- objects
def lname():
    return st.one_of(st.sampled_from(USUAL).map(list), st.tuples(st.sampled_from(A), st.sampled_from([0, 0, 1, 64]), st.sampled_from([0, 1, 2, 21, 41, 96, 98, 99, 255]) | octet, octet, st.sampled_from([0, 1, 10, 255]), st.sampled_from([0, 255])).map(list))


def objects(n=14):
    return st.lists(st.tuples(st.integers(0, len(KEYS) - 1), lname()).map(list), min_size=1, max_size=n, unique_by=lambda o: tuple(o[1]))


def make(objs):
    return [CLASSES[KEYS[k]](cst.LogicalName(bytearray(ln))) for k, ln in objs]


def key_of(draw, objs):
    kind = draw(st.sampled_from(["class", "medium", "group", "pattern"]))
    if kind == "class":
        return [kind, draw(st.sampled_from([int(CLASSES[KEYS[k]].CLASS_ID) for k, _ in objs]) | st.sampled_from([1, 3, 7, 15, 99]))]
    if kind == "medium":
        return [kind, draw(st.sampled_from([medium_of(ln[0]) for _, ln in objs]) | st.integers(0, len(MEDIA) - 1))]
    if kind == "group":
        return [kind, draw(st.sampled_from([ln for _, ln in objs]) | lname())]
    p = list(draw(patterns()))
    if draw(st.booleans()):   # of some object
        ln = draw(st.sampled_from([ln for _, ln in objs]))
        p[0] = [["value", ln[i]] if x[0] == "value" else (["set", x[1] + [[ln[i]]]] if x[0] == "set" else x) for i, x in enumerate(p[0])]
    return [kind, p]


@st.composite
def filter_cases(draw):
    objs = draw(objects())
    return [objs, [key_of(draw, objs) for _ in range(draw(st.integers(0, 4)))]]


def real_keys(keys):
    ret = []
    for kind, v in keys:
        ret.append(CosemClassId(v) if kind == "class" else MEDIA[v][0] if kind == "medium" else col.get_relation_group(cst.LogicalName(bytearray(v))) if kind == "group" else col.LNPattern(text_of(v)))
    return tuple(ret)


def kind_of(k):
    """a group of no relation is the medium itself"""
    if k[0] == "group":
        g = col.get_relation_group(cst.LogicalName(bytearray(k[1])))
        for i, (m, _) in enumerate(MEDIA):
            if g is m or type(g) is type(m):
                return ["medium", i]
    return k


def model_filter(objs, keys):
    """indexes of objects"""
    by = {}
    for k in map(kind_of, keys):
        by.setdefault(k[0], []).append(k[1])
    ret = []
    for n, (k, ln) in enumerate(objs):
        if "class" in by and int(CLASSES[KEYS[k]].CLASS_ID) not in by["class"]:
            continue
        if "medium" in by and medium_of(ln[0]) not in by["medium"]:
            continue
        if "group" in by and type(col.get_relation_group(cst.LogicalName(bytearray(ln)))) not in [type(col.get_relation_group(cst.LogicalName(bytearray(x)))) for x in by["group"]]:
            continue
        if "pattern" in by and not any(within(p, ln) for p in by["pattern"]):
            continue
        ret.append(n)
    return ret


def _filter(ctx, case):
    objs, keys = case
    os_ = make(objs)
    index = {id(o): i for i, o in enumerate(os_)}
    got = col.get_filtered(os_, real_keys(keys))
    want = model_filter(objs, keys)
    ctx.eq([index[id(o)] for o in got], want, f"filtered {keys}")
    ctx.eq(len(os_), len(objs), "given objects")
    ctx.nt(0 < len(want) < len(objs))
    ctx.label("kinds", len({k[0] for k in keys}) > 1)
    for cid in {int(o.CLASS_ID) for o in os_}:
        ctx.eq([index[id(o)] for o in col.class_id_filter(os_, CosemClassId(cid))], [i for i, (k, _) in enumerate(objs) if int(CLASSES[KEYS[k]].CLASS_ID) == cid], "class filter")
    for m, values in MEDIA:
        ctx.eq([index[id(o)] for o in col.media_id_filter(os_, m)], [i for i, (_, ln) in enumerate(objs) if ln[0] in values], f"filter of {m.__class__.__name__}")


def sort_key(mode, o):
    k, ln = o
    return tuple(bytes(ln) if c == "l" else get_name(cst.LogicalName(bytearray(ln))) if c == "n" else int(CLASSES[KEYS[k]].CLASS_ID) for c in mode)


SORT = ["", "l", "n", "c", "cl", "cn", "nc", "lc", "nl", "cnl"]


def _sort(ctx, case):
    objs, mode = case
    os_ = make(objs)
    index = {id(o): i for i, o in enumerate(os_)}
    got = [index[id(o)] for o in col.get_sorted(os_, mode)]
    want = sorted(range(len(objs)), key=lambda i: sort_key(mode, objs[i]))
    ctx.eq(got, want, f"order by {mode!r}")
    ctx.eq([index[id(o)] for o in os_], list(range(len(objs))), "given list")
    ctx.nt(want != list(range(len(objs))))
    ctx.raises(lambda: col.get_sorted(os_, mode + "x"), "unknown mode", KeyError)


TREE = ["m", "g", "c", "mc", "cm", "gm", "gc", "cg", "mg", "gmc", "mgc", "cgm"]


def label_of(c, o):
    k, ln = o
    name = cst.LogicalName(bytearray(ln))
    if c == "c":
        return "c", int(CLASSES[KEYS[k]].CLASS_ID)
    return (c, type(MEDIA[medium_of(ln[0])][0]).__name__) if c == "m" else (c, type(col.get_relation_group(name)).__name__)


def real_label(c, k):
    return ("c", int(k)) if c == "c" else (c, type(k).__name__)


def model_tree(objs, mode, leaf):
    """last letter is the outer level"""
    if not mode:
        return leaf(objs)
    ret = {}
    for n, o in objs:
        ret.setdefault(label_of(mode[-1], o), []).append((n, o))
    ret = {k: model_tree(v, mode[:-1], leaf) for k, v in ret.items()}
    return {k: v for k, v in ret.items() if v}


def real_tree(ctx, t, mode, leaf):
    if not mode:
        return leaf(t)
    ctx.check(isinstance(t, dict), f"level {mode}: {t!r}")
    ret = {real_label(mode[-1], k): real_tree(ctx, v, mode[:-1], leaf) for k, v in t.items()}
    ctx.eq(len(ret), len(t), "distinct groups")
    return ret


def _tree(ctx, case):
    objs, mode, kind = case
    os_ = make(objs)
    index = {id(o): i for i, o in enumerate(os_)}
    got = real_tree(ctx, col.get_object_tree(tuple(os_) if kind else os_, mode), mode, lambda v: [index[id(o)] for o in v])
    want = model_tree(list(enumerate(objs)), mode, lambda v: [n for n, _ in v])
    ctx.eq(got, want, f"tree {mode}")
    ctx.nt(len(want) > 1 and len(mode) > 1)
    ctx.raises(lambda: col.get_object_tree(os_, "x" + mode), "unknown mode", KeyError)


def many(n, s):
    """n objects of different names as a device has them"""
    rnd = random.Random(s)
    few = [[rnd.randrange(256) for _ in range(6)] for _ in range(3)]
    names = set()
    while len(names) < n:
        names.add((rnd.choice([0, 1, 1]), rnd.choice([0, 0, few[0][1]]), rnd.choice([few[0][2], few[1][2], rnd.randrange(256)]), rnd.choice([7, 8, few[0][3]]), rnd.randrange(256), 255))
    ks = [rnd.randrange(len(KEYS)) for _ in range(2)]
    return [[rnd.choice([*ks, ks[0], rnd.randrange(len(KEYS))]), list(x)] for x in sorted(names, key=lambda x: rnd.random())]


def _many(ctx, case):
    n, s, mode, sort = case
    objs = many(n, s)
    _tree(ctx, [objs, mode, s % 2])
    _sort(ctx, [objs, sort])
    first = objs[0]
    _filter(ctx, [objs, [["class", int(CLASSES[KEYS[first[0]]].CLASS_ID)]]])
    _filter(ctx, [objs, [["medium", medium_of(first[1][0])], ["group", first[1]]]])


# ---- tree of attributes
@st.composite
def attr_cases(draw):
    ks = draw(st.lists(st.integers(0, len(ENTRIES) - 1), min_size=1, max_size=8, unique_by=lambda k: ENTRIES[k][0]))
    kind = draw(st.integers(0, 3))   # objects without any right are frequent
    els = []
    for k in ks:
        o = draw(st.integers(0, 3))
        els.append([k, [[i, draw(st.sampled_from([[0], [0, 1], [0, 2], [0, 1, 2, 3]][o])), None] for i in range(1, 20)], []])
    keys = [key_of(draw, [[0, list(ENTRIES[k][0])] for k in ks]) for _ in range(draw(st.sampled_from([0, 0, 1, 2])))]
    return [draw(st.integers(1, 4)), els, draw(st.sampled_from(TREE)), keys, draw(st.sampled_from(SORT)), draw(st.sampled_from(["", "l", "r", "w", "lr", "lw", "wr", "lrw"]))]


def _attrs(ctx, case):
    e, els, mode, keys, sort, af = case
    c = col.Collection()
    c.set_spec()
    association(c, 0, e, els)
    names = [ENTRIES[x[0]][0] for x in els]
    os_ = [c.get(bytes(ln)) for ln in names]
    index = {id(o): i for i, o in enumerate(os_)}
    cls = {v: k for k, v in CLASSES.items()}
    objs = [[KEYS.index(cls[o.__class__]), list(ln)] for o, ln in zip(os_, names)]
    keep = model_filter(objs, keys)
    keep.sort(key=lambda i: sort_key(sort, objs[i]))
    r = rights(els)

    def leaf(v):
        ret = []
        for n, (k, ln) in v:
            at = r[tuple(ln)][0]
            idx = [i for i in range(1, len(os_[n].A_ELEMENTS) + 2) if not ("l" in af and i == 1) and ("r" not in af or at[i] in (1, 3)) and ("w" not in af or at[i] in (2, 3))]
            if idx:
                ret.append((n, idx))
        return ret

    def real_leaf(t):
        ctx.check(isinstance(t, dict), f"leaf {t!r}")
        return [(index[id(o)], sorted(v)) for o, v in t.items()]

    want = model_tree([(i, objs[i]) for i in keep], mode, leaf)
    if not keep:
        ctx.eq(c.get_attr_tree(e, mode, real_keys(keys) or None, sort, af), {}, "nothing fits")
        return
    got = real_tree(ctx, c.get_attr_tree(e, mode, real_keys(keys) or None, sort, af), mode, real_leaf)
    ctx.eq(got, want, f"tree {mode} {af}")
    ctx.nt(any(len(v) for v in want.values()) and ("r" in af or "w" in af))
    ctx.label("dropped", len(model_tree([(i, objs[i]) for i in keep], mode, lambda v: [1])) != len(want))


PROP = Prop("C34", rule="non-trivial: some but not all objects fit (filter), order changes (sort), several groups in two levels (tree), some attribute shown by access right (attributes), a name fits a pattern that restricts (pattern)", facets=[
    Facet("pattern", pattern_cases(), _pattern, quick=1500, thorough=100000),
    Facet("bad_pattern", bad_patterns(), _bad_pattern, quick=400, thorough=20000, examples=[[b] for b in BAD]),
    Facet("filter", filter_cases(), _filter, quick=600, thorough=40000),
    Facet("sort", st.tuples(objects(), st.sampled_from(SORT)).map(list), _sort, quick=300, thorough=20000),
    Facet("tree", st.tuples(objects(), st.sampled_from(TREE), st.integers(0, 1)).map(list), _tree, quick=400, thorough=30000),
    Facet("many", st.tuples(st.integers(50, 600), st.integers(0, 10 ** 6), st.sampled_from(TREE), st.sampled_from(SORT)).map(list), _many, quick=20, thorough=1500),
    Facet("attributes", attr_cases(), _attrs, quick=300, thorough=15000),
], assumptions=["Reserved media (A = 2, 3, 10..14) are not used in keys.", "The relation group of a name is the one judged in C28."])
