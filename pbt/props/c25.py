"""versions: order, text, nearest variant"""
from hypothesis import strategies as st
from ..core import Prop, Facet
from src.DLMS_SPODES.version import AppVersion

num = st.one_of(st.integers(0, 3), st.integers(0, 12), st.integers(0, 100000))
patch = st.one_of(st.none(), num, num)
add = st.sampled_from(["", "", "", "d1", "-rc.2", " beta", ".4", "Ж"])
ver = st.tuples(num, num, patch, add).map(list)


def make(v):
    return AppVersion(v[0], v[1], v[2], v[3])


def key(v):
    return v[0], v[1], -1 if v[2] is None else v[2]


def order(ctx, case):
    """AppVersions are ordered as the triples of numbers, a version without patch before all patches of its branch"""
    vs = [make(v) for v in case]
    ctx.nt(len({key(v) for v in case}) > 1)
    ctx.label("without patch", any(v[2] is None for v in case))
    for a, x in zip(case, vs):
        for b, y in zip(case, vs):
            ka, kb = key(a), key(b)
            ctx.eq([x > y, x >= y, x < y, x <= y], [ka > kb, ka >= kb, ka < kb, ka <= kb], F"order of {a} and {b}")
            ctx.eq([x == y, x != y], [a == b, a != b], F"equality of {a} and {b}")
            if a == b:
                ctx.eq(hash(x), hash(y), "hash of equal versions")
    ctx.eq([key([v.major, v.minor, v.patch]) for v in sorted(vs)], sorted(map(key, case)), "sorted versions")
    d = {}
    for a, x in zip(case, vs):
        d[x] = a
    ctx.eq(len(d), len({tuple(a) for a in case}), "versions as keys")


def text(ctx, case):
    v, = case
    x = make(v)
    ctx.nt()
    want = F"{v[0]}.{v[1]}" + ("" if v[2] is None else F".{v[2]}")
    ctx.eq(str(x), want, "text")
    ctx.eq((x.major, x.minor, x.patch, x.additional), tuple(v), "parts")
    y = AppVersion.from_str(want)
    ctx.eq((y.major, y.minor, y.patch, y.additional), (v[0], v[1], v[2], ""), "version of text")
    if v[2] is not None and not v[3][:1].isdigit():
        y = AppVersion.from_str(want + v[3])
        ctx.eq((y.major, y.minor, y.patch, y.additional), tuple(v), "version of text with addition")
        ctx.eq(y == x, True, "equal to the version of the parts")
    ctx.eq(x.report(), want + (F" <{v[3]}>" if v[3] else ""), "report")
    ctx.eq(eval(repr(x)) == x, True, "representation")


ascii_ = st.one_of(st.text(st.sampled_from("0123456789....abv- "), max_size=12),
                   st.lists(st.one_of(st.integers(0, 300).map(str), st.integers(0, 300).map(str), st.text(st.sampled_from("012345abv- "), max_size=4)), max_size=4).map(".".join))


def any_text(ctx, case):
    """texts which are no version give the zero version, never an exception nor another version"""
    t, = case
    p = t.split(".", 2)
    x = AppVersion.from_str(t)
    got = x.major, x.minor, x.patch, x.additional
    num = [s.isdigit() for s in p[:2]]
    ctx.nt(len(p) > 1 and all(num))
    if len(p) < 2 or not all(num):
        ctx.eq((x.major, x.minor, x.patch or 0), (0, 0, 0), "no version")
        return
    if len(p) == 2:
        ctx.eq(got, (int(p[0]), int(p[1]), None, ""), "major.minor")
    else:
        k = 0
        while k < len(p[2]) and p[2][k].isdigit():
            k += 1
        ctx.eq(got, (int(p[0]), int(p[1]), int(p[2][:k] or 0), p[2][k:]), "major.minor.patch")


def nearest(ctx, case):
    me, variants = case
    vs = [make(v) for v in variants]
    fit = [v for v in variants if v[:2] == me[:2] and key(v) <= key(me)]
    ctx.nt(len(fit) > 0 and len(fit) < len(variants))
    ctx.label("none", not fit)
    r = make(me).select_nearest(vs)
    if not fit:
        ctx.eq(r, None, "no variant in the branch")
    else:
        ctx.check(any(r is v for v in vs), "one of the variants")
        ctx.eq(key([r.major, r.minor, r.patch]), max(map(key, fit)), "latest variant of the branch not after the version")
    r2 = make(me).select_nearest(vs[::-1])
    ctx.eq(None if r2 is None else key([r2.major, r2.minor, r2.patch]), None if r is None else key([r.major, r.minor, r.patch]), "independent of the order of variants")


@st.composite
def branch(draw):
    maj, mi = draw(st.integers(0, 2)), draw(st.integers(0, 2))
    one = st.one_of(st.tuples(st.just(maj), st.just(mi), patch, add), st.tuples(st.integers(0, 2), st.integers(0, 2), patch, add)).map(list)
    return [draw(one), draw(st.lists(one, max_size=8))]


PROP = Prop("C25", rule="versions with and without patch and addition, close to and far from one another, against triples of numbers; texts of digits, dots and letters; variant lists around one branch; "
            "non-trivial: different versions, variants inside and outside the branch",
            facets=[
                Facet("order", st.lists(st.one_of(ver, st.tuples(st.integers(0, 1), st.integers(0, 1), st.one_of(st.none(), st.integers(0, 2)), add).map(list)), min_size=2, max_size=5), order, quick=800, thorough=8000),
                Facet("text", st.tuples(ver), text, quick=400, thorough=4000),
                Facet("any_text", st.tuples(ascii_), any_text, quick=800, thorough=8000),
                Facet("nearest", branch(), nearest, quick=800, thorough=8000),
            ])
