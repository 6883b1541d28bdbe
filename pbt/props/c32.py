"""identification of a collection is set once, and selects the type description of the library"""
import os
import shutil
from hypothesis import strategies as st
from ..core import Prop, Facet
from src.DLMS_SPODES.types import cdt, cst
from src.DLMS_SPODES.types.cosemClassID import CosemClassId
from src.DLMS_SPODES.cosem_interface_classes import collection as col
from src.DLMS_SPODES.cosem_interface_classes.overview import CountrySpecificIdentifiers as Country
from src.DLMS_SPODES.version import AppVersion
from src.DLMS_SPODES import exceptions as exc

COUNTRIES = [7, 49, 39, 33]
MANS = ["KPZ", "101", "102", "ELS"]
TYPES = ["09054d324d5f33", "09054d324d5f31", "0a03414243", "120001", "0903414243"]      # two of equal contents


def ver(v):
    return None if v is None else AppVersion(*v)


def typ(i):
    return cdt.get_instance_and_pdu_from_value(bytes.fromhex(TYPES[i]))[0]


def key(v):
    """None of patch is before all patches"""
    return v[0], v[1], (-1 if len(v) < 3 or v[2] is None else v[2])


class Model:
    def __init__(self):
        self.dlms, self.country, self.cv, self.man, self.type, self.vers, self.colv = 6, 7, None, None, None, {}, None


def state(c):
    t = c.server_type
    return (c.dlms_ver, c.country.value, None if c.country_ver is None else str(c.country_ver), c.manufacturer, None if t is None else t.encoding.hex(),
            {i: str(v) for i, v in c.server_ver.items()}, None if c.collection_ver is None else str(c.collection_ver))


def text(v):
    return None if v is None else ".".join(str(x) for x in v if x is not None)


def expected(m):
    return (m.dlms, m.country, text(m.cv), None if m.man is None else m.man.encode(), m.type, {i: text(v) for i, v in m.vers.items()}, text(m.colv))


def step(ctx, c, m, op):
    what, *a = op
    once = {"dlms": ("dlms", lambda: c.set_dlms_ver(a[0]), lambda: a[0]), "country": ("country", lambda: c.set_country(Country(COUNTRIES[a[0]])), lambda: COUNTRIES[a[0]]),
            "cv": ("cv", lambda: c.set_country_ver(ver(a[0])), lambda: a[0]), "man": ("man", lambda: c.set_manufacturer(MANS[a[0]].encode()), lambda: MANS[a[0]])}
    if what in once:
        field, f, value = once[what]
        have = getattr(m, field)
        v = value()
        same = have is not None and (key(have) == key(v) if isinstance(v, list) else have == v)
        if have is None:
            f()
            setattr(m, field, v)
        elif same:
            f()
        else:
            ctx.raises(f, f"other {what}", ValueError)
            return True
    elif what == "type":
        t, force = a
        if m.type is None or force:
            c.set_server_type(typ(t), force=force)
            m.type = TYPES[t]
        elif m.type == TYPES[t]:
            c.set_server_type(typ(t))
        else:
            ctx.raises(lambda: c.set_server_type(typ(t)), "other type", ValueError)
            return True
    elif what == "ver":
        i, v, force = a
        have = m.vers.get(i)
        if have is None or force:
            c.set_server_ver(i, ver(v), force=force)
            m.vers[i] = v
        elif have[:2] == v[:2] and key(v) <= key(have):
            c.set_server_ver(i, ver(v))
        else:
            ctx.raises(lambda: c.set_server_ver(i, ver(v)), f"version {v} after {have}", ValueError)
            return True
    elif what == "clear":
        c.clear_server_ver()
        m.vers.clear()
    elif what == "colv":
        if m.colv is None:
            c.set_collection_ver(ver(a[0]))
            m.colv = a[0]
        else:
            ctx.raises(lambda: c.set_collection_ver(ver(a[0])), "collection version again", ValueError)
            return True
    return False


def _history(ctx, case):
    c, m = col.Collection(), Model()
    rejected = 0
    for op in case:
        rejected += step(ctx, c, m, op)
        ctx.eq(state(c), expected(m), f"identification after {op}")
    ctx.nt(rejected > 0 and len(case) > 3)
    ctx.label("rejected", bool(rejected))


def _equal(ctx, case):
    """collections are equal exactly when manufacturer, type and version of the collection are"""
    a, b = (col.Collection(), Model()), (col.Collection(), Model())
    for (c, m), ops in zip((a, b), case):
        for op in ops:
            step(ctx, c, m, op)
    ka, kb = (((m.man, m.type, None if m.colv is None else key(m.colv))) for _, m in (a, b))
    ctx.nt(ka[0] is not None and kb[0] is not None)
    ctx.label("equal", ka == kb)
    ctx.eq(a[0] == b[0], ka == kb, f"equality of {ka} and {kb}")
    if ka == kb:
        ctx.eq(hash(a[0]), hash(b[0]), "hash of equal collections")


version = st.tuples(st.sampled_from([0, 1, 1, 2]), st.sampled_from([0, 3, 4]), st.sampled_from([None, 0, 1, 29, 30, 31])).map(lambda t: list(t) if t[2] is not None else list(t[:2]))
one = st.one_of(
    st.tuples(st.just("dlms"), st.sampled_from([6, 5, 7])), st.tuples(st.just("country"), st.integers(0, 3)), st.tuples(st.just("cv"), version), st.tuples(st.just("man"), st.integers(0, 3)),
    st.tuples(st.just("type"), st.integers(0, 4), st.sampled_from([False, False, True])), st.tuples(st.just("ver"), st.integers(0, 2), version, st.sampled_from([False, False, False, True])),
    st.tuples(st.just("ver"), st.just(0), version, st.just(False)), st.tuples(st.just("clear")), st.tuples(st.just("colv"), version)).map(list)
few = st.one_of(st.tuples(st.just("man"), st.integers(0, 1)), st.tuples(st.just("type"), st.sampled_from([0, 1, 2, 4]), st.just(False)), st.tuples(st.just("colv"), st.sampled_from([[1, 0], [1, 0, 0], [1, 0, 1]])),
                st.tuples(st.just("ver"), st.just(0), version, st.just(True)), st.tuples(st.just("cv"), version)).map(list)

# type library ------------------------------------------------------------------------------------------------------
_names = (f"{a}{b}{c}" for a in "QWXYZ" for b in "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ" for c in "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ")


def fresh():
    """name of a manufacturer that was never asked for: answers are cached"""
    global _names
    return next(_names)


def _library(ctx, case):
    """case: {type: versions} as list, queries [type, version]"""
    lib, queries = case
    man = fresh()
    root = os.path.join("Types", man)
    ctx.check(not os.path.exists(root), "scratch folder")
    os.makedirs(root)
    content = {}
    try:
        for t, versions in lib:
            d = os.path.join(root, TYPES[t])
            os.makedirs(d, exist_ok=True)
            for v in versions:
                open(os.path.join(d, text(v) + ".typ"), "w").close()
                content.setdefault(TYPES[t], {})[key(v)] = text(v)
            open(os.path.join(d, "readme.txt"), "w").close()
        if hasattr(col.get_manufactures_container, "cache_clear"):
            col.get_manufactures_container.cache_clear()
        for t, v in queries:
            have = content.get(TYPES[t])
            if have is None:
                ctx.raises(lambda: col.get_dir_entry(man.encode(), typ(t), ver(v)), "unknown type", exc.NoConfig)
                continue
            branch = [k for k in have if k[:2] == tuple(v[:2]) and k <= key(v)]
            if not branch:
                ctx.raises(lambda: col.get_dir_entry(man.encode(), typ(t), ver(v)), f"no version for {v} of {have}", exc.NoConfig)
            else:
                ctx.nt(True)
                ctx.label("nearest", key(v) not in have)
                want = have[max(branch)] + ".typ"
                e = col.get_dir_entry(man.encode(), typ(t), ver(v))
                ctx.eq((e.name, os.path.basename(os.path.dirname(e.path)), os.path.basename(os.path.dirname(os.path.dirname(e.path)))), (want, TYPES[t], man), f"file of {v}")
        ctx.raises(lambda: col.get_dir_entry(b"?" + man[1:].encode(), typ(0), AppVersion(1, 0, 0)), "unknown manufacturer", exc.NoConfig)
    finally:
        shutil.rmtree(root)


def _known(ctx, case):
    """a collection got from the library has the identification of its file"""
    man, t, v = case
    c = col.get_collection(man.encode(), cdt.get_instance_and_pdu_from_value(bytes.fromhex(t))[0], AppVersion(*v))
    d = col.get_collection(man.encode(), cdt.get_instance_and_pdu_from_value(bytes.fromhex(t))[0], AppVersion(*v))
    ctx.nt(True)
    ctx.eq(c.server_type.encoding.hex(), t, "type")
    ctx.eq(c.manufacturer, man.encode(), "manufacturer")
    branch = [tuple(map(int, f[:-4].split("."))) for f in os.listdir(f"Types/{man}/{t}") if f.endswith(".typ")]
    want = max(x for x in branch if x[:2] == tuple(v[:2]) and x <= tuple(v))
    ctx.eq(str(c.collection_ver), ".".join(map(str, want)), "version of collection")
    ctx.check(c is not d and c == d, "every time a copy")
    ctx.check(all(a is not b for a, b in zip(c, d)), "own objects of copy")
    c.add(col.classID.DATA, col.Version.V0, col.cst.LogicalName("0.0.97.97.9.255"))
    ctx.eq(len(d) + 1, len(c), "own container of copy")


KNOWN = [["KPZ", "09064d324d5f3353", [1, 4, 17]], ["KPZ", "09064d324d5f3353", [1, 4, 20]], ["KPZ", "09064d324d5f3353", [1, 4, 99]], ["102", "09054d324d5f33", [1, 3, 30]], ["102", "09054d324d5f33", [1, 3, 8]],
         ["102", "09054d324d5f33", [1, 2, 7]], ["KPZ", "09064d324d5f3353", [1, 5, 7]]]


@st.composite
def libs(draw):
    lib = draw(st.lists(st.tuples(st.integers(0, 4), st.lists(version, min_size=1, max_size=8)).map(list), min_size=1, max_size=3, unique_by=lambda t: t[0]))
    near = st.sampled_from(lib).flatmap(lambda t: st.tuples(st.just(t[0]), st.sampled_from(t[1]).flatmap(
        lambda v: st.just(v[:2]) | st.integers(0, 40).map(lambda p: v[:2] + [p]) | st.just([v[0], v[1] + 1, 0]) | st.just(v))).map(list))
    return [lib, draw(st.lists(near | st.tuples(st.integers(0, 4), version).map(list), min_size=2, max_size=8))]



small = st.tuples(st.integers(0, 2), st.sampled_from([0, 1, 2, 9, 10]), st.sampled_from([0, 1, 2, 9, 10, 99])).map(list)
OTHER = [0, 10]      # channels


def _firmware(ctx, case):
    """a firmware newer than the one of the description is reported at every reading; case: versions of channels, channel, readings"""
    vers, ch, read = case
    c = col.Collection()
    o = c.add(CosemClassId(1), cdt.Unsigned(0), cst.LogicalName(bytearray((0, ch, 0, 2, 1, 255))))
    for k, v in vers:
        c.set_server_ver(k, AppVersion(*v), force=True)
    own = dict((k, tuple(v)) for k, v in vers).get(ch)
    up = 0
    for v, tail in read:
        text = ("%d.%d.%d" % tuple(v) + tail).encode()
        f = lambda: o.set_attr(2, b"\x09" + bytes([len(text)]) + text)
        if own is not None and tuple(v) > own:
            ctx.raises(f, f"firmware {v} newer than {own}", exc.NeedUpdate)
            up += 1
        else:
            f()
            ctx.eq(o.value.contents, text, "value")
    ctx.eq({k: str(v) for k, v in c.server_ver.items()}, {k: "%d.%d.%d" % tuple(v) for k, v in vers}, "versions of the collection")
    ctx.nt(own is not None and 0 < up < len(read))


def _name(ctx, case):
    """the manufacturer is the head of the logical device name"""
    man, name = case
    c = col.Collection()
    if man:
        c.set_manufacturer(man.encode())
    o = c.LDN
    data = b"\x09\x10" + name.encode()
    if man and name[:3] != man:
        ctx.raises(lambda: o.set_attr(2, data), "name of another manufacturer", ValueError)
        ctx.eq(c.manufacturer, man.encode(), "manufacturer")
    else:
        o.set_attr(2, data)
        ctx.eq(c.manufacturer, name[:3].encode(), "manufacturer")
        ctx.eq(o.manufacturer, name[:3].encode(), "manufacturer of the name")
        ctx.raises(lambda: c.set_manufacturer(b"zzz"), "other manufacturer", ValueError)
    ctx.nt(bool(man))


PROP = Prop("C32", rule="non-trivial: a history with a rejected change and more than three operations; both manufacturers known (equal); a version that exists or has a nearest one (library)", facets=[
    Facet("history", st.lists(one, min_size=2, max_size=15), _history, quick=1200, thorough=40000, examples=[[["type", 2, False], ["type", 4, False]], [["type", 4, False], ["type", 2, False], ["type", 4, False]]]),
    Facet("equal", st.tuples(st.lists(few, min_size=2, max_size=8), st.lists(few, min_size=2, max_size=8)).map(list), _equal, quick=600, thorough=20000, examples=[[[["type", 2, False]], [["type", 4, False]]]]),
    Facet("library", libs(), _library, quick=300, thorough=4000),
    Facet("firmware", st.tuples(st.lists(st.tuples(st.sampled_from(OTHER), small).map(list), min_size=1, max_size=2, unique_by=lambda x: x[0]), st.sampled_from(OTHER),
          st.lists(st.tuples(small, st.sampled_from(["", "", "rc1", "-b"])).map(list), min_size=1, max_size=4)).map(list), _firmware, quick=300, thorough=10000),
    Facet("name", st.tuples(st.sampled_from(["", "KPZ", "101", "AbC"]), st.sampled_from(["KPZ", "101", "AbC", "KP1", "kpz"]), st.text("0123456789A", min_size=13, max_size=13)).map(lambda x: [x[0], x[1] + x[2]]), _name, quick=60, thorough=500),
    Facet("known", st.sampled_from(KNOWN), _known, quick=7, thorough=7, exhaustive=lambda: iter(KNOWN)),
], assumptions=["The library holds one file per version; answers of the library are cached per manufacturer, type and version, so each case has its own manufacturer."])
