"""class, version and logical name of an object select its interface class by the specification of the collection"""
import itertools
from hypothesis import strategies as st
from ..core import Prop, Facet
from src.DLMS_SPODES.types import cdt, cst
from src.DLMS_SPODES.types.cosemClassID import CosemClassId
from src.DLMS_SPODES.cosem_interface_classes import collection as col
from src.DLMS_SPODES.cosem_interface_classes.overview import CountrySpecificIdentifiers as Country
from src.DLMS_SPODES.version import AppVersion

# (class id, version): name of class
COMMON = {
    (1, 0): "Data", (3, 0): "Register", (4, 0): "ExtendedRegister", (5, 0): "DemandRegister", (6, 0): "RegisterActivation",
    (7, 0): "ProfileGeneric", (7, 1): "ProfileGeneric", (8, 0): "Clock", (9, 0): "ScriptTable", (10, 0): "Schedule", (11, 0): "SpecialDaysTable",
    (15, 0): "AssociationLN", (15, 1): "AssociationLN", (15, 2): "AssociationLN", (18, 0): "ImageTransfer", (20, 0): "ActivityCalendar",
    (21, 0): "RegisterMonitor", (22, 0): "SingleActionSchedule", (23, 0): "IECHDLCSetup", (23, 1): "IECHDLCSetup",
    (27, 0): "PSTNModemConfiguration", (27, 1): "ModemConfigurationVer1", (41, 0): "TCPUDPSetup", (42, 0): "IPv4Setup", (45, 0): "GPRSModemSetup",
    (47, 0): "GSMDiagnostic", (47, 1): "GSMDiagnostic", (47, 2): "GSMDiagnostic", (64, 0): "SecuritySetup", (64, 1): "SecuritySetup",
    (68, 0): "Arbitrator", (70, 0): "DisconnectControl", (71, 0): "Limiter", (100, 0): "NTPSetup"}
OTHER = {(12, 0): "AssociationSN", (40, 0): "PushSetup", (40, 1): "PushSetup", (40, 2): "PushSetup"}


def M(*ids, **kw):
    """map of class ids; kw: cXvY=name of class"""
    ret = {k: v for k, v in {**COMMON, **OTHER}.items() if k[0] in ids}
    for k, v in kw.items():
        c, ver = k[1:].split("v")
        ret[(int(c), int(ver))] = v
    return ret


D, R, RE, DRE, PG = M(1), M(3), M(3, 4), M(1, 3, 4), M(7)
DATA_S, DATA_D = M(c1v0="DataStatic"), M(c1v0="DataDynamic")


def S(*parts):
    ret = set()
    for p in parts:
        ret.update(range(p[0], p[1] + 1) if isinstance(p, tuple) else (p,))
    return frozenset(ret)


CUMULATIVE = S(1, 2, 11, 12, 21, 22)
MEASURED = frozenset(range(256)) - S(0, 93, 94, 96, 97, 98, 99)


def rules(text):
    return text


# kind, values of the groups of kind, map
CDE, CD, BCDE, C_ = "ACDE", "ACD", "ABCDE", "AC"
DLMS = [
    (CD, 0, 0, 1, D), (CD, 0, 0, 2, D), (CDE, 0, 0, 2, 1, M(c1v0="ActiveFirmwareId")), (CD, 0, 0, 9, D),
    (CD, 0, 1, 0, M(8)), (CD, 0, 1, S((1, 6)), D),
    (CDE, 0, 2, 0, 0, M(27)),
    (CDE, 0, 10, 0, S(0, 1, 125, (100, 111)), M(9)), (CD, 0, 11, 0, M(11)), (CD, 0, 12, 0, M(10)), (CD, 0, 13, 0, M(20)), (CD, 0, 14, 0, M(6)),
    (CDE, 0, 15, 0, S((0, 7)), M(22)), (CD, 0, 16, 0, M(21)), (CDE, 0, 16, 1, S((0, 9)), M(21)), (CD, 0, 17, 0, M(71)),
    (CDE, 0, 19, S((50, 59)), S(1, 2), D),
    (CD, 0, 21, 0, M(1, 7)), (CDE, 0, 22, 0, 0, M(23)),
    (CDE, 0, 23, 2, 0, D), (CDE, 0, 23, 3, S((0, 9)), M(1, 7)), (CDE, 0, 23, 3, S((10, 255)), D),
    (CD, 0, 24, 2, M(4)), (CD, 0, 24, 3, PG), (CDE, 0, 24, 4, 0, M(70)), (CDE, 0, 24, 5, 0, PG),
    (CDE, 0, 25, 0, 0, M(41)), (CDE, 0, 25, 1, 0, M(42)), (CDE, 0, 25, 4, 0, M(45)), (CDE, 0, 25, 6, 0, M(47)), (CDE, 0, 25, 9, 0, M(40)), (CDE, 0, 25, 10, 0, M(100)),
    (BCDE, 0, 0, 40, 0, S((0, 7)), M(12, 15)), (BCDE, 0, 0, 42, 0, 0, M(c1v0="LDN")), (BCDE, 0, 0, 43, 0, S((0, 255)), M(64)), (CD, 0, 43, 1, D),
    (BCDE, 0, 0, 44, 0, S((0, 255)), M(18)),
    (CDE, 0, 96, 1, S((0, 10)), M(c1v0="DLMSDeviceIDObject")), (CDE, 0, 96, 1, 255, PG), (CD, 0, 96, 2, DATA_D),
    (CDE, 0, 96, 3, S((0, 3)), D), (CDE, 0, 96, 3, 10, M(70)), (CDE, 0, 96, 3, S((20, 28)), M(68)),
    (CDE, 0, 96, S(4, 5), 0, M(1, 7)), (CDE, 0, 96, S(4, 5), S((1, 4)), D),
    (CDE, 0, 96, 6, S((0, 6)), DRE), (CDE, 0, 96, 7, S((0, 21)), DRE), (CDE, 0, 96, 8, S((0, 63)), DRE), (CDE, 0, 96, 9, S((0, 2)), RE),
    (CDE, 0, 96, 10, S((1, 9)), D), (CDE, 0, 96, 11, S((0, 99)), M(3, 4, c1v0="DataDynamic")),
    (CDE, 0, 96, 12, S((0, 3), 5, 6), DRE), (CDE, 0, 96, 12, 4, M(c1v0="CommunicationPortParameter")), (CDE, 0, 96, 13, S(0, 1), DRE), (CDE, 0, 96, 14, S((0, 15)), DRE),
    (CDE, 0, 96, 15, S((0, 99)), DRE), (CDE, 0, 96, 16, S((0, 9)), DRE), (CDE, 0, 96, 17, S((0, 127)), DRE), (CD, 0, 96, 20, DRE),
    (CDE, 0, 97, 97, S((0, 9)), D), (CDE, 0, 97, S(97, 98), 255, PG), (CDE, 0, 97, 98, S((0, 29)), D), (C_, 0, 98, PG), (CD, 0, 99, 98, PG),
    (CDE, 1, 0, 0, S((0, 9)), D), (CDE, 1, 0, 0, 255, PG), (CD, 1, 0, 1, D), (CD, 1, 0, 2, DATA_S), (CD, 1, 0, S(3, 4, 7, 8, 9), M(3, 4, c1v0="DataStatic")),
    (CD, 1, 0, S(6, 10), RE), (CDE, 1, 0, 11, S((1, 7)), D), (CDE, 1, 96, 1, S((0, 9)), D), (CDE, 1, 96, 1, 255, PG), (CDE, 1, 96, 5, S((0, 5)), D),
    (CDE, 1, 96, 10, S((0, 3)), D), (C_, 1, 98, PG), (CD, 1, 99, S(1, 2, 11, 12, 97, 98, 99), PG), (CDE, 1, 99, S(3, 13, 14), 0, PG), (CDE, 1, 99, 10, S((1, 3)), PG),
    (CD, 1, MEASURED, S(1, 2, 11, 12, 21, 22, 8, 9, 10, (17, 20), 29, 30, 58, 46, 31, 35, 43, 44, 32, 36, 33, 37, 34, 38), RE),
    (CD, 1, MEASURED, S(7, 39, 41, 42), R),
    (CD, 1, MEASURED, S(3, 6, 13, 16, 26, (51, 54)), M(3, 4, 7)),
    (CD, 1, MEASURED, S(0, 4, 5, 14, 15, 24, 25, 27, 28, 49, 50, 55, 56), M(3, 5)),
    (CD, 1, MEASURED, 40, M(1, 3))]
EVENTS = ("Voltage", "Current", "Commutation", "Programming", "External", "Communication", "Access", "SelfDiagnostic", "ReactivePower")
SPODES = DLMS + [
    (CD, 0, 21, 0, M(c7v1="SPODES3DisplayReadout")),
    (CDE, 0, 96, 1, S(0, 2, 4, 5, 8, 9, 10), M(c1v0="SPODES3IDNotSpecific")), (CDE, 0, 96, 1, 6, M(c1v0="SPODES3SPODESVersion")),
    (CDE, 0, 96, 2, S(1, 2, 3, 5, 6, 7, 11, 12), M(c1v0="AnyDateTime")), (CDE, 0, 96, 3, 20, M(c68v0="SPODES3Arbitrator")),
    (CDE, 0, 96, 5, 1, M(c1v0="SPODES3PowerQuality1Event")), (CDE, 0, 96, 5, 4, M(c1v0="SPODES3PowerQuality2Event")),
    *((CDE, 0, 96, 11, i, M(c1v0=f"SPODES3{n}Event")) for i, n in enumerate(EVENTS)),
    (BCDE, 0, 0, 96, 51, 0, M(c1v0="OpeningBody")), (BCDE, 0, 0, 96, 51, 5, M(c1v0="SealStatus")), (BCDE, 0, 0, 96, 51, S(1, 3, 4, 6, 7), M(c1v0="Unsigned")),
    (BCDE, 0, 0, 96, 51, S(8, 9), M(c1v0="OctetStringDateTime")),
    (CDE, 1, 0, 8, S(4, 5), M(c1v0="SPODES3MeasurementPeriod")), (CD, 1, 98, 1, M(c7v1="SPODES3MonthProfile")), (CD, 1, 98, 2, M(c7v1="SPODES3DailyProfile")),
    (CD, 1, 99, S(1, 2), M(c7v1="SPODES3LoadProfile")),
    (BCDE, 1, 0, 131, 35, 0, R), (BCDE, 1, 0, 133, 35, 0, R), (BCDE, 1, 0, 147, 133, 0, R), (BCDE, 1, 0, 148, 136, 0, R),
    (CDE, 1, 94, 7, 0, M(c7v1="SPODES3CurrentProfile")), (CDE, 1, 94, 7, S((1, 6)), M(c7v1="SPODES3ScalesProfile")),
    (BCDE, 128, 0, S((0, 19)), 0, 0, R)]
KPZ = SPODES + [(BCDE, 0, 128, 96, 13, 1, M(c1v0="ITEBitMap")), (BCDE, 0, 128, 154, 0, 0, M(c1v0="KPZGSMPingIP"))]
KPZ1 = KPZ + [(CDE, 0, 96, 11, i, M(c1v0=f"KPZ1SPODES3{n}Event")) for i, n in enumerate(EVENTS)]
SPECS = {"DLMS_6": DLMS, "SPODES_3": SPODES, "KPZ": KPZ, "KPZ1": KPZ1}
INDEX = {}      # spec: {kind: {A: [rule]}}, the last one first
for _s, _rules in SPECS.items():
    for _r in reversed(_rules):
        INDEX.setdefault(_s, {}).setdefault(_r[0], {}).setdefault(_r[1], []).append(
            (tuple(v if isinstance(v, frozenset) else frozenset((v,)) for v in _r[1:-1]), _r[-1]))
GROUP = "ABCDEF"


def find(spec, kind, ln):
    for values, m in INDEX[spec].get(kind, {}).get(ln[0], ()):
        if all(ln[GROUP.index(g)] in v for g, v in zip(kind, values)):
            return m
    return None


def expected_map(spec, ln):
    a, b, c, d, e, f = ln
    if 128 <= b <= 199 or 128 <= c <= 199 or c == 240 or 128 <= d <= 254 or 128 <= e <= 254 or 128 <= f <= 254:
        kinds = (BCDE,)     # manufacturer specific
    else:
        kinds = (CDE, CD, BCDE, C_)
    for k in kinds:
        if (m := find(spec, k, ln)) is not None:
            return m, k
    return COMMON, "common"


CLASSES = sorted({k[0] for k in COMMON} | {12, 40})
VERSIONS = (0, 1, 2, 3)
IDS = {i: CosemClassId(i) for i in range(256)}
UNS = {v: cdt.Unsigned(v) for v in range(256)}


UNSUPPORTED = {(7, 0), (12, 0), (23, 0), (40, 0), (40, 1), (47, 2)}    # recognised, but no object may be made


def seen(t):
    c, v = getattr(t, "CLASS_ID", None), getattr(t, "VERSION", None)
    return t.__name__, c if c is None else int(c), v if v is None else int(v)


def same(got, want):
    """class of unsupported version may have no class id and version"""
    if got is None or want is None:
        return got is want
    if want[1:] in UNSUPPORTED:
        return got[0] == want[0] and got[1] in (want[1], None) and got[2] in (want[2], None)
    return got == want


def expect(m, c, v):
    return (m[(c, v)], c, v) if (c, v) in m else None


def check_ln(ctx, spec, ln, pairs):
    m, kind = expected_map(spec, ln)
    obj = cst.LogicalName(bytearray(ln))
    for c, v in pairs:
        try:
            got = seen(col.get_type(IDS[c], UNS[v], obj, col.func_maps[spec]))
        except ValueError:
            got = None
        if not same(got, expect(m, c, v)):
            ctx.fail(f"{spec} {'.'.join(map(str, ln))} class {c} version {v}: got {got}, expected {expect(m, c, v)} ({kind})")
    return m, kind


ALL_PAIRS = [(c, v) for c in CLASSES for v in VERSIONS] + [(2, 0), (24, 0), (111, 0), (255, 0)]


def own_pairs(m):
    """every pair of map, a few foreign"""
    if m is COMMON:
        return [(1, 0), (3, 0), (7, 0), (8, 0), (40, 2), (47, 1), (2, 0), (100, 0)]
    ret = list(m)
    ret += [(c, v + 1) for c, v in list(m)[:3]]
    return ret + [(1, 0), (3, 0), (7, 0), (7, 1), (15, 1), (2, 0)]


def _resolve(ctx, case):
    """case: spec, list of logical names"""
    spec, lns = case
    kinds = set()
    for ln in lns:
        m, kind = expected_map(spec, ln)
        check_ln(ctx, spec, ln, ALL_PAIRS if len(lns) == 1 else own_pairs(m))
        kinds.add(kind)
    ctx.nt(kinds != {"common"})
    for k in kinds:
        ctx.label(k)


def corners(rule):
    """logical names in and beside the cell of a rule"""
    kind, values = rule[0], [v if isinstance(v, frozenset) else frozenset((v,)) for v in rule[1:-1]]
    full = dict(zip(kind, values))

    def border(g):
        s = full[g]
        ret = set()
        for x in s:
            if x - 1 not in s or x + 1 not in s:
                ret |= {x, x - 1, x + 1}
        return sorted(x for x in ret if 0 <= x <= 255)
    axes = []
    for g in GROUP:
        if g in full:
            axes.append(border(g) if g != "A" else [min(full[g])])
        else:
            axes.append({"B": [0, 1, 65, 127, 128, 199, 200, 255], "C": [0], "D": [0, 1, 98, 127, 128, 255], "E": [0, 1, 10, 127, 128, 255], "F": [255, 0, 127, 128, 254]}[g])
    main = [a if g in full else a[:1] for g, a in zip(GROUP, axes)]
    for ln in itertools.product(*main):
        yield ln
    inner = [min(full[g]) if g in full else axes[i][0] for i, g in enumerate(GROUP)]
    for i in range(6):
        for v in axes[i]:
            yield tuple(inner[:i] + [v] + inner[i + 1:])
    for b in axes[1]:
        for f in axes[5]:
            yield (inner[0], b, *inner[2:5], f)


def all_borders():
    for spec, rs in SPECS.items():
        names = {}
        for r in rs:
            for ln in corners(r):
                names[ln] = None
        names = list(names)
        for i in range(0, len(names), 60):
            yield [spec, [list(x) for x in names[i:i + 60]]]


def all_cd():
    """every C and D (E few) of abstract, electricity, other and manufacturer media in two specifications"""
    for spec in SPECS:
        for a in (0, 1, 6, 128) if spec != "KPZ" else (0,):
            for c in range(256) if spec in ("DLMS_6", "KPZ1") and a < 2 else (0, 1, 10, 21, 40, 42, 44, 94, 96, 97, 98, 99):
                yield [spec, [[a, (c + d) % 2, c, d, (c * 7 + d * 3) % 12, 255] for d in range(0, 256)]]


def _all_pairs(ctx, case):
    _resolve(ctx, [case[0], [case[1]]])


SMALL = st.sampled_from([0, 1, 2, 3, 4, 5, 7, 10, 11, 21, 40, 42, 43, 44, 94, 96, 97, 98, 99, 127, 128, 131, 133, 147, 199, 200, 240, 254, 255])
octet = SMALL | st.integers(0, 255)
one_of_rules = st.sampled_from(sorted(SPECS)).flatmap(lambda s: st.tuples(st.just(s), st.integers(0, len(SPECS[s]) - 1)))


@st.composite
def near(draw):
    """a logical name of a rule's cell, one or no value changed"""
    spec, i = draw(one_of_rules)
    r = SPECS[spec][i]
    ln = []
    for g in GROUP:
        if g in r[0]:
            v = r[1 + r[0].index(g)]
            ln.append(draw(st.sampled_from(sorted(v))) if isinstance(v, frozenset) else v)
        else:
            ln.append(draw(octet))
    if draw(st.booleans()):
        ln[draw(st.integers(0, 5))] = draw(octet)
    return [spec, ln]


def _make(ctx, case):
    """a collection of a server makes the object of the class, other version or class is rejected and nothing is added"""
    ident, (c, v), ln = case
    country, cv, man, sv = ident
    x = col.Collection(country=Country(country))
    if cv is not None:
        x.set_country_ver(AppVersion(*cv))
    if man is not None:
        x.set_manufacturer(man.encode())
    for i, ver in sv:
        x.set_server_ver(i, AppVersion(*ver))
    x.set_spec()
    spec = "DLMS_6"
    if country == 7:
        if cv == [3, 0]:
            spec = "SPODES_3"
        if man == "KPZ":
            spec = "KPZ"
            if any(i == 0 and tuple(ver) < (1, 3, 30) for i, ver in sv):
                spec = "KPZ1"
    m, kind = expected_map(spec, ln)
    want = expect(m, c, v)
    name = cst.LogicalName(bytearray(ln))
    n = len(x)
    before = {o.logical_name.contents: o for o in x}
    ctx.nt(kind != "common")
    ctx.label(spec)
    if want is None or (c, v) in UNSUPPORTED:
        ctx.raises(lambda: x.add(IDS[c], UNS[v], name), "class or version not of the logical name", ValueError)
        ctx.eq({o.logical_name.contents: id(o) for o in x}, {k: id(o) for k, o in before.items()}, "objects after a rejected one")
        return
    o = x.add(IDS[c], UNS[v], name)
    ctx.eq(seen(type(o)), want, f"class of object in {spec}")
    ctx.eq(o.logical_name.contents, bytes(ln), "logical name of object")
    ctx.check(x.get_object(name) is o and o.collection is x, "object is in the collection")
    ctx.eq(len(x), n + (bytes(ln) not in before), "amount of objects")


IDENT = st.tuples(
    st.sampled_from([7, 7, 7, 7, 49]),
    st.sampled_from([[3, 0], [3, 0], None, [2, 0], [3, 1]]),
    st.sampled_from([None, "KPZ", "KPZ", "ELS"]),
    st.lists(st.tuples(st.sampled_from([0, 0, 1]), st.sampled_from([[1, 3, 29], [1, 3, 30], [1, 4, 0], [0, 9, 99], [2, 0, 0], [1, 2, 31]])).map(list), max_size=2, unique_by=lambda t: t[0])
).map(list)


@st.composite
def makes(draw):
    spec, ln = draw(near())
    ident = draw(IDENT) if draw(st.booleans()) else {
        "DLMS_6": [7, None, None, []], "SPODES_3": [7, [3, 0], "101", []], "KPZ": [7, [3, 0], "KPZ", [[0, [1, 4, 0]]]], "KPZ1": [7, [3, 0], "KPZ", [[0, [1, 3, 29]]]]}[spec]
    m, _ = expected_map(spec, ln)
    pair = draw(st.sampled_from(sorted(m)) | st.sampled_from(ALL_PAIRS))
    return [ident, list(pair), ln]


def _find_version(ctx, case):
    """version of a new object without version is the one of the existing objects of its class"""
    first, others = case
    x = col.Collection()
    lns = {1: [0, 0, 96, 1, 20, 255], 7: [0, 0, 99, 98, 0, 255], 15: [0, 0, 40, 0, 1, 255], 23: [0, 0, 22, 0, 0, 255], 47: [0, 0, 25, 6, 0, 255], 27: [0, 0, 2, 0, 0, 255]}
    have = {1: 0}       # logical device name
    for i, (c, v) in enumerate(first):
        if c in have:
            continue
        ln = lns[c]
        x.add(IDS[c], UNS[v], cst.LogicalName(bytearray(ln)))
        have[c] = v
    for c, b in others:
        ln = list(lns[c])
        ln[4 if c in (7, 15) else 1] = b
        name = cst.LogicalName(bytearray(ln))
        if c not in have:
            ctx.raises(lambda: x.add(IDS[c], None, name), "no object of the class", ValueError)
            ctx.check(not x.is_in_collection(name), "nothing is added")
        else:
            o = x.add(IDS[c], None, name)
            ctx.eq((int(o.CLASS_ID), int(o.VERSION)), (c, have[c]), "class and version")
            ctx.nt(True)


PAIR = st.sampled_from([[7, 1], [15, 0], [15, 1], [15, 2], [23, 1], [47, 0], [47, 1], [27, 0], [27, 1]])

PROP = Prop("C29", rule="a case is non-trivial when at least one logical name has a rule of its own in the tables (not only the common class map)", facets=[
    Facet("borders", st.tuples(st.sampled_from(sorted(SPECS)), st.lists(st.lists(octet, min_size=6, max_size=6), min_size=1, max_size=12)).map(list), _resolve,
          quick=400, thorough=20000, exhaustive=all_borders),
    Facet("cd", st.tuples(st.sampled_from(sorted(SPECS)), st.lists(st.lists(octet, min_size=6, max_size=6), min_size=1, max_size=12)).map(list), _resolve,
          quick=50, thorough=20000, exhaustive=all_cd),
    Facet("all_classes", near(), _all_pairs, quick=1500, thorough=60000),
    Facet("make", makes(), _make, quick=1500, thorough=40000, examples=[[[7, [3, 0], "KPZ", [[1, [1, 3, 29]]]], [1, 0], [0, 0, 96, 11, 0, 255]], [[7, [3, 0], "KPZ", [[1, [1, 3, 29]], [0, [1, 3, 30]]]], [1, 0], [0, 0, 96, 11, 0, 255]]] + [
        [[7, [3, 0], "KPZ", [[0, v]]], [1, 0], [0, 0, 96, 11, i, 255]] for v in ([1, 3, 29], [1, 3, 30], [1, 3, 31], [1, 2, 30], [1, 4, 29], [0, 3, 29]) for i in (0, 9)]),
    Facet("version", st.tuples(st.lists(PAIR, max_size=4), st.lists(st.tuples(st.sampled_from([7, 15, 23, 47, 27]), st.integers(1, 6)).map(list), min_size=1, max_size=6)).map(list),
          _find_version, quick=500, thorough=20000),
], assumptions=["The relation of logical names to interface classes is the one of DLMS UA 1000-1 Ed.14 table 54 and SPODES 3 as the tables of the original code give it, transcribed by hand.",
                "Manufacturer specific logical names are looked up by value groups A..E only."])
