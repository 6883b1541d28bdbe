"""a collection of COSEM objects behaves as a map of logical names to objects"""
import itertools
from hypothesis import strategies as st
from ..core import Prop, Facet
from src.DLMS_SPODES.types import cdt, cst, ut
from src.DLMS_SPODES.types.cosemClassID import CosemClassId
from src.DLMS_SPODES.types import cosemObjectInstanceId
from src.DLMS_SPODES.types.implementations import structs
from src.DLMS_SPODES.cosem_interface_classes import collection as col
from src.DLMS_SPODES.cosem_interface_classes.association_ln.ver0 import ObjectListElement
from src.DLMS_SPODES import exceptions as exc

LDN = (0, 0, 42, 0, 0, 255)
# logical name: possible (class, version), the first is used mostly
POOL = [
    ((0, 0, 1, 0, 0, 255), [(8, 0)]), ((0, 0, 40, 0, 0, 255), [(15, 1), (15, 0)]), ((0, 0, 40, 0, 1, 255), [(15, 1), (15, 0)]), ((0, 0, 40, 0, 2, 255), [(15, 1), (15, 2)]),
    ((0, 0, 40, 0, 3, 255), [(15, 1)]), ((0, 0, 13, 0, 0, 255), [(20, 0)]), ((0, 0, 11, 0, 0, 255), [(11, 0)]), ((0, 0, 22, 0, 0, 255), [(23, 1)]), ((0, 3, 22, 0, 0, 255), [(23, 1)]),
    ((0, 0, 25, 0, 0, 255), [(41, 0)]), ((0, 0, 25, 1, 0, 255), [(42, 0)]), ((0, 2, 25, 1, 0, 255), [(42, 0)]), ((0, 0, 44, 0, 0, 255), [(18, 0)]), ((0, 0, 44, 0, 128, 255), [(18, 0)]),
    ((0, 0, 96, 1, 0, 255), [(1, 0)]), ((0, 0, 96, 1, 1, 255), [(1, 0)]), ((0, 0, 96, 1, 2, 255), [(1, 0)]), ((0, 0, 96, 1, 4, 255), [(1, 0)]), ((0, 0, 96, 4, 3, 255), [(1, 0)]),
    ((0, 0, 128, 100, 0, 255), [(1, 0), (3, 0)]), ((0, 0, 96, 3, 10, 255), [(70, 0)]), ((0, 1, 96, 3, 10, 255), [(70, 0)]), ((0, 0, 96, 3, 20, 255), [(68, 0)]), ((0, 0, 96, 12, 4, 255), [(1, 0)]),
    ((0, 0, 97, 98, 1, 255), [(1, 0)]), ((1, 0, 98, 2, 0, 255), [(7, 1)]), ((1, 0, 99, 1, 0, 255), [(7, 1)]), ((0, 0, 94, 7, 1, 255), [(1, 0), (7, 1)]),
    ((1, 0, 1, 8, 0, 255), [(3, 0), (4, 0)]), ((1, 0, 32, 7, 0, 255), [(3, 0)]), ((1, 0, 40, 7, 0, 255), [(3, 0)]), ((1, 0, 41, 7, 0, 255), [(3, 0)]), ((1, 0, 52, 7, 0, 255), [(3, 0)]),
    ((1, 0, 60, 7, 0, 255), [(3, 0)]), ((1, 0, 61, 7, 0, 255), [(3, 0)]), ((0, 0, 25, 6, 0, 255), [(47, 0), (47, 1)]), ((0, 1, 25, 6, 0, 255), [(47, 0), (47, 1)]),
    ((0, 0, 43, 0, 0, 255), [(64, 0), (64, 1)]), ((0, 0, 43, 0, 1, 255), [(64, 0), (64, 1)]), ((0, 0, 10, 0, 0, 255), [(9, 0)]), ((0, 0, 10, 0, 100, 255), [(9, 0)]),
    ((0, 0, 96, 51, 3, 255), [(1, 0)]), ((0, 0, 96, 51, 4, 255), [(1, 0)]), ((0, 0, 96, 51, 5, 255), [(1, 0)]), ((0, 0, 96, 51, 6, 255), [(1, 0)]), ((0, 0, 96, 51, 7, 255), [(1, 0)]),
    ((0, 0, 97, 98, 11, 255), [(1, 0)]), ((1, 0, 11, 134, 0, 255), [(3, 0)]), ((1, 0, 12, 134, 0, 255), [(3, 0)]), ((0, 0, 42, 0, 0, 7), [(1, 0)]), (LDN, [(1, 0)])]
NAMES = [p[0] for p in POOL]
ABSENT = [(0, 0, 40, 0, 7, 255), (1, 0, 2, 8, 0, 255), (0, 0, 1, 0, 1, 255), (1, 0, 42, 0, 0, 255)]
# getter of the collection: logical name
GETTERS = {
    "LDN": LDN, "current_association": (0, 0, 40, 0, 0, 255), "PUBLIC_ASSOCIATION": (0, 0, 40, 0, 1, 255), "COMMUNICATION_PORT_PARAMETER": (0, 0, 96, 12, 4, 255),
    "clock": (0, 0, 1, 0, 0, 255), "activity_calendar": (0, 0, 13, 0, 0, 255), "special_day_table": (0, 0, 11, 0, 0, 255), "TCP_UDP_setup": (0, 0, 25, 0, 0, 255),
    "IPv4_setup": (0, 0, 25, 1, 0, 255), "boot_image_transfer": (0, 0, 44, 0, 128, 255), "firmware_image_transfer": (0, 0, 44, 0, 0, 255),
    "RU_EXTENDED_PASSPORT_DATA": (0, 0, 94, 7, 1, 255), "firmware_version": (0, 0, 96, 1, 2, 255), "device_type": (0, 0, 96, 1, 1, 255), "manufacturing_date": (0, 0, 96, 1, 4, 255),
    "RU_LOAD_LOCK_STATUS": (0, 0, 96, 4, 3, 255), "firmwares_description": (0, 0, 128, 100, 0, 255), "serial_number": (0, 0, 96, 1, 0, 255),
    "RU_MAGNETIC_EFFECT": (0, 0, 96, 51, 3, 255), "RU_HF_FIELD_EFFECT": (0, 0, 96, 51, 4, 255), "RU_ELECTRIC_SEAL_STATUS": (0, 0, 96, 51, 5, 255),
    "RU_CLOSE_ELECTRIC_SEAL": (0, 0, 96, 51, 6, 255), "RU_ERASE_MAGNETIC_EVENTS": (0, 0, 96, 51, 7, 255), "RU_ALARM_REGISTER_2": (0, 0, 97, 98, 1, 255),
    "RU_FILTER_ALARM_2": (0, 0, 97, 98, 11, 255), "RU_DAILY_PROFILE": (1, 0, 98, 2, 0, 255), "RU_MAXIMUM_CURRENT_EXCESS_LIMIT": (1, 0, 11, 134, 0, 255),
    "RU_MAXIMUM_VOLTAGE_EXCESS_LIMIT": (1, 0, 12, 134, 0, 255)}
METHODS = {
    "getASSOCIATION": lambda i: (0, 0, 40, 0, i, 255), "getIECHDLCSetup": lambda i: (0, i, 22, 0, 0, 255), "getIPv4Setup": lambda i: (0, i, 25, 1, 0, 255),
    "getDISCONNECT_CONTROL": lambda i: (0, i, 96, 3, 10, 255), "getARBITRATOR": lambda i: (0, i, 96, 3, 20, 255)}
CLASSES = (1, 3, 4, 7, 8, 9, 11, 15, 18, 20, 23, 41, 42, 47, 64, 68, 70)
PREFIX = ("bytes", "str", "LogicalName", "instance", "attribute", "method", "selection", "capture", "list_element", "action")


class Any3(cdt.Structure):
    """logical name is not named so"""
    number: cdt.Unsigned
    name: cst.LogicalName
    other: cst.LogicalName


class NoName(cdt.Structure):
    number: cdt.Unsigned


def form(kind, ln):
    """logical name in one of the forms that contain it"""
    b = bytes(ln)
    inst = cosemObjectInstanceId.CosemObjectInstanceId(b)
    match kind:
        case "bytes": return b
        case "str": return ".".join(map(str, ln))
        case "LogicalName": return cst.LogicalName(bytearray(b))
        case "instance": return inst
        case "attribute": return ut.CosemAttributeDescriptor(CosemClassId(1), inst, ut.CosemObjectAttributeId(2))
        case "method": return ut.CosemMethodDescriptor(CosemClassId(1), inst, ut.CosemObjectMethodId(1))
        case "selection": return ut.CosemAttributeDescriptorWithSelection(
            ut.CosemAttributeDescriptor(CosemClassId(7), inst, ut.CosemObjectAttributeId(2)), ut.SelectiveAccessDescriptor(ut.Unsigned8(2), cdt.NullData()))
        case "capture": return structs.CaptureObjectDefinition((1, bytearray(b), 2, 0))
        case "list_element": return ObjectListElement(b"\x02\x04\x12\x00\x01\x11\x00\x09\x06" + b + b"\x02\x02\x01\x00\x01\x00")
        case "action": return structs.ActionItem((bytearray(b), 1))
        case "any": return Any3((1, bytearray(b), bytearray(bytes(LDN))))


FORMS = ("bytes", "str", "LogicalName", "instance", "attribute", "method", "selection", "capture", "list_element", "action", "any")


class Model:
    def __init__(self):
        self.c = col.Collection()
        self.m = {LDN: self.c.get_object(bytes(LDN))}      # logical name: object

    def classes(self):
        return {}


def invariants(ctx, s, what):
    c, m = s.c, s.m
    ctx.eq(len(c), len(m), f"length after {what}")
    ctx.eq([id(o) for o in c], [id(o) for o in m.values()], f"objects in order of adding after {what}")
    ctx.eq([id(o) for o in c.values()], [id(o) for o in m.values()], f"values after {what}")
    for ln, o in m.items():
        ctx.check(c.get(bytes(ln)) is o, f"{ln} is its object after {what}")
        ctx.eq(bytes(o.logical_name), bytes(ln), "logical name")
        ctx.check(o.collection is c, "object knows its collection")
    for ln in ABSENT:
        ctx.check(c.get(bytes(ln)) is None, f"{ln} is absent")
    desc = [(n.contents, int(c_), int(v)) for n, c_, v in c.get_objects_descriptions()]
    ctx.eq(desc, [(bytes(ln), int(o.CLASS_ID), int(o.VERSION)) for ln, o in m.items()], f"descriptions after {what}")


def _history(ctx, case):
    """case: list of operations"""
    s = Model()
    c, m = s.c, s.m
    versions = lambda cid: [int(o.VERSION) for o in m.values() if int(o.CLASS_ID) == cid]
    removed = replaced = False
    for op in case:
        what, *a = op
        if what in ("add", "missing"):
            ln, kinds = POOL[a[0] % len(POOL)]
            cid, ver = kinds[a[1] % len(kinds)]
            v = cdt.Unsigned(ver)
            name = cst.LogicalName(bytearray(ln))
            if a[2]:    # the version of the objects already present
                v, have = None, versions(cid)
                ver = have[0] if have else None
            if what == "missing" and ln in m:
                ctx.check(c.add_if_missing(CosemClassId(cid), v, name) is m[ln], "present object is returned")
            elif ver is None:
                ctx.raises(lambda: (c.add if what == "add" else c.add_if_missing)(CosemClassId(cid), v, name), "version is unknown", ValueError)
            else:
                o = (c.add if what == "add" else c.add_if_missing)(CosemClassId(cid), v, name)
                replaced |= ln in m
                ctx.check(all(o is not x for x in m.values()), "new object")
                ctx.eq((int(o.CLASS_ID), int(o.VERSION)), (cid, ver), "class and version of the new object")
                m[ln] = o
        elif what == "foreign":     # class not allowed there
            ln = NAMES[a[0] % len(NAMES)]
            ctx.raises(lambda: c.add(CosemClassId(24), cdt.Unsigned(0), cst.LogicalName(bytearray(ln))), "foreign class", ValueError)
        elif what == "remove":
            ln = (NAMES + ABSENT)[a[0] % (len(NAMES) + len(ABSENT))]
            want = ln in m and ln != LDN
            ctx.eq(c.try_remove(cst.LogicalName(bytearray(ln))), want, f"removed {ln}")
            if want:
                del m[ln]
                removed = True
        elif what == "first":
            lns = [(NAMES + ABSENT)[i % (len(NAMES) + len(ABSENT))] for i in a[0]]
            keys = [form(FORMS[(i + j) % len(FORMS)], ln) for j, (i, ln) in enumerate(zip(a[0], lns))]
            want = next((m[ln] for ln in lns if ln in m), None)
            if want is None:
                ctx.raises(lambda: c.get_first(keys), "none is present", exc.NoObject)
            else:
                ctx.check(c.get_first(keys) is want, "first present object")
        elif what == "class":
            cid = CLASSES[a[0] % len(CLASSES)]
            want = [id(o) for o in m.values() if int(o.CLASS_ID) == cid]
            ctx.eq([id(o) for o in c.get_objects_by_class_id(cid)], want, "objects of class by int")
            ctx.eq([id(o) for o in c.get_objects_by_class_id(CosemClassId(cid))], want, "objects of class")
            if want:
                ctx.eq(int(c.find_version(CosemClassId(cid))), versions(cid)[0], "version of class")
            vers = {}
            for o in m.values():
                vers.setdefault(int(o.CLASS_ID), set()).add(int(o.VERSION))
            if any(len(v) > 1 for v in vers.values()):
                ctx.label("several_versions")
                ctx.raises(c.get_class_version, "several versions of a class", ValueError)
            else:
                ctx.eq({int(k): int(v) for k, v in c.get_class_version().items()}, {k: min(v) for k, v in vers.items()}, "version of each class")
        elif what == "phases":
            cs = [ln[2] for ln in m if ln[0] == 1]
            if not cs:
                ctx.raises(c.get_n_phases, "no electricity object", exc.NoObject)
            else:
                ctx.eq(c.get_n_phases(), 3 if any(41 <= x <= 60 for x in cs) else 1, "amount of phases")
        elif what == "named":
            for n, ln in GETTERS.items():
                if ln in m:
                    ctx.check(getattr(c, n) is m[ln], f"{n} is the present object")
                else:
                    ctx.raises(lambda: getattr(c, n), n, exc.NoObject)
            for n, f in METHODS.items():
                for i in range(4):
                    if f(i) in m:
                        ctx.check(getattr(c, n)(i) is m[f(i)], f"{n}({i})")
                    else:
                        ctx.raises(lambda: getattr(c, n)(i), n, exc.NoObject)
        elif what == "find":
            ln = (NAMES + ABSENT)[a[0] % (len(NAMES) + len(ABSENT))]
            f = form(FORMS[a[1] % len(FORMS)], ln)
            ctx.eq(c.is_in_collection(f), ln in m, "is in collection")
            if ln in m:
                ctx.check(c.get_object(f) is m[ln] and c.get_object2(f) is m[ln], "found object")
                ctx.eq(c.get_attr(ut.CosemAttributeDescriptor(CosemClassId(1), cosemObjectInstanceId.CosemObjectInstanceId(bytes(ln)), ut.CosemObjectAttributeId(1))).contents, bytes(ln), "attribute by descriptor")
            else:
                ctx.raises(lambda: c.get_object(f), "absent", exc.NoObject)
                ctx.check(c.get_object2(f) is None, "absent object is None")
        elif what == "sort":
            ctx.eq([bytes(o.logical_name) for o in sorted(c)], [bytes(x) for x in sorted(m)], "objects in order of logical names")
        invariants(ctx, s, what)
    ctx.nt(len(m) > 2 and len(case) > 3)
    ctx.label("removed", removed)
    ctx.label("replaced", replaced)


n = st.integers(0, 10 ** 6)
idx = st.integers(0, len(POOL) - 1)
few = st.sampled_from([1, 2, 3, 4, 5, 7, 8, 19, 28, 29, 31, 34, 35, 36, 37, 38])
at = few | idx
op = st.one_of(
    st.tuples(st.just("add"), at, st.integers(0, 1), st.sampled_from([False, False, True])), st.tuples(st.just("add"), at, st.just(0), st.just(False)),
    st.tuples(st.just("missing"), at, st.integers(0, 1), st.booleans()), *[st.tuples(st.just("remove"), st.integers(0, len(POOL) + 3) | at)] * 2,
    st.tuples(st.just("foreign"), at), st.tuples(st.just("first"), st.lists(at | st.integers(0, len(POOL) + 3), max_size=4)), st.tuples(st.just("class"), st.integers(0, len(CLASSES) - 1)),
    st.tuples(st.just("phases")), st.tuples(st.just("named")), st.tuples(st.just("find"), at | st.integers(0, len(POOL) + 3), st.integers(0, len(FORMS) - 1)), st.tuples(st.just("sort"))).map(list)

adds = st.tuples(st.just("add"), at, st.integers(0, 1), st.just(False)).map(list)
histories = st.tuples(st.lists(adds, min_size=3, max_size=15), st.lists(op, min_size=4, max_size=25)).map(lambda t: t[0] + t[1])


def _forms(ctx, case):
    """one logical name in every form; a structure without logical name and other values are rejected"""
    ln = tuple(case)
    c = col.Collection()
    o = c.add(CosemClassId(1), cdt.Unsigned(0), cst.LogicalName(bytearray(ln)))
    ctx.nt(True)
    for k in FORMS:
        f = form(k, ln)
        ctx.eq(col.get_ln_contents(f), bytes(ln), k)
        ctx.check(c.is_in_collection(f) and c.get_object(f) is o, k)
        for i in range(6):
            other = list(ln)
            other[i] ^= 1
            ctx.eq(c.is_in_collection(form(k, other)), tuple(other) == LDN, f"{k} other name")
    for bad in (NoName((1,)), 1, None, cdt.Unsigned(1), [0, 0, 1, 0, 0, 255]):
        ctx.raises(lambda: c.is_in_collection(bad), f"{bad!r} has no logical name", ValueError)


def _named(ctx, case):
    """case: index of getter and of another object added with it"""
    names = sorted(GETTERS)
    ln = GETTERS[names[case[0] % len(names)]]
    c, other = col.Collection(), col.Collection()
    kinds = dict(POOL)[ln]
    o = c.add(CosemClassId(kinds[0][0]), cdt.Unsigned(kinds[0][1]), cst.LogicalName(bytearray(ln)))
    ctx.nt(True)
    for n_ in names:
        for cc, objs in ((c, {LDN: c.get(bytes(LDN)), ln: o}), (other, {LDN: other.get(bytes(LDN))})):
            if GETTERS[n_] in objs:
                ctx.check(getattr(cc, n_) is objs[GETTERS[n_]], n_)
            else:
                ctx.raises(lambda: getattr(cc, n_), n_, exc.NoObject)
    o2 = c.add(CosemClassId(kinds[0][0]), cdt.Unsigned(kinds[0][1]), cst.LogicalName(bytearray(ln)))
    ctx.check(getattr(c, names[case[0] % len(names)]) is o2, "the present object after replacement")
    if ln != LDN:
        c.try_remove(cst.LogicalName(bytearray(ln)))
        ctx.raises(lambda: getattr(c, names[case[0] % len(names)]), "removed", exc.NoObject)


octet = st.integers(0, 255)
def _phases(ctx, case):
    """a device is three-phase when it has electricity objects of the second phase"""
    c = col.Collection()
    cs = []
    for a, x in case:
        ln = bytes((a, 0, x, 7, 0, 255))
        try:
            c.add(CosemClassId(3), cdt.Unsigned(0), cst.LogicalName(bytearray(ln)))
        except ValueError:
            ctx.label("no such register")
            continue
        if a == 1:
            cs.append(x)
    if not cs:
        ctx.raises(c.get_n_phases, "no electricity object", exc.NoObject)
    else:
        ctx.eq(c.get_n_phases(), 3 if any(41 <= x <= 60 for x in cs) else 1, f"amount of phases for {cs}")
    ctx.nt(len(cs) > 1)


PROP = Prop("C30", rule="a history is non-trivial when it has more than three operations and leaves more than two objects; the other cases always are", facets=[
    Facet("history", histories, _history, quick=700, thorough=30000, examples=[[["add", len(POOL) - 2, 0, False], ["remove", len(POOL) - 1], ["remove", len(POOL) - 2], ["find", len(POOL) - 2, 0]]]),
    Facet("phases", st.lists(st.tuples(st.sampled_from([1, 1, 1, 7]), st.one_of(st.integers(0, 99), st.sampled_from([0, 1, 21, 40, 41, 60, 61, 80, 81]))).map(list), max_size=4), _phases, quick=300, thorough=5000, examples=[[[1, 0]], [[1, 60]], [[1, 41]]]),
    Facet("forms", st.tuples(st.just(0), octet, octet, st.integers(0, 127), octet, octet).map(list).filter(
        lambda x: tuple(x) != LDN and x[2] in range(100, 128)), _forms, quick=200, thorough=5000),
    Facet("named", st.tuples(idx).map(list), _named, quick=40, thorough=200, exhaustive=lambda: ([i] for i in range(len(GETTERS)))),
], assumptions=["A logical name is contained in: its octets, its text, LogicalName, instance id, attribute and method descriptors (with selection too), a structure with a logical name (the first one)."])
