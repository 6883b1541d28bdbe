"""a description of a device type in a file is the collection it was made from"""
import os
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from ..core import Prop, Facet
from .. import fill
from src.DLMS_SPODES.types import cdt, cst, ut
from src.DLMS_SPODES.types.cosemClassID import CosemClassId
from src.DLMS_SPODES.cosem_interface_classes import collection as col
from src.DLMS_SPODES.cosem_interface_classes import cosem_interface_class as ic
from src.DLMS_SPODES.version import AppVersion
from src.DLMS_SPODES import exceptions as exc
from .c31 import len_enc, READ, WRITE, A_READ, A_WRITE
from .c33 import ENTRIES, TYPES, settable, one_object, library, dependents, depending

DERIVED = (7, 11)      # values follow from or depend on other objects
PLAIN = [k for k, (ln, cv) in enumerate(ENTRIES) if cv[0] not in DERIVED]
CURRENT = (0, 0, 40, 0, 0, 255)
LDN_ = (0, 0, 42, 0, 0, 255)
FILE = "pbt_c39.typ"


def element(ver, ln, cid, cver, modes):
    return (b"\x02\x04\x12" + cid.to_bytes(2, "big") + b"\x11" + bytes([cver]) + b"\x09\x06" + bytes(ln) + b"\x02\x02\x01" + len_enc(len(modes)) +
            b"".join(b"\x02\x03\x0f" + bytes([i]) + b"\x16" + bytes([m]) + b"\x00" for i, m in modes) + b"\x01\x00")


def arr(els):
    return b"\x01" + len_enc(len(els)) + b"".join(els)


def version(draw, n=3):
    return [draw(st.integers(0, 12)) for _ in range(n)]


@st.composite
def identity(draw):
    t = draw(st.one_of(st.none(), st.binary(max_size=6).map(lambda b: b"\x09" + bytes([len(b)]) + b), st.integers(0, 65535).map(lambda i: b"\x12" + i.to_bytes(2, "big"))))
    man = draw(st.sampled_from([None, "101", "ABC", "XYZ", "KPZ"]))
    ver = version(draw)
    if man == "KPZ":     # early versions have another specification which the description does not select
        ver[0] += 2
    return {"man": man, "type": None if t is None else t.hex(),
            "ver": ver, "cver": draw(st.sampled_from([None, [4, 1, 0], [1, 2, 3], [3, 0]])), "country": draw(st.sampled_from([7, 7, 1, 33]))}


@st.composite
def cases(draw):
    ks = draw(st.lists(st.sampled_from(PLAIN), min_size=1, max_size=6, unique_by=lambda k: ENTRIES[k][0]))
    objects = [draw(one_object(k)) for k in ks]
    numbers = draw(st.lists(st.integers(1, 6), min_size=1, max_size=3, unique=True))
    asses = []
    for n, e in enumerate(numbers):
        ver = draw(st.integers(0, 2))
        modes = st.integers(0, 3) if ver == 0 else st.integers(0, 6)
        listed = sorted(set(draw(st.lists(st.integers(0, len(ks) - 1), max_size=6)))) if n else list(range(len(ks)))
        els = [[k, [[i, draw(modes)] for i in range(1, len(TYPES[ks[k]].A_ELEMENTS) + 2)]] for k in listed]
        asses.append([e, ver, draw(st.permutations(els))])
    return [objects, asses, draw(identity())]


def identify(c, d, server=True):
    c.set_dlms_ver(6)
    if d["cver"]:
        c.set_country_ver(AppVersion(*d["cver"]))
    if d["man"]:
        c.set_manufacturer(d["man"].encode())
    if d["type"]:
        c.set_server_type(cdt.get_instance_and_pdu_from_value(bytes.fromhex(d["type"]))[0])
    if server:
        c.set_server_ver(0, AppVersion(*d["ver"]))


def ident(c):
    return (c.dlms_ver, c.country, c.country_ver, c.manufacturer, None if c.server_type is None else c.server_type.encoding)


def enc(v):
    return None if v is None else v.encoding.hex()


def build(case):
    objects, asses, d = case
    c = col.Collection(col.CountrySpecificIdentifiers(d["country"]))
    identify(c, d)
    c.set_spec()
    made = []
    for k, values in objects:
        ln, (cid, ver) = ENTRIES[k]
        try:
            o = c.add(CosemClassId(cid), cdt.Unsigned(ver), cst.LogicalName(bytearray(ln)))
        except ValueError:  # not in the specification
            return None, None
        made.append(o)
    for o, (k, values) in zip(made, objects):
        for i, h in values:
            try:
                o.set_attr(i, bytes.fromhex(h))
            except Exception:  # rule of the type (unique elements), other type of the specification
                pass
    for e, ver, els in asses:
        a = c.add(CosemClassId(15), cdt.Unsigned(ver), cst.LogicalName(bytearray((0, 0, 40, 0, e, 255))))
        own = [[i, 1] for i in range(1, len(a.A_ELEMENTS) + 2)]
        items = [element(ver, (0, 0, 40, 0, e, 255), 15, ver, own), element(ver, CURRENT, 15, ver, own), element(ver, LDN_, 1, 0, [[1, 1], [2, 1]])]
        items += [element(ver, ENTRIES[objects[n][0]][0], *ENTRIES[objects[n][0]][1], modes) for n, modes in els]
        a.set_attr(2, arr(items))
    return c, made


def kept(case, made):
    """{(number of object, attribute)} with values in the description"""
    ret = set()
    for e, ver, els in case[1]:
        for n, modes in els:
            for i, m in modes[1:]:
                if m in (READ | (A_READ if ver else set())) and m not in (WRITE | (A_WRITE if ver else set())):
                    ret.add((n, i))
    return ret


def _saved(ctx, case):
    a, made = build(case)
    if a is None:
        ctx.label("not in specification")
        return
    before = {o.logical_name.contents: [enc(v) for v in o] for o in a.values()}
    a.save_type(FILE)
    ctx.eq({o.logical_name.contents: [enc(v) for v in o] for o in a.values()}, before, "collection after save")
    b = col.Collection.from_xml(FILE)
    ctx.eq(ident(b), ident(a), "identification")
    ctx.eq(b.collection_ver, AppVersion(*case[2]["ver"]), "version of the description")
    ctx.eq({o.logical_name.contents: o.__class__ for o in b.values() if o.logical_name.contents not in (bytes(CURRENT), bytes(LDN_))},
           {o.logical_name.contents: o.__class__ for o in a.values() if o.logical_name.contents not in (bytes(CURRENT), bytes(LDN_))}, "objects of the description")
    ctx.check(b.get(bytes(CURRENT)) is not None, "current association")
    for e, ver, _ in case[1]:
        ln = bytes((0, 0, 40, 0, e, 255))
        ctx.eq(enc(b.get(ln).object_list), enc(a.get(ln).object_list), "object list")
    keep = kept(case, made)
    n = 0
    for k, o in enumerate(made):
        p = b.get(o.logical_name.contents)
        fresh = o.__class__(o.logical_name)
        for i, v in o.get_index_with_attributes():
            el = o.get_attr_element(i)
            got = p.get_attr(i)
            if i == 1:
                continue
            if (k, i) in keep and el.classifier == ic.Classifier.STATIC and v is not None:
                ctx.eq(enc(got), enc(v), f"{o} attribute {i}")
                ctx.eq(got.__class__.__name__, v.__class__.__name__, f"type of {o} attribute {i}")
                n += 1
            elif isinstance(el.DATA_TYPE, ut.CHOICE):
                if v is None:
                    ctx.check(got is None, f"{o} choice {i}")
                else:
                    ctx.check(got is not None and got.__class__ is v.__class__, f"type of {o} choice {i}: {got!r}, expected {v.__class__}")
                    n += 1
            elif int(o.CLASS_ID) not in (3, 4, 5):
                ctx.eq(enc(got), enc(fresh.get_attr(i)), f"{o} attribute {i} is not in the description")
    ctx.nt(n > 1)
    # a saved description is the same one
    first = content(FILE)
    b.set_server_ver(0, AppVersion(*case[2]["ver"]))
    b.save_type(FILE)
    ctx.eq(content(FILE), first, "description saved again")


def content(path):
    """what is in the file, without order of objects"""
    root = ET.parse(path).getroot()
    return ([(e.tag, sorted(e.attrib.items()), e.text) for e in root if e.tag != "obj"],
            sorted((e.attrib["ln"], [(x.tag, x.attrib.get("i"), x.text) for x in e]) for e in root if e.tag == "obj"))


# ---- objects that depend on others, in every order
@st.composite
def watched_cases(draw):
    case = draw(dependents())
    case[-1] = None
    for k, values in zip(case[1], case[2]):
        if ENTRIES[k][0][:3] == (0, 0, 42):     # name of the device begins with its manufacturer
            values[:] = [(i, "090d58595a" + "30" * 10 if i == 2 else h) for i, h in values]
    for w in case[5]:
        w[-1] = False       # type of threshold is that of the value
    return [case, draw(st.permutations(range(14))), draw(st.lists(st.sampled_from([1, 1, 1, 1, 4, 0, 2, 3, 5, 6]), min_size=12, max_size=12)), draw(st.sampled_from([[1, 2, 3], [0, 0, 1]]))]


def _watched(ctx, case):
    case, order, modes, v = case
    a, want, profiles = depending(ctx, case)
    want = sorted(want, key=lambda w: order[want.index(w) % len(order)])
    n_attr = {ln: len(a.get(bytes(ln)).A_ELEMENTS) + 1 for ln, _ in want}
    rights = {ln: [[i, modes[i % 12]] for i in range(1, n + 1)] for ln, n in n_attr.items()}
    ass = (0, 0, 40, 0, 1, 255)
    items = [element(1, ass, 15, 1, [[i, 1] for i in range(1, 9)])] + [element(1, ln, *cv, rights[ln]) for ln, cv in want]
    a.add(CosemClassId(15), cdt.Unsigned(1), cst.LogicalName(bytearray(ass))).set_attr(2, arr(items))
    identify(a, {"cver": None, "man": None if a.manufacturer else "XYZ", "type": "120005", "ver": v})
    a.save_type(FILE)
    b = col.Collection.from_xml(FILE)
    keep = {(ln, i) for ln, at in rights.items() for i, m in at if m in (READ | A_READ) and m not in (WRITE | A_WRITE)}
    n = 0
    for ln, (cid, _) in want:
        o, p = a.get(bytes(ln)), b.get(bytes(ln))
        ctx.check(p is not None and p.__class__ is o.__class__, f"object {o}")
        for i, x in o.get_index_with_attributes():
            if i == 1 or x is None:
                continue
            y = p.get_attr(i)
            el = o.get_attr_element(i)
            if (ln, i) in keep and el.classifier == ic.Classifier.STATIC:
                if cid == 7 and i == 3 and (ln, 6) not in keep:
                    continue        # sort object is not known
                if cid == 71 and i > 2 and isinstance(el.DATA_TYPE, ut.CHOICE) and (ln, 2) not in keep:
                    continue        # monitored value is not known
                ctx.eq(enc(y), enc(x), f"{o} attribute {i}")
                n += 1
            elif cid == 71 and i in (3, 4, 5) and (ln, 2) in keep:
                ctx.eq(enc(y), enc(x.__class__()), f"only type of {o} attribute {i} is in the description")
            elif isinstance(el.DATA_TYPE, ut.CHOICE) and cid != 71:
                ctx.eq(enc(y), enc(x.__class__()), f"only type of {o} attribute {i} is in the description")
            if cid == 71 and i in (3, 4, 5) and (ln, 2) in keep:
                reg = b.get(o.monitored_value.logical_name.contents)
                if isinstance(y, (cdt.Digital, cdt.Float)):
                    ctx.eq(enc(y.SCALER_UNIT), enc(reg.scaler_unit), f"scaler of {o} attribute {i}")
                    ctx.label("scaler of threshold", reg.scaler_unit is not None)
    ctx.nt(len(case[5]) > 0 and n > 3)


# ---- library
def _library(ctx, k):
    path = library()[k % len(library())]
    a = col.Collection.from_xml(path)
    ctx.check(len(list(a.values())) > 0, "objects")
    v = AppVersion.from_str(os.path.basename(path).removesuffix(".typ"))
    a.set_server_ver(0, v)
    a.save_type(FILE)
    text = content(FILE)
    listed = {}
    for s in a.values():
        if int(s.CLASS_ID) == 15 and s.logical_name.e and s.object_list is not None:
            for el in s.object_list:
                ro = listed.setdefault(el.logical_name.contents, set())
                ro |= {int(x.attribute_id) for x in el.access_rights.attribute_access if x.access_mode.is_readable() and not x.access_mode.is_writable()}
    if any(2 not in listed.get(s.logical_name.contents, ()) for s in a.values() if int(s.CLASS_ID) == 15 and s.logical_name.e and s.object_list is not None):
        ctx.label("object list is not readable")
        return
    b = col.Collection.from_xml(FILE)
    ctx.eq(ident(b), ident(a), "identification")
    ctx.eq(b.collection_ver, v, "version")
    n = 0
    for ln, ro in listed.items():
        o, p = a.get(ln), b.get(ln)
        if o is None:
            continue    # not supported
        if ln == bytes(CURRENT):    # takes the version of the first association
            continue
        ctx.check(p is not None and p.__class__ is o.__class__, f"object {o}: {p!r}")
        for i, x in o.get_index_with_attributes():
            el = o.get_attr_element(i)
            if x is not None and i > 1 and i in ro and el.classifier == ic.Classifier.STATIC:
                ctx.eq(enc(p.get_attr(i)), enc(x), f"{o} attribute {i}")
                n += 1
            elif x is not None and isinstance(el.DATA_TYPE, ut.CHOICE) and ln != bytes(LDN_):
                if x.__class__ not in el.DATA_TYPE.get_types():
                    ctx.label("forced type")
                ctx.eq(p.get_attr(i).__class__.__name__, x.__class__.__name__, f"type of {o} attribute {i}")
    b.set_server_ver(0, v)
    b.save_type(FILE)
    ctx.check(content(FILE) == text, "description saved again")
    ctx.nt(n > 10)


# ---- written description
@st.composite
def described_cases(draw):
    ks = draw(st.lists(st.sampled_from(PLAIN), min_size=1, max_size=5, unique_by=lambda k: ENTRIES[k][0]))
    objects = []
    for k in ks:
        entries = []
        for i, h in draw(one_object(k))[1]:
            el = TYPES[k].get_attr_element(i)
            if isinstance(el.DATA_TYPE, ut.CHOICE):
                kind = draw(st.integers(0, 5))
                tags = [t.TAG[0] for t in el.DATA_TYPE.get_types() if t.TAG[0] != 19]    # compact array is not supported
                if kind == 0:
                    entries.append([i, draw(st.sampled_from(tags)), 0, None])
                    continue
                if kind == 1:
                    entries.append([i, draw(st.sampled_from([3, 5, 6, 9, 16, 18, 22, 26, 27])), draw(st.integers(0, 1)), None])
                    continue
            elif draw(st.integers(0, 7)) == 0:
                entries.append([i, draw(st.sampled_from([int(el.DATA_TYPE.TAG[0]), 3, 18])), draw(st.integers(0, 1)) * 0, None])
                continue
            if len(h) > 2:
                entries.append([i, h, 0, draw(st.none() | st.tuples(st.integers(2000, 2050), st.integers(1, 12), st.integers(1, 28), st.integers(0, 23)))])
        objects.append([k, entries])
    return [draw(st.integers(0, 3)), objects, draw(identity())]


def moment(r):
    y, m, d, h = r
    return y.to_bytes(2, "big") + bytes((m, d, 255, h, 0, 0, 255, 0x80, 0, 0))


def write(case, version):
    """the description, without this library"""
    _, objects, d = case
    root = ET.Element("Objects", attrib={"version": version})

    def add(tag, text, parent=root, **a):
        e = ET.SubElement(parent, tag, attrib=a)
        e.text = text
        return e

    add("dlms_ver", "6")
    add("country", str(d["country"]))
    if d["cver"]:
        add("country_ver", ".".join(map(str, d["cver"])))
    if d["man"]:
        add("manufacturer", d["man"])
    if d["type"]:
        add("server_type", d["type"])
    add("server_ver", ".".join(map(str, d["ver"])))
    v4 = version[0] == "4"
    if v4:
        els = [element(1, ENTRIES[k][0], *ENTRIES[k][1], [[i, 1] for i in range(1, len(TYPES[k].A_ELEMENTS) + 2)]) for k, _ in objects]
        o = add("obj", None, ln="0.0.40.0.1.255")
        add("ver", "1", o)
        add("attr", arr(els).hex(), o, i="2")
    for k, entries in objects:
        ln, (cid, ver) = ENTRIES[k]
        o = add("obj" if v4 else "object", None, ln=".".join(map(str, ln)), name="object")
        if not v4:
            add("class_id", str(cid), o)
            add("version", str(ver), o)
        for i, v, forced, rec in entries:
            a = {"i" if v4 else "index": str(i)}
            if forced:
                a["forced"] = "1"
            if rec and not v4:
                a["record_time"] = "19" + moment(rec).hex()
            add("attr" if v4 else "attribute", v if isinstance(v, str) else str(v), o, **a)
    return ET.tostring(root, encoding="cp1251", method="xml")


def _described(ctx, case):
    version = ("3.0.0", "3.1.0", "3.2.0", "4.0.0")[case[0]]
    _, objects, d = case
    c = col.Collection(col.CountrySpecificIdentifiers(d["country"]))
    identify(c, d, server=False)
    c.set_spec()
    made = []
    for k, entries in objects:
        ln, (cid, ver) = ENTRIES[k]
        try:
            made.append(c.add(CosemClassId(cid), cdt.Unsigned(ver), cst.LogicalName(bytearray(ln))))
        except ValueError:
            ctx.label("not in specification")
            return
        if isinstance(made[-1].get_attr_element(2).DATA_TYPE, ut.CHOICE) != isinstance(TYPES[k].get_attr_element(2).DATA_TYPE, ut.CHOICE):
            ctx.label("other type in specification")
            return
    with open(FILE, "wb") as f:
        f.write(write(case, version))
    b = col.Collection.from_xml(FILE)
    ctx.eq(ident(b), ident(c), "identification")
    ctx.eq(b.collection_ver, AppVersion(*d["ver"]), "version of the description")
    want = {o.logical_name.contents: o.__class__ for o in made}
    got = {o.logical_name.contents: o.__class__ for o in b.values()}
    if version[0] == "4":
        for x in (bytes(CURRENT), bytes((0, 0, 40, 0, 1, 255))):
            ctx.check(x in got and got.pop(x).__name__ == "AssociationLN", "association")
    got.pop(bytes(LDN_), None)
    ctx.eq(got, want, "objects")
    n = 0
    for o, (k, entries) in zip(made, objects):
        for i, v, forced, rec in entries:
            el = o.get_attr_element(i)
            if isinstance(v, str):
                try:
                    o.set_attr(i, bytes.fromhex(v))
                except Exception:
                    ctx.label("refused")
                n += 1
                if rec and version[0] == "3":
                    ctx.eq(b.get(o.logical_name.contents).get_record_time(i), cdt.DateTime(bytearray(moment(rec))), "time of record")
            elif isinstance(el.DATA_TYPE, ut.CHOICE):
                t = [x for x in el.DATA_TYPE.get_types() if x.TAG[0] == v]
                if t:
                    if o.get_attr(i) is None:
                        o.set_attr(i, v)
                    ctx.check(b.get(o.logical_name.contents).get_attr(i).__class__ is o.get_attr(i).__class__, "type from the description")
                elif forced:
                    ctx.eq(b.get(o.logical_name.contents).get_attr(i).TAG[0], v, "forced type")
                    ctx.label("forced")
                    o.set_attr_force(i, b.get(o.logical_name.contents).get_attr(i))
        p = b.get(o.logical_name.contents)
        for i, x in o.get_index_with_attributes():
            ctx.eq(enc(p.get_attr(i)), enc(x), f"{o} attribute {i}")
            ctx.eq(p.get_attr(i).__class__.__name__, x.__class__.__name__, f"type of {o} attribute {i}")
    ctx.nt(n > 1)
    ctx.label(version)


PROP = Prop("C39", rule="non-trivial: some values are in the description (saved, described, with watching objects: watched), more than ten (library)", facets=[
    Facet("saved", cases(), _saved, quick=500, thorough=8000),
    Facet("watched", watched_cases(), _watched, quick=120, thorough=5000),
    Facet("library", st.integers(0, 113), _library, quick=25, thorough=60, examples=[71, 19, 113]),
    Facet("described", described_cases(), _described, quick=700, thorough=10000),
], assumptions=["Every association is in its own object list."])
