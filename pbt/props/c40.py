"""saved settings of a device and templates for several devices"""
import contextlib
import functools
import io
import os
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from ..core import Prop, Facet
from .. import fill
from src.DLMS_SPODES.types import cdt, cst, ut
from src.DLMS_SPODES.cosem_interface_classes import collection as col
from src.DLMS_SPODES.cosem_interface_classes import cosem_interface_class as ic
from src.DLMS_SPODES.version import AppVersion
from src.DLMS_SPODES import exceptions as exc
from .c33 import library, parts
from .c35 import special
from .c37 import value_def
from .c38 import PROFILES

FILE = "pbt_c40.xml"
KS = [71, 76, 16, 28, 67, 36, 51, 82, 92, 103, 113, 85, 24, 61]     # descriptions with different objects and associations


def key(k):
    """manufacturer, type and version of a description of the library"""
    files = [f for f in library() if len(f.split(os.sep)) == 4]
    _, man, t, name = files[k % len(files)].split(os.sep)
    return man.encode(), cdt.get_instance_and_pdu_from_value(bytes.fromhex(t))[0], AppVersion.from_str(name.removesuffix(".typ"))


def fresh(k):
    return col.get_collection(*key(k))


@functools.lru_cache(None)
def rights(k):
    """{association: [(logical name, index, ...) writable and static with an own value of its type]}"""
    c = fresh(k)
    ret = {}
    if (c.manufacturer, c.collection_ver) != (key(k)[0], key(k)[2]):     # the description has another identification than its place in the library
        return ret
    for a in c.values():
        if int(a.CLASS_ID) != 15 or a.logical_name.e == 0 or a.object_list is None:
            continue
        found, seen = [], set()
        for el in a.object_list:
            ln = el.logical_name.contents
            o = c.get(ln)
            if ln in seen or o is None:
                continue
            seen.add(ln)
            if int(o.CLASS_ID) in (15, 7):
                continue
            done = set()
            for x in el.access_rights.attribute_access:
                i = int(x.attribute_id)
                if i in done:
                    continue
                done.add(i)
                if i < 2 or i > len(o.A_ELEMENTS) + 1 or i in special(o.__class__):
                    continue
                if x.access_mode.is_writable() and o.get_attr_element(i).classifier == ic.Classifier.STATIC:
                    found.append((ln.hex(), i))
        if found:
            ret[a.logical_name.e] = found
    return ret


def value(k, ln, i):
    """strategy of encodings for the attribute"""
    o = fresh_cached(k).get(bytes.fromhex(ln))
    v = o.get_attr(i)
    t = o.get_attr_element(i).DATA_TYPE
    return fill.enc(v.__class__ if v is not None else t)


@functools.lru_cache(None)
def fresh_cached(k):
    return fresh(k)


@st.composite
def settings_cases(draw):
    k = draw(st.sampled_from(KS))
    r = rights(k)
    if not r:
        return [k, 3, []]
    e = draw(st.sampled_from(sorted(r)))
    at = draw(st.lists(st.sampled_from(r[e]), max_size=8, unique=True))
    other = sorted(set(sum(r.values(), [])) - set(r[e]))
    if other:
        at += draw(st.lists(st.sampled_from(other), max_size=3, unique=True))
    return [k, e, [[ln, i, draw(value(k, ln, i)).hex()] for ln, i in at]]


def enc(v):
    return None if v is None else v.encoding.hex()


def whole(c):
    return {o.logical_name.contents: [enc(v) for v in o] for o in c.values()}


@functools.lru_cache(None)
def original(k):
    return whole(fresh(k))


def _settings(ctx, case):
    k, e, values = case
    r = {(bytes.fromhex(ln), i) for ln, i in rights(k).get(e, [])}
    if not r:
        ctx.label("nothing is writable")
        return
    lib = original(k)
    a = fresh(k)
    for ln, i, h in values:
        try:
            a.get(bytes.fromhex(ln)).set_attr(i, bytes.fromhex(h))
        except ValueError:   # rule of the type
            ctx.label("refused")
    mine = whole(a)
    want = {ln: list(v) for ln, v in lib.items()}
    n = 0
    for ln, v in mine.items():
        for i, x in enumerate(v, 1):
            if (ln, i) in r and x is not None and x != lib[ln][i-1]:
                if x == "0100" and lib[ln][i-1] is None:
                    ctx.label("empty array")    # the same as no value
                    continue
                want[ln][i-1] = x
                n += 1
    if os.path.exists(FILE):
        os.remove(FILE)
    got = a.to_xml2(FILE, association_id=e)
    ctx.eq(got, n > 0, "something is saved")
    ctx.eq(os.path.exists(FILE), n > 0, "file is written")
    ctx.eq(whole(a), mine, "collection after saving")
    if not n:
        return
    b = fresh(k)
    b.from_xml2(FILE)
    back = whole(b)
    for ln in want:
        for i, (x, y) in enumerate(zip(back[ln], want[ln]), 1):
            ctx.eq(x, y, f"{b.get(ln)} attribute {i}")
    ctx.check(a == b and len(list(a.values())) == len(list(b.values())), "the same device")
    ctx.nt(n > 1)
    ctx.label("association %d" % e)


# ---- all values of a device
def tree(node, v, ctx, at):
    """texts of an attribute are the texts of parts of the value"""
    if isinstance(v, cdt.SimpleDataType):
        ctx.eq(node.text or "", str(v), F"text of {at}")
        return
    els = [n for n in node if isinstance(n.tag, str)]
    ctx.eq(len(els), len(v), F"elements of {at}")
    for n, x in zip(els, v):
        ctx.eq(n.tag, "array" if isinstance(x, cdt.Array) else "struct" if isinstance(x, cdt.Structure) else "simple", F"element of {at}")
        tree(n, x, ctx, at)


def xml_text(v):
    """characters of XML only"""
    return all(c in "\t" or ord(c) >= 32 for c in str(v)) and not any("\ud800" <= c <= "\udfff" or c in "\ufffe\uffff" for c in str(v))


def _dump(ctx, case):
    (k, e, values), how = case
    a = fresh(k)
    for ln, i, h in values:
        try:
            a.get(bytes.fromhex(ln)).set_attr(i, bytes.fromhex(h))
        except ValueError:   # rule of the type
            ctx.label("refused")
    mine = whole(a)
    if how == "decode" and not all(v is None or all(xml_text(p) for p in parts(v)) for o in a.values() for v in o):
        ctx.label("text is out of XML")
        return
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            a.to_xml(FILE, is_decode=how == "decode")
        ctx.eq(whole(a), mine, "collection after saving")
        if how == "decode":
            nodes = {n.attrib["ln"]: n for n in ET.parse(FILE).getroot().findall("object")}
            ctx.eq(sorted(nodes), sorted(str(o.logical_name) for o in a.values()), "objects")
            for o in a.values():
                at = {n.attrib["index"]: n for n in nodes[str(o.logical_name)].findall("attr")}
                ctx.eq(sorted(at), sorted(str(i) for i, v in o.get_index_with_attributes() if i > 1 and v is not None), F"attributes of {o}")
                for i, n in at.items():
                    v = o.get_attr(int(i))
                    ctx.eq(n.attrib.get("type"), "array" if isinstance(v, cdt.Array) else "struct" if isinstance(v, cdt.Structure) else None, F"kind of {o} attribute {i}")
                    tree(n, o.get_attr(int(i)), ctx, F"{o} attribute {i}")
            ctx.label("text")
        else:
            b = fresh(k)
            b.from_xml2(FILE)
            back = whole(b)
            ctx.eq(sorted(back), sorted(mine), "objects")
            for ln in mine:
                for i, (x, y) in enumerate(zip(back[ln], mine[ln]), 1):
                    ctx.eq(x, y, f"{b.get(ln)} attribute {i}")
        ctx.nt(len(values) > 1)
    finally:
        if os.path.exists(FILE):
            os.remove(FILE)


# ---- templates
def textual(t, top=True):
    """text of the value tells the value: no values whose type is chosen by octets"""
    if isinstance(t, ut.CHOICE) or issubclass(t, cdt.AXDR):
        return False
    if issubclass(t, cdt.Structure):
        return bool(getattr(t, "ELEMENTS", None)) and all(isinstance(e.TYPE, type) and textual(e.TYPE) for e in t.ELEMENTS)
    if issubclass(t, cdt.Array):
        return t.TYPE is not None and isinstance(t.TYPE, type) and textual(t.TYPE)
    return issubclass(t, cdt.SimpleDataType)


@functools.lru_cache(None)
def textuals(k):
    c = fresh_cached(k)
    ret = []
    for ln, i in sorted(set(sum(rights(k).values(), []))):
        o = c.get(bytes.fromhex(ln))
        v, t = o.get_attr(i), o.get_attr_element(i).DATA_TYPE
        if isinstance(t, ut.CHOICE):
            if v is None:
                continue
            t = v.__class__
        if textual(t):
            ret.append((ln, i))
    return ret


def readable(v):
    """each part of the value has a text of its own, of characters of XML"""
    for p in parts(v):
        if isinstance(p, cdt.Enum):
            if p.ELEMENTS is not None and list(p.ELEMENTS.values()).count(str(p)) != 1:
                return False    # reserved members share a text
        elif isinstance(p, cdt.VisibleString):
            if any(c < 32 or 126 < c < 192 for c in p.contents):
                return False
    return True


@st.composite
def template_cases(draw):
    ks = draw(st.lists(st.integers(0, 9).map(lambda i: i * 12), min_size=1, max_size=2, unique=True))
    ks = [k for k in ks if textuals(k)]
    values = []
    if ks:
        first = textuals(ks[0])
        simple = [x for x in first if x[1] > 1]
        at = draw(st.lists(st.sampled_from(simple), min_size=1, max_size=6, unique=True))
        values = [[ln, i, draw(value(ks[0], ln, i)).hex()] for ln, i in at]
    return [ks, values, draw(st.booleans()), draw(st.sampled_from([None, None, None, 0, 0, 90]))]


def _template(ctx, case):
    ks, values, verified, later = case    # patches of the device after the one of its description
    if not ks:
        ctx.label("nothing is textual")
        return
    cols = [fresh(k) for k in ks]
    used = {}
    for ln, i, h in values:
        o = cols[0].get(bytes.fromhex(ln))
        try:
            o.set_attr(i, bytes.fromhex(h))
        except ValueError:   # rule of the type
            ctx.label("refused")
        if o.get_attr(i) is not None:
            e = enc(o.get_attr(i))
            for p in parts(o.get_attr(i)):  # the clock status is not part of the text
                if isinstance(p, (cdt.DateTime, cst.OctetStringDateTime)):
                    e = e.replace(p.contents.hex(), p.contents[:11].hex() + "ff")
            o.set_attr(i, bytes.fromhex(e))
            if not readable(o.get_attr(i)):
                ctx.label("shared text")
                continue
            used.setdefault(o.logical_name, set()).add(i)
    if later is not None:
        for c in cols:
            v = c.collection_ver
            c.set_server_ver(0, AppVersion(v.major, v.minor, (v.patch or 0) + later), force=True)
    near = [c if later is None else col.get_collection(c.manufacturer, c.server_type, c.server_ver[0]) for c in cols]     # descriptions of the devices
    before = [whole(c) for c in cols]
    keep = {k.contents: set(v) for k, v in used.items()}
    col.to_xml4(cols, FILE, used, verified)
    ctx.eq({k.contents: v for k, v in used.items()}, keep, "used attributes after saving")
    ctx.eq([whole(c) for c in cols], before, "collections after saving")
    back, used2, ver = col.from_xml4(FILE)
    ctx.eq(ver, verified, "verified")
    ctx.eq({k.contents: v for k, v in used2.items()}, keep, "used attributes")
    ctx.eq(len(back), len(cols), "collections")
    n = 0
    for a, b in zip(near, back):
        ctx.eq((b.manufacturer, enc(b.server_type), b.collection_ver), (a.manufacturer, enc(a.server_type), a.collection_ver), "device")
    if any(x.collection_ver != c.collection_ver for x, c in zip(near, cols)):
        ctx.label("device is of another description")
        ctx.nt(bool(keep))
        return
    lib = original(ks[0])
    got = whole(back[0])
    for ln, v in lib.items():
        for i, x in enumerate(v, 1):
            if i in keep.get(ln, ()):
                ctx.eq(got[ln][i-1], before[0][ln][i-1], f"{back[0].get(ln)} attribute {i}")
                n += got[ln][i-1] != x
            else:
                ctx.eq(got[ln][i-1], x, f"{back[0].get(ln)} attribute {i} is not used")
    for b in back[1:]:
        for ln, at in keep.items():
            o = b.get(ln)
            for i in at:
                if o is None or o.__class__ is not back[0].get(ln).__class__ or o.get_attr(i).__class__ is not back[0].get(ln).get_attr(i).__class__:
                    continue
                ctx.eq(enc(o.get_attr(i)), enc(back[0].get(ln).get_attr(i)), f"{o} attribute {i} of the next device")
                ctx.label("next device")
    ctx.nt(n > 1)


# ---- value of a template which only one of the devices has
@functools.lru_cache(None)
def commons(ks):
    """attributes that a user may write in each device, of the same type of number"""
    ret = []
    for ln, i in sorted(set.intersection(*(set(textuals(k)) for k in ks))):
        ts = {fresh_cached(k).get(bytes.fromhex(ln)).get_attr_element(i).DATA_TYPE for k in ks}
        t = ts.pop()
        if not ts and isinstance(t, type) and issubclass(t, (cdt.Unsigned, cdt.LongUnsigned, cdt.DoubleLongUnsigned)):
            ret.append((ln, i))
    return ret


SPREAD = [36, 67, 71, 72, 76]


@st.composite
def spread_cases(draw):
    ks = draw(st.lists(st.sampled_from(SPREAD), min_size=2, max_size=3, unique=True))
    state = st.one_of(st.sampled_from([None, None, -1]), st.integers(1, 100))
    at = draw(st.lists(st.tuples(st.integers(0, 200), st.lists(state, min_size=len(ks), max_size=len(ks))).map(list), min_size=1, max_size=4, unique_by=lambda x: x[0]))
    return [ks, at, draw(st.booleans())]


def _spread(ctx, case):
    ks, at, verified = case
    cols = [fresh(k) for k in ks]
    both = commons(tuple(ks))
    if not both:
        ctx.label("nothing in common")
        return
    rows = {}
    for n, states in at:
        rows.setdefault(both[n % len(both)], states)
    removed = {(ln, j) for (ln, i), states in rows.items() for j, x in enumerate(states) if x == -1}
    used, want = {}, {}
    for (ln, i), states in rows.items():
        used.setdefault(cst.LogicalName(bytearray.fromhex(ln)), set()).add(i)
        want[ln, i] = None
        for j, (c, x) in enumerate(zip(cols, states)):
            if (ln, j) in removed:
                continue
            o = c.get(bytes.fromhex(ln))
            o.clear_attr(i)
            if x is not None:
                try:
                    o.set_attr(i, x)
                except ValueError:
                    ctx.label("refused")
            if want[ln, i] is None:
                want[ln, i] = enc(o.get_attr(i))
                ctx.label("value of a later device", j > 0 and want[ln, i] is not None)
    for ln, j in removed:
        ctx.eq(cols[j].try_remove(cst.LogicalName(bytearray.fromhex(ln))), True, "object is removed")
    keep = {k.contents: set(v) for k, v in used.items()}
    before = [whole(c) for c in cols]
    if os.path.exists(FILE):
        os.remove(FILE)
    ctx.nt(any(states[0] in (None, -1) for states in rows.values()) and None not in want.values())
    try:
        if None in want.values():
            ctx.label("no device has the value")
            ctx.raises(lambda: col.to_xml4(cols, FILE, used, verified), f"template without a value of {[k for k, v in want.items() if v is None]}", ValueError)
            ctx.eq(os.path.exists(FILE), False, "file of a refused template")
        else:
            col.to_xml4(cols, FILE, used, verified)
        ctx.eq({k.contents: v for k, v in used.items()}, keep, "used attributes after saving")
        ctx.eq([whole(c) for c in cols], before, "collections after saving")
        if None in want.values():
            return
        back, used2, ver = col.from_xml4(FILE)
    finally:
        if os.path.exists(FILE):
            os.remove(FILE)
    ctx.eq(ver, verified, "verified")
    ctx.eq({k.contents: v for k, v in used2.items()}, keep, "used attributes")
    ctx.eq([(b.manufacturer, enc(b.server_type), b.collection_ver) for b in back], [(c.manufacturer, enc(c.server_type), c.collection_ver) for c in cols], "devices")
    for k, b in zip(ks, back):
        lib = original(k)
        for ln, v in whole(b).items():
            for i, x in enumerate(v, 1):
                w = want.get((ln.hex(), i), lib[ln][i-1])
                ctx.eq(x, w, f"{b.get(ln)} attribute {i}")


# ---- templates written by others
@st.composite
def apply_cases(draw):
    old = draw(st.booleans())     # description of one device
    ks = draw(st.lists(st.sampled_from(KS + [0, 24]), min_size=1, max_size=1 if old else 3, unique=True))
    at = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(ks))
        what = draw(st.integers(0, 5))
        if what == 0 and open_choices(k):
            at.append([draw(st.sampled_from(open_choices(k))), 2, draw(st.sampled_from(["7", "abc", "01.02.2020"]))])
        elif what == 1:
            at.append(["0000608%dfdff" % draw(st.integers(0, 9)) if draw(st.booleans()) else "0000010000ff", draw(st.sampled_from([2, 3, 30])), "120"])
        elif textuals(k):
            ln, i = draw(st.sampled_from(textuals(k)))
            at.append([ln, i, {"octets": draw(value(k, ln, i)).hex(), "k": k}])
    return [old, ks, at, draw(st.booleans()), draw(st.sampled_from([None] * 6 + ["root", "version", "minor"])), draw(st.booleans())]


def lists(v):
    return str(v) if isinstance(v, cdt.SimpleDataType) else [lists(x) for x in v]


def write(node, v, name="x"):
    """value as elements of the template"""
    for x in v:
        if isinstance(x, cdt.SimpleDataType):
            ET.SubElement(node, "simple", name=name).text = str(x)
        else:
            write(ET.SubElement(node, "array" if isinstance(x, cdt.Array) else "struct", name=name), x)


def _apply(ctx, case):
    old, ks, at, decode, foreign, verified = case
    root = ET.Element("Alien" if foreign == "root" else col.TagsName.TEMPLATE_ROOT.value, version={"version": "5.0.0", "minor": "4.2.0"}.get(foreign, "4.0.0"))
    if decode:
        root.attrib["decode"] = "1"
    if verified:
        root.attrib["verified"] = "1"
    refs = [fresh(k) for k in ks]
    for k in ks:
        man, t, v = key(k)
        m = root if old else ET.SubElement(root, "manufacturer")
        if old:
            ET.SubElement(m, "manufacturer").text = man.decode()
            ET.SubElement(m, "server_type").text = t.encoding.hex()
            ET.SubElement(m, "server_ver").text = str(v)
        else:
            m.text = man.decode()
            tn = ET.SubElement(m, "server_type")
            tn.text = t.encoding.hex()
            ET.SubElement(tn, "server_ver").text = str(v)
    stop = False
    used = {}
    order = [x[0] for x in at]
    for ln, i, text in sorted(at, key=lambda x: order.index(x[0])):
        b = bytes.fromhex(ln)
        if old and refs[0].get(b) is None:
            stop = True
        if isinstance(text, dict):
            o = fresh_cached(text["k"]).get(b)
            v = o.get_attr(i)
            try:
                v = (o.get_attr_element(i).DATA_TYPE if v is None else v.__class__)(bytes.fromhex(text["octets"]))
            except ValueError:
                ctx.label("refused")
                continue
            if not all(xml_text(p) and "\r" not in str(p) for p in parts(v)):
                continue
            hexed = text["octets"]
        else:
            v, hexed = text, cdt.VisibleString(text).encoding.hex() if i == 2 else "100078"
        if b not in used:
            top = ET.SubElement(root, "object", ln=".".join(map(str, b)))
        node = ET.SubElement(top, "attr", index=str(i), name="n")
        used.setdefault(b, set()).add(i)
        if old and not decode:
            node.text = hexed
        elif isinstance(v, (str, cdt.SimpleDataType)):
            node.text = str(v)
        else:
            node.attrib["type"] = "array" if isinstance(v, cdt.Array) else "struct"
            write(node, v)
        for r in refs:
            o = r.get(b)
            if o is not None and not stop:
                try:
                    o.set_attr(i, bytes.fromhex(hexed) if old and not decode else (node.text if "type" not in node.attrib else lists(v)))
                    ctx.label("set")
                except (ValueError, TypeError, IndexError, AttributeError, exc.DLMSException):
                    ctx.label("attribute is refused")
    ET.ElementTree(root).write(FILE, encoding="utf-8", xml_declaration=True)
    try:
        load = (lambda: col.Collection.from_xml3(FILE)) if old else (lambda: col.from_xml4(FILE))
        if foreign:
            ctx.raises(load, "foreign " + foreign, Exception)
            return
        if stop:
            ctx.raises(load, "object out of the device", ValueError)
            return
        got = load()
    finally:
        os.remove(FILE)
    if not old:
        ctx.eq(got[2], verified, "verified mark")
    cols = [got[0]] if old else got[0]
    ctx.eq({x.contents: v for x, v in got[1].items()}, used, "used attributes")
    ctx.eq(len(cols), len(refs), "devices")
    n = 0
    for k, c, r in zip(ks, cols, refs):
        ctx.eq((c.manufacturer, c.server_type, c.collection_ver), (r.manufacturer, r.server_type, r.collection_ver), "device")
        x, y = whole(c), whole(r)
        ctx.eq(sorted(x), sorted(y), "objects")
        for ln in y:
            for i, (p, q) in enumerate(zip(x[ln], y[ln]), 1):
                ctx.eq(p, q, f"{c.get(ln)} attribute {i}")
        n += y != original(k)
    ctx.nt(n > 0)
    ctx.label("one device" if old else "devices", len(cols) > 0)


# ---- descriptions of settings of every format
HEAD = ("dlms_ver", "country", "country_ver", "manufacturer", "server_type", "server_ver")


@functools.lru_cache(None)
def open_choices(k):
    """data and registers without a value: the type is chosen by the value"""
    return sorted(o.logical_name.contents.hex() for o in fresh_cached(k).values() if int(o.CLASS_ID) in (1, 3) and o.get_attr(2) is None and isinstance(o.get_attr_element(2).DATA_TYPE, ut.CHOICE))


@st.composite
def restore_cases(draw):
    k = draw(st.sampled_from(KS))
    ver = draw(st.sampled_from(["2.0.0", "2.1.0", "2.2.5", "3.1.0", "3.2.0", "4.0.0", "4.0.3"]))
    absent = draw(st.lists(st.sampled_from(HEAD), max_size=3, unique=True))
    foreign = draw(st.sampled_from([None] * 4 + list(HEAD) + ["minor", "patch", "root", "version"]))
    all_ = sorted({x for v in rights(k).values() for x in v})
    objects = []
    if all_:
        for ln, i in draw(st.lists(st.sampled_from(all_), max_size=6)):
            h = draw(st.one_of(value(k, ln, i), value(k, ln, i), value(k, ln, i), st.binary(min_size=2, max_size=6))).hex()
            at = [[i, h]]
            if draw(st.integers(0, 4)) == 0:
                at.insert(draw(st.integers(0, 1)), [draw(st.sampled_from([i, 2, 3, 30])), draw(st.sampled_from(["0900", "0f05", "1203e8", "160a", "0101"]))])
            objects.append([ln, at])
    free = open_choices(k)
    if free and draw(st.booleans()):
        objects.insert(draw(st.integers(0, len(objects))), [draw(st.sampled_from(free)), [[2, draw(st.sampled_from(["1a07e4010103", "1b0a000000", "1203e8", "0900", "0200", "fe00", "030105"]))]]])
    if draw(st.integers(0, 5)) == 0:
        objects.insert(draw(st.integers(0, len(objects))), ["0000608%dfdff" % draw(st.integers(0, 9)), [[2, "1200%02x" % draw(st.integers(0, 255))]]])
    return [k, ver, absent, foreign, objects]


def _restore(ctx, case):
    k, ver, absent, foreign, objects = case
    if not rights(k):
        ctx.label("nothing is writable")
        return
    b, ref = fresh(k), fresh(k)
    sv = b.server_ver.get(0)
    head = {"dlms_ver": str(b.dlms_ver), "country": str(b.country.value), "country_ver": str(b.country_ver) if b.country_ver else None,
            "manufacturer": b.manufacturer.decode(), "server_type": b.server_type.encoding.hex(), "server_ver": str(sv) if sv else None}
    wrong = {"dlms_ver": "5", "country": "1" if head["country"] != "1" else "7", "country_ver": "99.9.9", "manufacturer": "XYZ", "server_type": "0904deadbeef",
             "server_ver": None if sv is None else F"{sv.major + 1}.{sv.minor}.{sv.patch}", "minor": None if sv is None else F"{sv.major}.{sv.minor + 1}.{sv.patch}",
             "patch": None if sv is None else F"{sv.major}.{sv.minor}.{sv.patch + 1}"}
    refuse = False
    if foreign in wrong:
        name = foreign if foreign in HEAD else "server_ver"
        if head[name] is not None and wrong[foreign] is not None:
            head[name] = wrong[foreign]
            absent = [a for a in absent if a != name]
            refuse = True
    root = ET.Element("Alien" if foreign == "root" else col.TagsName.DEVICE_ROOT.value, attrib={"version": {"version": "7.1.0"}.get(foreign, ver)})
    refuse = refuse or foreign in ("root", "version")
    for name, text in head.items():
        if text is not None and name not in absent:
            ET.SubElement(root, name, attrib={"instance": "0"} if name == "server_ver" else {}).text = text
    for ln, at in objects:
        o = b.get(bytes.fromhex(ln))
        node = ET.SubElement(root, "object", attrib={"ln": ".".join(map(str, bytes.fromhex(ln)))})
        if ver[0] == "2":
            ET.SubElement(node, "class_id").text = "1" if o is None else str(int(o.CLASS_ID))
            ET.SubElement(node, "version").text = "0" if o is None else str(int(o.VERSION))
        for i, h in at:
            ET.SubElement(node, "attribute", attrib={"index": str(i)}).text = h
    ET.ElementTree(root).write(FILE, encoding="utf-8", xml_declaration=True)
    before = whole(b)
    try:
        if refuse:
            ctx.label("foreign " + foreign)
            ctx.raises(lambda: b.from_xml2(FILE), F"settings with foreign {foreign} are restored", Exception)
            ctx.eq(whole(b), before, "refused settings")
            return
        # expected: every attribute set on its own; the reference is the same attribute setting
        stop = False
        for ln, at in objects:
            o = ref.get(bytes.fromhex(ln))
            if o is None:
                ctx.label("object is not in the device, version " + ver[0])
                if ver[0] == "4":
                    stop = True
                    break
                if ver[0] == "3":
                    continue
                o = ref.add(ut.CosemClassId(1) if hasattr(ut, "CosemClassId") else col.CosemClassId(1), cdt.Unsigned(0), cst.LogicalName(bytearray(bytes.fromhex(ln))))
            for i, h in at:
                try:
                    o.set_attr(i, bytes.fromhex(h))
                except (ValueError, TypeError, IndexError, AttributeError, ut.UserfulTypesException):
                    ctx.label("attribute is refused")
        if stop:
            ctx.raises(lambda: b.from_xml2(FILE), "object out of the device in the last format", ValueError)
        else:
            b.from_xml2(FILE)
        got, want = whole(b), whole(ref)
        ctx.eq(sorted(got), sorted(want), "objects")
        n = 0
        for ln in want:
            for i, (x, y) in enumerate(zip(got[ln], want[ln]), 1):
                ctx.eq(x, y, f"{b.get(ln)} attribute {i}")
                n += ln not in before or y != before[ln][i-1]
        ctx.nt(n > 0)
        ctx.label("version " + ver[0])
    finally:
        os.remove(FILE)


# ---- the former format: an object that needs another one further in the file
@functools.lru_cache(None)
def profiles(k):
    """names of profiles that are not in the description"""
    return [x for x in (bytes(n).hex() for n in PROFILES) if fresh_cached(k).get(bytes.fromhex(x)) is None]


@st.composite
def late_cases(draw):
    k = draw(st.sampled_from([0, 24, 71, 92]))
    names = draw(st.lists(st.integers(0, 9), min_size=1, max_size=3, unique=True))
    return [k, draw(st.sampled_from([1, 6])), draw(st.integers(0, 20)), [[n, draw(st.sampled_from(["0903010203", "0900", "0904aabbccdd"]))] for n in names], draw(st.permutations(range(len(names) + 3))),
            draw(st.sampled_from(["2.0.0", "2.2.5"])), draw(st.booleans())]


def _late(ctx, case):
    k, cid, pi, named, order, ver, absent = case    # class 6 is not in the descriptions, so its version is unknown before
    absent = absent and cid == 1
    b = fresh(k)
    p = profiles(k)[pi % len(profiles(k))]
    ln = lambda n: bytes((0, 0, 96, 8, n + 40, 255)) if cid == 1 else bytes((0, 0, 14, 0, n, 255))
    at = 2 if cid == 1 else 4
    capture = b"\x01" + bytes([len(named) + absent]) + b"".join(b"\x02\x04\x12\x00" + bytes([cid]) + b"\x09\x06" + x + bytes((15, at)) + b"\x12\x00\x00" for x in [ln(n) for n, _ in named] + [bytes((0, 0, 96, 8, 77, 255))] * absent)
    sort = "020412000809060000010000ff0f02120000"
    number, monitor = bytes((0, 0, 96, 8, 33, 255)), bytes((0, 0, 16, 1, 99, 255))
    watch = [[number.hex(), 1, 0, [[2, "120005"]]], [monitor.hex(), 21, 0, [[3, value_def(1, number).hex()], [2, "0102120001120009"]]]]
    objects = watch + [[p, 7, 1, [[6, sort], [3, capture.hex()]]]] + [[ln(n).hex(), cid, 0, [[at, h]]] for n, h in named]
    root = ET.Element(col.TagsName.DEVICE_ROOT.value, attrib={"version": ver})
    for i in order:
        x, c, v, attrs = objects[i]
        node = ET.SubElement(root, "object", attrib={"ln": ".".join(map(str, bytes.fromhex(x)))})
        ET.SubElement(node, "class_id").text = str(c)
        ET.SubElement(node, "version").text = str(v)
        for j, h in attrs:
            ET.SubElement(node, "attribute", attrib={"index": str(j)}).text = h
    ET.ElementTree(root).write(FILE, encoding="utf-8", xml_declaration=True)
    try:
        b.from_xml2(FILE)
    finally:
        os.remove(FILE)
    for x, h in named:
        ctx.eq(enc(b.get(ln(x)).get_attr(at)), h, "value of an object that is new")
    ctx.eq((enc(b.get(monitor).get_attr(3)), enc(b.get(monitor).get_attr(2))), (value_def(1, number).hex(), "0102120001120009"), "monitor")
    got = b.get(bytes.fromhex(p))
    ctx.eq(enc(got.sort_object), sort, "sort object")
    ctx.eq(enc(got.capture_objects), capture.hex(), "capture objects")
    ctx.nt(order.index(0) > order.index(1) or order[-1] != 2)


# files of the library are sorted: 14 is a description with choices without a value
RESTORE = [[k, v, [], None, [["0000600104ff", [[2, "1a07e4010103"]]], ["0000010000ff", [[3, "10003c"]]]]] for k in (0, 12, 24) for v in ("2.2.5", "3.1.0", "4.0.0")] + [[71, v, [], f, []] for f in (None, "dlms_ver", "manufacturer", "server_type", "root", "version") for v in ("2.2.5", "4.0.0")]


PROP = Prop("C40", rule="non-trivial: more than one setting (value of a template) was saved", facets=[
    Facet("settings", settings_cases(), _settings, quick=35, thorough=1500, examples=[[72, 2, [["00000f0000ff", 4, "0100"]]]]),
    Facet("dump", st.tuples(settings_cases(), st.sampled_from(["octets", "decode"])).map(list), _dump, quick=14, thorough=1500),
    Facet("template", template_cases(), _template, quick=35, thorough=1500, examples=[[[71], [["0000600100ff", 2, "0903616263"]], False, 90], [[76, 71], [["0000600100ff", 2, "0903616263"]], True, 90]]),
    Facet("spread", spread_cases(), _spread, quick=12, thorough=800, examples=[[[36, 72], [[0, [None, 7]], [9, [4, None]]], False], [[72, 76], [[0, [-1, 7]], [5, [3, None]]], True], [[72, 36], [[0, [None, None]]], True]]),
    Facet("apply", apply_cases(), _apply, quick=30, thorough=2000, examples=[[False, [0, 71], [["0000600100ff", 2, "abc"], ["0000010000ff", 3, "120"]], True, None, False], [False, [71, 0, 76], [["0000600100ff", 2, "abc"]], True, None, True],
                                                                                 [True, [0], [["0000600104ff", 2, "abc"], ["0000010000ff", 3, "120"]], True, None, False], [False, [71], [["0000600100ff", 2, "abc"]], True, "minor", False], [True, [0], [["0000600104ff", 2, "abc"]], True, "minor", False], [True, [0], [["0000600104ff", 2, {"octets": "1a07e4010103", "k": 12}], ["0000010000ff", 3, "120"]], False, None, False]]),
    Facet("late", late_cases(), _late, quick=10, thorough=500, examples=[[k, 6, 0, [[0, "0903010203"], [3, "0900"]], [2, 1, 0, 3, 4], "2.0.0", False] for k in (24, 71)]),
    Facet("restore", restore_cases(), _restore, quick=45, thorough=2000, examples=RESTORE),
], assumptions=["Attributes with rules between objects (profiles, object lists) are covered by C37..C39."])
