"""a copy of a collection has the same configuration and shares nothing with the original"""
import os
import signal
from hypothesis import strategies as st
from ..core import Prop, Facet
from .. import fill
from src.DLMS_SPODES.types import cdt, cst, ut
from src.DLMS_SPODES.types.cosemClassID import CosemClassId
from src.DLMS_SPODES.cosem_interface_classes import collection as col
from src.DLMS_SPODES.cosem_interface_classes import cosem_interface_class as ic
from src.DLMS_SPODES.cosem_interface_classes.overview import CountrySpecificIdentifiers
from src.DLMS_SPODES.types.implementations import octet_string
from src.DLMS_SPODES.version import AppVersion
from src.DLMS_SPODES import exceptions as exc
from .c30 import POOL, LDN
from .c31 import len_enc, mechanism
from .c35 import special

ENTRIES = [(ln, cv) for ln, cvs in POOL for cv in cvs if cv[0] not in (15, 71, 21) and ln != LDN]
MAN = [None, b"KPZ", b"XYZ"]


def type_of(e):
    """interface class of the entry (the specification of the collection is DLMS)"""
    ln, (cid, ver) = ENTRIES[e]
    return col.get_type(CosemClassId(cid), cdt.Unsigned(ver), cst.LogicalName(bytearray(ln)), col.func_maps["DLMS_6"])


TYPES = [type_of(e) for e in range(len(ENTRIES))]


def settable(cls):
    """attributes that can be set without other objects"""
    return [i for i in range(2, len(cls.A_ELEMENTS) + 2) if i not in special(cls)]


@st.composite
def one_object(draw, k):
    cls = TYPES[k]
    at = settable(cls)
    values = []
    for i in at:
        if draw(st.integers(0, 3)):
            values.append([i, draw(fill.enc(cls.get_attr_element(i).DATA_TYPE)).hex()])
    return [k, values]


@st.composite
def cases(draw):
    ks = draw(st.lists(st.integers(0, len(ENTRIES) - 1), min_size=1, max_size=6, unique_by=lambda k: ENTRIES[k][0]))
    objects = [draw(one_object(k)) for k in ks]
    asses = draw(st.lists(st.tuples(st.sampled_from([0, 1, 2, 3, 5]), st.lists(st.integers(0, len(ks) - 1), unique=True, max_size=len(ks)) | st.none() | st.just(list(range(len(ks)))),
                                    st.one_of(st.none(), st.integers(0, 2))), max_size=3, unique_by=lambda a: a[0]))
    ident = [draw(st.integers(0, 2)), draw(st.none() | st.integers(0, 200)), draw(st.none() | st.lists(st.integers(0, 9), min_size=2, max_size=3)),
             draw(st.lists(st.tuples(st.integers(0, 2), st.lists(st.integers(0, 9), min_size=3, max_size=3)), max_size=2, unique_by=lambda x: x[0]))]
    if draw(st.integers(0, 2)) == 0:      # country, its version
        ident += [draw(st.sampled_from([7, 7, 7, 49, 0])), draw(st.sampled_from([[3, 0], [3, 0], [3, 0], [2, 0], None]))]
    return [objects, [list(a) for a in asses], ident, draw(st.integers(0, 1)), draw(st.lists(st.integers(0, 200), min_size=3, max_size=8))]


def build(case):
    objects, asses, ident, _, _ = case
    man, t, cv, vers, *of_country = ident
    c = col.Collection(CountrySpecificIdentifiers(of_country[0])) if of_country else col.Collection()
    if MAN[man]:
        c.set_manufacturer(MAN[man])
    if t is not None:
        c.set_server_type(cdt.LongUnsigned(t))
    if cv is not None:
        c.set_collection_ver(AppVersion(*cv))
    for i, v in vers:
        c.set_server_ver(i, AppVersion(*v))
    if of_country:
        if of_country[1] is not None:
            c.set_country_ver(AppVersion(*of_country[1]))
        c.set_spec()
    for k, values in objects:
        ln, (cid, ver) = ENTRIES[k]
        try:
            o = c.add(CosemClassId(cid), cdt.Unsigned(ver), cst.LogicalName(bytearray(ln)))
        except ValueError:
            if not of_country:
                raise
            continue        # the specification of the country has no such object
        for i, h in values:
            try:
                o.set_attr(i, bytes.fromhex(h))
            except ValueError:  # rule of the type (unique elements)
                pass
            except Exception:   # the specification of the country has another type
                if o.__class__ is TYPES[k]:
                    raise
    for e, listed, m in asses:
        a = c.add(CosemClassId(15), cdt.Unsigned(1), cst.LogicalName(bytearray((0, 0, 40, 0, e, 255))))
        if m is not None:
            a.set_attr(6, mechanism(1, m))
        if listed is not None:
            els = [(objects[i][0]) for i in listed if i < len(objects)]
            a.set_attr(2, b"\x01" + len_enc(len(els)) + b"".join(
                b"\x02\x04\x12" + ENTRIES[k][1][0].to_bytes(2, "big") + b"\x11" + bytes((ENTRIES[k][1][1],)) + b"\x09\x06" + bytes(ENTRIES[k][0]) + b"\x02\x02\x01\x00\x01\x00" for k in els))
    return c


def parts(v):
    """all values within a value"""
    yield v
    if isinstance(v, (cdt.Array, cdt.Structure)):
        for e in v.values:
            yield from parts(e)
    elif getattr(v, "SCALER_UNIT", None) is not None and v.SCALER_UNIT is not getattr(type(v), "SCALER_UNIT", None):
        yield v.SCALER_UNIT
        yield from v.SCALER_UNIT.values


def whole(c):
    return {o.logical_name.contents: [None if v is None else (v.__class__.__name__, v.encoding.hex()) for v in o] for o in c.values()}


def ident_of(c):
    return (c.country, c.manufacturer, c.country_ver, c.collection_ver, None if c.server_type is None else c.server_type.encoding, dict(c.server_ver), c.dlms_ver)


def fullest(c):
    """logical names of objects in the object list of the first longest association; None if there is no list"""
    best = None
    for o in c.values():
        if int(o.CLASS_ID) == 15 and o.object_list is not None and (best is None or len(o.object_list) > len(best)):
            best = o.object_list
    return None if best is None else {e.logical_name.contents for e in best}


def compare(ctx, a, b):
    """b is the copy of a; returns amount of copied values"""
    ctx.eq({o.logical_name.contents: o.__class__ for o in b.values()}, {o.logical_name.contents: o.__class__ for o in a.values()}, "objects of the copy")
    ctx.eq(ident_of(b), ident_of(a), "identification")
    ctx.check(a == b and hash(a) == hash(b), "copy is equal")
    listed = fullest(a)
    copied = 0
    own = {id(p): (o, i) for o in a.values() for i, v in o.get_index_with_attributes() if v is not None for p in parts(v)}
    for o in a.values():
        p = b.get(o.logical_name.contents)
        ctx.check(p is not o and p.collection is b, "object of the copy")
        for i, v in p.get_index_with_attributes():
            if v is not None:
                ctx.check(not any(id(x) in own for x in parts(v)), f"{p} attribute {i} is shared")
        if listed is not None and o.logical_name.contents not in listed:
            continue
        fresh = o.__class__(o.logical_name)
        for i, v in o.get_index_with_attributes():
            el = o.get_attr_element(i)
            got = p.get_attr(i)
            if v is None or (i > 1 and el.classifier == ic.Classifier.DYNAMIC and not isinstance(el.DATA_TYPE, ut.CHOICE)):
                if int(o.CLASS_ID) in (3, 4, 5, 7, 15, 20, 21, 71):
                    continue   # follows from other attributes
                was = fresh.get_attr(i)
                ctx.eq(None if got is None else got.encoding, None if was is None else was.encoding, f"{o} attribute {i} is not copied")
                continue
            ctx.check(got is not None, f"{o} attribute {i} was not copied")
            ctx.eq(got.encoding.hex(), v.encoding.hex(), f"{o} attribute {i}")
            ctx.eq(got.__class__.__name__, v.__class__.__name__, f"{o} type of attribute {i}")
            copied += i > 1
    return copied


def mutate(c, picks):
    """change attributes of the collection in place"""
    targets = [(o, i) for o in c.values() for i, v in o.get_index_with_attributes() if v is not None and i > 1]
    n = 0
    for k in picks:
        if not targets:
            break
        o, i = targets[k % len(targets)]
        v = o.get_attr(i)
        for p in list(parts(v))[::-1]:
            try:
                if isinstance(p, cdt.Array):
                    p.values.clear() if k % 2 else p.clear()
                elif isinstance(p, cdt.Digital):
                    p.set(p.__class__(bytearray(bytes(x ^ 1 for x in p.contents))))
                elif isinstance(p, (cdt.OctetString, cdt.VisibleString)):
                    p.set(bytearray(bytes(x ^ 1 for x in p.contents)))
                elif isinstance(p, cdt.Boolean):
                    p.set(not bool(p))
                else:
                    p.clear()
                n += 1
            except Exception:
                pass
    return n


def _copy(ctx, case):
    a = build(case)
    before = whole(a)
    b = a.copy()
    ctx.eq(whole(a), before, "original after copy")
    copied = compare(ctx, a, b)
    ctx.nt(copied > 2)
    ctx.label("associations", len(case[1]) > 0)
    _independent(ctx, a, b, case[3], case[4])


def _independent(ctx, a, b, side, picks):
    x, y = (a, b) if side else (b, a)
    keep, ident = whole(y), ident_of(y)
    n = mutate(x, picks)
    x.set_server_type(cdt.LongUnsigned(777), force=True)
    x.set_server_ver(0, AppVersion(9, 9, 9), force=True)
    x.clear_server_ver()
    k = next(iter(x.values())).logical_name
    x.try_remove(k)
    ctx.eq(whole(y), keep, "other collection after changes of one")
    ctx.eq(ident_of(y), ident, "identification of the other after changes of one")
    ctx.label("changed", n > 0)


EVENT = (0, 0, 96, 11)      # names of which the class depends on manufacturer, country and versions


def _ldn(ctx, case):
    """copy for another device: logical device name is the given one, all other as in the original; later objects get the same class in both"""
    case, name, own, extra = case
    a = build(case)
    man = MAN[case[2][0]] or name.encode()[:3]      # the name begins with the manufacturer
    name = man + name.encode()
    if own:
        own = man + own.encode()
        a.LDN.set_attr(2, octet_string.LDN(bytearray(own)))
    before, ident = whole(a), ident_of(a)
    other = octet_string.LDN(bytearray(b"?" + name))
    if ident[1]:
        ctx.raises(lambda: a.copy(ldn=other), "name of other manufacturer", ValueError)
    new = octet_string.LDN(bytearray(name))
    b = a.copy(ldn=new)
    ctx.eq([whole(a), ident_of(a)], [before, ident], "original after copy")
    ctx.eq(b.LDN.get_attr(2).contents, name, "logical device name")
    ctx.check(b.LDN.get_attr(2) is not new or not own, "given name")
    if own:
        b.LDN.set_attr(2, octet_string.LDN(bytearray(own)))
    else:
        b.LDN.clear_attr(2)
        if not ident[1]:
            ctx.eq(b.manufacturer, man, "manufacturer of the copy")
            a.set_manufacturer(man)
            a.set_spec()
    compare(ctx, a, b)
    for i in extra if len(case[2]) > 4 else ():      # the specification of the original is set
        ln = cst.LogicalName(bytearray((*EVENT, i, 255))) if i < 10 else cst.LogicalName(bytearray((0, 128, 96, 13, 1, 255)))
        if bytes(ln.contents) in {x.logical_name.contents for x in a.values()}:
            continue
        got = []
        for x in (a, b):
            try:
                got.append(x.add(CosemClassId(1), cdt.Unsigned(0), ln).__class__)
            except ValueError:
                got.append(None)
        ctx.eq(got[1], got[0], f"class of {ln} added to the copy")
    ctx.nt(len(case[2]) > 4 and case[2][4:] == [7, [3, 0]])
    ctx.label("own name", bool(own))


def library():
    ret = []
    for root, _, names in os.walk("Types"):
        ret += [os.path.join(root, n) for n in names if n.endswith(".typ")]
    return sorted(ret)


def _library(ctx, case):
    path, side, picks = case
    files = library()
    a = col.Collection.from_xml(files[path % len(files)])
    b = a.copy()
    n = compare(ctx, a, b)
    ctx.nt(n > 20)
    _independent(ctx, a, b, side, picks)


def _cached(ctx, case):
    """collections taken from the library are independent of each other"""
    path, picks = case
    files = library()
    man, t, name = files[path % len(files)].split(os.sep)[-3:]
    st_, _ = cdt.get_instance_and_pdu_from_value(bytes.fromhex(t))
    ver = AppVersion.from_str(name.removesuffix(".typ"))
    a = col.get_collection(man.encode(), st_, ver)
    keep, ident = whole(a), ident_of(a)
    n = mutate(a, picks)
    a.set_server_ver(0, AppVersion(9, 9, 9), force=True)
    b = col.get_collection(man.encode(), st_, ver)
    ctx.eq(whole(b), keep, "second collection of the type")
    ctx.eq(ident_of(b), ident, "identification of the second collection")
    ctx.nt(n > 0)


def _values(ctx, case):
    """copy_objects_attr_values_from"""
    a = build([[o for o in case[0] if ENTRIES[o[0]][1][0] != 7], [], *case[2:]])   # buffer of profile needs its capture objects
    skip = set(case[4][:case[3]])
    b = col.Collection()
    names = [o.logical_name.contents for o in a.values()]
    for k, o in enumerate(a.values()):
        if k not in skip and o.logical_name.contents != bytes(LDN):
            b.add(CosemClassId(int(o.CLASS_ID)), cdt.Unsigned(int(o.VERSION)), cst.LogicalName(bytearray(o.logical_name.contents)))
    have = {o.logical_name.contents for o in b.values()}
    ctx.eq(b.copy_objects_attr_values_from(a), have >= set(names), "all were copied")
    n = 0
    own = {id(p) for o in a.values() for v in o if v is not None for p in parts(v)}
    for o in a.values():
        if (p := b.get(o.logical_name.contents)) is None:
            continue
        for i, v in o.get_index_with_attributes():
            if v is not None:
                got = p.get_attr(i)
                ctx.eq(got.encoding.hex(), v.encoding.hex(), f"{o} attribute {i}")
                ctx.check(not any(id(x) in own for x in parts(got)), "shared")
                n += i > 1
    ctx.nt(n > 2)


# ---- objects that need other ones: profiles (also of another profile), monitors, limiters, in every order
@st.composite
def dependents(draw):
    from .c38 import layout, cell, PROFILES
    p, ks, values, cols, sort = draw(layout())
    nums = [n for n, k in enumerate(ks) if ENTRIES[k][1][0] in (3, 4)]
    watch = []
    for e in range(draw(st.sampled_from([1, 0, 2, 3, 4]))):
        if not nums:
            break
        n = draw(st.sampled_from(nums))
        values[n].setdefault(2, draw(st.sampled_from(["0600000100", "120005", "05000000ff", "0fff"])))
        watch.append([draw(st.sampled_from(["monitor", "limiter"])), e, n, [draw(st.integers(0, 100)) for _ in range(draw(st.integers(0, 3)))], draw(st.integers(0, 3)) == 0])
    inner = [draw(st.integers(1, len(cols)))] + [draw(st.sampled_from([1, 1, 2])) for _ in range(draw(st.integers(0, 4)))] if draw(st.integers(0, 3)) else []
    if draw(st.integers(0, 2)):
        n = len(ks) + len(watch) + len(inner) + 1
        order = draw(st.permutations(range(n)))
    else:
        order = list(range(20, 0, -1))      # all before what they need
    return [p, ks, [sorted(v.items()) for v in values], cols, sort, watch, inner, order, draw(st.none() | st.permutations(range(14)))]


def number(h, n):
    """contents of the type of value h for number n"""
    return bytes.fromhex(h[:2]) + bytes([n]).rjust((len(h) - 2) // 2, b"\0")


def depending(ctx, case):
    """collection of the case, its names with classes, its profiles"""
    from .c38 import PROFILES, defs, definition, arr
    from .c37 import value_def
    p, ks, values, cols, sort, watch, inner, order, listed = case
    want = [ENTRIES[k] for k in ks] + [((0, 0, 16, 1, e, 255), (21, 0)) if w == "monitor" else ((0, 0, 17, 0, e, 255), (71, 0)) for w, e, *_ in watch]
    want += [(PROFILES[(p + k) % len(PROFILES)], (7, 1)) for k in range(len(inner) + 1)]
    want = sorted(want, key=lambda w: order[want.index(w) % len(order)])
    a = col.Collection()
    for ln, (cid, ver) in want:
        a.add(CosemClassId(cid), cdt.Unsigned(ver), cst.LogicalName(bytearray(ln)))
    get = lambda ln: a.get(bytes(ln))
    for k, vs in zip(ks, values):
        for i, h in vs:
            get(ENTRIES[k][0]).set_attr(i, bytes.fromhex(h))
    for w, e, n, ths, early in watch:
        ln, (cid, _) = ENTRIES[ks[n]]
        value = dict(map(tuple, values[n]))[2]
        if value[:2] not in ("06", "05", "12", "0f"):
            ths = []
        if w == "monitor":
            o = get((0, 0, 16, 1, e, 255))
            o.set_attr(3, value_def(cid, ln))
            o.set_attr(2, arr([number(value, x) for x in ths]))
        else:
            o = get((0, 0, 17, 0, e, 255))
            if early:       # type of the value becomes known after that of the threshold
                got = get(ln).get_attr(2)
                get(ln).clear_attr(2)
                ctx.raises(lambda: o.set_attr(2, value_def(cid, ln)), "value is absent", exc.EmptyObj)
                for i in (3, 4, 5):
                    o.set_attr(i, b"\x0a\x01a")
                get(ln).set_attr(2, got.encoding)
                continue
            o.set_attr(2, value_def(cid, ln))
            for i, x in enumerate(ths, start=3):
                o.set_attr(i, number(value, x))
    profiles = [get(PROFILES[(p + k) % len(PROFILES)]) for k in range(len(inner) + 1)]
    profiles[0].set_attr(6, defs(ks, [sort])[0])
    profiles[0].set_attr(3, arr(defs(ks, cols)))
    for q, x, y in zip(profiles[1:], profiles, inner):      # each captures a column of the one before
        q.set_attr(6, defs(ks, [sort])[0])
        q.set_attr(3, arr([definition(x.logical_name.contents, 7, 2, y), defs(ks, cols)[0]]))
    if listed is not None:      # object list of the association
        els = sorted(want, key=lambda w: listed[want.index(w) % len(listed)])
        o = a.add(CosemClassId(15), cdt.Unsigned(1), cst.LogicalName("0.0.40.0.3.255"))
        o.set_attr(2, b"\x01" + len_enc(len(els)) + b"".join(
            b"\x02\x04\x12" + cid.to_bytes(2, "big") + b"\x11" + bytes((ver,)) + b"\x09\x06" + bytes(ln) + b"\x02\x02\x01\x00\x01\x00" for ln, (cid, ver) in els))
    return a, want, profiles


def _dependent(ctx, case):
    a, _, profiles = depending(ctx, case)
    watch, inner = case[5:7]
    before = whole(a)
    b = a.copy()
    ctx.eq(whole(a), before, "original after copy")
    compare(ctx, a, b)
    for o in a.values():
        q = b.get(o.logical_name.contents)
        for i, v in o.get_index_with_attributes():
            w = q.get_attr(i)
            if v is None or w is None:
                continue
            for x, y in zip(parts(v), parts(w)):
                if isinstance(x, (cdt.Digital, cdt.Float)):
                    sx, sy = (getattr(z, "SCALER_UNIT", None) for z in (x, y))
                    ctx.eq(None if sy is None else sy.encoding.hex(), None if sx is None else sx.encoding.hex(), f"scaler and unit of {o} attribute {i}")
                elif isinstance(x, cdt.Array) and not (int(o.CLASS_ID) == 7 and i == 2):     # the buffer is judged below
                    ctx.check(y.TYPE is x.TYPE, f"type of elements of {o} attribute {i}")
    for pr in profiles:
        q = b.get(pr.logical_name.contents)
        for x in (pr, q):
            x.set_attr(2, b"\x01\x00")     # the type follows what is captured
        ctx.eq([(e.NAME, e.TYPE) for e in q.buffer.TYPE.ELEMENTS], [(e.NAME, e.TYPE) for e in pr.buffer.TYPE.ELEMENTS], "columns")
    ctx.nt(len(watch) > 0 and len(inner) > 0)
    ctx.label("watched", len(watch) > 0)


def _chain(ctx, case):
    """many profiles, each captures a column of another one: those before what they need wait for their turn"""
    from .c38 import definition, arr
    order, = case
    clock, name = (0, 0, 1, 0, 0, 255), lambda e: (1, 0, 99, 1, e, 255)
    a = col.Collection()
    a.add(CosemClassId(8), cdt.Unsigned(0), cst.LogicalName(bytearray(clock)))
    for e in order:
        a.add(CosemClassId(7), cdt.Unsigned(1), cst.LogicalName(bytearray(name(e))))
    for e in range(len(order)):
        o = a.get(bytes(name(e)))
        o.set_attr(6, definition(clock, 8, 2, 0))
        o.set_attr(3, arr(([definition(name(e - 1), 7, 2, 1)] if e else []) + [definition(clock, 8, 2, 0)]))
    before = whole(a)
    b = a.copy()
    ctx.eq(whole(a), before, "original after copy")
    ctx.eq(whole(b), before, "copy")
    for e in range(len(order)):
        x, y = a.get(bytes(name(e))), b.get(bytes(name(e)))
        for o in (x, y):
            o.set_attr(2, b"\x01\x00")
        ctx.eq([(el.NAME, el.TYPE) for el in y.buffer.TYPE.ELEMENTS], [(el.NAME, el.TYPE) for el in x.buffer.TYPE.ELEMENTS], f"columns of profile {e}")
    ctx.nt(len(order) > 5)


def _stuck(ctx, case):
    """a monitor of an object that was removed can not be copied: the copy says so, after a finite time"""
    from .c37 import value_def
    n, at, watchers = case
    name, watched = lambda e: (0, 0, 96, 8, 40 + e, 255), (0, 0, 96, 8, 60, 255)
    a = col.Collection()
    order = [(1, name(e)) for e in range(n)]
    order[at % (n + 1):at % (n + 1)] = [(21, (0, 0, 16, 1, 90 + w, 255)) for w in range(watchers)]
    for cid, ln in order + [(1, watched)]:
        a.add(CosemClassId(cid), cdt.Unsigned(0), cst.LogicalName(bytearray(ln)))
    a.get(bytes(watched)).set_attr(2, b"\x11\x05")
    for e in range(n):
        a.get(bytes(name(e))).set_attr(2, b"\x11\x07")
    for w in range(watchers):
        a.get(bytes((0, 0, 16, 1, 90 + w, 255))).set_attr(3, value_def(1, watched))
    ctx.eq(a.try_remove(cst.LogicalName(bytearray(watched))), True, "object is removed")
    before = whole(a)

    class Late(BaseException):
        """not an error that the copy may wait over"""

    def late(*_):
        raise Late
    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(10)
    try:
        ctx.raises(a.copy, "copy of a monitor without what it monitors", (exc.NoObject, ValueError, KeyError))
    except Late:
        ctx.fail("copy does not end")
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    ctx.eq(whole(a), before, "original after the attempt")
    ctx.nt(n > 0)


def _taken(ctx, case):
    """copy_objects_attr_values_from of objects that are after what they need"""
    a, want, profiles = depending(ctx, [*case[:7], list(range(30)), case[8]])
    b = col.Collection()
    for ln, (cid, ver) in [*want, *([((0, 0, 40, 0, 3, 255), (15, 1))] if case[8] is not None else [])]:
        b.add(CosemClassId(cid), cdt.Unsigned(ver), cst.LogicalName(bytearray(ln)))
    early = [(0, 0, 17, 0, w[1], 255) for w in case[5] if w[0] == "limiter" and w[4]]      # values of another type
    if early:
        return
    for pr in profiles:
        pr.set_attr(2, b"\x01\x00")
    before = whole(a)
    ctx.eq(b.copy_objects_attr_values_from(a), True, "all were copied")
    ctx.eq(whole(a), before, "original")
    ctx.eq(whole(b), before, "values")
    for pr in profiles:
        q = b.get(pr.logical_name.contents)
        ctx.eq([(e.NAME, e.TYPE) for e in q.buffer.TYPE.ELEMENTS], [(e.NAME, e.TYPE) for e in pr.buffer.TYPE.ELEMENTS], "columns")
    ctx.nt(len(case[5]) > 0 and len(case[6]) > 0)


# ---- a calendar: weeks of days, seasons of weeks
@st.composite
def calendars(draw):
    ret = []
    for _ in range(2):
        ids = draw(st.lists(st.integers(0, 255), min_size=1, max_size=4, unique=True))
        weeks = draw(st.lists(st.tuples(st.binary(max_size=3).map(bytes.hex), st.lists(st.sampled_from(ids), min_size=7, max_size=7)).map(list), max_size=3, unique_by=lambda w: w[0]))
        seasons = draw(st.lists(st.tuples(st.binary(max_size=3).map(bytes.hex), st.sampled_from(weeks).map(lambda w: w[0])).map(list), max_size=3, unique_by=lambda s: s[0])) if weeks else []
        ret.append([ids, weeks, seasons])
    return [ret, draw(st.lists(st.integers(0, 255), max_size=3, unique=True)), [draw(st.binary(max_size=4)).hex() for _ in range(2)], draw(st.permutations([0, 1])), draw(st.booleans())]


def _calendar(ctx, case):
    from .c36 import make, load, enc_special
    parts_, special_days, named, order, taken = case
    a = make()
    x, days = (a.get(bytes((0, 0, n, 0, 0, 255))) for n in (13, 11))
    for i in order:
        load(x, i, parts_[i])
    for i, n in zip((2, 6), named):
        x.set_attr(i, b"\x09" + bytes([len(n) // 2]) + bytes.fromhex(n))
    x.set_attr(10, b"\x09\x0c\x07\xe4\x01\x01\xff\x00\x00\x00\xff\x80\x00\x00")
    days.set_attr(2, b"\x01" + bytes([len(special_days)]) + b"".join(enc_special([i, [None, 1, i % 28 + 1, None], i]) for i in special_days))
    before = whole(a)
    if taken:
        b = make()
        ctx.eq(b.copy_objects_attr_values_from(a), True, "all were copied")
        ctx.eq(whole(b), before, "values")
    else:
        b = a.copy()
        compare(ctx, a, b)
    ctx.eq(whole(a), before, "original")
    ctx.nt(any(p[2] for p in parts_))


picks = st.lists(st.integers(0, 500), min_size=3, max_size=8)
names = st.text("KPZABC0123456789", min_size=3, max_size=16)
PROP = Prop("C33", rule="non-trivial: more than two values were copied (copy, values), more than twenty (library), something was changed (cached), there are watching objects and a profile of a profile (dependent, taken), a season (calendar), the specification of the country is used (device)", facets=[
    Facet("copy", cases(), _copy, quick=500, thorough=20000),
    Facet("device", st.tuples(cases(), names, st.none() | names, st.lists(st.integers(0, 11), max_size=6, unique=True)).map(list), _ldn, quick=300, thorough=10000, examples=[
        [[[[0, []]], [], [1, 104, [1, 2], [[0, [1, 3, 29]]], 7, [3, 0]], 0, [1, 2, 3]], "KPZ0000000000001", "KPZ", [0, 1, 9, 10]],
        [[[[0, []]], [], [1, 104, [1, 2], [[1, [1, 3, 29]], [0, [1, 3, 30]]], 7, [3, 0]], 0, [1, 2, 3]], "001", None, [0, 1, 9, 10]],
        [[[[0, []]], [], [0, None, None, [], 7, [3, 0]], 0, [1, 2, 3]], "ABCD", "CB1", [0, 1, 9, 10]],
        [[[[0, []]], [], [2, None, None, [], 49, [3, 0]], 0, [1, 2, 3]], "ABCD", "CB1", [0, 1, 9, 10]]]),
    Facet("dependent", dependents(), _dependent, quick=200, thorough=8000),
    Facet("chain", st.integers(2, 45).flatmap(lambda n: st.one_of(st.permutations(range(n)), st.just(list(range(n))[::-1]))).map(lambda x: [list(x)]), _chain, quick=12, thorough=500, examples=[[list(range(45))[::-1]], [[0, 2, 1]], [[2, 0, 1]]]),
    Facet("stuck", st.tuples(st.integers(0, 6), st.integers(0, 6), st.integers(1, 3)).map(list), _stuck, quick=15, thorough=300),
    Facet("taken", dependents(), _taken, quick=100, thorough=5000),
    Facet("calendar", calendars(), _calendar, quick=100, thorough=5000),
    Facet("values", cases(), _values, quick=200, thorough=8000),
    Facet("library", st.tuples(st.integers(0, 1000), st.integers(0, 1), picks).map(list), _library, quick=25, thorough=1500),
    Facet("cached", st.tuples(st.integers(0, 1000), picks).map(list), _cached, quick=25, thorough=1000),
], assumptions=["Values are copied for the objects of the longest object list of an association, or for all if there is none.", "Dynamic values are not copied, unless their type is a choice."])
