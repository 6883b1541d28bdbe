"""access rights of attributes and methods are the ones the object list of the association gives"""
from hypothesis import strategies as st
from ..core import Prop, Facet
from src.DLMS_SPODES.types import cdt, cst, ut
from src.DLMS_SPODES.types.cosemClassID import CosemClassId
from src.DLMS_SPODES.types.implementations import enums
from src.DLMS_SPODES.cosem_interface_classes import collection as col
from src.DLMS_SPODES.cosem_interface_classes.association_ln import mechanism_id, ver0, ver1
from src.DLMS_SPODES import exceptions as exc
from src.DLMS_SPODES import pdu_enums as pdu
from .c30 import POOL, LDN

SAPS = (0, 1, 0x10, 0x20, 0x30, 0x40, 0x50, 0x60)
ENTRIES = [(ln, kinds[0]) for ln, kinds in POOL if ln[2] != 40]
LNS = [e[0] for e in ENTRIES]
READ, WRITE = {1, 3}, {2, 3}
A_READ, A_WRITE = {4, 6}, {5, 6}
POLICIES = [pdu.SecurityPolicyVer0(i) for i in range(4)] + [pdu.SecurityPolicyVer1(i) for i in (0, 1, 2, 3, 4, 8, 12, 0x10, 0x18, 0x20, 0x24, 0x40, 0x60, 0x80, 0xc0, 0xd8, 0xdb, 0xfc, 0xff)]


def authenticated(p):
    if isinstance(p, pdu.SecurityPolicyVer0):
        return int(p) in (1, 3)
    return bool(int(p) & 0b100100)


def len_enc(n):
    return bytes([n]) if n < 128 else (b"\x81" + bytes([n]) if n < 256 else b"\x82" + n.to_bytes(2, "big"))


def element(ver, e):
    """e: [index of entry, [[attribute id, mode, selectors]], [[method id, mode]]]"""
    ln, (cid, cver) = ENTRIES[e[0] % len(ENTRIES)]
    ret = b"\x02\x04\x12" + cid.to_bytes(2, "big") + b"\x11" + bytes([cver]) + b"\x09\x06" + bytes(ln) + b"\x02\x02\x01" + len_enc(len(e[1]))
    for a, mode, sel in e[1]:
        ret += b"\x02\x03\x0f" + a.to_bytes(1, "big", signed=True) + b"\x16" + bytes([mode])
        ret += b"\x00" if sel is None else b"\x01" + bytes([len(sel)]) + b"".join(b"\x0f" + bytes([s]) for s in sel)
    ret += b"\x01" + len_enc(len(e[2]))
    for m, mode in e[2]:
        ret += b"\x02\x02\x0f" + m.to_bytes(1, "big", signed=True) + (b"\x03" if ver == 0 else b"\x16") + bytes([mode])
    return ret


def object_list(ver, elements):
    return b"\x01" + len_enc(len(elements)) + b"".join(element(ver, e) for e in elements)


def mechanism(ver, m):
    if ver == 0:
        return bytes.fromhex("0207 1102 1110 1202f4 1105 1108 1102 11") + bytes([m])
    return bytes.fromhex("0907 60857405 0802") + bytes([m])


def association(c, ver, e, elements, m=None, sap=None):
    a = c.add(CosemClassId(15), cdt.Unsigned(ver), cst.LogicalName(bytearray((0, 0, 40, 0, e, 255))))
    if elements is not None:
        a.set_attr(2, object_list(ver, elements))
    if m is not None:
        a.set_attr(6, mechanism(ver, m))
    if sap is not None:
        a.set_attr(3, b"\x02\x02\x0f" + bytes([sap]) + b"\x12\x00\x01")
    return a


def name(ln):
    return cst.LogicalName(bytearray(ln))


def ask(ctx, f, want, msg):
    """want: value or class of exception"""
    if isinstance(want, type):
        ctx.raises(f, msg, want)
    else:
        got = f()
        ctx.check(got is want, f"{msg}: got {got!r}, expected {want!r}")


def rights(elements):
    """logical name: {attribute: mode}, {method: mode}; the first record of an object and of an index is valid"""
    ret = {}
    for e in elements:
        ln = LNS[e[0] % len(LNS)]
        if ln not in ret:
            at, me = {}, {}
            for a, mode, _ in e[1]:
                at.setdefault(a, mode)
            for m, mode in e[2]:
                me.setdefault(m, mode)
            ret[ln] = at, me
    return ret


def _rights(ctx, case):
    """case: version, instance, elements, mechanism, questions [entry or foreign, index, policy, mechanism]"""
    ver, e, elements, m, questions = case
    c = col.Collection()
    a = association(c, ver, e, elements, m)
    r = rights(elements)
    ctx.eq([o.logical_name.contents for o in c.filter_by_ass(e)], [bytes(LNS[x[0] % len(LNS)]) for x in elements], "objects of association")
    ctx.eq([o.logical_name.contents for o in a.get_objects()], [bytes(LNS[x[0] % len(LNS)]) for x in elements], "objects of association")
    ctx.nt(any(at for at, _ in r.values()))
    for ln, (at, me) in r.items():
        for i in sorted(set(at) | set(me) | {1, 2, 0}):
            one(ctx, c, a, ver, e, ln, i, at, me, m, POLICIES, [None])
    for k, i, p, mi in questions:
        ln = LNS[k % len(LNS)]
        at, me = r.get(ln, (None, None))
        one(ctx, c, a, ver, e, ln, i, at, me, m, [POLICIES[p % len(POLICIES)]], [mi])
        ctx.label("unknown object", at is None)
        ctx.label("unknown index", at is not None and i not in at)


def one(ctx, c, a, ver, e, ln, i, at, me, m, policies, mechs):
    n = name(ln)
    inst = ut.CosemObjectInstanceId(bytes(ln))
    for kind, idx, access in ((at, i, a.object_list.get_attr_access), (me, i, a.object_list.get_meth_access)):
        if kind is None:
            ctx.raises(lambda: access(n, idx), "unknown object", exc.NoObject)
        elif idx not in kind:
            ctx.raises(lambda: access(n, idx), "unknown index", ValueError)
        else:
            ctx.eq(int(access(n, idx)), kind[idx], f"access of {ln}:{idx}")
    mode = exc.NoObject if at is None else at.get(i, ValueError)
    for p in policies:
        for f, plain, auth in (("is_readable", READ, A_READ), ("is_writable", WRITE, A_WRITE)):
            want = mode if isinstance(mode, type) else (mode in plain or (mode in auth and authenticated(p)))
            ask(ctx, lambda: getattr(c, f)(n, i, e, p), want, f"{f} {ln}:{i} mode {mode} policy {p!r}")
            ask(ctx, lambda: getattr(a, f)(n, i, p), want, f"association {f} {ln}:{i} mode {mode} policy {p!r}")
    for f, plain in (("is_readable", READ), ("is_writable", WRITE)):
        ask(ctx, lambda: getattr(c, f)(n, i, e), mode if isinstance(mode, type) else mode in plain, f"{f} {ln}:{i} without policy")
    mode = exc.NoObject if me is None else me.get(i, ValueError)
    for mi in mechs:
        have = m if mi is None else mi
        want = mode if isinstance(mode, type) else (mode == 1 or mode == 2 and have >= 1)
        mid = None if mi is None else mechanism_id.MechanismIdElement(mi)
        ask(ctx, lambda: c.is_accessible(n, i, e, mid), want, f"is_accessible {ln}:{i} mode {mode} mechanism {mi} of association {m}")
        ask(ctx, lambda: a.is_accessible(n, i, mid), want, f"association is_accessible {ln}:{i} mode {mode} mechanism {mi} of association {m}")


def _set_of_indexes(ctx, case):
    """all attributes of the set are writable"""
    ver, elements, k, indexes = case
    c = col.Collection()
    a = association(c, ver, 1, elements)
    r = rights(elements)
    ln = LNS[k % len(LNS)] if not r or k % 5 == 0 else sorted(r)[k % len(r)]
    n = name(ln)
    if ln not in r:
        ctx.raises(lambda: a.object_list.is_writable(n, set(indexes)), "unknown object", exc.NoObject)
        return
    at = r[ln][0]
    missing = [i for i in indexes if i not in at]
    writable = all(at[i] in WRITE | A_WRITE for i in indexes if i in at)
    ctx.nt(len(indexes) > 1)
    ctx.label("missing", bool(missing))
    if missing:
        try:
            got = a.object_list.is_writable(n, set(indexes))
            ctx.check(got is False and not writable, f"attributes {missing} are not in list, got {got}")
        except ValueError:
            pass
    else:
        ask(ctx, lambda: a.object_list.is_writable(n, set(indexes)), writable, f"is_writable {indexes} of {at}")


def _modes(ctx, case):
    ver, mode = case
    m = (ver0, ver1)[min(ver, 1)].AccessMode(mode)
    ctx.nt(True)
    ctx.check(m.is_writable() is (mode in WRITE | A_WRITE), f"mode {mode} is writable")
    ctx.check(m.is_readable() is (mode in READ | A_READ), f"mode {mode} is readable")


def _associations(ctx, case):
    """case: associations [version, instance, SAP or None, elements or None]"""
    c = col.Collection()
    made = {}
    ver = case[0]
    for e, sap, elements in case[1]:
        if e in made:
            continue
        before = [o.logical_name.contents for o in c]
        present = {o.logical_name.contents: o for o in c}
        a = association(c, ver, e, elements, sap=sap)
        made[e] = a, (sap if sap is not None else (0x10 * e if e <= 4 else 0x10)), elements
        new = [bytes((0, 0, 40, 0, e, 255))]
        for x in elements or ():
            ln = bytes(LNS[x[0] % len(LNS)])
            if ln not in before + new:
                new.append(ln)
        ctx.eq([o.logical_name.contents for o in c], before + new, "object list adds the absent objects, in its order")
        for k, o in present.items():
            ctx.check(c.get(k) is o, "present object is kept")
        for x in elements or ():
            ln, (cid, cv) = ENTRIES[x[0] % len(ENTRIES)]
            o = c.get(bytes(ln))
            ctx.eq((int(o.CLASS_ID), int(o.VERSION)), (cid, cv), "class of added object")
    ctx.nt(len(made) > 1)
    for e in range(8):
        if e in made:
            ctx.check(c.getASSOCIATION(e) is made[e][0], "association by instance")
        else:
            ctx.raises(lambda: c.getASSOCIATION(e), "absent", exc.NoObject)
    for sap in SAPS:
        s = enums.ClientSAP(sap)
        want = next((e for e in made if e != 0 and made[e][1] == sap), None)
        if want is None:
            ctx.raises(lambda: c.get_association_id(s), "no association of client", ValueError)
            ctx.raises(lambda: c.getAssociationBySAP(s), "no association of client", ValueError)
            ctx.raises(lambda: c.get_objects_list(s), "no association of client", ValueError)
            continue
        ctx.label("found")
        a, _, elements = made[want]
        ctx.eq(c.get_association_id(s), want, f"association of client {sap:#x}")
        ctx.check(c.getAssociationBySAP(s) is a, "association of client")
        if elements is None:
            ctx.raises(lambda: c.get_objects_list(s), "object list is not known", exc.EmptyObj)
            ctx.raises(lambda: c.is_readable(name(LNS[0]), 1, want), "object list is not known", exc.ITEApplication)
            ctx.raises(lambda: c.is_writable(name(LNS[0]), 1, want), "object list is not known", exc.ITEApplication)
            ctx.raises(lambda: c.is_accessible(name(LNS[0]), 1, want), "object list is not known", exc.ITEApplication)
            ctx.raises(lambda: a.client_objects_list(s), "object list is not known", exc.EmptyObj)
        else:
            ids = [id(c.get(bytes(LNS[x[0] % len(LNS)]))) for x in elements]
            ctx.eq([id(o) for o in c.get_objects_list(s)], ids, "objects of client")
            ctx.eq([id(o) for o in a.get_objects()], ids, "objects of association")
            for b, sap_, _ in made.values():
                ctx.eq([id(o) for o in b.client_objects_list(s)], list(dict.fromkeys(ids)), "objects of client by any association")
                if sap_ == sap:
                    ctx.eq([id(o) for o in b.objects], list(dict.fromkeys(ids)), "objects of own client")
    for a, sap, _ in made.values():
        ctx.eq(a.source_address, bytes((sap * 2 + 1,)), "source address")
    if all(x[2] is not None for e, x in made.items() if e):
        want = {}
        for e, (_, _, elements) in made.items():
            if e:
                for x in elements:
                    for i, mode, _ in x[1]:
                        if mode in WRITE | A_WRITE:
                            want.setdefault(bytes(LNS[x[0] % len(LNS)]), set()).add(i)
        ctx.eq({k.contents: v for k, v in c.get_writable_attr().items()}, want, "writable attributes of all associations")


def _unsupported(ctx, case):
    """an object of unknown class in the list is not a reason to lose others; case: version, elements, place and class of the unknown"""
    ver, elements, k, cid = case
    c = col.Collection()
    a = association(c, ver, 1, None)
    have = [o.logical_name.contents for o in c]
    encs = [element(ver, e) for e in elements]
    alien = b"\x02\x04\x12" + cid.to_bytes(2, "big") + b"\x11\x00\x09\x06\x00\x00\x60\x7d\x7d\xff\x02\x02\x01\x00\x01\x00"
    encs.insert(k % (len(encs) + 1), alien)
    a.set_attr(2, b"\x01" + len_enc(len(encs)) + b"".join(encs))
    lns = [bytes(LNS[e[0] % len(LNS)]) for e in elements]
    ctx.eq([o.logical_name.contents for o in c], list(dict.fromkeys(have + lns)), "objects")
    ctx.eq(a.object_list.encoding, b"\x01" + len_enc(len(encs)) + b"".join(encs), "object list")
    ctx.nt(k % (len(elements) + 1) < len(elements))


def _again(ctx, case):
    """the object list is read again and again: rights are of the last one, objects are of all; case: version, instance, lists, mechanisms, selector"""
    ver, e, lists, ms, sel = case
    c = col.Collection()
    a = association(c, ver, e, None)
    have = [o.logical_name.contents for o in c]
    kept = None
    for elements, m in zip(lists, ms):
        a.set_attr(2, object_list(ver, elements))
        a.set_attr(6, mechanism(ver, m))
        have += [x for x in (bytes(LNS[x[0] % len(LNS)]) for x in elements) if x not in have]
        ctx.eq([o.logical_name.contents for o in c], have, "objects of all lists")
        ctx.eq([o.logical_name.contents for o in c.filter_by_ass(e)], [bytes(LNS[x[0] % len(LNS)]) for x in elements], "objects of association")
        ctx.check(all(o.collection is c for o in c), "collection of objects")
        r = rights(elements)
        for ln, (at, me) in r.items():
            for i in sorted(set(at) | set(me) | {1, 2}):
                one(ctx, c, a, ver, e, ln, i, at, me, m, POLICIES[:1], [None])
        if kept is None:
            t = ver0.SelectiveAccessDescriptor.ELEMENTS[1].TYPE.ELEMENTS[1].TYPE
            kept = a.object_list.selective_access
        ctx.check(a.object_list.selective_access is kept, "selection")
        if ln := next((x for x in sorted(set(map(tuple, have))) if tuple(x) not in r and bytes(x) in {bytes(n) for n in LNS}), None):
            ctx.raises(lambda: a.object_list.is_writable(name(ln), {2}), "object that is no longer in the list", exc.NoObject)
    ctx.nt(len({tuple(x[0] % len(LNS) for x in els) for els in lists}) > 1)


def _selection(ctx, case):
    """request of the object list with a selection; case: version, instance, selector, classes or objects, attribute"""
    ver, e, sel, ids, i = case
    a = association(col.Collection(), ver, e, [])
    head = b"\x00\x0f\x00\x00\x28\x00" + bytes([e, 255])
    ctx.eq(a.get_attr_descriptor(2, True).contents, head + b"\x02\x01\x01\x00", "all objects by default")
    one = lambda k: b"\x02\x02\x12" + ENTRIES[k % len(ENTRIES)][1][0].to_bytes(2, "big") + b"\x09\x06" + bytes(ENTRIES[k % len(ENTRIES)][0])
    want = {1: b"\x00",
            2: b"\x01" + len_enc(len(ids)) + b"".join(b"\x12" + ENTRIES[k % len(ENTRIES)][1][0].to_bytes(2, "big") for k in ids),
            3: b"\x01" + len_enc(len(ids)) + b"".join(map(one, ids)),
            4: one(ids[0])}[sel]
    t = ver0.SelectiveAccessDescriptor.ELEMENTS[1].TYPE.ELEMENTS[sel].TYPE
    a.object_list.selective_access = ver0.SelectiveAccessDescriptor(ver0.AccessSelector(sel), t(want))
    ctx.eq(a.get_attr_descriptor(2, True).contents, head + b"\x02\x01" + bytes([sel]) + want, "selected objects")
    ctx.eq(ver0.SelectiveAccessDescriptor(ver0.AccessSelector(sel)).contents[:1], bytes([sel]), "selector")
    ctx.eq(a.get_attr_descriptor(2).contents, head + b"\x02", "without selection")
    ctx.eq(a.get_attr_descriptor(i, True).contents[:9], head + bytes([i]), "attribute")
    if i != 2:
        ctx.eq(a.get_attr_descriptor(i, True).contents, head + bytes([i]), "selection is for the object list only")
    for bad in (0, 5, 255):
        ctx.raises(lambda: ver0.AccessSelector(bad), f"selector {bad}", ValueError)
    ctx.nt(sel > 1)


def elements(ver, unique=True, **kw):
    top = 3 if ver == 0 else 6
    idx = st.integers(1, 12) | st.sampled_from([-1, 2, 3, 127, -128])
    at = st.tuples(idx, st.integers(0, top), st.none() | st.lists(st.integers(0, 127), max_size=2)).map(list)
    me = st.tuples(st.integers(1, 9), st.integers(0, 1 if ver == 0 else 2)).map(list)
    e = st.tuples(st.integers(0, len(ENTRIES) - 1), st.lists(at, max_size=8), st.lists(me, max_size=5)).map(list)
    return st.lists(e, max_size=6, unique_by=(lambda x: x[0]) if unique else None, **kw)


vers = st.sampled_from([0, 1, 1, 2])


@st.composite
def right_cases(draw):
    ver = draw(vers)
    els = draw(elements(ver, draw(st.booleans()), min_size=1))
    own = st.sampled_from([e[0] for e in els])
    q = st.tuples(own | st.integers(0, len(ENTRIES) - 1), st.integers(-2, 14), st.integers(0, len(POLICIES) - 1), st.none() | st.integers(0, 7)).map(list)
    return [ver, draw(st.integers(0, 4)), els, draw(st.integers(0, 2)), draw(st.lists(q, min_size=1, max_size=8))]


index_cases = vers.flatmap(lambda v: st.tuples(st.just(v), elements(v, False, min_size=1), st.integers(0, 10 ** 4), st.lists(st.integers(1, 12), max_size=5, unique=True)).map(list))


@st.composite
def good_index_cases(draw):
    """indexes of the object itself"""
    v = draw(vers)
    els = draw(elements(v, draw(st.booleans()), min_size=1))
    r = rights(els)
    ln = sorted(r)[draw(st.integers(0, len(r) - 1))]
    at = sorted(r[ln][0])
    good = [i for i in at if r[ln][0][i] in WRITE | A_WRITE]
    k = sorted(r).index(ln)
    while k % 5 == 0 or k % len(r) != sorted(r).index(ln):
        k += 1
        if k > 1000:
            break
    pool = good if good and draw(st.booleans()) else at or [1]
    return [v, els, k, draw(st.lists(st.sampled_from(pool), max_size=5, unique=True))]


ass_cases = vers.flatmap(lambda v: st.tuples(st.just(v), st.lists(st.tuples(
    st.integers(0, 5), st.none() | st.sampled_from(SAPS), st.none() | elements(v, False) | elements(v, False)).map(list), min_size=1, max_size=5)).map(list))

PROP = Prop("C31", rule="non-trivial: the object list has attribute records (rights), more than one index (indexes), more than one association (associations), different lists one after another (again)", facets=[
    Facet("rights", right_cases(), _rights, quick=250, thorough=15000),
    Facet("indexes", index_cases | good_index_cases(), _set_of_indexes, quick=400, thorough=15000),
    Facet("associations", ass_cases, _associations, quick=300, thorough=15000),
    Facet("again", vers.flatmap(lambda v: st.tuples(st.just(v), st.integers(0, 4), st.lists(elements(v), min_size=2, max_size=4), st.lists(st.integers(0, 2), min_size=4, max_size=4), st.just(0)).map(list)), _again, quick=100, thorough=5000),
    Facet("unsupported", vers.flatmap(lambda v: st.tuples(st.just(v), elements(v, False), st.integers(0, 6), st.sampled_from([0, 2, 99, 200, 8192, 65535])).map(list)), _unsupported, quick=100, thorough=3000),
    Facet("selection", st.tuples(st.integers(0, 2), st.integers(0, 8), st.integers(1, 4), st.lists(st.integers(0, 200), min_size=1, max_size=5), st.integers(1, 8)).map(list),
          _selection, quick=150, thorough=5000),
    Facet("modes", st.tuples(st.integers(0, 1), st.integers(0, 3)).map(list), _modes, quick=11, thorough=20, exhaustive=lambda: ([v, m] for v in (0, 1) for m in range(4 if v == 0 else 7))),
], assumptions=["The first record of an object and of an index in the object list is the valid one.", "Object lists name an object by its class of the tables; the mechanism is one the framework has a secret for."])
