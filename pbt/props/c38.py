"""profile generic: types and names of the buffer follow the capture objects and the selection"""
from hypothesis import strategies as st
from ..core import Prop, Facet
from .. import fill
from src.DLMS_SPODES.types import cdt, cst, ut
from src.DLMS_SPODES.types.cosemClassID import CosemClassId
from src.DLMS_SPODES.cosem_interface_classes import collection as col
from src.DLMS_SPODES.cosem_interface_classes.register import Register
from src.DLMS_SPODES.relation_to_OBIS import get_name
from src.DLMS_SPODES.types.implementations import structs
from src.DLMS_SPODES import exceptions as exc
from .c31 import len_enc
from .c33 import ENTRIES, TYPES, settable

PROFILES = [(1, 0, 99, 1, 0, 255), (1, 0, 98, 2, 0, 255), (1, 0, 94, 7, 0, 255), (1, 0, 94, 7, 1, 255), (1, 0, 99, 2, 0, 255), (0, 0, 21, 0, 5, 255), (0, 0, 99, 98, 0, 255), (1, 0, 98, 1, 0, 255)]
CLOCK = next(i for i, (ln, cv) in enumerate(ENTRIES) if cv == (8, 0))
PLAIN = [i for i, (ln, cv) in enumerate(ENTRIES) if cv[0] not in (7, 11)]   # indexes of special days are unique
REGS = [i for i in PLAIN if ENTRIES[i][1][0] in (1, 3, 4)]
SIMPLE = [b"\x06\x00\x00\x01\x00", b"\x12\x00\x05", b"\x11\x07", b"\x05\x00\x00\x00\x01", b"\x0f\xff", b"\x16\x01", b"\x09\x03abc", b"\x0a\x02ok", b"\x15" + bytes(8), b"\x10\x00\x10"]


@st.composite
def choice_value(draw, k, i):
    """a value for attribute with choice of type"""
    return (draw(st.sampled_from(SIMPLE)) if ENTRIES[k][1][0] in (3, 4) and i == 2 else draw(fill.enc(declared(k, i)))).hex()


def arr(els):
    return b"\x01" + len_enc(len(els)) + b"".join(els)


def definition(ln, cid, i, d=0):
    return b"\x02\x04\x12" + cid.to_bytes(2, "big") + b"\x09\x06" + bytes(ln) + b"\x0f" + bytes([i]) + b"\x12" + d.to_bytes(2, "big")


def declared(k, i):
    return cst.LogicalName if i == 1 else TYPES[k].get_attr_element(i).DATA_TYPE


@st.composite
def column(draw, ks, values):
    """[index in objects, attribute, element]"""
    n = draw(st.integers(0, len(ks) - 1))
    k = ks[n]
    i = draw(st.sampled_from([1] + settable(TYPES[k]) * 4))
    t = declared(k, i)
    if isinstance(t, ut.CHOICE):
        if i not in values[n]:
            values[n][i] = draw(choice_value(k, i))
        return [n, i, 0]
    if issubclass(t, cdt.Structure):
        return [n, i, draw(st.integers(0, len(t.ELEMENTS)))]
    return [n, i, 0]


@st.composite
def cell(draw, ks, values, c):
    n, i, d = c
    t = declared(ks[n], i)
    if isinstance(t, ut.CHOICE):
        return values[n][i]
    return draw(fill.enc(t.ELEMENTS[d - 1].TYPE if d else t)).hex()


@st.composite
def layout(draw):
    ks = [CLOCK] + draw(st.lists(st.one_of(st.sampled_from(REGS), st.sampled_from(PLAIN)), min_size=1, max_size=5, unique_by=lambda k: ENTRIES[k][0]))
    ks = list({ENTRIES[k][0]: k for k in ks}.values())
    values = [{} for _ in ks]
    for n, k in enumerate(ks):
        if ENTRIES[k][1][0] in (3, 4) and draw(st.booleans()):
            values[n][3] = "02020f" + draw(st.sampled_from(["fd", "00", "02"])) + "16" + draw(st.sampled_from(["1b", "1e", "ff"]))
    cols = [draw(column(ks, values)) for _ in range(draw(st.integers(1, 6)))]
    sort = [0, 2, 0]
    if draw(st.booleans()):
        cand = [n for n, k in enumerate(ks) if k in REGS]
        if cand:
            n = draw(st.sampled_from(cand))
            values[n].setdefault(2, draw(choice_value(ks[n], 2)))
            if values[n][2][:2] not in ("01", "02"):
                sort = [n, 2, 0]
    return draw(st.sampled_from(range(len(PROFILES)))), ks, values, cols, sort


@st.composite
def cases(draw):
    p, ks, values, cols, sort = draw(layout())
    kind = draw(st.integers(0, 3))
    sel = None
    if kind == 1:
        sel = ["range", draw(st.lists(st.integers(0, len(cols) - 1), max_size=4)), [draw(cell(ks, values, sort)) for _ in range(2)]]
    elif kind == 2:
        a = draw(st.integers(1, len(cols) + 1))
        sel = ["entry", draw(st.integers(1, 2 ** 32 - 1)), draw(st.sampled_from([0, 1, 100, 2 ** 32 - 1])), a, draw(st.one_of(st.just(0), st.integers(0, len(cols) + 1)))]
    rows = [[draw(cell(ks, values, c)) for c in cols] for _ in range(draw(st.integers(0, 3)))]
    bad = draw(st.one_of(st.sampled_from(["less", "more"]).map(lambda x: [x]),
                         st.tuples(st.just("type"), st.integers(0, 9), st.integers(0, 24)).map(list)))
    return [p, ks, [sorted(v.items()) for v in values], cols, sort, sel, rows, bad, draw(st.integers(0, 1))]


def build(p, ks, values, russian=False):
    c = col.Collection()
    if russian:
        c.set_dlms_ver(6)
        c.set_country(col.CountrySpecificIdentifiers.RUSSIA)
        c.set_country_ver(col.AppVersion(3, 0))
        c.set_spec()
    made = []
    for k, vs in zip(ks, values):
        ln, (cid, ver) = ENTRIES[k]
        o = c.add(CosemClassId(cid), cdt.Unsigned(ver), cst.LogicalName(bytearray(ln)))
        for i, h in vs:
            o.set_attr(i, bytes.fromhex(h))
        made.append(o)
    return c, made, c.add(CosemClassId(7), cdt.Unsigned(1), cst.LogicalName(bytearray(PROFILES[p])))


def defs(ks, cols):
    return [definition(ENTRIES[ks[n]][0], ENTRIES[ks[n]][1][0], i, d) for n, i, d in cols]


def type_of(made, ks, c):
    n, i, d = c
    t = declared(ks[n], i)
    if isinstance(t, ut.CHOICE):
        return made[n].get_attr(i).__class__
    return t.ELEMENTS[d - 1].TYPE if d else t


def name_of(made, ks, c):
    n, i, d = c
    ret = [get_name(made[n].logical_name), str(made[n].get_attr_element(i))]
    if d:
        ret.append(declared(ks[n], i).ELEMENTS[d - 1].NAME)
    return ret


def select(cols, sel):
    if sel is None or (sel[0] == "range" and not sel[1]):
        return list(range(len(cols)))
    if sel[0] == "range":
        return sel[1]
    return list(range(len(cols)))[sel[3] - 1:sel[4] or None]


def apply(p, sel, ks, cols, sort):
    """set selection, return its encoding with selector"""
    cls = type(p.buffer.selective_access)
    what = cls.ELEMENTS[1].TYPE.ELEMENTS
    if sel[0] == "range":
        enc = b"\x02\x04" + defs(ks, [sort])[0] + bytes.fromhex(sel[2][0]) + bytes.fromhex(sel[2][1]) + arr([defs(ks, cols)[i] for i in sel[1]])
        par = what[1].TYPE(enc)
    else:
        enc = b"\x02\x04" + b"".join(b"\x06" + x.to_bytes(4, "big") for x in sel[1:3]) + b"".join(b"\x12" + x.to_bytes(2, "big") for x in sel[3:])
        par = what[2].TYPE(enc)
    n = 1 if sel[0] == "range" else 2
    p.buffer.selective_access = cls(cls.ELEMENTS[0].TYPE(n), par)
    return bytes([n]) + enc


def row_enc(r):
    return b"\x02" + len_enc(len(r)) + b"".join(map(bytes.fromhex, r))


def _buffer(ctx, case):
    pi, ks, values, cols, sort, sel, rows, bad, again = case
    c, made, p = build(pi, ks, values)
    p.set_attr(6, defs(ks, [sort])[0])
    p.set_attr(3, arr(defs(ks, cols)))
    ctx.eq([x.encoding for x in p.capture_objects], defs(ks, cols), "capture objects")
    ctx.eq(p.get_capture_object_names(), [get_name(made[n].logical_name) for n, _, _ in cols], "names of capture objects")
    want = b"\x02" + b"\x02\x04\x06\x00\x00\x00\x01\x06\x00\x00\x00\x00\x12\x00\x01\x12\x00\x00"
    if sel is not None:
        want = apply(p, sel, ks, cols, sort)
    d = p.get_attr_descriptor(2, with_selection=True)
    ctx.eq(d.contents, b"\x00\x07" + bytes(PROFILES[pi]) + b"\x02" + b"\x01" + want, "descriptor with selection")
    for i in (1, 3, 4, 5, 6, 7, 8):
        ctx.eq(p.get_attr_descriptor(i, with_selection=True).contents, b"\x00\x07" + bytes(PROFILES[pi]) + bytes((i,)), "selection is of the buffer only")
    ctx.eq(p.get_attr_descriptor(2).contents, b"\x00\x07" + bytes(PROFILES[pi]) + b"\x02", "descriptor")
    chosen = select(cols, sel)
    sub = [[r[i] for i in chosen] for r in rows]
    p.set_attr(2, arr([row_enc(r) for r in sub]))
    ctx.eq([x.encoding for x in p.buffer_capture_objects], [defs(ks, cols)[i] for i in chosen], "selected capture objects")
    ctx.check(all(a is b for a, b in zip(p.get_buffer_objects(), [made[cols[i][0]] for i in chosen])) and len(p.get_buffer_objects()) == len(chosen), "objects of the buffer")
    for _ in range(2):
        ctx.eq(len(p.buffer), len(rows), "amount of entries")
        for entry, r in zip(p.buffer, sub):
            ctx.eq(entry.encoding.hex(), row_enc(r).hex(), "entry")
            for value, el, i in zip(entry, entry.ELEMENTS, chosen):
                ctx.eq(value.__class__, type_of(made, ks, cols[i]), f"type of column {i}")
                ctx.eq(el.NAME, ". ".join(name_of(made, ks, cols[i])), f"name of column {i}")
        ctx.eq([el.NAME for el in p.buffer.TYPE.ELEMENTS], [". ".join(name_of(made, ks, cols[i])) for i in chosen], "names of columns")
        for i, el in enumerate(p.capture_objects):
            names, t = c.get_name_and_type(el)
            ctx.eq((names, t), (name_of(made, ks, cols[i]), type_of(made, ks, cols[i])), "name and type of capture object")
        # an entry that does not fit is rejected and the buffer is left
        if not rows or not chosen:
            break
        last = list(sub[-1])
        if bad[0] == "less":
            last.pop()
        elif bad[0] == "more":
            last.append("1107")
        else:
            k = bad[1] % len(last)
            tags = [t for t in ("0f00", "1100", "1000ff", "1600", "0900", "0300", "0400", "05000000ff", "0600000000", "0102" + "1100" * 2, "0201" + "1100", "17" + "00" * 4) if t[:2] != last[k][:2]]
            last[k] = tags[bad[2] % len(tags)]
        data = arr([*[row_enc(x) for x in sub[:-1]], row_enc(last)])
        ctx.raises(lambda: p.set_attr(2, data), "wrong entry", Exception)
        ctx.label("rejected")
    if again:   # other selection of columns
        p.set_attr(2, b"\x01\x00")
        new = ["entry", 1, 0, 1, 1 + len(cols) // 2]
        apply(p, new, ks, cols, sort)
        p.set_attr(2, arr([row_enc([r[i] for i in select(cols, new)]) for r in rows]))
        ctx.eq([e.encoding for e in p.buffer], [row_enc([r[i] for i in select(cols, new)]) for r in rows], "entries of new selection")
    ctx.nt(len(cols) > 1 and len(rows) > 0)
    ctx.label("part", len(chosen) < len(cols))


# ---- order of initiation
@st.composite
def orders(draw):
    p, ks, values, cols, sort = draw(layout())
    ops = draw(st.lists(st.sampled_from(["capture", "sort", "buffer", "absent_sort", "alien_sort", "clear_capture", "clear_sort"]), max_size=6))
    rows = [[draw(cell(ks, values, c)) for c in cols] for _ in range(draw(st.integers(0, 2)))]
    return [p, ks, [sorted(v.items()) for v in values], cols, sort, ops, rows]


def _order(ctx, case):
    pi, ks, values, cols, sort, ops, rows = case
    c, made, p = build(pi, ks, values)
    cap, so = arr(defs(ks, cols)), defs(ks, [sort])[0]
    buf = arr([row_enc(r) for r in rows])
    has_cap = has_sort = False
    known = False   # sort object was known
    n = 0
    for op in [*ops, "sort", "capture", "buffer"]:
        if op == "capture":
            if known:
                p.set_attr(3, cap)
                has_cap = True
            else:
                ctx.raises(lambda: p.set_attr(3, cap), "capture objects before sort object", exc.EmptyObj)
                ctx.check(p.capture_objects is None, "rejected capture objects")
                n += 1
        elif op == "sort":
            p.set_attr(6, so)
            has_sort = known = True
        elif op == "buffer":
            if has_cap and known:
                p.set_attr(2, buf)
                ctx.eq(p.buffer.encoding, buf, "buffer")
            else:
                ctx.raises(lambda: p.set_attr(2, buf), "buffer before capture objects", exc.EmptyObj)
                n += 1
        elif op in ("absent_sort", "alien_sort") and not has_sort:
            bad = definition((0, 0, 96, 9, 9, 255), 8, 2) if op == "absent_sort" else definition(ENTRIES[ks[sort[0]]][0], 11, 2)
            ctx.raises(lambda: p.set_attr(6, bad), op, exc.NoObject)
            p.clear_attr(6)
            n += 1
        elif op == "clear_capture":
            p.clear_attr(3)
            has_cap = False
        elif op == "clear_sort":
            p.clear_attr(6)
            has_sort = False
        ctx.eq((p.capture_objects is not None, p.sort_object is not None), (has_cap, has_sort), f"after {op}")
    ctx.nt(n > 0)


# ---- other sort object
@st.composite
def resorts(draw):
    p, ks, values, cols, sort = draw(layout())
    cand = [n for n, k in enumerate(ks) if k in REG34]
    for n in cand:
        values[n].setdefault(2, draw(st.sampled_from(SIMPLE)).hex())
    cand = [n for n in cand if values[n][2][:2] not in ("01", "02")]
    sorts = draw(st.lists(st.sampled_from([0, *cand, *cand]), min_size=2, max_size=5))
    steps = [[n, [draw(cell(ks, values, [n, 2, 0])) for _ in range(2)], draw(st.lists(st.integers(0, len(cols) - 1), max_size=3))] for n in sorts]
    return [p, ks, [sorted(v.items()) for v in values], cols, steps, draw(st.booleans())]


def _resort(ctx, case):
    """range of the selection has the type of the present sort object; the same sort object leaves the selection"""
    pi, ks, values, cols, steps, late = case
    c, made, p = build(pi, ks, values)
    head = b"\x00\x07" + bytes(PROFILES[pi]) + b"\x02\x01"
    whole = b"\x02\x02\x04\x06\x00\x00\x00\x01\x06\x00\x00\x00\x00\x12\x00\x01\x12\x00\x00"
    before = None
    for n, ends, chosen in steps:
        so = defs(ks, [[n, 2, 0]])[0]
        p.set_attr(6, so)
        if before is None or not late:
            p.set_attr(3, arr(defs(ks, cols)))
        if n != before:
            ctx.eq(p.get_attr_descriptor(2, with_selection=True).contents, head + whole, "no selection with other sort object")
        else:
            ctx.eq(p.get_attr_descriptor(2, with_selection=True).contents, want, "selection is left")
        t = type(p.buffer.selective_access).ELEMENTS[1].TYPE.ELEMENTS[1].TYPE
        ctx.eq([el.TYPE for el in t.ELEMENTS[1:3]], [type_of(made, ks, [n, 2, 0])] * 2, "types of the range")
        want = head + apply(p, ["range", chosen, ends], ks, cols, [n, 2, 0])
        ctx.eq(p.get_attr_descriptor(2, with_selection=True).contents, want, "descriptor with range")
        ctx.label("other", before is not None and n != before)
        ctx.nt(before is not None and n != before)
        before = n


# ---- capture objects that are not in the collection
def _missing(ctx, case):
    pi, ks, values, cols, sort, gone = case
    c, made, p = build(pi, ks, values)
    p.set_attr(6, defs(ks, [sort])[0])
    g = gone % len(ks)
    ln, (cid, ver) = ENTRIES[ks[g]]
    used = any(n == g for n, _, _ in cols)
    c.try_remove(cst.LogicalName(bytearray(ln)))
    same = [o for o in c.values() if int(o.CLASS_ID) == cid]
    f = lambda: p.set_attr(3, arr(defs(ks, cols)))
    if not used:
        f()
        ctx.check(c.get(bytes(ln)) is None, "object is not needed")
    elif same:
        old = same[0]
        try:
            f()
        except ValueError:   # version of the other object is not allowed for the name
            ctx.label("not allowed")
            return
        o = c.get(bytes(ln))
        ctx.check(o is not None and int(o.CLASS_ID) == cid and int(o.VERSION) == int(old.VERSION), "added object")
        ctx.check(o.collection is c, "collection of added object")
        ctx.nt(True)
    else:
        ctx.raises(f, "object of unknown version", (exc.NoObject, ValueError))
        ctx.nt(True)
        ctx.label("unknown version")


def missing():
    return st.tuples(layout(), st.integers(1, 9)).map(lambda x: [x[0][0], x[0][1], [[] for _ in x[0][2]], [c for c in x[0][3] if not isinstance(declared(x[0][1][c[0]], c[1]), ut.CHOICE)], [0, 2, 0], x[1]])


# ---- a profile captures an entry of another profile
def _nested(ctx, case):
    pi, ks, values, cols, sort, d = case
    c, made, p = build(pi, ks, values)
    p.set_attr(6, defs(ks, [sort])[0])
    p.set_attr(3, arr(defs(ks, cols)))
    q = c.add(CosemClassId(7), cdt.Unsigned(1), cst.LogicalName(bytearray(PROFILES[(pi + 1) % len(PROFILES)])))
    q.set_attr(6, defs(ks, [sort])[0])
    inner = definition(PROFILES[pi], 7, 2, d)
    if d > len(cols):
        ctx.raises(lambda: q.set_attr(3, arr([defs(ks, cols)[0], inner])), "column out of the profile", (IndexError, ValueError))
        return
    q.set_attr(3, arr([defs(ks, cols)[0], inner]))
    el = q.capture_objects[1]
    if d == 0:
        ctx.eq(c.get_name_and_type(el), ([get_name(p.logical_name), str(p.get_attr_element(2))], p.buffer.__class__), "whole buffer")
    else:
        ctx.eq(c.get_name_and_type(el), (name_of(made, ks, cols[d - 1]), type_of(made, ks, cols[d - 1])), "column of the other profile")
    ctx.eq(c.get_name_and_type(q.capture_objects[0]), (name_of(made, ks, cols[0]), type_of(made, ks, cols[0])), "plain column")
    ctx.nt(d > 0 and len(cols) > 1)


# ---- an element of a structure
def structures():
    return [[k, i] for k in PLAIN for i in settable(TYPES[k]) if not isinstance(declared(k, i), ut.CHOICE) and issubclass(declared(k, i), cdt.Structure)]


def _part(ctx, case):
    """data index chooses an element of the structure, 0 the whole attribute; the index of no element is refused"""
    k, i = case
    c, made, p = build(0, [k], [[]])
    els = declared(k, i).ELEMENTS
    for d in sorted({*range(len(els) + 3), 127, 128, 254, 255, 256, 256 + len(els), 257, 32768, 65280, 65535}):
        x = structs_capture(ENTRIES[k][0], ENTRIES[k][1][0], i, d)
        if d > len(els):
            ctx.raises(lambda: c.get_name_and_type(x), f"element {d} of {len(els)}", ValueError)
        else:
            ctx.eq(c.get_name_and_type(x), (name_of(made, [k], [0, i, d]), type_of(made, [k], [0, i, d])), f"element {d} of {len(els)}")
    ctx.nt(True)


def structs_capture(*a):
    return structs.CaptureObjectDefinition(definition(*a))


# ---- scalers
SCALED = [(PROFILES[2], (1, 0, 94, 7, 3, 255)), (PROFILES[1], (1, 0, 94, 7, 2, 255)), (PROFILES[0], (1, 0, 94, 7, 4, 255)), (PROFILES[7], (1, 0, 94, 7, 1, 255))]
REG34 = [k for k in REGS if ENTRIES[k][1][0] in (3, 4)]


def units(draw):
    return "02020f" + draw(st.sampled_from(["fd", "00", "02"])) + "16" + draw(st.sampled_from(["1b", "1e", "ff"]))


@st.composite
def scaler_cases(draw):
    keyed = draw(st.integers(0, len(SCALED) - 1)) if draw(st.booleans()) else None
    if keyed is None:
        _, ks, values, cols, _ = draw(layout())
    else:   # types of registers are the same in all specifications
        ks = [CLOCK] + draw(st.lists(st.sampled_from(REG34), min_size=1, max_size=5, unique_by=lambda k: ENTRIES[k][0]))
        values = [{3: units(draw)} if n else {} for n in range(len(ks))]
        cols = [draw(column(ks, values)) for _ in range(draw(st.integers(1, 3)))]
    # the columns of values: attributes 2 of registers are more frequent
    regs = [n for n, k in enumerate(ks) if k in REG34]
    for n in regs:
        values[n].setdefault(2, draw(choice_value(ks[n], 2)))
    uniq = []
    for c in [*cols, *([n, 2, 0] for n in regs)]:
        if c not in uniq and draw(st.integers(0, 3)):
            uniq.append(c)
    uniq = draw(st.permutations(uniq or [[0, 2, 0]]))
    kind = draw(st.integers(0, 2))
    sel = None
    if kind == 1:
        a = draw(st.integers(1, len(uniq)))
        sel = ["entry", 1, 0, a, draw(st.integers(a, len(uniq)))]
    elif kind == 2:
        sel = ["range", draw(st.lists(st.integers(0, len(uniq) - 1), max_size=4, unique=True)), [(b"\x09\x0c" + bytes.fromhex("07e40101ffffffffff800000")).hex()] * 2]
    return [keyed, ks, [sorted(v.items()) for v in values], uniq, sel, [units(draw) for _ in uniq]]


def _scalers(ctx, case):
    keyed, ks, values, cols, sel, su = case
    if keyed is None:
        c, made, p = build(5, ks, values)
    else:
        c, made, p = build(PROFILES.index(SCALED[keyed][0]), ks, values, True)
        ctx.eq(p.scaler_profile_key, bytes(SCALED[keyed][1]), "key of scaler profile")
    p.set_attr(6, defs(ks, [[0, 2, 0]])[0])
    p.set_attr(3, arr(defs(ks, cols)))
    if sel is not None:
        apply(p, sel, ks, cols, [0, 2, 0])
    p.set_attr(2, b"\x01\x00")
    chosen = select(cols, sel)
    if keyed is None:
        want = [made[cols[i][0]].scaler_unit.encoding.hex() if su_is(made, *cols[i][:2]) and made[cols[i][0]].scaler_unit is not None else None for i in chosen]
        got = p.get_scaler_units_profile()
    else:
        ctx.raises(p.get_scaler_units_profile, "scaler profile is absent", exc.NoObject)
        s = c.add(CosemClassId(7), cdt.Unsigned(1), cst.LogicalName(bytearray(SCALED[keyed][1])))
        scols = [[n, 3, 0] if su_is(made, n, i) else [n, i, d] for n, i, d in cols]
        s.set_attr(6, defs(ks, [[0, 2, 0]])[0])
        s.set_attr(3, arr(defs(ks, scols)))
        ctx.raises(p.get_scaler_units_profile, "scaler profile is empty", ValueError)
        types = [type_of(made, ks, x) for x in scols]
        row = [bytes.fromhex(u) if issubclass(t, cdt.ScalUnitType) else t().encoding for t, u in zip(types, su)]
        s.set_attr(2, arr([b"\x02" + len_enc(len(row)) + b"".join(row)]))
        want = [su[i] if issubclass(types[i], cdt.ScalUnitType) else None for i in chosen]
        got = p.get_scaler_units_profile()
        ctx.label("keyed")
    ctx.eq([None if x is None else x.encoding.hex() for x in got], want, "scalers of columns")
    ctx.nt(any(x is not None for x in want))


def su_is(made, n, i):
    return isinstance(made[n], Register) and i == 2


# ---- readout of display: flags instead of values
@st.composite
def readouts(draw):
    # types of registers are the same in all specifications
    ks = [CLOCK] + draw(st.lists(st.sampled_from(REG34), min_size=1, max_size=5, unique_by=lambda k: ENTRIES[k][0]))
    values = [{3: units(draw)} if n else {} for n in range(len(ks))]
    cols = [draw(column(ks, values)) for _ in range(draw(st.integers(1, 5)))]
    return [draw(st.integers(0, 127)), ks, [sorted(v.items()) for v in values], cols, draw(st.lists(st.lists(st.booleans(), min_size=len(cols), max_size=len(cols)), max_size=3)), draw(st.integers(1, len(cols)))]


def _readout(ctx, case):
    e, ks, values, cols, rows, n = case
    c, made, _ = build(5, ks, values, True)
    p = c.add(CosemClassId(7), cdt.Unsigned(1), cst.LogicalName(bytearray((0, 0, 21, 0, e, 255))))
    ctx.eq(p.__class__.__name__, "SPODES3DisplayReadout", "class")
    flags = lambda rs: arr([b"\x02" + len_enc(len(r)) + b"".join(bytes((3, v)) for v in r) for r in rs])
    ctx.raises(lambda: p.set_attr(2, flags([[1]])), "buffer before capture objects", exc.EmptyObj)
    for part in (cols, cols[:n], cols):
        p.set_attr(3, arr(defs(ks, part)))
        ctx.eq([x.encoding for x in p.capture_objects], defs(ks, part), "capture objects")
        ctx.eq([el.NAME for el in p.buffer.TYPE.ELEMENTS], [". ".join(name_of(made, ks, x)) for x in part], "names of flags")
        ctx.check(all(el.TYPE is cdt.Boolean for el in p.buffer.TYPE.ELEMENTS), "types of flags")
        rs = [r[:len(part)] for r in rows]
        p.set_attr(2, flags(rs))
        for data in (flags([[*r, 1] for r in rs or [[1] * len(part)]]), flags([[1] * (len(part) - 1)])):
            ctx.raises(lambda: p.set_attr(2, data), "entry of another length", ValueError)
        ctx.eq([[v.contents[0] == 1 for v in r] for r in p.buffer], rs, "flags")
        ctx.eq([x.logical_name.contents for x in p.get_buffer_objects()], [bytes(ENTRIES[ks[x[0]]][0]) for x in part], "objects")
        p.clear_attr(3)
    ctx.nt(len(cols) > 1 and len(rows) > 0)


# ---- limits of the selection
def _selector(ctx, case):
    n, entry = case
    c, made, p = build(0, [CLOCK], [{}])
    p.set_attr(6, definition(ENTRIES[CLOCK][0], 8, 2))
    p.set_attr(3, arr([definition(ENTRIES[CLOCK][0], 8, 2)]))
    cls = type(p.buffer.selective_access)
    t = cls.ELEMENTS[0].TYPE
    if n in (1, 2):
        ctx.eq(t(n).contents, bytes([n]), "access selector")
    else:
        ctx.raises(lambda: t(n), f"access selector {n}", ValueError)
    e = cls.ELEMENTS[1].TYPE.ELEMENTS[2].TYPE
    enc = b"\x02\x04\x06" + entry.to_bytes(4, "big") + bytes.fromhex("0600000000120001120000")
    if entry:
        ctx.eq(e(enc).encoding, enc, "entry descriptor")
        d = e()
        d.from_entry.set(entry)
        ctx.eq(d.encoding, enc, "entry descriptor set")
    else:
        ctx.raises(lambda: e(enc), "entries are numbered from 1", ValueError)
        d = e()
        ctx.raises(lambda: d.from_entry.set(0), "entries are numbered from 1", ValueError)
        ctx.eq(int(d.from_entry), 1, "first entry")
    ctx.nt(entry == 0 or n not in (1, 2))


PROF_RULE = "non-trivial: several columns and some entries (buffer), a rejected operation (order), an object was missing (missing), some register has a scaler (scalers), several flags and some entries (readout), something is out of the limits (selector)"
PROP = Prop("C38", rule=PROF_RULE, facets=[
    Facet("buffer", cases(), _buffer, quick=400, thorough=20000),
    Facet("order", orders(), _order, quick=250, thorough=10000),
    Facet("resort", resorts(), _resort, quick=150, thorough=5000),
    Facet("missing", missing(), _missing, quick=150, thorough=5000),
    Facet("nested", st.tuples(layout(), st.integers(0, 4)).map(lambda x: [x[0][0], x[0][1], [sorted(v.items()) for v in x[0][2]], x[0][3], x[0][4], x[1]]), _nested, quick=150, thorough=5000),
    Facet("part", st.nothing(), _part, exhaustive=lambda: iter(structures())),
    Facet("readout", readouts(), _readout, quick=150, thorough=5000),
    Facet("selector", st.nothing(), _selector, exhaustive=lambda: ([n, [0, 1, 2, 0xffffffff][n % 4]] for n in range(256))),
    Facet("scalers", scaler_cases(), _scalers, quick=200, thorough=8000),
], assumptions=["Attributes of a choice are captured with a value set; an entry gives all values (no null-data instead of the previous value)."])
