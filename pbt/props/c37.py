"""objects that depend on one another: scalers of registers, thresholds of monitored values, permissions of arbitrator, secret of association"""
from hypothesis import strategies as st
from ..core import Prop, Facet
from .. import fill
from src.DLMS_SPODES.types import cdt, cst, choices
from src.DLMS_SPODES.types.cosemClassID import CosemClassId
from src.DLMS_SPODES.cosem_interface_classes import collection as col
from src.DLMS_SPODES import exceptions as exc
from .c31 import len_enc
from .c38 import units, SIMPLE

REG = {1: (0, (0, 0, 96, 13, 1, 255)), 3: (0, (1, 0, 1, 8, 0, 255)), 4: (0, (1, 0, 1, 6, 0, 255)), 5: (0, (1, 0, 1, 4, 0, 255))}
NUM = (b"\x05", b"\x06", b"\x0f", b"\x10", b"\x11", b"\x12", b"\x14", b"\x15", b"\x17", b"\x18")   # digital, floats
LIM, MON, ARB, SCR = (0, 0, 17, 0, 0, 255), (0, 0, 16, 1, 0, 255), (0, 0, 96, 3, 20, 255), (0, 0, 10, 0, 106, 255)


def add(c, cid, ver, ln):
    return c.add(CosemClassId(cid), cdt.Unsigned(ver), cst.LogicalName(bytearray(ln)))


def enc(v):
    return None if v is None else v.encoding.hex()


def arr(els):
    return b"\x01" + len_enc(len(els)) + b"".join(els)


def value_def(cid, ln, i=2):
    return b"\x02\x03\x12" + cid.to_bytes(2, "big") + b"\x09\x06" + bytes(ln) + b"\x0f" + bytes([i])


# ---- registers: value and its scaler
NUMBERS = ["0500000001", "06000000ff", "0ffe", "10ffff", "1107", "120005", "14" + "00" * 7 + "09", "15" + "00" * 8, "173fc00000", "18c000000000000000"]
ANY = [*NUMBERS, "0903616263", "0a026f6b", "1601", "0403a0"]


@st.composite
def histories(draw):
    cid = draw(st.sampled_from([3, 4, 5]))
    vals = [2, 3] if cid == 5 else [2]
    scaler = 4 if cid == 5 else 3
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.integers(0, 5))
        if k < 3:
            ops.append(["set", draw(st.sampled_from(vals)), draw(st.sampled_from(NUMBERS if draw(st.integers(0, 3)) else ANY))])
        elif k == 3:
            ops.append(["set", scaler, units(draw)])
        else:
            ops.append(["clear", draw(st.sampled_from([*vals, scaler])), None])
    return [cid, ops]


def _register(ctx, case):
    cid, ops = case
    c = col.Collection()
    o = add(c, cid, *REG[cid])
    vals = [2, 3] if cid == 5 else [2]
    sc = 4 if cid == 5 else 3
    model = {i: None for i in [*vals, sc]}
    for op, i, h in ops:
        if op == "clear":
            o.clear_attr(i)
            model[i] = None
        else:
            old = model[i]
            wrong = False
            if i != sc:
                other = [model[j] for j in vals if j != i and model[j] is not None]
                wrong = old is None and any(x[:2] != h[:2] for x in other) or old is not None and old[:2] != h[:2]
            try:
                o.set_attr(i, bytes.fromhex(h))
            except Exception as e:
                ctx.check(wrong, f"set {i} {h}: {e!r}")
                ctx.label("rejected")
            else:
                ctx.check(not wrong, f"other type is accepted {i} {h} {model}")
                model[i] = h
        ctx.eq({j: enc(o.get_attr(j)) for j in model}, model, f"after {op} {i}")
        for j in vals:
            v = o.get_attr(j)
            if model[j] is not None and model[j][:2] in {x.hex() for x in NUM}:
                ctx.eq(enc(v.SCALER_UNIT), model[sc], f"scaler of {j} after {op} {i}")
                if model[sc] is not None:
                    ctx.nt(True)


# ---- monitored value
def simple_value(draw, cid):
    h = draw(fill.enc(choices.register if cid in (3, 4, 5) else choices.common_dt)).hex()
    return h if h[:2] not in ("01", "02", "13", "00") else draw(st.sampled_from(NUMBERS))


OTHERS = ["0f00", "1100", "100001", "120001", "0500000001", "0600000001", "0901aa", "1601", "0a0161", "0401" + "80", "0300", "1700000000", "14" + "00" * 8, "15" + "00" * 8]


@st.composite
def monitors(draw):
    cid = draw(st.sampled_from([1, 3, 3, 4, 5]))
    h = simple_value(draw, cid) if draw(st.integers(0, 5)) else None
    def els():
        if h is None or draw(st.integers(0, 3)) == 0:
            x = draw(st.sampled_from(OTHERS))
            return [x] * draw(st.integers(0, 3))
        return [h] * draw(st.integers(0, 3))
    return [cid, h, draw(st.one_of(st.none(), st.just("02020ffd161b"))) if cid != 1 else None, els() if draw(st.booleans()) else None, els(), draw(st.integers(0, 4)) == 0, draw(st.sampled_from([2, 3])) if cid == 5 else 2]


def _monitor(ctx, case):
    """the thresholds of a register monitor have the type of the value"""
    cid, h, su, before, after, absent, ai = case
    c = col.Collection()
    o = add(c, cid, *REG[cid])
    if h is not None:
        o.set_attr(ai, bytes.fromhex(h))
    if su is not None:
        o.set_attr(4 if cid == 5 else 3, bytes.fromhex(su))
    m = add(c, 21, 0, MON)
    have, typ = [], None
    if before is not None:
        m.set_attr(2, arr([bytes.fromhex(x) for x in before]))
        have = before
    if absent:
        ctx.raises(lambda: m.set_attr(3, value_def(3, (1, 0, 77, 8, 0, 255))), "absent object", exc.NoObject)
    else:
        m.set_attr(3, value_def(cid, REG[cid][1], ai))
        ctx.eq(enc(m.monitored_value), value_def(cid, REG[cid][1], ai).hex(), "monitored value")
        if h is not None:
            typ = h[:2]
            if any(x[:2] != typ for x in have):
                have = []
    ctx.eq([enc(x) for x in m.thresholds], have, "thresholds with the monitored value")
    f = lambda: m.set_attr(2, arr([bytes.fromhex(x) for x in after]))
    if typ is not None and any(x[:2] != typ for x in after):
        ctx.raises(f, "threshold of other type", Exception)
        ctx.label("rejected")
        ctx.nt(True)
    else:
        f()
        have = after
    ctx.eq([enc(x) for x in m.thresholds], have, "thresholds after set")
    if h is not None and not absent:
        ctx.check(all(isinstance(x, o.get_attr(ai).__class__) for x in m.thresholds), "class of thresholds")
        ctx.nt(len(have) > 0)


@st.composite
def limits(draw):
    cid = draw(st.sampled_from([1, 3, 3, 4, 5]))
    h = simple_value(draw, cid) if draw(st.integers(0, 5)) else None
    su = draw(st.one_of(st.none(), st.just("02020ffd161b"))) if cid != 1 else None
    sets = [[draw(st.integers(3, 5)), h if h is not None and draw(st.booleans()) else draw(st.sampled_from(OTHERS))] for _ in range(draw(st.integers(0, 4)))]
    return [cid, h, su, [[draw(st.integers(3, 5)), draw(st.sampled_from(OTHERS))] for _ in range(draw(st.integers(0, 2)))], sets, draw(st.integers(0, 5)) == 0, draw(st.sampled_from([2, 3])) if cid == 5 else 2]


def _limiter(ctx, case):
    cid, h, su, before, sets, absent, ai = case
    c = col.Collection()
    o = add(c, cid, *REG[cid])
    if h is not None:
        o.set_attr(ai, bytes.fromhex(h))
    if su is not None:
        o.set_attr(4 if cid == 5 else 3, bytes.fromhex(su))
    m = add(c, 71, 0, LIM)
    for i, x in before:
        ctx.raises(lambda: m.set_attr(i, bytes.fromhex(x)), "threshold before monitored value", exc.EmptyObj)
        ctx.check(m.get_attr(i) is None, "rejected threshold")
    if absent:
        ctx.raises(lambda: m.set_attr(2, value_def(3, (1, 0, 77, 8, 0, 255))), "absent object", exc.NoObject)
        return
    f = lambda: m.set_attr(2, value_def(cid, REG[cid][1], ai))
    if h is None:
        ctx.raises(f, "empty value", exc.EmptyObj)
        ctx.check(all(m.get_attr(i) is None for i in (3, 4, 5)), "thresholds of empty value")
        ctx.label("empty")
        return
    f()
    empty = type(o.get_attr(ai))()
    model = {}
    for i in (3, 4, 5):
        ctx.eq(m.get_attr(i).encoding[:1].hex(), h[:2], f"type of threshold {i}")
        ctx.check(m.get_attr(i) is not o.get_attr(ai), "threshold is an own value")
        model[i] = enc(m.get_attr(i))
        if cid in (3, 4) and bytes.fromhex(h[:2]) in NUM:
            ctx.eq(enc(m.get_attr(i).SCALER_UNIT), su, f"scaler of threshold {i}")
    ctx.eq(len(set(model.values())), 1, "equal initial thresholds")
    if bytes.fromhex(h[:2]) in NUM:
        ctx.eq(model[3], enc(empty), "initial threshold")
    for i, x in sets:
        g = lambda: m.set_attr(i, bytes.fromhex(x))
        if x[:2] == h[:2]:
            g()
            model[i] = x
            ctx.nt(True)
        else:
            ctx.raises(g, f"threshold {i} of other type {x}", Exception)
            ctx.label("rejected")
        ctx.eq({j: enc(m.get_attr(j)) for j in model}, model, f"after set {i}")
    ctx.eq(enc(o.get_attr(ai)), h, "monitored value is not touched")


# ---- another value becomes the monitored one
@st.composite
def changes(draw):
    values = [[draw(st.sampled_from([1, 3, 4])), draw(st.none() | st.sampled_from(NUMBERS + ["1601", "0401" + "80"])), draw(st.sampled_from([None, "02020ffd161b", "02020f02161e"]))] for _ in range(3)]
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        k = draw(st.integers(0, 5))
        ops.append(["monitor", draw(st.integers(0, 2))] if k < 3 else ["threshold", draw(st.integers(3, 5)), draw(st.sampled_from(NUMBERS + ["1601"]))] if k < 5
                   else ["value", draw(st.integers(0, 2)), draw(st.sampled_from(NUMBERS))])
    return [values, ops]


def _change(ctx, case):
    values, ops = case
    values = [list(v) for v in values]
    c = col.Collection()
    made = []
    for n, (cid, h, su) in enumerate(values):
        ln = ((0, 0, 96, 13, 1 + n, 255) if cid == 1 else (1, 0, 1, 8 if cid == 3 else 6, n, 255))
        o = add(c, cid, 0, ln)
        made.append((o, cid, ln))
        if h is not None:
            o.set_attr(2, bytes.fromhex(h))
        if su is not None and cid != 1:
            o.set_attr(3, bytes.fromhex(su))
    lim = add(c, 71, 0, LIM)
    mon = add(c, 21, 0, MON)
    have, typ = [], None        # thresholds of the monitor, their type
    model, now = {3: None, 4: None, 5: None}, None      # encodings of thresholds
    n_changes = 0
    for op in ops:
        if op[0] == "monitor":
            o, cid, ln = made[op[1]]
            f = lambda: lim.set_attr(2, value_def(cid, ln))
            h = values[op[1]][1]
            now = op[1]
            if h is None:
                ctx.raises(f, "empty value", exc.EmptyObj)
            else:
                f()
                for i in model:
                    v = lim.get_attr(i)
                    ctx.eq(v.encoding[:1].hex(), h[:2], f"type of threshold {i}")
                    if model[i] is not None and model[i][:2] == h[:2]:
                        ctx.eq(enc(v), model[i], f"threshold {i} of the same type is kept")
                    elif h[:2] in {x.hex() for x in NUM}:
                        ctx.eq(enc(v), enc(type(o.get_attr(2))()), f"new threshold {i}")
                    model[i] = enc(v)
                    if h[:2] in {x.hex() for x in NUM}:
                        ctx.eq(enc(v.SCALER_UNIT), None if cid == 1 else values[op[1]][2], f"scaler of threshold {i}")
                n_changes += 1
            ctx.eq(enc(lim.monitored_value), value_def(cid, ln).hex(), "monitored value")
            mon.set_attr(3, value_def(cid, ln))
            ctx.eq(enc(mon.monitored_value), value_def(cid, ln).hex(), "monitored value of monitor")
            if h is not None:
                if any(x[:2] != h[:2] for x in have):
                    have = []
                typ = h[:2]
                ctx.check(all(isinstance(x, o.get_attr(2).__class__) for x in mon.thresholds), "class of thresholds")
        elif op[0] == "threshold":
            f = lambda: lim.set_attr(op[1], bytes.fromhex(op[2]))
            if now is None:
                ctx.raises(f, "threshold before monitored value", exc.EmptyObj)
            elif model[op[1]] is not None and model[op[1]][:2] != op[2][:2]:
                ctx.raises(f, "threshold of other type", Exception)
            else:
                f()
                model[op[1]] = op[2]
            f = lambda: mon.set_attr(2, arr([bytes.fromhex(op[2])] * 2))
            if typ is not None and typ != op[2][:2]:
                ctx.raises(f, "threshold of other type in monitor", Exception)
            else:
                f()
                have = [op[2]] * 2
        elif values[op[1]][1] is None:
            made[op[1]][0].set_attr(2, bytes.fromhex(op[2]))
            values[op[1]][1] = op[2]
        ctx.eq({i: enc(lim.get_attr(i)) for i in model}, model, f"thresholds after {op}")
        ctx.eq([enc(x) for x in mon.thresholds], have, f"thresholds of monitor after {op}")
    ctx.nt(n_changes > 1)


# ---- arbitrator
def bits(s):
    n = len(s)
    return b"\x04" + len_enc(n) + int(s + "0" * (-n % 8), 2).to_bytes((n + 7) // 8, "big") if n else b"\x04\x00"


@st.composite
def arbiters(draw):
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        if draw(st.booleans()):
            ops.append(["actions", draw(st.lists(st.integers(1, 4), max_size=10))])
        else:
            n = draw(st.integers(0, 10))
            ops.append(["permissions", draw(st.lists(st.one_of(st.text("01", min_size=n, max_size=n), st.text("01", max_size=17)), max_size=5))])
    return [ops, draw(st.lists(st.lists(st.sampled_from(sorted(ACTIONS)), min_size=1, max_size=3), min_size=4, max_size=4)), draw(st.lists(st.integers(0, 9), min_size=4, max_size=4, unique=True))]


# what a script does: service, class, name, index: name of the attribute or method
ACTIONS = {"disconnect": (2, 70, (0, 0, 96, 3, 10, 255), 1, "remote_disconnect"), "reconnect": (2, 70, (0, 0, 96, 3, 10, 255), 2, "remote_reconnect"),
           "mode": (1, 70, (0, 0, 96, 3, 10, 255), 4, "control_mode"), "time": (1, 8, (0, 0, 1, 0, 0, 255), 2, "time"), "adjust": (2, 8, (0, 0, 1, 0, 0, 255), 1, "adjust_to_quarter"),
           **{f"clock{i}": (2, 8, (0, 0, 1, 0, 0, 255), i, "") for i in range(2, 7)}, **{f"clock_{i}": (1, 8, (0, 0, 1, 0, 0, 255), i, "") for i in (3, 8, 9)}}


@st.composite
def script_tables(draw):
    """actions of scripts, some of a class that is not the one of the object"""
    return [draw(st.lists(st.tuples(st.sampled_from(sorted(ACTIONS)), st.sampled_from([0] * 6 + [-60, -1, 1, 2, 62, 256])).map(list), min_size=1, max_size=4)) for _ in range(draw(st.integers(1, 4)))]


def _names(ctx, case):
    """names of a script are those of its actions, a script with an action of another class is rejected"""
    c = col.Collection()
    add(c, 70, 0, (0, 0, 96, 3, 10, 255))
    add(c, 8, 0, (0, 0, 1, 0, 0, 255))
    s = add(c, 9, 0, SCR)
    s.set_attr(2, arr([b"\x02\x02\x12\x00" + bytes([n + 1]) + arr([b"\x02\x05\x16" + bytes([ACTIONS[a][0]]) + b"\x12" + (max(0, ACTIONS[a][1] + d)).to_bytes(2, "big") + b"\x09\x06" + bytes(ACTIONS[a][2]) + b"\x0f" + bytes([ACTIONS[a][3]]) + b"\x00" for a, d in acts])
                       for n, acts in enumerate(case)]))
    for n, acts in enumerate(case):
        f = lambda: c.get_script_names(cst.LogicalName(bytearray(SCR)), cdt.LongUnsigned(n + 1))
        if any(d for _, d in acts):
            ctx.raises(f, "action of other class", ValueError)
            ctx.label("rejected")
            continue
        want = []
        for a, _ in acts:
            service, _, ln, i, _ = ACTIONS[a]
            o = c.get_object(bytes(ln))
            want.append(str((o.M_ELEMENTS[i - 1]) if service == 2 else o.A_ELEMENTS[i - 2]))
        ctx.eq(f(), ", ".join(want), "names")
        ctx.nt(True)
        ctx.raises(lambda: c.get_script_names(cst.LogicalName(bytearray(ACTIONS[acts[0][0]][2])), cdt.LongUnsigned(n + 1)), "script of an object of other class", ValueError)


def _arbiter(ctx, case):
    ops, scripts, ids = case      # ids: identifiers of the scripts, in any order
    c = col.Collection()
    add(c, 70, 0, (0, 0, 96, 3, 10, 255))
    add(c, 8, 0, (0, 0, 1, 0, 0, 255))
    s = add(c, 9, 0, SCR)
    s.set_attr(2, arr([b"\x02\x02\x12\x00" + bytes([n]) + arr([b"\x02\x05\x16" + bytes([ACTIONS[a][0]]) + b"\x12\x00" + bytes([ACTIONS[a][1]]) + b"\x09\x06" + bytes(ACTIONS[a][2]) + b"\x0f" + bytes([ACTIONS[a][3]]) + b"\x00" for a in acts])
                       for n, acts in zip(ids, scripts)]))
    a = add(c, 68, 0, ARB)
    acts, perm = [], []

    def script_name(n):
        ret = []
        for t in scripts[n]:
            service, _, ln, i, _ = ACTIONS[t]
            ret.append(str((c.get_object(bytes(ln)).get_meth_element if service == 2 else c.get_object(bytes(ln)).get_attr_element)(i)))
        return ", ".join(ret)

    for op, x in ops:
        if op == "actions":
            a.set_attr(2, arr([b"\x02\x02\x09\x06" + bytes(SCR) + b"\x12\x00" + bytes([ids[n - 1]]) for n in x]))
            acts = x
            if any(len(p) != len(acts) for p in perm):
                ctx.nt(True)
            perm = [p if len(p) == len(acts) else "0" * len(acts) for p in perm]
        else:
            a.set_attr(3, arr([bits(p) for p in x]))
            perm = x
        ctx.eq([int(el.script_selector) for el in a.actions], [ids[n - 1] for n in acts], "actions")
        ctx.eq([enc(p) for p in a.permissions_table], [bits(p).hex() for p in perm], f"permissions after {op}")
        names = a.get_action_names()
        ctx.eq(names, [script_name(n - 1) for n in acts], "names of actions")
    for n in range(11):
        f = lambda: c.get_script_names(cst.LogicalName(bytearray(SCR)), cdt.LongUnsigned(n))
        if n not in ids:
            ctx.raises(f, "absent script", ValueError)
        else:
            ctx.eq(f(), script_name(ids.index(n)), "names of script")


PROP = Prop("C37", rule="non-trivial: a number with a scaler (register), a threshold of the monitored type or a rejected one (monitor, limiter), changed length of permissions (arbitrator), two settings of the monitored value (change), a script with names (scripts)", facets=[
    Facet("register", histories(), _register, quick=600, thorough=30000),
    Facet("monitor", monitors(), _monitor, quick=500, thorough=20000),
    Facet("limiter", limits(), _limiter, quick=500, thorough=20000),
    Facet("change", changes(), _change, quick=300, thorough=12000),
    Facet("scripts", script_tables(), _names, quick=250, thorough=10000),
    Facet("arbitrator", arbiters(), _arbiter, quick=250, thorough=10000),
], assumptions=["The monitored value is set once (a second set does not change the type of thresholds).", "Scalers of thresholds are judged for registers and extended registers with numbers."])
