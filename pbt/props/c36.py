"""activity calendar: season, week, day, action and rate of a moment; tables of the calendar and their references"""
import calendar
import datetime as dt
from hypothesis import strategies as st
from .. import gens as g
from ..core import Prop, Facet
from src.DLMS_SPODES.types import cdt, cst
from src.DLMS_SPODES.types.cosemClassID import CosemClassId
from src.DLMS_SPODES.cosem_interface_classes import collection as col
from src.DLMS_SPODES.cosem_interface_classes import cosem_interface_class as ic
from .c09 import TOP, contents, latest_time, ref_datetime
from .c31 import len_enc

NAMES = ["", "31", "57", "00", "ff", "57696e746572"]
ZERO = bytes(6)


def octets(b):
    return b"\x09" + len_enc(len(b)) + b


def arr(els):
    return b"\x01" + len_enc(len(els)) + b"".join(els)


def enc_day(d):
    """[id, [[time pattern, selector]]]"""
    return b"\x02\x02\x11" + bytes([d[0]]) + arr([b"\x02\x03\x09\x04" + bytes(0xff if v is None else v for v in t) + octets(bytes((0, 0, 10, 0, 100, 255))) + b"\x12" + s.to_bytes(2, "big") for t, s in d[1]])


def enc_week(w):
    """[name, 7 ids]"""
    return b"\x02\x08" + octets(bytes.fromhex(w[0])) + b"".join(b"\x11" + bytes([d]) for d in w[1])


def enc_season(s):
    """[name, [pattern, deviation], week]"""
    return b"\x02\x03" + octets(bytes.fromhex(s[0])) + b"\x09\x0c" + contents(s[1][0], s[1][1]) + octets(bytes.fromhex(s[2]))


def enc_special(e):
    """[index, [y, m, d, w], day id]"""
    y, m, d, w = e[1]
    return b"\x02\x03\x12" + e[0].to_bytes(2, "big") + b"\x09\x05" + (0xffff if y is None else y).to_bytes(2, "big") + bytes(0xff if v is None else v for v in (m, d, w)) + b"\x11" + bytes([e[2]])


def make():
    c = col.Collection()
    for cid, ln in ((8, (0, 0, 1, 0, 0, 255)), (11, (0, 0, 11, 0, 0, 255)), (20, (0, 0, 13, 0, 0, 255))):
        c.add(CosemClassId(cid), cdt.Unsigned(0), cst.LogicalName(bytearray(ln)))
    return c


# ---- the moment
def opt(s, k=2):
    return st.one_of(s, *[st.none()] * k)


@st.composite
def day_pattern(draw, point):
    """[y, m, d, w] near the point, the weekday fits"""
    y = draw(st.sampled_from([None, None, point.year, point.year, point.year - 1, point.year + 1]))
    near = point.date() + dt.timedelta(days=draw(st.sampled_from([0, 0, 0, -1, 1, 7, -30, 100])))
    m = draw(st.sampled_from([None, near.month, near.month, 2]))
    d = draw(st.sampled_from([None, near.day, near.day, 1, 28]))
    if d is not None:
        d = min(d, g._dim(4 if y is None else y, m or 1))
    w = draw(st.sampled_from([None, None, None, near.isoweekday(), 1 + near.isoweekday() % 7]))
    if y and m and d and w is not None:
        w = g.weekday_of(y, m, d)
    return [y, m, d, w]


@st.composite
def time_pattern(draw, p):
    k = draw(st.integers(0, 3))
    if k == 0:
        return [draw(st.integers(0, n)) for n in TOP]
    if k == 1:
        n = draw(st.integers(0, 4))
        return [draw(st.integers(0, x)) for x in TOP[:n]] + [None] * (4 - n)
    if k == 2:
        return [draw(st.one_of(st.just(0), st.integers(0, 23))), draw(st.sampled_from([0, 30])), 0, 0]
    return [min(n, max(0, v + draw(st.integers(-1, 1)))) if draw(st.integers(0, 3)) else None for v, n in zip(p, TOP)]


@st.composite
def cases(draw):
    p = [draw(st.integers(1999, 2030)), draw(st.integers(1, 12))]
    p.append(draw(st.one_of(st.integers(1, g._dim(*p)), st.sampled_from([1, 28, g._dim(*p)]))))
    p += [draw(st.one_of(st.integers(0, n), st.sampled_from([0, n]))) for n in TOP]
    point = dt.datetime(*p[:6], p[6] * 10000)
    ids = draw(st.lists(st.sampled_from([0, 1, 2, 3, 254, 255]), min_size=1, max_size=4, unique=True))
    weeks = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True))
    some = st.sampled_from(ids * 4 + [9])   # 9 is absent
    day = [[i, [[draw(time_pattern(p[3:])), draw(st.integers(0, 65535))] for _ in range(draw(st.integers(0, 4)))]] for i in ids]
    week = [[n, [draw(some) for _ in range(7)]] for n in weeks]
    season = [[n, [draw(day_pattern(point)) + draw(time_pattern(p[3:])), draw(st.sampled_from([None, 0]))], draw(st.sampled_from(weeks * 4 + ["99"]))]
              for n in draw(st.lists(st.sampled_from(NAMES), max_size=4, unique=True))]
    special = [[n, draw(day_pattern(point)), draw(some)] for n in draw(st.lists(st.integers(0, 9), max_size=3, unique=True))]
    if special and draw(st.integers(0, 4)) == 0:   # codes: last and last but one day of month
        special[0][1] = [special[0][1][0], special[0][1][1], draw(st.sampled_from([0xfe, 0xfd])), None]
    return [p, day, week, season, special]


def on(pattern, date):
    y, m, d, w = pattern
    last = calendar.monthrange(date.year, date.month)[1]
    d = last if d == 0xfe else last - 1 if d == 0xfd else d
    return y in (None, date.year) and m in (None, date.month) and d in (None, date.day) and w in (None, date.isoweekday())


def expect(ctx, f, want, msg):
    """want: None if nothing is found"""
    if want is None:
        ctx.raises(f, msg, AttributeError)
        return None
    got = f()
    ctx.check(any(got is w for w in want), f"{msg}: got {got}, expected one of {[str(w) for w in want]}")
    return got


def _current(ctx, case):
    p, day, week, season, special = case
    c = make()
    a, s, clock = c.activity_calendar, c.special_day_table, c.clock
    s.set_attr(2, arr([enc_special(e) for e in special]))
    a.set_attr(5, arr([enc_day(d) for d in day]))
    a.set_attr(4, arr([enc_week(w) for w in week]))
    a.set_attr(3, arr([enc_season(x) for x in season]))
    point = dt.datetime(*p[:6], p[6] * 10000, dt.timezone.utc)
    # the season started last
    left = [ref_datetime(x[1][0], point) for x in season]
    top = max((x for x in left if x is not None), default=None)
    for args in ((point,), ()):     # a given moment does not depend on the clock
        now = point - dt.timedelta(days=100 + p[6] * 2) if args else point
        clock.get_current_time = lambda: now
        got_s = expect(ctx, lambda: a.get_current_season(*args), None if top is None else [a.season_profile_active[i] for i, x in enumerate(left) if x == top], "season")
        i_week = None
        if got_s is not None:
            name = bytes(got_s.week_name.contents).hex()
            i_week = next((i for i, w in enumerate(week) if w[0] == name), None)
        got_w = expect(ctx, lambda: a.get_current_week(*args), None if i_week is None else [a.week_profile_table_active[i_week]], "week")
        sp = next((e[2] for e in special if on(e[1], point.date())), None)
        got_sp = s.get_day_id_of_current_special_day(*args)
        ctx.eq(None if got_sp is None else int(got_sp), sp, "special day")
        day_id = sp if sp is not None else None if i_week is None else week[i_week][1][point.weekday()]
        i_day = next((i for i, d in enumerate(day) if d[0] == day_id), None)
        got_d = expect(ctx, lambda: a.get_current_day(*args), None if i_day is None else [a.day_profile_table_active[i_day]], "day")
    want = None
    if i_day is not None:
        times = [latest_time(t, tuple(p[3:])) for t, _ in day[i_day][1]]
        top = max((t for t in times if t is not None), default=None)
        want = None if top is None else [a.day_profile_table_active[i_day].day_schedule[i] for i, t in enumerate(times) if t == top]
    act = expect(ctx, a.get_current_action, want, "action")
    if act is None:
        ctx.raises(a.get_current_rate, "rate", AttributeError)
    else:
        ctx.eq(a.get_current_rate(), next(x for t, x in [(o, e[1]) for o, e in zip(a.day_profile_table_active[i_day].day_schedule, day[i_day][1])] if t is act), "rate")
    # a table that was not read yet, one after another; what does not need it stays
    if sp is None or len(day) % 2:
        a.clear_attr(5)
        expect(ctx, lambda: a.get_current_week(point), None if i_week is None else [a.week_profile_table_active[i_week]], "week without days")
        for f, what in ((a.get_current_day, "day"), (a.get_current_action, "action"), (a.get_current_rate, "rate")):
            ctx.raises(f, F"{what} without day profiles", (AttributeError, TypeError))
    a.clear_attr(4)
    expect(ctx, lambda: a.get_current_season(point), None if got_s is None else [got_s], "season without weeks")
    ctx.raises(lambda: a.get_current_week(point), "week without week profiles", AttributeError)
    a.clear_attr(3)
    ctx.raises(lambda: a.get_current_season(point), "season without season profiles", AttributeError)
    if sp is None:
        ctx.raises(lambda: a.get_current_day(point), "day without week profiles", AttributeError)
    s.clear_attr(2)
    ctx.raises(lambda: s.get_day_id_of_current_special_day(point), "special day without entries", AttributeError)
    ctx.nt(act is not None)
    ctx.label("special", sp is not None)
    ctx.label("several seasons", len(season) > 1 and sum(x is not None for x in left) > 1)
    ctx.label("no action", act is None and i_day is not None)


MOMENTS = [(y, m, d) for y in (255, 511, 1999, 2000, 2022, 2023, 2024, 2047, 2048, 2100) for m in (2, 3, 4, 12) for d in (1, 27, 28, 29, 30, 31) if d <= g._dim(y, m)]


def _border(ctx, case):
    """special days at ends of months, years of every kind"""
    y, m, d = case
    ctx.nt()
    if d is not None and d <= 31 and d > (g._dim(4 if y is None else y, m) if m is not None else 31):
        return ctx.label("no such day")
    s = make().special_day_table
    try:
        s.set_attr(2, arr([enc_special([7, [y, m, d, None], 3])]))
    except ValueError:
        return ctx.label("refused")
    for t in MOMENTS:
        for w in (None, 1, 7):
            if None in (y, m, d):
                s.entries[0].specialday_date.set(enc_special([7, [y, m, d, w], 3])[5:12])
            elif w is not None:
                continue
            got = s.get_day_id_of_current_special_day(dt.datetime(*t, 12, tzinfo=dt.timezone.utc))
            ctx.eq(None if got is None else int(got), 3 if on([y, m, d, w], dt.date(*t)) else None, F"day of {y}-{m}-{d} weekday {w} at {t}")


# ---- validate
@st.composite
def tables(draw):
    """a consistent calendar: [days, weeks, seasons]"""
    ids = draw(st.lists(st.integers(0, 255), max_size=4, unique=True))
    weeks = draw(st.lists(st.sampled_from(NAMES), max_size=3 if ids else 0, unique=True))
    seasons = draw(st.lists(st.sampled_from(NAMES), max_size=3 if weeks else 0, unique=True))
    return [ids, [[n, [draw(st.sampled_from(ids)) for _ in range(7)]] for n in weeks], [[n, draw(st.sampled_from(weeks))] for n in seasons]]


@st.composite
def validate_cases(draw):
    t = [draw(tables()), draw(tables())]
    ch = draw(st.lists(st.tuples(st.integers(0, 1), st.sampled_from(["day", "weekday", "weekday", "week", "season", "reference", "empty"]), st.integers(0, 9), st.integers(1, 7), st.integers(0, 12)).map(list), max_size=2))
    return [t, ch]


START = [[None, 1, 1, None, 0, 0, 0, 0], None]


def load(a, part, t):
    """part: 0 is active, 1 is passive"""
    a.set_attr(5 + 4 * part, arr([enc_day([i, []]) for i in t[0]]))
    a.set_attr(4 + 4 * part, arr([enc_week(w) for w in t[1]]))
    a.set_attr(3 + 4 * part, arr([enc_season([s[0], START, s[1]]) for s in t[2]]))


def dup(x):
    return len(set(x)) != len(x)


def first_error(t):
    for part in (0, 1):
        ids, weeks, seasons = t[part]
        if dup(ids):
            return 5 + 4 * part
        if dup([w[0] for w in weeks]) or any(d not in ids for w in weeks for d in w[1]):
            return 4 + 4 * part
        if dup([s[0] for s in seasons]) or any(s[1] not in [w[0] for w in weeks] for s in seasons):
            return 3 + 4 * part
    return None


def _validate(ctx, case):
    t, changes = case
    c = make()
    a = c.activity_calendar
    for part in (0, 1):
        load(a, part, t[part])
    ctx.check(a.validate() is None, "consistent calendar")
    for part, what, k, wd, v in changes:
        ids, weeks, seasons = t[part]
        if what == "day" and ids:
            k %= len(ids)
            ids[k] = v if v < 6 else ids[v % len(ids)]
            a.get_attr(5 + 4 * part)[k].day_id.set(ids[k])
        elif what == "empty":
            a.get_attr(5 - k % 3 + 4 * part).clear()
            t[part][k % 3].clear()
        elif what == "weekday" and weeks:
            k %= len(weeks)
            weeks[k][1][wd - 1] = v if v < 6 or not ids else ids[v % len(ids)]
            a.get_attr(4 + 4 * part)[k][wd].set(weeks[k][1][wd - 1])
        elif what == "week" and weeks:
            k %= len(weeks)
            weeks[k][0] = NAMES[v % len(NAMES)]
            a.get_attr(4 + 4 * part)[k].week_profile_name.set(bytearray.fromhex(weeks[k][0]))
        elif what == "season" and seasons:
            k %= len(seasons)
            seasons[k][0] = NAMES[v % len(NAMES)]
            a.get_attr(3 + 4 * part)[k].season_profile_name.set(bytearray.fromhex(seasons[k][0]))
        elif what == "reference" and seasons:
            k %= len(seasons)
            seasons[k][1] = NAMES[v % len(NAMES)]
            a.get_attr(3 + 4 * part)[k].week_name.set(bytearray.fromhex(seasons[k][1]))
    want = first_error(t)
    try:
        a.validate()
        got = None
    except ic.ObjectValidationError as e:
        got = e.i
        ctx.eq(e.ln, a.logical_name, "name in error")
    ctx.eq(got, want, f"attribute of error, tables {t}")
    ctx.nt(want is not None)
    ctx.label("passive", want is not None and want > 5)


# ---- history of the tables
def history_op():
    part, k = st.integers(0, 1), st.integers(0, 2)
    name = st.sampled_from(NAMES + ["02"])
    return st.one_of(
        st.tuples(st.just("new"), part, k), st.tuples(st.just("new"), part, k), st.tuples(st.just("new"), part, k),
        st.tuples(st.just("add"), part, k, st.integers(0, 5), name, name), st.tuples(st.just("add"), part, k, st.integers(0, 5), name, name),
        st.tuples(st.just("remove"), part, k, st.integers(0, 9)), st.tuples(st.just("clear"), part, k),
        st.tuples(st.just("set"), part, k, st.lists(st.tuples(st.integers(0, 5), name, name).map(list), max_size=4)),
        st.tuples(st.just("full"), part, k, st.sets(st.integers(0, 255), max_size=2).map(sorted)),
        st.tuples(st.just("reset"), part, k)).map(list)


def entry(kind, i, n, r):
    """key, rest of an element"""
    return [i, []] if kind == 0 else [n, [i] * 7] if kind == 1 else [n, r]


def enc(kind, e):
    return enc_day([e[0], []]) if kind == 0 else enc_week(e) if kind == 1 else enc_season([e[0], START, e[1]])


def model_new(t, kind):
    """None if it is not possible"""
    have = [e[0] for e in t[kind]]
    i = next((i for i in range(256) if (i if kind == 0 else F"{i:02x}") not in have), None)
    if i is None or (kind and not t[kind - 1]):
        return None
    return [i, []] if kind == 0 else [F"{i:02x}", [t[0][0][0]] * 7] if kind == 1 else [F"{i:02x}", t[1][0][0]]


def look(kind, el):
    if kind == 0:
        return [int(el.day_id), list(el.day_schedule)]
    if kind == 1:
        return [bytes(el.week_profile_name.contents).hex(), [int(x) for x in list(el)[1:]]]
    return [bytes(el.season_profile_name.contents).hex(), bytes(el.week_name.contents).hex()]


def _history(ctx, case):
    c = make()
    a = c.activity_calendar
    model = [[[], [], []], [[], [], []]]
    news = 0
    for op in case:
        name, part, kind = op[:3]
        i = 5 - kind + 4 * part
        t, table = model[part][kind], a.get_attr(i)
        have = [e[0] for e in t]
        if name == "new":
            want = model_new(model[part], kind)
            if want is None:
                ctx.raises(table.append, f"new element in attribute {i}", ValueError)
            else:
                table.append()
                t.append(want)
                news += kind > 0
        elif name == "add":
            e = entry(kind, *op[3:])
            if e[0] in have:
                ctx.raises(lambda: table.append(enc(kind, e)), f"{e} once more", ValueError)
            else:
                table.append(enc(kind, e))
                t.append(e)
        elif name == "remove" and t:
            table.pop(op[3] % len(t))
            t.pop(op[3] % len(t))
        elif name == "clear":
            table.clear()
            t.clear()
        elif name in ("set", "full"):
            es = [entry(kind, *e) for e in op[3]] if name == "set" else [entry(kind, n, F"{n:02x}", "00") for n in range(256) if n not in op[3]]
            if dup([e[0] for e in es]):
                ctx.raises(lambda: a.set_attr(i, arr([enc(kind, e) for e in es])), "repeated name", ValueError)
                ctx.label("repeated")
            else:
                a.set_attr(i, arr([enc(kind, e) for e in es]))
                t[:] = es
        elif name == "reset":
            a.clear_attr(i)
            a.set_attr(i, b"\x01\x00")
            t.clear()
        for q in (0, 1):
            for k in (0, 1, 2):
                ctx.eq([look(k, e) for e in a.get_attr(5 - k + 4 * q)], model[q][k], f"attribute {5 - k + 4 * q} after {op}")
    ctx.nt(news > 0)


# ---- table of special days
def special_op():
    i = st.integers(0, 5)
    return st.one_of(st.tuples(st.just("new")), st.tuples(st.just("add"), i), st.tuples(st.just("add"), i), st.tuples(st.just("change"), i, i), st.tuples(st.just("remove"), i), st.tuples(st.just("set"), st.lists(i, max_size=4)), st.tuples(st.just("delete"), i), st.tuples(st.just("insert"), i)).map(list)


def _special(ctx, case):
    s = make().special_day_table
    model = []
    n = 0
    gone = int(s.delete)
    for op in case:
        table, before = s.entries, list(model)
        if op[0] == "new":
            table.append()
            model.append(next(i for i in range(65536) if i not in model))
        elif op[0] == "add":
            f = lambda: table.append(enc_special([op[1], [None, 1, 1, None], 3]))
            if op[1] in model:
                ctx.raises(f, "index once more", ValueError)
                n += 1
            else:
                f()
                model.append(op[1])
        elif op[0] == "change" and model:
            k = op[1] % len(model)
            if op[2] in model:
                if op[2] != model[k]:
                    ctx.raises(lambda: table[k].index.set(op[2]), "index of another entry", ValueError)
                    n += 1
            else:
                table[k].index.set(op[2])
                model[k] = op[2]
        elif op[0] == "remove" and model:
            table.pop(op[1] % len(model))
            model.pop(op[1] % len(model))
        elif op[0] == "set":
            f = lambda: s.set_attr(2, arr([enc_special([i, [None, 1, 1, None], 3]) for i in op[1]]))
            if dup(op[1]):
                ctx.raises(f, "repeated index", ValueError)
                n += 1
            else:
                f()
                model = list(op[1])
        elif op[0] == "delete":     # parameter of the method: index of an entry which exists
            if op[1] in model:
                s.delete.set(op[1])
                gone = op[1]
            else:
                ctx.raises(lambda: s.delete.set(op[1]), "delete of an absent entry", ValueError)
        elif op[0] == "insert":     # a new entry, or one which replaces the entry with its index
            s.insert.set(enc_special([op[1], [None, 1, 1, None], 3]))
            ctx.eq(s.insert.encoding, enc_special([op[1], [None, 1, 1, None], 3]), "parameter of insert")
        ctx.eq(int(s.delete), gone, "parameter of delete")
        ctx.eq([int(e.index) for e in s.entries], model, f"indexes after {op}")
        ctx.eq(s.entries.get_indexes(), model, "get_indexes")
    ctx.nt(n > 0)


# ---- the clock goes on after it was read
@st.composite
def clock_cases(draw):
    zone = draw(st.one_of(st.none(), st.sampled_from([-720, -60, 0, 180, 345, 720])))
    own = draw(st.one_of(st.none(), st.just(0 if zone is None else zone)))   # of the time
    y, m = draw(st.integers(1990, 2090)), draw(st.integers(1, 12))
    time = [y, m, draw(st.integers(1, g._dim(y, m))), None, *(draw(st.integers(0, n)) for n in TOP)]
    return [time, own, zone, draw(st.one_of(st.none(), st.sampled_from([0, 1, 59, 3600, 86400, 10 ** 7]), st.integers(0, 10 ** 8))), draw(st.sampled_from([None, 0, 60, -300]))]


def _clock(ctx, case):
    time, own, zone, ago, rec_dev = case
    clock = make().clock
    clock.set_attr(2, b"\x09\x0c" + contents(time, own))
    if zone is not None:
        clock.set_attr(3, b"\x10" + zone.to_bytes(2, "big", signed=True))
    if ago is None:
        ctx.raises(clock.get_current_time, "time without the moment of its reading", AttributeError)
        return
    at = dt.datetime.now(dt.timezone.utc) - dt.timedelta(seconds=ago)
    at = at.replace(microsecond=at.microsecond // 10000 * 10000)
    local = at + dt.timedelta(minutes=rec_dev or 0)
    clock.set_record_time(2, b"\x19" + contents([local.year, local.month, local.day, None, local.hour, local.minute, local.second, local.microsecond // 10000], rec_dev))
    if own is None and zone is None:
        ctx.raises(clock.get_current_time, "clock without a time zone", ValueError)
        return
    start = dt.datetime(*time[:3], *time[4:7], time[7] * 10000, dt.timezone(dt.timedelta(minutes=own if zone is None else zone)))
    a = dt.datetime.now(dt.timezone.utc) - at
    got = clock.get_current_time()
    b = dt.datetime.now(dt.timezone.utc) - at
    # the zone of the computer is found from two readings of its clock
    ctx.check(start + a - dt.timedelta(seconds=1) <= got <= start + b + dt.timedelta(seconds=1), f"time {got}, expected {start + a}..{start + b}")
    ctx.eq(got.utcoffset(), start.utcoffset(), "time zone")
    ctx.nt(ago > 0)


PROP = Prop("C36", rule="non-trivial: there is a current action (current), the tables are inconsistent (validate), a new element refers to another table (history), a repeated index was given (special), the clock was read some time ago (clock)", facets=[
    Facet("current", cases(), _current, quick=500, thorough=20000, examples=[
        [[2024, 5, 15, *t], [[0, [[[0, 0, 0, 0], 7]]]], [["", [0] * 7]], [["31", [[None, 1, 1, None, 0, 0, 0, 0], 0], ""]], []] for t in ([0, 0, 0, 0], [12, 0, 0, 0])]),
    Facet("validate", validate_cases(), _validate, quick=400, thorough=20000, examples=[
        [[[[1, 2, 3], [["00", [1] * 7], ["01", [2] * 7], ["02", [3] * 7]], [["00", "00"], ["01", "01"], ["02", "02"]]] for _ in range(2)], [[part, what, 2, 1, v]]]
        for part in (0, 1) for what, v in (("season", 3), ("season", 1), ("week", 3), ("day", 6), ("day", 7), ("reference", 4))]),
    Facet("history", st.tuples(st.sampled_from([[], [["new", 0, 0], ["new", 0, 1]], [["new", 1, 0], ["new", 1, 1]]]), st.lists(history_op(), min_size=3, max_size=12)).map(lambda x: x[0] + x[1]), _history, quick=250, thorough=10000, examples=[[["new", 0, 0], ["new", 0, 1], ["full", 0, k, gone], ["new", 0, k], ["new", 0, k]] for k in range(3) for gone in ([], [7], [0, 255])]),
    Facet("clock", clock_cases(), _clock, quick=200, thorough=5000),
    Facet("border", None, _border, exhaustive=lambda: ([y, m, d] for y in (None, 255, 1999, 2000, 2023, 2024, 2047, 2100) for m in (None, 2, 4, 12) for d in (None, 1, 27, 28, 29, 30, 31, 0xfd, 0xfe))),
    Facet("special", st.lists(special_op(), min_size=2, max_size=12), _special, quick=200, thorough=8000),
], assumptions=["Moments and patterns are in UTC; of two seasons (actions) started at the same moment any may be the current one.", "Codes of daylight saving of a month are not used."])
