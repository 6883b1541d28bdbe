"""nearest moment to the left that matches a date/time pattern"""
import datetime as dt
from hypothesis import strategies as st
from .. import gens as g
from ..core import Prop, Facet
from src.DLMS_SPODES.types import cdt, cst

TOP = (23, 59, 59, 99)


def latest_time(pattern, limit):
    """latest (h, m, s, hundredths) <= limit that matches; None parts are free"""
    def rec(i, tight):
        if i == 4:
            return ()
        hi = limit[i] if tight else TOP[i]
        for v in ([pattern[i]] if pattern[i] is not None else range(hi, -1, -1)):
            if v > hi:
                continue
            r = rec(i + 1, tight and v == limit[i])
            if r is not None:
                return (v,) + r
        return None
    return rec(0, True)


def days_left(point: dt.date, y, m, d, w):
    """matching days in descending order, at most 60 years back"""
    cur = point
    if y is not None:
        if y > point.year:
            return
        if y < point.year:
            cur = dt.date(y, 12, 31)
    stop = dt.date(y, 1, 1) if y is not None else dt.date(max(1, point.year - 60), 1, 1)
    while cur >= stop:
        if m is not None and cur.month != m:
            if cur.month > m:   # jump to the end of month m
                cur = dt.date(cur.year, m + 1, 1) - dt.timedelta(days=1)
            else:
                if cur.year <= stop.year:
                    return
                cur = dt.date(cur.year - 1, 12, 31)
            continue
        if (d is None or cur.day == d) and (w is None or cur.isoweekday() == w):
            yield cur
        if cur == dt.date.min:
            return
        cur -= dt.timedelta(days=1)


def tup(t):
    return (t.hour, t.minute, t.second, t.microsecond // 10000)


def ref_datetime(pat, point):
    y, m, d, w, *tm = pat
    for day in days_left(point.date(), y, m, d, w):
        t = latest_time(tm, tup(point) if day == point.date() else TOP)
        if t is not None:
            return dt.datetime(day.year, day.month, day.day, t[0], t[1], t[2], t[3] * 10000, point.tzinfo)
    return None


def ref_date(pat, point):
    """the day is searched, unspecified parts of the time are zeros"""
    y, m, d, w, *tm = pat
    t = tuple(v or 0 for v in tm)
    for day in days_left(point.date(), y, m, d, w):
        if day < point.date() or t <= tup(point):
            return dt.datetime(day.year, day.month, day.day, t[0], t[1], t[2], t[3] * 10000, point.tzinfo)
    return None


def make(raw):
    def o(v): return None if v == 0xff else v
    y = int.from_bytes(raw[:2], "big")
    return [None if y == 0xffff else y, o(raw[2]), o(raw[3]), o(raw[4]), *map(o, raw[5:9])]


@st.composite
def case(draw):
    y = draw(st.one_of(st.none(), st.none(), st.integers(1995, 2030)))
    m = draw(st.one_of(st.none(), st.integers(1, 12)))
    d = draw(st.one_of(st.none(), st.integers(1, 28), st.integers(28, g._dim(4 if y is None else y, m or 1))))
    if y and m and d:
        w = draw(st.sampled_from([None, g.weekday_of(y, m, d)]))
    else:
        w = draw(st.one_of(st.none(), st.integers(1, 7)))
    # a time pattern: biased to the usual forms (unspecified tail or unspecified head)
    k = draw(st.integers(0, 2))
    tm = [draw(st.integers(0, n)) for n in TOP]
    if k == 0:
        n = draw(st.integers(0, 4))
        tm = tm[:n] + [None] * (4 - n)
    elif k == 1:
        n = draw(st.integers(0, 4))
        tm = [None] * n + tm[n:]
    else:
        tm = [draw(st.sampled_from([v, None])) for v in tm]
    dev = draw(st.sampled_from([None, 0, 180, -720, 720]))
    # the point: near the pattern or anywhere
    py = draw(st.integers(1995, 2031)) if y is None else draw(st.sampled_from([y - 1, y, y, y, y + 1]))
    pm = draw(st.one_of(st.integers(1, 12), st.just(m or 1)))
    pd = draw(st.integers(1, g._dim(py, pm))) if draw(st.booleans()) or not d else min(max(1, d + draw(st.integers(-1, 1))), g._dim(py, pm))
    pt = [draw(st.one_of(st.integers(0, n), st.sampled_from([0, n]))) if v is None else min(n, max(0, v + draw(st.integers(-1, 1)))) for v, n in zip(tm, TOP)]
    return [[y, m, d, w, *tm], dev, [py, pm, pd, *pt]]


def contents(pat, dev):
    y, *rest = pat
    return (0xffff if y is None else y).to_bytes(2, "big") + bytes(0xff if v is None else v for v in rest) + (-0x8000 if dev is None else dev).to_bytes(2, "big", signed=True) + b"\xff"


def search(ctx, c):
    pat, dev, p = c
    tz = dt.timezone.utc if dev is None else dt.timezone(dt.timedelta(minutes=dev))
    point = dt.datetime(*p[:6], p[6] * 10000, tz)
    want_d, want = ref_date(pat, point), ref_datetime(pat, point)
    ctx.nt(want is not None and want != point)
    ctx.label("none", want is None)
    ctx.label("other_day", want is not None and want.date() != point.date())
    for cls in (cdt.DateTime, cst.OctetStringDateTime):
        x = cls(bytearray(contents(pat, dev)))
        ctx.eq(x.get_left_nearest_datetime(point), want, F"{cls.__name__} {x}: datetime left of {point}")
        ctx.eq(x.get_left_nearest_date(point), want_d, F"{cls.__name__} {x}: date left of {point}")


def times(ctx, c):
    pat, _, p = c
    tm = pat[4:]
    limit = tuple(p[3:])
    r = latest_time(tm, limit)
    want = None if r is None else dt.time(r[0], r[1], r[2], r[3] * 10000)
    point = dt.time(p[3], p[4], p[5], p[6] * 10000)
    ctx.nt(want != point)
    ctx.label("none", want is None)
    for cls in (cdt.Time, cst.OctetStringTime):
        x = cls(bytearray(0xff if v is None else v for v in tm))
        ctx.eq(x.get_left_nearest_time(point), want, F"{cls.__name__} {x}: time left of {point}")


PROP = Prop("C09", rule="date/time patterns with any parts unspecified and points near them, against a descending search over days; non-trivial: a moment exists and is not the point itself",
            facets=[Facet("search", case(), search, quick=900, thorough=20000), Facet("times", case(), times, quick=900, thorough=15000)],
            assumptions=["points have the resolution of the type (10 ms) and the time zone of the pattern", "special month/day codes are not searched"])
