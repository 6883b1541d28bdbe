"""date/time: validity of contents, python conversions, field access and change"""
import datetime as dt
from hypothesis import strategies as st
from .. import gens as g
from ..core import Prop, Facet
from src.DLMS_SPODES.types import cdt, cst


def valid_date(raw: bytes) -> bool:
    y, m, d, w = int.from_bytes(raw[:2], "big"), raw[2], raw[3], raw[4]
    if not (y == 0xffff or 1 <= y <= 9999):
        return False
    if not (1 <= m <= 12 or m >= 0xfd):
        return False
    mm = 1 if m >= 0xfd else m
    if d < 0xfd and not 1 <= d <= g._dim(4 if y == 0xffff else y, mm):
        return False
    if not (w == 0xff or 1 <= w <= 7):
        return False
    if y != 0xffff and m < 0xfd and d < 0xfd and w != 0xff:
        return g.weekday_of(y, m, d) == w
    return True


def valid_time(raw: bytes) -> bool:
    return all(v == 0xff or v < lim for v, lim in zip(raw, (24, 60, 60, 100)))


@st.composite
def raw_case(draw):
    """valid contents with up to two octets replaced"""
    t = draw(st.sampled_from(["date", "time", "datetime"]))
    raw = bytearray(draw({"date": g.date_octets(), "time": g.time_octets(), "datetime": g.datetime_octets()}[t]))
    for _ in range(draw(st.integers(0, 2))):
        i = draw(st.integers(0, min(len(raw), 9) - 1))
        raw[i] = draw(st.one_of(st.integers(0, 255), st.sampled_from([0, 1, 2, 12, 13, 23, 24, 28, 29, 30, 31, 32, 59, 60, 99, 100, 0xe0, 0xfc, 0xfd, 0xfe, 0xff])))
    return [t, bytes(raw).hex()]


def validity(ctx, case):
    t, hx = case
    raw = bytes.fromhex(hx)
    ok = {"date": valid_date, "time": valid_time, "datetime": lambda r: valid_date(r[:5]) and valid_time(r[5:9])}[t](raw)
    ctx.label("valid" if ok else "invalid")
    ctx.nt()
    tag = {"date": b"\x1a", "time": b"\x1b", "datetime": b"\x19"}[t]
    c1, c2 = {"date": (cdt.Date, cst.OctetStringDate), "time": (cdt.Time, cst.OctetStringTime), "datetime": (cdt.DateTime, cst.OctetStringDateTime)}[t]
    for cls, arg in ((c1, tag + raw), (c1, bytearray(raw)), (c2, bytes((9, len(raw))) + raw), (c2, bytearray(raw))):
        if ok:
            x = cls(arg)
            ctx.eq(x.contents, raw, "contents")
            fields(ctx, t, raw, x)
        else:
            ctx.raises(lambda: cls(arg), F"{cls.__name__} from {hx}")


YEARS = (0, 1, 4, 100, 400, 1900, 2000, 2023, 2024, 2100, 9996, 9999, 10000, 0xff00, 0xff04, 0xfffe, 0xffff)


def borders():
    """all days of months near their ends in years of every kind, and every octet of a time around its limit"""
    for y in YEARS:
        for m in (*range(0, 14), 0xfc, 0xfd, 0xfe, 0xff):
            yield [y, m]
    for i, lim in enumerate((24, 60, 60, 100)):
        yield [i, lim, "time"]


def border(ctx, case):
    ctx.nt()
    if len(case) == 3:
        i, lim, _ = case
        for v in (0, lim - 1, lim, lim + 1, 127, 128, 0xfc, 0xfd, 0xfe, 0xff):
            raw = bytearray(b"\x00" * 4)
            raw[i] = v
            validity(ctx, ["time", raw.hex()])
            raw = bytearray(b"\xff" * 4)
            raw[i] = v
            validity(ctx, ["time", raw.hex()])
            validity(ctx, ["datetime", (b"\xff" * 5 + raw + b"\x80\x00\xff").hex()])
        return
    y, m = case
    for d in (0, 1, 27, 28, 29, 30, 31, 32, 0xe0, 0xfc, 0xfd, 0xfe, 0xff):
        for w in (0xff, 0, 1, 7, 8) if d in (29, 0xff) else (0xff,):
            raw = y.to_bytes(2, "big") + bytes((m, d, w))
            validity(ctx, ["date", raw.hex()])
        if 1 <= y <= 9999 and 1 <= m <= 12 and 1 <= d <= g._dim(y, m):
            for w in range(1, 8):
                validity(ctx, ["date", (raw[:4] + bytes((w,))).hex()])
        validity(ctx, ["datetime", (raw[:4] + b"\xff" * 5 + b"\x80\x00\xff").hex()])


def fields(ctx, t, raw, x):
    def opt(v): return None if v == 0xff else v
    if t != "time":
        y = int.from_bytes(raw[:2], "big")
        ctx.eq(x.year, None if y == 0xffff else y, "year")
        if raw[2] not in (0xfd, 0xfe):
            ctx.eq(x.month, opt(raw[2]), "month")
        if raw[3] not in (0xfd, 0xfe):
            ctx.eq(x.day, opt(raw[3]), "day")
        ctx.eq(x.weekday, opt(raw[4]), "weekday")
    if t != "date":
        r = raw if t == "time" else raw[5:9]
        ctx.eq([x.hour, x.minute, x.second, x.hundredths], [opt(v) for v in r], "hour, minute, second, hundredths")
    if t == "datetime":
        dev = int.from_bytes(raw[9:11], "big", signed=True)
        ctx.eq(x.time_zone, None if dev == -0x8000 else dt.timezone(dt.timedelta(minutes=dev)), "time zone")


@st.composite
def pydt(draw):
    d = draw(st.datetimes(min_value=dt.datetime(1, 1, 1), max_value=dt.datetime(9999, 12, 31, 23, 59, 59, 999999)))
    off = draw(st.one_of(st.none(), st.integers(-720, 720)))
    return [d.isoformat(), off]


def conversions(ctx, case):
    iso, off = case
    d = dt.datetime.fromisoformat(iso)
    tz = None if off is None else dt.timezone(dt.timedelta(minutes=off))
    ctx.nt(off not in (None, 0))
    aware = d.replace(tzinfo=tz)
    cut = d.replace(microsecond=d.microsecond // 10000 * 10000)
    w = d.isoweekday()
    raw_d = d.year.to_bytes(2, "big") + bytes((d.month, d.day))
    raw_t = bytes((d.hour, d.minute, d.second, d.microsecond // 10000))
    dev = (-0x8000 if off is None else off).to_bytes(2, "big", signed=True)
    for cls in (cdt.DateTime, cst.OctetStringDateTime):
        x = cls(aware)
        ctx.eq(x.contents, raw_d + b"\xff" + raw_t + dev + b"\xff", F"{cls.__name__} from {aware}")
        want = cut.replace(tzinfo=dt.timezone.utc if tz is None else tz)
        ctx.eq(x.decode(), want, "decode of datetime")
        ctx.eq(x.decode().utcoffset(), want.utcoffset(), "offset of decoded datetime")
        ctx.eq(cls(d.date()).contents, raw_d + bytes((w,)) + b"\xff" * 4 + b"\x80\x00\xff", "DateTime from date")
        ctx.eq(cls(d.time()).contents, b"\xff" * 5 + raw_t + b"\x80\x00\xff", "DateTime from time")
        y = cls()
        y.set(aware)
        ctx.eq(y.contents, x.contents, "set to datetime")
    for cls in (cdt.Date, cst.OctetStringDate):
        for arg in (d, d.date()):
            x = cls(arg)
            ctx.eq(x.contents, raw_d + bytes((w,)), F"{cls.__name__} from {arg!r}")
            ctx.eq(x.decode(), d.date(), "decode of date")
    for cls in (cdt.Time, cst.OctetStringTime):
        for arg in (d, d.time()):
            x = cls(arg)
            ctx.eq(x.contents, raw_t, F"{cls.__name__} from {arg!r}")
            ctx.eq(x.decode(), cut.time(), "decode of time")


def decode_contents(ctx, case):
    """python value of valid contents: unspecified parts are the smallest ones"""
    t, hx = case
    raw = bytes.fromhex(hx)
    ctx.nt(0xff in raw)
    def low(v, codes, dflt): return dflt if v in codes else v
    if t != "time":
        y = int.from_bytes(raw[:2], "big")
        if y == 0xffff and raw[2] == 2 and raw[3] == 29:
            return
        d = dt.date(1 if y == 0xffff else y, low(raw[2], (0xfd, 0xfe, 0xff), 1), low(raw[3], (0xfd, 0xfe, 0xff), 1))
    if t != "date":
        r = [low(v, (0xff,), 0) for v in (raw if t == "time" else raw[5:9])]
        tm = dt.time(r[0], r[1], r[2], r[3] * 10000)
    if t == "date":
        ctx.eq((cdt.Date(bytearray(raw)).decode(), cst.OctetStringDate(bytearray(raw)).decode()), (d, d), "date")
    elif t == "time":
        ctx.eq((cdt.Time(bytearray(raw)).decode(), cst.OctetStringTime(bytearray(raw)).decode()), (tm, tm), "time")
    else:
        dev = int.from_bytes(raw[9:11], "big", signed=True)
        tz = dt.timezone.utc if dev == -0x8000 else dt.timezone(dt.timedelta(minutes=dev))
        for cls in (cdt.DateTime, cst.OctetStringDateTime):
            got = cls(bytearray(raw)).decode()
            ctx.eq((got.replace(tzinfo=None), got.utcoffset()), (dt.datetime.combine(d, tm), tz.utcoffset(None)), "datetime")


LIMITS = {"set_year": (1, 9999, 0xffff), "set_month": (1, 12, 0xff), "set_day": (1, 31, 0xff), "set_weekday": (1, 7, 0xff), "set_hour": (0, 23, 0xff), "set_minute": (0, 59, 0xff),
          "set_hundredths": (0, 99, 0xff)}
OFFS = {"set_year": 0, "set_month": 2, "set_day": 3, "set_weekday": 4, "set_hour": 5, "set_minute": 6, "set_hundredths": 8}


def setters(ctx, case):
    t, hx, ops = case
    raw = bytearray.fromhex(hx)
    cls = {"date": cdt.Date, "time": cdt.Time, "datetime": cdt.DateTime}[t]
    x = cls(bytearray(raw))
    ctx.nt(len(ops) > 1)
    for name, v in ops:
        if name == "set_clock_status":
            if t == "datetime":
                x.set_clock_status(v & 0xff)
                raw[11] = v & 0xff
                ctx.eq(x.contents, bytes(raw), "clock status")
            continue
        off = OFFS[name]
        if (t == "time" and off < 5) or (t == "date" and off >= 5):
            continue
        if t == "time":
            off -= 5
        lo, hi, unspec = LIMITS[name]
        new = bytearray(raw)
        ok = lo <= v <= hi or v == unspec
        if ok:
            if name == "set_year":
                new[0:2] = v.to_bytes(2, "big")
            else:
                new[off] = v
            if t != "time":
                ok = valid_date(bytes(new[:5]))
        if ok:
            getattr(x, name)(v)
            raw = new
            ctx.label("accepted")
        else:
            ctx.raises(lambda: getattr(x, name)(v), F"{name}({v}) of {bytes(raw).hex()}")
            ctx.label("rejected")
        ctx.eq(x.contents, bytes(raw), F"contents after {name}({v})")


kinds = st.one_of(g.datetime_octets().map(lambda b: ["datetime", b.hex()]), g.date_octets().map(lambda b: ["date", b.hex()]), g.time_octets().map(lambda b: ["time", b.hex()]))
ops = st.lists(st.one_of(*[st.tuples(st.just(n), st.one_of(st.integers(lo, hi), st.sampled_from([lo, lo - 1, hi, hi + 1, u, 0, 1, 29, 31]))) for n, (lo, hi, u) in LIMITS.items()],
                         st.tuples(st.just("set_clock_status"), st.integers(0, 255))), min_size=3, max_size=9)
EDGES = [[t, h, [[n, v]]] for t, h in (("datetime", "07e80105ff0a141e28003c00"), ("datetime", "ffffffffffffffffff800000"), ("date", "07e80105ff"), ("date", "ffffffffff"), ("time", "0a141e28"), ("time", "ffffffff"))
         for n, (lo, hi, u) in LIMITS.items() for v in (lo - 1, lo, hi, hi + 1, u, u - 1)]
PROP = Prop("C08", rule="valid contents with up to two octets replaced against an independent validity rule; random datetimes 0001..9999 with offsets; histories of field setters; "
            "non-trivial: every judged contents / an offset / more than one setter",
            facets=[
                Facet("validity", raw_case(), validity, quick=3500, thorough=60000),
                Facet("border", None, border, quick=400, thorough=400, exhaustive=borders),
                Facet("conversions", pydt(), conversions, quick=1000, thorough=15000),
                Facet("decode_contents", kinds, decode_contents, quick=1500, thorough=15000),
                Facet("setters", st.tuples(kinds, ops).map(lambda c: [c[0][0], c[0][1], c[1]]), setters, quick=1500, thorough=15000, examples=EDGES),
            ], assumptions=["29 February without a year has no python date", "offsets are whole minutes within -720..720", "the deviation octets are not validated at decoding"])
