"""text of date and time values"""
import datetime
from hypothesis import strategies as st
from .. import gens as g
from ..core import Prop, Facet
from src.DLMS_SPODES.types import cdt, cst

PAIRS = {"datetime": ("DateTime", "OctetStringDateTime"), "date": ("Date", "OctetStringDate"), "time": ("Time", "OctetStringTime")}


def classes(t):
    return getattr(cdt, PAIRS[t][0]), getattr(cst, PAIRS[t][1])


def round_trip(ctx, case):
    t, hx = case
    raw = bytes.fromhex(hx)
    want = raw[:11] + b"\xff" if t == "datetime" else raw
    ctx.nt(0xff in raw[:11])
    ctx.label("month_code", t != "time" and raw[2] in (0xfd, 0xfe))
    ctx.label("day_code", t != "time" and raw[3] in (0xfd, 0xfe))
    for cls in classes(t):
        x = cls(bytearray(raw))
        text = str(x)
        ctx.eq(cls(text).contents, want, F"{cls.__name__} from own text {text!r}")
        y = cls()
        y.set(text)
        ctx.eq(y.contents, want, F"set to {text!r}")


WD = {1: ["по", "пон", "понедельник", "mo", "mon", "monday"], 2: ["вт", "вто", "вторник", "tu", "tue", "tuesday"], 3: ["ср", "сре", "среда", "we", "wed", "wednesday"],
      4: ["чт", "чет", "четверг", "th", "thu", "thursday"], 5: ["пт", "пят", "пятница", "fr", "fri", "friday"], 6: ["сб", "суб", "суббота", "sa", "sat", "saturday"],
      7: ["вс", "вос", "воскресенье", "su", "sun", "sunday"]}


@st.composite
def date_text(draw):
    """(text, expected octets) by the documented formats: d | w | d.m | d.m.Y | d.m-w | w-d.m | d.m.Y-w | w-d.m.Y"""
    fmt = draw(st.sampled_from(["d", "w", "d.m", "d.m.Y", "d.m-w", "w-d.m", "d.m.Y-w", "w-d.m.Y"]))
    raw = bytearray(draw(g.date_octets()))
    if "Y" not in fmt:
        raw[0:2] = b"\xff\xff"
    if "m" not in fmt:
        raw[2] = 0xff
    if "d" not in fmt:
        raw[3] = 0xff
    if "w" not in fmt:
        raw[4] = 0xff
    y = int.from_bytes(raw[:2], "big")
    ys = draw(st.sampled_from(["", "_", "__", "____"])) if y == 0xffff else draw(st.sampled_from(
        [str(y).zfill(4)] + ([str(y)] if y > 99 else []) + ([str(y - 2000)] if 2000 <= y <= 2099 else [])))
    ms = draw(st.sampled_from(["", "_", "__"])) if raw[2] == 0xff else {0xfe: "begin", 0xfd: "end"}.get(raw[2]) or draw(st.sampled_from([str(raw[2]), str(raw[2]).zfill(2)]))
    if fmt == "d" and raw[3] >= 0xfd:
        raw[3] = 5
    ds = draw(st.sampled_from(["", "_", "__"])) if raw[3] == 0xff else {0xfe: "last", 0xfd: "penult"}.get(raw[3]) or draw(st.sampled_from([str(raw[3]), str(raw[3]).zfill(2)]))
    if raw[4] == 0xff:
        ws = draw(st.sampled_from(["", "_", "__"])) if fmt != "w" else draw(st.sampled_from(["", "_", "__"]))
    else:
        names = WD[raw[4]]
        ws = draw(st.sampled_from(names + [names[-1].title(), names[0].upper()] + ([str(raw[4])] if fmt != "w" else [])))
    text = "".join({"d": ds, "m": ms, "Y": ys, "w": ws}.get(c, c) for c in fmt)
    return [text, bytes(raw).hex()]


@st.composite
def time_text(draw):
    fmt = draw(st.sampled_from(["H", "H:M", "S.f", "H:M:S", "M:S.f", "H:M:S.f"]))
    raw = bytearray(draw(g.time_octets()))
    out = {}
    for i, c in enumerate("HMSf"):
        if c not in fmt:
            raw[i] = 0xff
        out[c] = draw(st.sampled_from(["", "_", "__"])) if raw[i] == 0xff else draw(st.sampled_from([str(raw[i]), str(raw[i]).zfill(2)]))
    return ["".join(out.get(c, c) for c in fmt), bytes(raw).hex()]


def parse_date(ctx, case):
    text, hx = case
    ctx.nt(len(text) > 2)
    ctx.eq(cdt.Date(text).contents.hex(), hx, F"Date({text!r})")
    ctx.eq(cst.OctetStringDate(text).contents.hex(), hx, F"OctetStringDate({text!r})")


def parse_time(ctx, case):
    text, hx = case
    ctx.nt(len(text) > 2)
    ctx.eq(cdt.Time(text).contents.hex(), hx, F"Time({text!r})")
    ctx.eq(cst.OctetStringTime(text).contents.hex(), hx, F"OctetStringTime({text!r})")


def parse_datetime(ctx, case):
    (d, dh), (t, th), dev, form = case
    if form == 0:
        text, want = d, dh + "ffffffff8000ff"
        if text == "":
            want = "ff" * 9 + "8000ff"
    elif form == 1:
        text, want = F"{d} {t}", dh + th + "8000ff"
    else:
        text, want = F"{d} {t} {dev}", dh + th + dev.to_bytes(2, "big", signed=True).hex() + "ff"
    ctx.nt(form > 0)
    ctx.label(F"form{form}")
    ctx.eq(cdt.DateTime(text).contents.hex(), want, F"DateTime({text!r})")
    ctx.eq(cst.OctetStringDateTime(text).contents.hex(), want, F"OctetStringDateTime({text!r})")


def written():
    """every short and long year, every name of a weekday in every letter case, every part of a time alone"""
    for y in (*range(100), *range(100, 1000, 37), *range(1000, 10000, 457), 1999, 2000, 2099, 2100, 9999):
        year = 2000 + y if y < 100 else y
        for s in {str(y), str(y).zfill(2)} if y < 100 else {str(y), str(y).zfill(4)}:
            yield ["date", F"10.5.{s}", year.to_bytes(2, "big").hex() + "050aff"]
            yield ["date", F"__.__.{s}", year.to_bytes(2, "big").hex() + "ffffff"]
    for n, names in WD.items():
        for s in (*names, str(n)):
            for v in {s, s.title(), s.upper()}:
                yield ["date", F"10.5-{v}", F"ffff050a{n:02x}"]
                yield ["date", F"{v}-10.5", F"ffff050a{n:02x}"]
                if s != str(n):
                    yield ["date", v, F"ffffffff{n:02x}"]
    for d in range(1, 32):
        for s in {str(d), str(d).zfill(2)}:
            yield ["date", s, F"ffffff{d:02x}ff"]
            yield ["date", s + ".", F"ffffff{d:02x}ff"]
            if d <= 12:
                yield ["date", "." + s, F"ffff{d:02x}ffff"]
    for v in range(100):
        for s in {str(v), str(v).zfill(2)}:
            for form, at, lim in (("%s:", 0, 24), ("%s", 0, 24), (":%s", 1, 60), ("::%s", 2, 60), ("%s.", 2, 60), (".%s", 3, 100), ("::.%s", 3, 100)):
                if v < lim:
                    raw = bytearray(b"\xff" * 4)
                    raw[at] = v
                    yield ["time", form % s, raw.hex()]


def write(ctx, case):
    kind, text, want = case
    (parse_date if kind == "date" else parse_time)(ctx, [text, want])
    ctx.nt()


def wrong_text(ctx, case):
    """one component out of its range"""
    kind, which, v = case
    ctx.nt()
    if kind == "dev":
        for sign in ("", "-"):
            for c in (cdt.DateTime, cst.OctetStringDateTime):
                ctx.raises(lambda: c(F"10.5.2020 10:20:30 {sign}{v}"), F"{c.__name__} with deviation {sign}{v}")
        return
    if kind == "time":
        parts = {"H": "10", "M": "20", "S": "30", "f": "40"}
        limit = {"H": 23, "M": 59, "S": 59, "f": 99}[which]
        if v <= limit:
            return
        parts[which] = str(v)
        text = "{H}:{M}:{S}.{f}".format(**parts)
        cls = [cdt.Time, cst.OctetStringTime]
    else:
        parts = {"d": "10", "m": "5", "Y": "____", "w": "mon"}
        limit = {"d": 31, "m": 12, "Y": 9999, "w": 7}[which]
        if v <= limit:
            return
        parts[which] = str(v)
        text = "{d}.{m}.{Y}-{w}".format(**parts)
        cls = [cdt.Date, cst.OctetStringDate, cdt.DateTime]
    for c in cls:
        ctx.raises(lambda: c(text), F"{c.__name__}({text!r})")


def garbage(ctx, case):
    """any text: rejected, or accepted as a valid value whose own text means the same value"""
    t, text = case
    for cls in classes(t):
        try:
            x = cls(text)
        except Exception:
            ctx.label("rejected")
            continue
        ctx.label("accepted")
        ctx.nt()
        ctx.eq(len(x.contents), len(x), "size of contents")
        ctx.eq(cls(str(x)).contents, x.contents, F"own text {str(x)!r} of the value made from {text!r}")


def form(ctx, case):
    """a moment without unspecified parts is written as dd.mm.yyyy and hh:mm:ss, the hundredths as .ff and the deviation after a space where they are specified"""
    y, mo, d, h, mi, s, f, dv, wd = case
    ctx.nt(True)
    last = (datetime.date(y + mo // 12, mo % 12 + 1, 1) - datetime.timedelta(1)).day if (y, mo) != (9999, 12) else 31
    day = datetime.date(y, mo, min(d, last))
    want_d = F"{day.day:02}.{mo:02}.{y:04}"
    want_t = F"{h:02}:{mi:02}:{s:02}" + ("" if f is None else F".{f:02}")
    head = y.to_bytes(2, "big") + bytes((mo, day.day))
    w = day.isoweekday() if wd else 0xff
    tail = bytes((h, mi, s, 0xff if f is None else f))
    for cls in classes("date"):
        text = str(cls(bytearray(head + bytes((w,)))))
        ctx.eq(text[:10], want_d, F"{cls.__name__} written, {text!r}")
        ctx.eq(text[10:] != "", wd, F"{text!r} tells the weekday")
    for cls in classes("time"):
        ctx.eq(str(cls(bytearray(tail))), want_t, F"{cls.__name__} written")
    for cls in classes("datetime"):
        text = str(cls(bytearray(head + bytes((w,)) + tail + (b"\x80\x00" if dv is None else dv.to_bytes(2, "big", signed=True)) + b"\xff")))
        ctx.eq(text.replace("-", " ").split(" ")[0], want_d, F"date of {text!r}")
        ctx.eq(text.split()[1:], [want_t] + ([] if dv is None else [str(dv)]), F"time of {text!r}")


def odd_parts():
    """a part written in a way that is no number in the plain sense, though Python's int() would take some of them"""
    for part in "HMSf":
        for v in ("+5", " 5", "5 ", "1_0", "-1", "0x5", "5.", "x", "___", "1e1", "*", "??", "²", "0b1"):
            yield ["odd time", part, v]
    for part in "dmYw":
        for v in ("+5", "1_0", "0x5", "x", "_____", "1e1", "*", "??", "²", "begin " if part != "m" else "last", "endd", "monn", "sum"):
            yield ["odd date", part, v]


def odd(ctx, case):
    kind, which, v = case
    ctx.nt()
    if kind == "odd time":
        parts = {"H": "10", "M": "20", "S": "30", "f": "40"}
        parts[which] = v
        texts = ["{H}:{M}:{S}.{f}".format(**parts)] + ["{H}:{M}:{S}".format(**parts)] * (which != "f") + ["{H}:{M}".format(**parts)] * (which in "HM")
        cls = [cdt.Time, cst.OctetStringTime]
        if any(c in v for c in ".") :
            texts = texts[:1]
    else:
        parts = {"d": "10", "m": "5", "Y": "____", "w": "mon"}
        parts[which] = v
        texts = ["{d}.{m}.{Y}-{w}".format(**parts)] + ["{d}.{m}-{w}".format(**parts)] * (which != "Y") + ["{d}.{m}".format(**parts)] * (which in "dm")
        cls = [cdt.Date, cst.OctetStringDate, cdt.DateTime]
    for text in texts:
        for c in cls:
            ctx.raises(lambda: c(text), F"{c.__name__}({text!r})")


dev = st.one_of(st.integers(-720, 720), st.sampled_from([-720, -1, 0, 720]))
kinds = st.one_of(g.datetime_octets().map(lambda b: ["datetime", b.hex()]), g.date_octets().map(lambda b: ["date", b.hex()]), g.time_octets().map(lambda b: ["time", b.hex()]))


@st.composite
def near_text(draw):
    t = draw(st.sampled_from(["date", "time", "datetime"]))
    base = list({"date": draw(date_text())[0], "time": draw(time_text())[0], "datetime": draw(date_text())[0] + " " + draw(time_text())[0] + draw(st.sampled_from(["", " ", " 60", " -30"]))}[t])
    for _ in range(draw(st.integers(0, 2))):
        k = draw(st.integers(0, len(base)))
        c = draw(st.sampled_from(list("0123456789.:- _") + ["п", "a"]))
        if draw(st.booleans()) and k < len(base):
            base[k] = c
        else:
            base.insert(k, c)
    return [t, "".join(base)]


PROP = Prop("C07", rule="valid dates/times with unspecified fields and special month/day codes to text and back; texts of every documented format built together with their octets; "
            "texts with one part out of range; mutated texts; non-trivial: unspecified fields or several parts",
            facets=[
                Facet("round_trip", kinds, round_trip, quick=2500, thorough=40000),
                Facet("parse_date", date_text(), parse_date, quick=2000, thorough=30000),
                Facet("written", None, write, exhaustive=written),
                Facet("parse_time", time_text(), parse_time, quick=1200, thorough=10000),
                Facet("parse_datetime", st.tuples(date_text(), time_text(), dev, st.integers(0, 2)), parse_datetime, quick=1200, thorough=10000),
                Facet("wrong_text", st.one_of(st.tuples(st.just("time"), st.sampled_from("HMSf"), st.integers(24, 999)), st.tuples(st.just("date"), st.sampled_from("dmYw"), st.one_of(
                    st.integers(8, 120), st.integers(10000, 99999))), st.tuples(st.just("dev"), st.just("Z"), st.one_of(st.integers(721, 800), st.integers(721, 99999)))),
                      wrong_text, quick=500, examples=[["dev", "Z", 721]]),
                Facet("odd", None, odd, exhaustive=odd_parts),
                Facet("form", st.tuples(st.one_of(st.integers(1, 9999), st.integers(2000, 2100)), st.integers(1, 12), st.integers(1, 31), st.integers(0, 23), st.integers(0, 59), st.integers(0, 59),
                                        st.one_of(st.none(), st.integers(0, 99)), st.one_of(st.none(), dev), st.booleans()), form, quick=600, thorough=20000,
                      examples=[[2020, 1, 2, 3, 4, 5, 6, 0, True], [5, 10, 20, 0, 0, 0, None, None, False]]),
                Facet("garbage", near_text(), garbage, quick=2000, thorough=40000),
            ], assumptions=["the clock status octet is not part of the text"])
