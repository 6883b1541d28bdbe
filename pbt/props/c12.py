"""physical values: raw number, scaler and unit"""
import math
from decimal import Decimal
from hypothesis import strategies as st
from .. import gens as g
from ..core import Prop, Facet
from src.DLMS_SPODES.types import cdt
from src.DLMS_SPODES.cosem_interface_classes.register import Register

SMALL = 1 << 49


def unit_scaler(unit: int) -> int:
    """preset of the configuration: kilo for power and energy"""
    from src.DLMS_SPODES.config_parser import get_values
    for par in get_values("DLMS", "Unit"):
        if par["e"] == unit:
            return par.get("scaler", 0)
    return 0


def su(scaler, unit):
    return cdt.ScalUnitType(bytes((2, 2, 15)) + scaler.to_bytes(1, "big", signed=True) + bytes((22, unit)))


def physical(raw, e):
    return Decimal(raw).scaleb(e)


def text_of(raw, e):
    return format(physical(raw, e), "f") if e < 0 else str(raw * 10 ** e)


def number(raw, e):
    return raw * 10 ** e if e >= 0 else float(physical(raw, e))


def check_value(ctx, x, raw, e, what):
    t = x.decode()
    if e >= 0:
        ctx.eq((t, type(t)), (raw * 10 ** e, int), what)
    else:
        ctx.check(isinstance(t, float) and math.isclose(t, float(physical(raw, e)), rel_tol=1e-14, abs_tol=0), F"{what}: {t}, expected {physical(raw, e)}")
    ctx.eq(str(x), text_of(raw, e), F"{what}: text")


@st.composite
def case(draw):
    t = draw(st.sampled_from(list(g.INTS)))
    lo, hi = g.int_range(t)
    raw = draw(g.ints(t, max(lo, -SMALL), min(hi, SMALL)))
    raw2 = draw(g.ints(t, max(lo, -SMALL), min(hi, SMALL)))
    return [t, raw, draw(st.integers(-9, 9)), draw(st.one_of(st.sampled_from([27, 28, 30, 31, 32, 33, 35, 255]), st.integers(1, 255))), raw2]


def values(ctx, c):
    t, raw, scaler, unit, raw2 = c
    cls = getattr(cdt, g.CLASS[t])
    e = scaler - unit_scaler(unit)
    ctx.nt(e != 0 and raw != 0)
    ctx.label("fraction", e < 0)
    ctx.label("unit_preset", unit_scaler(unit) != 0)
    x = cls(raw)
    x.SCALER_UNIT = su(scaler, unit)
    ctx.eq(x.contents, raw.to_bytes(g.INTS[t][0], "big", signed=g.INTS[t][1]), "scaler does not change the raw number")
    check_value(ctx, x, raw, e, "value")
    ctx.eq(x.report, F"{text_of(raw, e)} {x.SCALER_UNIT.unit}", "report")
    ctx.eq(x.get_report(with_unit=False), text_of(raw, e), "report without unit")
    ctx.raises(lambda: int(x), "int() of a scaled number")
    for arg in (text_of(raw2, e), number(raw2, e), bytes((g.TAGS[t],)) + raw2.to_bytes(g.INTS[t][0], "big", signed=g.INTS[t][1])):
        x.set(bytes((g.TAGS[t],)) + raw.to_bytes(g.INTS[t][0], "big", signed=g.INTS[t][1]))
        x.set(arg)
        check_value(ctx, x, raw2, e, F"after set({arg!r})")
        ctx.eq(cls(arg, su(scaler, unit)).contents, x.contents, "constructed with the unit")
    ctx.eq(x > cls(bytes((g.TAGS[t],)) + raw.to_bytes(g.INTS[t][0], "big", signed=g.INTS[t][1]), su(scaler, unit)), raw2 > raw, "order of values with the same unit")
    for e2 in (e - 2, e - 1, e + 1, e + 3):    # same kind of number with another scaler
        if -128 <= e2 + unit_scaler(unit) <= 127:
            y = cls(raw)
            y.SCALER_UNIT = su(e2 + unit_scaler(unit), unit)
            p, q = physical(raw2, e), physical(raw, e2)
            if abs(p - q) > max(abs(p), abs(q)) / 10 ** 9:
                ctx.eq((x > y, y > x), (p > q, q > p), F"order of {p} and {q}")
    cp = x.copy()
    check_value(ctx, cp, raw2, e, "copy")
    gc = x.get_copy(text_of(raw, e))
    check_value(ctx, gc, raw, e, "get_copy")
    check_value(ctx, x, raw2, e, "original after get_copy")


def nearest(ctx, c):
    """a physical value between two steps becomes the nearest one; beyond the range it is rejected"""
    t, raw, scaler, unit, k = c
    cls = getattr(cdt, g.CLASS[t])
    e = scaler - unit_scaler(unit)
    lo, hi = g.int_range(t)
    tenth = (raw * 10 + k)
    x = cls(0, su(scaler, unit))
    x.set(bytes((g.TAGS[t],)) + bytes(g.INTS[t][0]))
    arg = format(Decimal(tenth).scaleb(e - 1), "f")
    want = raw + (1 if k > 5 else -1 if k < -5 else 0)
    ctx.nt(k != 0)
    if lo <= want <= hi:
        x.set(arg)
        ctx.eq(int.from_bytes(x.contents, "big", signed=g.INTS[t][1]), want, F"{arg} at step 10^{e}")
    else:
        ctx.label("out_of_range")
        ctx.raises(lambda: x.set(arg), F"{arg} at step 10^{e}")
        ctx.eq(x.contents, bytes(g.INTS[t][0]), "value after a rejected set")


def scaler_rules(ctx, c):
    t, s1, u1, s2, u2 = c
    x = getattr(cdt, g.CLASS[t])(1)
    ctx.nt([s1, u1] != [s2, u2])
    x.SCALER_UNIT = su(s1, u1)
    x.SCALER_UNIT = su(s1, u1)
    if [s1, u1] != [s2, u2]:
        def change(): x.SCALER_UNIT = su(s2, u2)
        ctx.raises(change, "another scaler for a scaled number")
        check_value(ctx, x, 1, s1 - unit_scaler(u1), "value after a rejected scaler")
    ctx.raises(lambda: setattr(x, "SCALER_UNIT", 5), "scaler of a wrong type")
    x.SCALER_UNIT = None
    ctx.eq(x.decode(), 1, "raw number after reset")
    x.SCALER_UNIT = su(s2, u2)
    check_value(ctx, x, 1, s2 - unit_scaler(u2), "value with the second scaler")


def register(ctx, c):
    """a register shows its value in its unit, whichever attribute came first"""
    t, raw, scaler, unit, raw2 = c
    e = scaler - unit_scaler(unit)
    ctx.nt(e != 0)
    n, s = g.INTS[t]
    enc = lambda v: bytes((g.TAGS[t],)) + v.to_bytes(n, "big", signed=s)
    for order in ("value first", "unit first"):
        r = Register("1.0.1.8.0.255")
        if order == "value first":
            r.set_attr(2, enc(raw))
            ctx.eq(r.value.decode(), raw, "value without unit")
            r.set_attr(3, su(scaler, unit).encoding)
        else:
            r.set_attr(3, su(scaler, unit).encoding)
            r.set_attr(2, enc(raw))
        check_value(ctx, r.value, raw, e, F"register, {order}")
        r.set_attr(2, enc(raw2))
        check_value(ctx, r.value, raw2, e, F"register after update, {order}")
        r.set_attr(2, text_of(raw, e))
        ctx.eq(r.value.encoding, enc(raw), "register set by text")


def unscaled(ctx, c):
    t, v = c
    x = getattr(cdt, g.CLASS[t])(v)
    ctx.nt(abs(v) > 1)
    ctx.eq((x.decode(), int(x), str(x), x.report), (v, v, str(v), str(v)), "number without unit")


tin = st.sampled_from(list(g.INTS)).flatmap(lambda t: st.tuples(st.just(t), g.ints(t)))
unit = st.one_of(st.sampled_from([27, 30, 31, 35, 255]), st.integers(1, 255))
PROP = Prop("C12", rule="raw numbers below 2^49 of every integer type with scalers -9..9 and all units, against exact decimal arithmetic; non-trivial: a scaler and a number other than zero",
            facets=[
                Facet("values", case(), values, quick=700, thorough=15000),
                Facet("nearest", st.sampled_from(list(g.INTS)).flatmap(lambda t: st.tuples(st.just(t), g.ints(t, max(g.int_range(t)[0], -SMALL // 16), min(g.int_range(t)[1], SMALL // 16)), st.integers(-6, 6), unit,
                                                                                            st.sampled_from([-9, -7, -6, -4, -2, 0, 1, 3, 4, 6, 8]))), nearest, quick=900, thorough=15000),
                Facet("scaler_rules", st.tuples(st.sampled_from(list(g.INTS)), st.integers(-9, 9), unit, st.integers(-9, 9), unit), scaler_rules, quick=300, thorough=3000),
                Facet("register", case(), register, quick=400, thorough=6000),
                Facet("unscaled", tin, unscaled, quick=500, thorough=5000),
            ], assumptions=["physical values pass through a double, so raw numbers are limited to 2^49", "ties between two steps are not judged"])
