"""text reports of values and objects"""
import functools
import re
from hypothesis import strategies as st
from ..core import Prop, Facet
from .. import fill, util
from src.DLMS_SPODES.types import cdt, cst, ut
from src.DLMS_SPODES import config_parser, enums as enu
from src.DLMS_SPODES.cosem_interface_classes import collection as col
from src.DLMS_SPODES.cosem_interface_classes import clock, reports, disconnect_control as dc
from src.DLMS_SPODES.cosem_interface_classes.gsm_diagnostic import ver0 as gsm
from src.DLMS_SPODES.cosem_interface_classes.implementations import data
from src.DLMS_SPODES.settings import get_current_language, Language
from .c35 import CLASSES, KEYS, attrs, make, dt
if get_current_language() == Language.RUSSIAN:
    from src.DLMS_SPODES.Values.RU import events as texts
else:
    from src.DLMS_SPODES.Values.EN import events as texts

KINDS = {"Voltage": "VOLTAGE", "Current": "CURRENT", "Commutation": "COMMUTATION", "Programming": "PROGRAMING", "External": "EXTERNAL_IMPACT", "Communication": "COMMUNICATION",
         "Access": "ACCESS", "SelfDiagnostic": "SELF_DIAGNOSTIC", "ReactivePower": "REACTIVE_POWER"}
TYPES = {f"{kpz}{k}EventValues": (k, p) for k, p in KINDS.items() for kpz in ("", "KPZ1")}


def table(prefix, base=10):
    """{code: text} of the names PREFIX_code of the table of texts"""
    return {int(m.group(1), base): v for k, v in vars(texts).items() if (m := re.fullmatch(prefix + "_([0-9A-Fa-fx]+)", k))}


def translate(key):
    return (config_parser.config["DLMS"].get("messages") or {}).get(key) or key


def used(cls, value, other):
    """a value that was `other`, and shown as that, before"""
    v = cls(other)
    for n in ("report", "value", "name"):
        getattr(v, n, None)
    v.get_report() if hasattr(v, "get_report") else None
    str(v), int(v), v.decode(), v.encoding
    v.set(value)
    return v


def _events(ctx, case):
    name, code = case
    prefix = TYPES[name][1]
    t = table(prefix)
    v = getattr(data, name)(code)
    want = f"{t.get(code, 'error enum')}({code})"
    ctx.eq(v.get_report(), want, f"report of {name}")
    ctx.eq(v.report, want, f"report property of {name}")
    for other in (1, code ^ 1, 0):
        w = used(getattr(data, name), code, other)
        ctx.eq((w.get_report(), w.report), (want, want), f"report of {name} that was {other}")
    ctx.eq(int(v), code, "code")
    ctx.nt(code in t)
    ctx.label("known" if code in t else "unknown")


def event_cases():
    for name, (k, p) in TYPES.items():
        codes = set(table(p)) | set(range(270)) | {max(table(p)) + 1, 65535} | ({65536, 2 ** 32 - 1, 65537} if name.startswith("KPZ") else set())
        for c in sorted(codes):
            yield [name, c]


def _quality(ctx, case):
    n, value = case
    t = table(f"POWER_QUALITY{n}", 16)
    v = getattr(data, f"PowerQuality{n}EventValues")(value)
    want = [t.get(2 ** i, f"unknown bit: {i}") for i in range(16) if value & 2 ** i]
    ctx.eq(v.get_report(), ". ".join(want) + f"({value})", "report of quality")
    ctx.eq(v.report, v.get_report(), "report property")
    ctx.eq(used(v.__class__, value, value ^ 5).get_report(), v.get_report(), "report after a change")
    ctx.nt(any(i in value_bits(value) for i in t))


def value_bits(value):
    return {2 ** i for i in range(16) if value & 2 ** i}


SEALS = ("undefined", "contentions", "breaked_open", "subsequent_autopsy")


def _seal(ctx, case):
    value, = case
    want = f"{translate('electronic_seals')}: {translate('for_cover')} - {translate(SEALS[value % 4])}, {translate('for_terminals_cover')} - {translate(SEALS[value // 4 % 4])}"
    ctx.eq(data.SealUnsigned(value).get_report(), want, "report of seals")
    ctx.eq(data.SealUnsigned(value).report, want, "report property of seals")
    ctx.eq(used(data.SealUnsigned, value, value ^ 6).report, want, "report after a change")
    ctx.nt(value > 0)


def _channel(ctx, case):
    value, ops = case
    v = data.ChannelNumberValue(value) if value % 2 else used(data.ChannelNumberValue, value, value ^ 0x19)
    low, high = value % 8, value // 8
    for kind, n in [["", 0], *ops]:
        if kind == "channel":
            v.channel = enu.ChannelNumber(n)
            low = n
        elif kind == "interface":
            v.interface = enu.Interface(n)
            high = n
        ctx.eq(int(v), low + 8 * high, f"octet after {kind} {n}")
        ctx.eq((int(v.channel), int(v.interface)), (low, high), f"parts after {kind} {n}")
        ctx.check(v.channel.name in v.report and v.interface.name in v.report, "names in the report")
        ctx.eq(str(v), v.report, "text")
        ctx.check(enu.ChannelNumber.from_str(v.channel.name) is v.channel and enu.Interface.from_str(v.interface.name) is v.interface, "name back")
    ctx.nt(len(ops) > 0)


def _signal(ctx, case):
    value, = case
    text = gsm.SignalQuality(value).get_report()
    ctx.eq(gsm.SignalQuality(value).report, text, "report property")
    ctx.eq(used(gsm.SignalQuality, value, 7 if value != 7 else 99).report, text, "report after a change")
    if value < 32:
        ctx.eq([int(x) for x in re.findall(r"[-–](\d+) dBm", text)], [113 - 2 * value], f"level in {text!r}")
        ctx.check(f"({value})" in text, f"value in {text!r}")
        bound = {0: "less", 31: "greater"}.get(value)
        ctx.eq(text.count(translate("or")) > 0, bound is not None, f"bound in {text!r}")
        if bound:
            ctx.check(translate(bound) in text, f"bound in {text!r}")
    elif value == 99:
        ctx.eq(text, translate("not_known_or_not_detectable"), "unknown level")
    else:
        ctx.check("dBm" not in text and str(value) in text and "wrong" in text, f"wrong level: {text!r}")
    ctx.nt(value < 32)


# DLMS UA 1000-1 Ed. 14 table 4.5.8: transitions of each control mode
LETTERS = {0: "", 1: "bcfgde", 2: "bcfgae", 3: "bcgde", 4: "bcgae", 5: "bcfgdeh", 6: "bcgdeh"}


def _control(ctx, case):
    mode, out = case
    if mode in LETTERS:
        ctx.eq(dc.ControlMode(mode).get_letters(), LETTERS[mode], "letters")
        m = dc.ControlMode((mode + 1) % 7)
        m.get_letters(), str(m)
        m.set(mode)
        ctx.eq(m.get_letters(), LETTERS[mode], "letters after a change")
    elif 129 <= mode <= 134:
        text = dc.ControlMode(mode).get_letters()
        ctx.eq(text[:2], "bc", "letters of manufacturer mode")
        ctx.eq(len(set(text)), len(text), "letters once")
    else:
        ctx.raises(lambda: dc.ControlMode(mode), "mode", ValueError)
    ctx.eq(str(dc.OutputState(out)), translate("connected" if out else "disconnected"), "output state")
    ctx.nt(mode in LETTERS)


# ----------------------------------------------------------------- reports of objects
def lines(names, values, depth):
    """lines of members of an array or structure"""
    pattern = config_parser.config["DLMS"]["report"]["struct"]
    ret = []
    for name, v in zip(names, values):
        indent = " " * (depth + 1)
        if isinstance(v, cdt.Array):
            ret.append(f"{indent}[{name}]")
            ret += lines(["*"] * len(v), list(v), depth + 1)
        elif isinstance(v, cdt.Structure):
            if v.__class__.__name__ in pattern:
                f = lambda m: v.ELEMENTS[int(m.group(2))].NAME if m.group(1) == "n" else str(list(v)[int(m.group(2))])
                ret.append(indent + re.sub(r"%([nv])(\d\d)", f, pattern[v.__class__.__name__]))
                continue
            ret.append(f"{indent}[{name}]" if name else "")
            ret += lines([e.NAME for e in v.ELEMENTS], list(v), depth + 1)
        else:
            ret.append(f"{indent}{name}: {v}")
    return ret


def expect(o, indexes):
    ret = [f"[{col.get_name(o.logical_name)}]"]
    for i in indexes:
        v = o.get_attr(i)
        if v is None:
            continue
        name = str(o.get_attr_element(i))
        if isinstance(v, cdt.ComplexDataType):
            ret.append(f"  [{name}]")
            ret += lines([e.NAME for e in v.ELEMENTS] if isinstance(v, cdt.Structure) else [""] * len(v), list(v), 1)
        elif data.DLMSDeviceIDObject in o.__class__.__mro__ and i == 2 and isinstance(v, cdt.OctetString):
            ret.append(f"  {name}: {''.join(bytes((c,)).decode('cp1251', errors='replace') if c > 32 else '?' for c in v.contents)}".replace("\ufffd", "?"))
        else:
            ret.append(f"  {name}: {v.report if isinstance(v, cdt.Digital) else v}")
    return "".join(x + "\n" for x in ret)


@functools.lru_cache(None)
def obj(key):
    cls = CLASSES[key]
    at = attrs(cls)
    sets = st.tuples(*(st.one_of(st.just(None), *([fill.enc(dt(cls, i)).map(bytes.hex)] * 4)) for i in at)).map(list)
    weighted = at + [i for i in at for _ in range(5) if isinstance(dt(cls, i), type) and issubclass(dt(cls, i), cdt.ComplexDataType)]
    order = st.lists(st.tuples(st.sampled_from(weighted), st.booleans()).map(list), min_size=1, max_size=5) if at else st.just([])
    return st.tuples(st.just(key), sets, order).map(list)


COMPLEX = [k for k in KEYS if any(isinstance(dt(CLASSES[k], i), type) and issubclass(dt(CLASSES[k], i), cdt.ComplexDataType) for i in attrs(CLASSES[k]))]


def _object(ctx, case):
    key, sets, order = case
    cls = CLASSES[key]
    o = make(key, "0100010800ff")
    for i, h in zip(attrs(cls), sets):
        if h is not None:
            try:
                o.set_attr(i, bytes.fromhex(h))
            except ValueError:
                ctx.label("rejected")
    try:    # only values that can be shown at all; text of values is covered by other properties
        want = expect(o, [1] + [i for i, _ in order])
    except Exception:
        ctx.label("no_text")
        return
    par = (1, *((i, None) if path else i for i, path in order))
    ctx.eq(reports.get_obj_report(o, par), want, "report")
    for i, h in zip(attrs(cls), sets[1:] + sets[:1]):   # other values of the same object
        if h is not None:
            try:
                o.set_attr(i, bytes.fromhex(h))
            except Exception:
                pass
        elif i > 2:
            try:
                o.clear_attr(i)
            except Exception:
                pass
    try:
        again = expect(o, [1] + [i for i, _ in order])
    except Exception:
        again = None
    if again is not None:
        ctx.eq(reports.get_obj_report(o, par), again, "report after changes")
        ctx.label("changed", again != want)
    n = max((len(list(o.get_attr(i))) for i, _ in order if isinstance(o.get_attr(i), cdt.ComplexDataType)), default=0)
    ctx.nt(n > 0)
    ctx.label("with_zero", re.search(": 0?$", want, re.M) is not None)


REG_VALUES = ["0600003039", "0580000000", "1000ff", "11ff", "1280ff", "09021234", "0a026b57", "1600"]
REG_UNITS = ["02020ffd161e", "02020f00161b", "02020f0216ff", "02020ffe1621"]


def registers():
    op = st.one_of(st.tuples(st.just(2), st.sampled_from(REG_VALUES)), st.tuples(st.just(3), st.sampled_from(REG_UNITS)), st.sampled_from([(2, None), (3, None)])).map(list)
    return st.tuples(st.sampled_from(["register:Register", "extended_register:ExtendedRegister"]), st.lists(op, max_size=5)).map(list)


def _register(ctx, case):
    """a register shows its name and the value with its unit as they are at the moment"""
    key, ops = case
    o = make(key, "0100010800ff")
    values = {2: None, 3: None}
    for i, h in [(None, None), *ops]:
        if i is not None:
            if h is None:
                o.clear_attr(i)
            else:
                if i == 2:
                    o.clear_attr(2)   # a value of another type
                o.set_attr(i, bytes.fromhex(h))
            values[i] = h
        got = o.get_report()
        ctx.check(got.startswith("1.0.1.8.0.255"), f"name: {got}")
        if values[2] is None and values[3] is None:
            ctx.check(got.endswith(" ? ?"), f"nothing known: {got}")
        elif values[2] is not None and values[2][:2] not in ("09", "0a", "16"):
            ctx.check(got.endswith(" " + o.value.get_report()) and got == F"{o} {o.value.get_report()}", f"value: {got}")
            if values[3] is not None and issubclass(o.value.__class__, cdt.Digital):
                ctx.check(got.endswith(str(o.scaler_unit.unit)), f"unit: {got}")
                ctx.nt(True)
        elif values[2] is not None:
            ctx.check(str(o.value) in got, f"value: {got}")


def _calendar(ctx, case):
    """pattern of a structure given in the configuration"""
    o = make("activity_calendar:ActivityCalendar", "00000d0000ff")
    o.set_attr(5, [[d, [(f"{h:02}:{m:02}", "0.0.10.0.100.255", s) for h, m, s in acts]] for d, acts in case])
    text = reports.get_obj_report(o, (5,))
    ctx.eq(text, expect(o, (5,)), "report")
    pattern = config_parser.config["DLMS"]["report"]["struct"].get("DayProfileAction")
    if pattern == "%n00: %v00 - Тариф: %v02":
        ctx.eq(re.findall(r"(\d\d:\d\d)\S* - Тариф: (\d+)", text), [(f"{h:02}:{m:02}", str(s)) for _, acts in case for h, m, s in acts], "actions")
    ctx.nt(any(acts for _, acts in case))


DAYS = st.lists(st.tuples(st.integers(0, 255), st.lists(st.tuples(st.integers(0, 23), st.integers(0, 59), st.integers(0, 65535)).map(list), max_size=4, unique_by=lambda x: (x[0], x[1]))).map(list), max_size=4, unique_by=lambda x: x[0])

CLOCK = {0: "invalid value", 1: "doubtful value", 2: "different clock base", 3: "invalid clock status", 6: "daylight saving active"}


def _clock(ctx, case):
    """every flag of the clock status, and only them"""
    n, = case
    for x in (clock.ClockStatus(n), clock.ClockStatus(bytes((0x11, n))), used(clock.ClockStatus, n, n ^ 0x81)):
        text = str(x)
        for bit, name in CLOCK.items():
            ctx.eq(name in text, bool(n >> bit & 1), f"{name} of status {n:08b}: {text}")
    ctx.nt(n != 0)


PROP = Prop("C41", rule="non-trivial: known code (events), several changes (channel), an array or structure with members (object)", facets=[
    Facet("events", st.sampled_from(sorted(TYPES)).flatmap(lambda n: st.tuples(st.just(n), st.one_of(st.integers(0, 300), st.integers(0, 65535))).map(list)), _events, quick=500, thorough=20000, exhaustive=event_cases),
    Facet("quality", st.tuples(st.integers(1, 2), st.integers(0, 65535)).map(list), _quality, quick=200, thorough=5000, exhaustive=lambda: ([n, v] for n in (1, 2) for v in [*range(512), *range(512, 65536, 61), *(2 ** i for i in range(16))])),
    Facet("seal", st.integers(0, 255).map(lambda n: [n]), _seal, quick=10, thorough=10, exhaustive=lambda: ([n] for n in range(256))),
    Facet("channel", st.tuples(st.integers(0, 255), st.lists(st.one_of(st.integers(0, 7).map(lambda n: ["channel", n]), st.integers(0, 31).map(lambda n: ["interface", n])), max_size=5)).map(list), _channel,
          quick=300, thorough=5000, exhaustive=lambda: ([v, [[k, n], *([["channel", v % 8]] if n % 2 else [])]] for v in range(256) for k, m in (("channel", 8), ("interface", 32)) for n in range(m))),
    Facet("signal", st.integers(0, 255).map(lambda n: [n]), _signal, quick=10, thorough=10, exhaustive=lambda: ([n] for n in range(256))),
    Facet("clock", st.integers(0, 255).map(lambda n: [n]), _clock, quick=10, thorough=10, exhaustive=lambda: ([n] for n in range(256))),
    Facet("control", st.tuples(st.integers(0, 255), st.booleans()).map(list), _control, quick=10, thorough=10, exhaustive=lambda: ([n, n % 3 == 0] for n in range(256))),
    Facet("object", st.sampled_from(COMPLEX * 3 + KEYS).flatmap(obj), _object, quick=700, thorough=30000),
    Facet("register", registers(), _register, quick=150, thorough=3000),
    Facet("calendar", DAYS, _calendar, quick=150, thorough=5000),
], assumptions=["Text of simple values is covered by other properties; here they are compared with their own text.",
                "Bits without a text in the tables are reported as unknown."])
