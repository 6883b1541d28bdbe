"""text typed in by a person is judged as the value would take it"""
from hypothesis import strategies as st
from ..core import Prop, Facet
from .. import fill, util
from src.DLMS_SPODES.types import cdt, cst
from src.DLMS_SPODES.types.implementations import bitstrings
from src.DLMS_SPODES.cosem_interface_classes.association_ln import ver0

util.import_all()
NAMED = {F"{c.__module__}.{c.__qualname__}": c for c in util.subclasses(cdt.SimpleDataType)}
KEYS = sorted(k for k, c in NAMED.items() if "<locals>" not in k and c is not cdt.Enum)
FLOATS = (cdt.Float32, cdt.Float64)
DATES = (cdt.Date, cdt.Time, cdt.DateTime, cst.OctetStringDate, cst.OctetStringTime, cst.OctetStringDateTime)


def makes(c, text):
    """encoding of the value with the text, None: there is no one"""
    try:
        return c(text).encoding
    except (ValueError, OverflowError):
        return None


@st.composite
def typed(draw):
    k = draw(st.sampled_from(KEYS))
    c = NAMED[k]
    now = draw(fill.enc(c)).hex()
    how = draw(st.integers(0, 3))
    if how < 2:    # text of another value, maybe damaged
        try:
            text = str(c(draw(fill.enc(c))))
        except ValueError:
            text = "12"
        if how:
            at = draw(st.integers(0, len(text)))
            op = draw(st.integers(0, 2))
            ins = draw(st.sampled_from(list("0159_.:- eaf+xZ")))
            text = text[:at] + (ins if op < 2 else "") + text[at + (1 if op else 0):]
    elif how == 2 and getattr(c, "ELEMENTS", None) and isinstance(c.ELEMENTS, dict):
        name = draw(st.sampled_from(sorted(c.ELEMENTS.values())))
        text = name[:draw(st.integers(0, len(name)))] + draw(st.sampled_from(["", "", "Z"]))
    else:
        text = draw(st.text(st.sampled_from("0123456789_.:- abcdefxinZ+"), max_size=12))
    return [k, now, text]


def _typed(ctx, case):
    k, now, text = case
    c = NAMED[k]
    try:
        x = c(bytes.fromhex(now))
    except ValueError:
        ctx.label("no value")
        return
    before = (x.encoding, str(x))
    want = makes(c, text)
    try:
        got, cursor = x.validate_from(text, len(text))
    except (ValueError, OverflowError, NotImplementedError):
        got = None
    ctx.eq((x.encoding, str(x)), before, "value")
    if issubclass(c, FLOATS) and text[-1:] in tuple(".-+exp"):     # a digit is wanted behind
        ctx.eq(got is not None, makes(c, text + "0") is not None, F"{text!r} is taken")
        if got is not None:
            ctx.eq((got, cursor), (text + "0", len(text)), "text with a digit and cursor")
            ctx.nt(len(text) > 1)
            ctx.label("begins")
    elif want is not None:
        if got is None:
            ctx.fail(F"{text!r} makes {want.hex()}, but it is refused")
        ctx.eq(makes(c, got), want, F"value of {got!r} instead of {text!r}")
        ctx.eq(cursor, len(got), "cursor is behind the text")
        ctx.nt(len(text) > 1)
        ctx.label("accepted")
    elif got is not None:
        if issubclass(c, cdt.Enum):
            ctx.check(any(n.startswith(text) for n in c.ELEMENTS.values()), F"{text!r} begins no name")
            ctx.eq(got, text, "text")
        elif issubclass(c, DATES):
            ctx.check(makes(c, got) is not None, F"{got!r} makes no value")
            ctx.eq([d for d in got if d.isalnum()], [d for d in text if d.isalnum()], "characters")
        elif issubclass(c, cst.LogicalName):
            ctx.check(makes(c, got) is not None, F"{got!r} makes no value")
            ctx.eq(got, text[:-1] + "." + text[-1:], "text")
        elif issubclass(c, cdt.OctetString):
            ctx.check(makes(c, text + "0") is not None, F"{text!r} begins no octets")
            ctx.eq(got, text, "text")
        elif issubclass(c, (bitstrings.Conformance, cdt.FlagMixin)):
            ctx.check(makes(c, text.zfill(len(c.ELEMENTS))) is not None, F"{text!r} is no tail of flags")
            ctx.eq(got, text, "text")
        else:
            ctx.fail(F"{text!r} makes no value, but it is accepted as {got!r}")
        ctx.nt()
        ctx.label("begins")
    else:
        ctx.label("refused")


DIGITALS = sorted(k for k in KEYS if issubclass(NAMED[k], cdt.Digital)
                  and (NAMED[k].SCALER_UNIT, NAMED[k].MIN, NAMED[k].MAX, NAMED[k].VALUE) == (None,) * 4)   # a range of numbers has no scaler


@st.composite
def scaled(draw):
    k = draw(st.sampled_from(DIGITALS))
    n = draw(st.one_of(st.integers(-300, 300), st.integers(-2 ** 33, 2 ** 33)))
    text = draw(st.sampled_from(["%d", "%d.0", "%d.5", "%d.25", "%de1", "0.%d", ".%d", "%d.", "-%d", "%dx", "%d-"])) % n
    return [k, draw(fill.enc(NAMED[k])).hex(), draw(st.integers(-4, 4)), draw(st.sampled_from([27, 30, 33, 255])), text]


def _scaled(ctx, case):
    k, now, scaler, unit, text = case
    c = NAMED[k]
    try:
        x, y = c(bytes.fromhex(now)), c(bytes.fromhex(now))
    except ValueError:
        ctx.label("no value")
        return
    for v in (x, y):
        v.SCALER_UNIT = cdt.ScalUnitType(b"\x02\x02\x0f" + scaler.to_bytes(1, signed=True) + b"\x16" + bytes((unit,)))
    before = x.encoding
    try:
        y.set(text)
        want = True
    except (ValueError, OverflowError):
        want = False
    try:
        got, cursor = x.validate_from(text, len(text))
    except (ValueError, OverflowError):
        got = None
    ctx.eq(x.encoding, before, "value")
    ctx.eq(got, text if want else None, "text")
    if want:
        ctx.eq(cursor, len(text), "cursor")
        ctx.nt(scaler != 0)
    ctx.label("accepted" if want else "refused")


BEGINNINGS = [[k, NAMED[k]().encoding.hex(), t] for k in KEYS if NAMED[k] in FLOATS
              for t in ("+", "-", ".", "e", "x", "p", "1e", "1e+", "1e-", "-1.", "+.", "0x", "-0x", "0x1.8p", "0x1p+", "0x1p-", "0x1.", "1p", "1e5", "1ep", "0x1.8p1", "1x", "..", "--", "1+", "")]


def some(c):
    """encoding of any value of the type"""
    for v in (None, c.VALUE, c.MIN, 1):
        try:
            return c(v).encoding.hex()
        except ValueError:
            continue


@st.composite
def secrets(draw):
    ascii_ = draw(st.booleans())
    own = draw(st.binary(min_size=16, max_size=16))
    if ascii_:
        text = draw(st.text("0123456789abcXYZ _", max_size=20)) if draw(st.booleans()) else draw(st.text("0123456789abcXYZ _", min_size=16, max_size=16))
    else:
        text = draw(st.sampled_from(["", " "])).join("%02x" % x for x in draw(st.binary(min_size=draw(st.sampled_from([0, 15, 16, 16, 16])), max_size=17)))
        if draw(st.integers(0, 2)) == 0 and text:
            at = draw(st.integers(0, len(text) - 1))
            text = text[:at] + draw(st.sampled_from(["", "", "g", "0", " "])) + text[at + 1:]
    return [ascii_, own.hex(), text, draw(st.booleans())]


def _secret(ctx, case):
    """a secret of high level has 16 octets, shown as octets or characters"""
    ascii_, own, text, told = case
    rep = ver0.Representation
    x = ver0.LLCSecretHigh(b"\x09\x10" + bytes.fromhex(own))
    try:
        x.representation = rep.ASCII if ascii_ else rep.HEX
        before = x.encoding
        want = makes(ver0.LLCSecretHigh, text)
        try:
            got, cursor = x.validate_from(text, len(text)) if told else x.validate_from(text)
        except ValueError:
            got = None
        ctx.eq(x.encoding, before, "value")
        if ascii_:
            ctx.eq(want is not None, len(text) == 16, F"{text!r} is a secret")
            ctx.eq(got, text if len(text) <= 16 else None, "text")    # more characters are awaited
            if want is not None:
                ctx.eq((want, cursor), (b"\x09\x10" + text.encode("ascii"), 16), "value and cursor")
        elif want is not None:
            ctx.eq(want[:2], b"\x09\x10", "length")
            ctx.eq((got.lower(), cursor), (" ".join("%02x" % i for i in want[2:]), 47), "text and cursor")
        elif got is not None:
            ctx.eq(got, text, "text")
            ctx.check(any(makes(ver0.LLCSecretHigh, text[:i] + "0" + text[i:]) is not None for i in range(len(text) + 1)), F"{text!r} begins no secret")
            ctx.label("begins")
        else:
            ctx.eq(makes(ver0.LLCSecretHigh, text + "0"), None, F"{text!r} begins a secret")
        ctx.nt(want is not None)
    finally:
        x.representation = rep.HEX


BEGINNINGS += [[k, some(NAMED[k]), t] for k in KEYS if issubclass(NAMED[k], cdt.Digital) and some(NAMED[k]) for t in ("-", "+", "")]
PROP = Prop("C44", rule="non-trivial: text of more than one character was accepted, or as the beginning of a value (typed), text was accepted with a scaler (scaled), the text makes a secret (secret)", facets=[
    Facet("typed", typed(), _typed, quick=2500, thorough=100000, examples=BEGINNINGS),
    Facet("scaled", scaled(), _scaled, quick=600, thorough=30000),
    Facet("secret", secrets(), _secret, quick=400, thorough=20000),
], assumptions=["The cursor is at the end of the text.", "A hidden secret is judged by C43."])
