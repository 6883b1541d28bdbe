"""every interface class keeps its attributes: declared types, set, reject, clear, descriptors"""
import dataclasses
import functools
from hypothesis import strategies as st
from ..core import Prop, Facet
from .. import fill, util
from src.DLMS_SPODES.types import cdt, cst, ut
from src.DLMS_SPODES import exceptions as exc
from src.DLMS_SPODES.cosem_interface_classes import collection as col
from src.DLMS_SPODES.cosem_interface_classes import cosem_interface_class as ic

util.import_all()
CLASSES = {}
for _c in util.subclasses(ic.COSEMInterfaceClasses):
    if hasattr(_c, "A_ELEMENTS") and not _c.__abstractmethods__:
        CLASSES[_c.__module__.split("cosem_interface_classes.")[-1] + ":" + _c.__name__] = _c
KEYS = sorted(CLASSES)
SPECIAL = {  # attributes with rules between attributes and other objects, they are checked in C30, C31, C36..C38
    "ActiveFirmwareId": {2}, "LDN": {2},
    "AssociationLN": {2, 5, 6, 7}, "RegisterMonitor": {2, 3}, "Limiter": {2, 3, 4, 5}, "DemandRegister": {3},
    "ActivityCalendar": {3, 4, 5, 7, 8, 9}, "Arbitrator": {2, 3}, "SPODES3Arbitrator": {2, 3},
}
PROFILE = {2, 3, 6}


def special(cls):
    for b in cls.__mro__:
        if b.__name__ == "ProfileGeneric":
            return PROFILE
        if b.__name__ in SPECIAL:
            return SPECIAL[b.__name__]
    return set()


def attrs(cls):
    return [i for i in range(2, len(cls.A_ELEMENTS) + 2) if i not in special(cls)]


def dt(cls, i):
    return cls.get_attr_element(i).DATA_TYPE


@functools.lru_cache(None)
def data(t):
    """hex of an encoding; sometimes of a wrong one"""
    good = fill.enc(t)
    return st.one_of(good, good, good, good, good,
                     good.map(lambda b: b[:-1]),
                     st.tuples(good, st.integers(0, 30)).map(lambda x: bytes((x[1],)) + x[0][1:]),
                     st.sampled_from([b"", b"\x00", b"\x02\x01\x00", b"\x09\x00", b"\x01\x01\x00"])).map(bytes.hex)


@functools.lru_cache(None)
def operation(key):
    cls = CLASSES[key]
    at = attrs(cls)
    sets = [data(dt(cls, i)).map(lambda h, i=i: ["set", i, h]) for i in at]
    encs = [data(dt(cls, i)).map(lambda h, i=i: ["encode", i, h]) for i in at]
    n = len(cls.A_ELEMENTS) + 1
    idx = st.sampled_from(at or [1])
    return st.one_of(*sets, *sets, *encs[:1 + len(encs) // 3],
                     idx.map(lambda i: ["clear", i]),
                     idx.map(lambda i: ["data_type", i]),
                     idx.map(lambda i: ["reset", i]),
                     st.integers(1, n).flatmap(lambda i: fill.g.datetime_octets().map(lambda b, i=i: ["time", i, b.hex()])),
                     st.integers(-3, n + 3).map(lambda i: ["outside", i]))


def histories():
    return st.sampled_from(KEYS).flatmap(lambda k: st.tuples(st.just(k), st.binary(min_size=6, max_size=6).map(bytes.hex), st.lists(operation(k), min_size=2, max_size=10)).map(list))


def make(key, ln):
    o = CLASSES[key](cst.LogicalName(bytearray(bytes.fromhex(ln))))
    o.collection = col.Collection()
    return o


def state(o):
    return [None if v is None else v.encoding.hex() for v in o]


def attempt(f):
    try:
        return f(), None
    except Exception as e:
        return None, e


def _history(ctx, case):
    key, ln, ops = case
    o, cls = make(key, ln), CLASSES[key]
    n = len(cls.A_ELEMENTS) + 1
    bare = {}   # values of the declared types alone, handled the same way
    for i, v in o.get_index_with_attributes():
        if v is not None and i in attrs(cls):
            ctx.check(isinstance(v, tuple(dt(cls, i).get_types()) if isinstance(dt(cls, i), ut.CHOICE) else dt(cls, i)), f"type of attribute {i}")
            bare[i] = v.__class__(v.encoding) if not isinstance(v, cdt.Array) else v.copy()
    times = {}
    before = state(o)
    ctx.eq(before[0], "0906" + ln, "logical name")
    good = 0
    for op in ops:
        name, i = op[0], op[1]
        if name == "set":
            b = bytes.fromhex(op[2])
            if i in bare:
                new, error = attempt(lambda: bare[i].copy())
                _, error = attempt(lambda: new.set(b))
            else:
                new, error = attempt(lambda: dt(cls, i)(b))
            if error is None and cls.__name__ == "DemandRegister" and i == 2 and o.get_attr(3) is not None:
                error = None if new.TAG == o.get_attr(3).TAG else ValueError("other tag")
            _, err = attempt(lambda: o.set_attr(i, b))
            ctx.eq(err is None, error is None, f"{op} accepted ({err!r}, {error!r})")
            if error is None:
                before[i - 1] = new.encoding.hex()
                bare[i] = new
                ctx.check(o.get_attr(i) == new, f"value after {op}")
                ctx.eq(o.get_attr(i).__class__, new.__class__, "class of the value")
                good += 1
            else:
                ctx.label("rejected")
        elif name == "encode":
            b = bytes.fromhex(op[2])
            if i in bare:
                new = bare[i].copy()
                _, error = attempt(lambda: new.set(b))
            elif isinstance(dt(cls, i), ut.CHOICE):
                new, error = None, None
            else:
                new, error = attempt(lambda: dt(cls, i)(b))
            got, err = attempt(lambda: o.encode(i, b))
            ctx.eq(err is None, error is None, f"{op} accepted ({err!r}, {error!r})")
            if error is None:
                ctx.eq(None if got is None else got.encoding.hex(), None if new is None else new.encoding.hex(), f"{op}")
        elif name == "clear":
            if i == 1:
                ctx.raises(lambda: o.clear_attr(1), "clear of the logical name", ValueError)
            else:
                o.clear_attr(i)
                before[i - 1] = None
                bare.pop(i, None)
        elif name == "reset" and i > 1 and cls.get_attr_element(i).default is None and (i in bare or not isinstance(dt(cls, i), ut.CHOICE)):
            if i in bare:       # the default of its type
                new = bare[i].copy()
                _, error = attempt(lambda: new.set(None))
            else:
                new, error = attempt(lambda: dt(cls, i)(None))
            if error is None and cls.__name__ == "DemandRegister" and i == 2 and o.get_attr(3) is not None:
                error = None if new.TAG == o.get_attr(3).TAG else ValueError("other tag")
            _, err = attempt(lambda: o.reset_attribute(i))
            ctx.eq(err is None, error is None, f"{op} accepted ({err!r}, {error!r})")
            if error is None:
                before[i - 1] = new.encoding.hex()
                bare[i] = new
        elif name == "data_type":
            ctx.check(o.get_attr_data_type(i) is (o.get_attr(i).__class__ if o.get_attr(i) is not None else dt(cls, i)), "data type")
        elif name == "time":
            o.set_record_time(i, cdt.DateTime(bytearray(bytes.fromhex(op[2]))))
            times[i] = op[2]
        elif name == "outside" and not 1 <= i <= n:
            ctx.raises(lambda: o.get_attr(i), f"get of {i}", IndexError)
            ctx.raises(lambda: o.get_attr_element(i), f"element of {i}", IndexError)
            ctx.raises(lambda: o.set_attr(i, b"\x00"), f"set of {i}", IndexError)
            ctx.raises(lambda: o.set_record_time(i, cdt.DateTime()), f"time of {i}", IndexError)
        ctx.eq(state(o), before, f"attributes after {op}")
        for k in range(1, n + 1):
            t = o.get_record_time(k)
            ctx.eq(None if t is None else t.contents.hex(), times.get(k), f"time of {k} after {op}")
    ctx.eq(sorted(((k, None if v is None else v.encoding.hex()) for k, v in o.get_index_with_attributes()), key=lambda x: x[0]), list(enumerate(before, 1)), "indexes with attributes")
    ctx.nt(good > 1)


def _descriptors(ctx, case):
    key, ln = case
    o, cls = make(key, ln), CLASSES[key]
    head = int(cls.CLASS_ID).to_bytes(2, "big") + bytes.fromhex(ln)
    for i in range(1, len(cls.A_ELEMENTS) + 2):
        ctx.eq(o.get_attr_descriptor(i).contents, head + bytes((i,)), "attribute descriptor")
        ctx.eq(o.get_attribute_descriptor(i), head + bytes((i,)), "attribute descriptor octets")
    for i in range(1, len(cls.M_ELEMENTS) + 1):
        ctx.eq(o.get_meth_descriptor(i).contents, head + bytes((i,)), "method descriptor")
        ctx.check(isinstance(o.get_meth(i), cls.get_meth_element(i).DATA_TYPE), "type of method parameter")
    for i in (-1, 0, len(cls.M_ELEMENTS) + 1):
        ctx.raises(lambda: o.get_meth(i), f"method {i}", IndexError)
        ctx.raises(lambda: o.get_meth_element(i), f"element of method {i}", IndexError)
    ctx.eq([i for i, _ in o.it_index_with_meth], list(range(1, len(cls.M_ELEMENTS) + 1)), "indexes of methods")
    ctx.eq(o.get_attr_length(), len(cls.A_ELEMENTS) + 1, "length")
    ctx.eq(o.get_obis(), bytes.fromhex(ln), "obis")
    ctx.check(o[1] is o.logical_name and o.instance_id is o.logical_name, "logical name")
    other = make(key, ln)
    ctx.eq(hash(o), hash(other), "hash")
    ctx.nt(True)


def _names(ctx, case):
    """a property with the name of an element is that element"""
    key, = case
    o, cls = make(key, "0100010800ff"), CLASSES[key]
    for i in range(1, len(cls.A_ELEMENTS) + 2):
        if i > 1 and o.get_attr(i) is None:
            o.set_attr_force(i, cdt.Unsigned(i))
    props = {n.lower().rstrip("_"): n for n in dir(cls) if isinstance(getattr(cls, n, None), property)}
    found = 0
    for step in range(3):   # as it is, with other values, cleared
        for i in range(1, len(cls.A_ELEMENTS) + 2):
            n = props.get(cls.get_attr_element(i).NAME.lower())
            if n:
                if step and i > 1:
                    o.set_attr_force(i, cdt.LongUnsigned(i)) if step == 1 else o.clear_attr(i)
                ctx.check(getattr(o, n) is o.get_attr(i), f"{n} is attribute {i}, step {step}")
                found += step == 0
    for i in range(1, len(cls.M_ELEMENTS) + 1):
        n = props.get(cls.get_meth_element(i).NAME.lower())
        if n:
            ctx.check(getattr(o, n) is o.get_meth(i), f"{n} is method {i}")
            found += 1
        else:
            f = cls.__dict__.get(cls.get_meth_element(i).NAME.lower())
            if callable(f) and f.__code__.co_argcount == 1:   # a plain method with this name
                ctx.check(f(o) is o.get_meth(i), f"{f.__name__}() is method {i}")
                found += 1
    ctx.nt(found > 1)


def _default(ctx, case):
    """attributes start with the default of their element, and come back to it"""
    key, i, h = case
    o, cls = make(key, "0100010800ff"), CLASSES[key]
    d = cls.get_attr_element(i).default
    want = dt(cls, i)(d).encoding
    ctx.eq(o.get_attr(i).encoding, want, "default")
    _, error = attempt(lambda: o.set_attr(i, bytes.fromhex(h)))
    o.reset_attribute(i)
    ctx.eq(o.get_attr(i).encoding, want, "after reset")
    o.clear_attr(i)
    o.reset_attribute(i)
    ctx.eq(o.get_attr(i).encoding, want, "after clear and reset")
    ctx.nt(error is None)


SPECIALS = [(k, i) for k in KEYS for i in sorted(special(CLASSES[k])) if i <= len(CLASSES[k].A_ELEMENTS) + 1 and special(CLASSES[k]) is not PROFILE]


def refusals():
    return st.sampled_from(SPECIALS).flatmap(lambda x: st.lists(data(dt(CLASSES[x[0]], x[1])), min_size=1, max_size=3).map(lambda h: [*x, h]))


def _refused(ctx, case):
    """an attribute with rules between objects that is refused for an object alone leaves it"""
    key, i, hs = case
    o = make(key, "0000110000ff")
    for h in hs:
        before = state(o)
        _, err = attempt(lambda: o.set_attr(i, bytes.fromhex(h)))
        if err is not None and not isinstance(err, exc.NoObject):    # absence of another object is no fault of the data
            ctx.eq(state(o), before, f"attributes after {err!r}")
            ctx.nt(before[i - 1] is None)
            ctx.label("refused")


DEFAULTS = [(k, i) for k in KEYS for i in attrs(CLASSES[k]) if CLASSES[k].get_attr_element(i).default is not None]


def default_cases():
    return st.sampled_from(DEFAULTS).flatmap(lambda x: fill.enc(dt(CLASSES[x[0]], x[1])).map(lambda b: [x[0], x[1], b.hex()]))


def _changed(ctx, case):
    """element with another type or classifier keeps everything else"""
    key, = case
    cls = CLASSES[key]
    for i in range(1, len(cls.A_ELEMENTS) + 2):
        el = cls.get_attr_element(i)
        keep = {f.name: getattr(el, f.name) for f in dataclasses.fields(el)}
        for kw, own in (({}, {}), ({"data_type": cdt.Unsigned}, {"DATA_TYPE": cdt.Unsigned}), ({"classifier": ic.Classifier.DYNAMIC}, {"classifier": ic.Classifier.DYNAMIC}),
                        ({"data_type": cst.LogicalName, "classifier": ic.Classifier.NOT_SPECIFIC}, {"DATA_TYPE": cst.LogicalName, "classifier": ic.Classifier.NOT_SPECIFIC})):
            new = el.get_change(**kw)
            ctx.eq({f.name: getattr(new, f.name) for f in dataclasses.fields(new)}, {**keep, **own}, f"element {i} with {kw}")
        ctx.check(cls.get_attr_element(i) == el and {f.name: getattr(el, f.name) for f in dataclasses.fields(el)} == keep, "element itself")
        ctx.nt(el.min is not None or el.default is not None or el.selective_access is not None)


@st.composite
def copies(draw):
    key = draw(st.sampled_from(KEYS))
    cls = CLASSES[key]
    ret = []
    for i in attrs(cls):
        if isinstance(dt(cls, i), ut.CHOICE):
            src, dst = draw(st.one_of(st.none(), fill.enc(dt(cls, i)))), None
        else:
            src, dst = draw(st.one_of(st.none(), fill.enc(dt(cls, i)), fill.enc(dt(cls, i)))), draw(st.one_of(st.none(), fill.enc(dt(cls, i))))
        ret.append([i, src and src.hex(), dst and dst.hex()])
    return [key, ret]


def _copy(ctx, case):
    """the copy of an object takes its constant values (and those of a chosen type), keeps others and shares nothing"""
    key, values = case
    a, b, cls = make(key, "0100010800ff"), make(key, "0000600100ff"), CLASSES[key]
    if cls.__name__ == "DemandRegister":
        values = values[:0] + values[2:]      # rule between values
    for i, x, y in values:
        for o, h in ((a, x), (b, y)):
            if h is not None:
                attempt(lambda: o.set_attr(i, bytes.fromhex(h)))
    before, dest = state(a), state(b)
    b.copy(a)
    after = state(b)
    ctx.eq(state(a), before, "source after copy")
    n = 0
    for i in range(2, len(cls.A_ELEMENTS) + 2):
        el = cls.get_attr_element(i)
        if i in special(cls):
            continue
        want = before[i-1]
        if want is None or (el.classifier == ic.Classifier.DYNAMIC and not isinstance(el.DATA_TYPE, ut.CHOICE)):
            want = dest[i-1]
        else:
            n += want != dest[i-1]
            ctx.eq(b.get_attr(i).__class__, a.get_attr(i).__class__, f"class of attribute {i}")
            ctx.check(b.get_attr(i) is not a.get_attr(i), "shared value")
        ctx.eq(after[i-1], want, f"attribute {i} {el.NAME} after copy")
    ctx.eq(after[0], dest[0], "logical name")
    ctx.nt(n > 0)


# ----------------------------------------------------------------- registers: unit of the value
REG = ["register:Register", "extended_register:ExtendedRegister", "demand_register.ver0:DemandRegister"]


@st.composite
def registers(draw):
    key = draw(st.sampled_from(REG))
    cls = CLASSES[key]
    vals, unit = ((2, 3), 4) if "demand" in key else ((2,), 3)
    one = fill.enc(draw(st.sampled_from([cdt.DoubleLongUnsigned, cdt.Integer, cdt.Long64, cdt.LongUnsigned, cdt.Float32, cdt.OctetString, cdt.BitString, cdt.Enum, cdt.NullData])))
    v = one.map(bytes.hex)
    su = st.tuples(st.integers(-9, 9), st.integers(1, 255)).map(lambda x: (b"\x02\x02\x0f" + x[0].to_bytes(1, "big", signed=True) + b"\x16" + bytes((x[1],))).hex())
    op = st.one_of(st.sampled_from(vals).flatmap(lambda i: v.map(lambda h, i=i: ["set", i, h])), su.map(lambda h: ["set", unit, h]), st.sampled_from([*vals, unit]).map(lambda i: ["clear", i]))
    return [key, list(vals), unit, draw(st.lists(op, min_size=2, max_size=9))]


def _registers(ctx, case):
    key, vals, unit, ops = case
    o = make(key, "0100010800ff")
    want = state(o)
    both = False
    for name, i, *h in ops:
        if name == "clear":
            o.clear_attr(i)
            want[i - 1] = None
        else:
            o.set_attr(i, bytes.fromhex(h[0]))
            want[i - 1] = h[0]
        ctx.eq(state(o), want, f"attributes after {name} {i}")
        su = o.get_attr(unit)
        for k in vals:
            v = o.get_attr(k)
            if isinstance(v, (cdt.Digital, cdt.Float)):
                got = v.SCALER_UNIT
                ctx.eq(None if got is None else got.encoding.hex(), None if su is None else su.encoding.hex(), f"unit of the value after {name} {i}")
                both |= su is not None
    ctx.nt(both)
    ctx.label("unit_of_value", both)


PROP = Prop("C35", rule="non-trivial: more than one accepted set (history), value and unit present together (registers), accepted other value (default)", facets=[
    Facet("history", histories(), _history, quick=1500, thorough=60000),
    Facet("registers", registers(), _registers, quick=500, thorough=20000),
    Facet("default", default_cases(), _default, quick=150, thorough=3000),
    Facet("descriptors", st.tuples(st.sampled_from(KEYS), st.binary(min_size=6, max_size=6).map(bytes.hex)).map(list), _descriptors, quick=200, thorough=3000,
          examples=[[k, "0100010800ff"] for k in KEYS]),
    Facet("refused", refusals(), _refused, quick=300, thorough=10000,
          examples=[["association_ln.ver1:AssociationLN", 6, ["0907608574050802%02x" % m]] for m in range(8)] + [[k, 2, ["0901ff"]] for k in KEYS if k.endswith("ActiveFirmwareId")]),
    Facet("copy", copies(), _copy, quick=400, thorough=10000),
    Facet("changed", st.sampled_from(KEYS).map(lambda k: [k]), _changed, quick=100, thorough=100, exhaustive=lambda: ([k] for k in KEYS)),
    Facet("names", st.sampled_from(KEYS).map(lambda k: [k]), _names, quick=100, thorough=100, exhaustive=lambda: ([k] for k in KEYS)),
], assumptions=["Attributes with rules between objects (object list, thresholds, buffers, calendar) are covered by other properties."])
