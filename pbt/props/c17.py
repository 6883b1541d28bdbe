"""service layer types (useful_types): contents and back"""
from dataclasses import make_dataclass
from hypothesis import strategies as st
from .. import gens as g
from ..core import Prop, Facet
from src.DLMS_SPODES.types import ut, serviceClass, priority

INT = {"Integer8": "i8", "Integer16": "i16", "Integer32": "i32", "Integer64": "i64", "Unsigned8": "u8", "Unsigned16": "u16", "Unsigned32": "u32", "Unsigned64": "u64",
       "Bcd": "i8", "Enum": "u8", "CosemClassId": "u16", "CosemObjectAttributeId": "i8", "CosemObjectMethodId": "i8"}
SIZED = {"OctetString4": 4, "OctetString5": 5, "OctetString6": 6, "OctetString8": 8, "OctetString12": 12, "CosemObjectInstanceId": 6}


def base_types():
    return st.one_of(
        st.sampled_from(sorted(INT)).flatmap(lambda n: g.ints(INT[n]).map(lambda v: [n, v])),
        st.sampled_from(sorted(SIZED)).flatmap(lambda n: st.binary(min_size=SIZED[n], max_size=SIZED[n]).map(lambda b: [n, b.hex()])),
        g.blobs().map(lambda b: ["OctetString", b.hex()]),
        st.text(st.characters(min_codepoint=0, max_codepoint=127), max_size=20).map(lambda s: ["VisibleString", s]),
        st.text(st.characters(codec="utf-8"), max_size=20).map(lambda s: ["UTF8String", s]),
        st.booleans().map(lambda v: ["BOOLEAN", v]),
        st.text("01", max_size=40).map(lambda s: ["BitString", s]),
        st.just(["Null", None]))


DATA = {"Null": 0, "BOOLEAN": 3, "BitString": 4, "Integer32": 5, "Unsigned32": 6, "OctetString": 9, "VisibleString": 10, "UTF8String": 12, "Bcd": 13, "Integer8": 15, "Integer16": 16,
        "Unsigned8": 17, "Unsigned16": 18, "Integer64": 20, "Unsigned64": 21, "Enum": 22, "DontCare": 255}


def any_type(depth=2):
    """[type, value]; nested: ["opt", spec | None, type of spec], ["seq", [specs]], ["data", spec]"""
    if not depth:
        return base_types()
    sub = any_type(depth - 1)
    alts = [base_types(), st.tuples(st.booleans(), sub.filter(lambda s: s[0] != "Null")).map(lambda t: ["opt", t[1], t[0]]),
            st.lists(sub, min_size=1, max_size=4).filter(lambda v: ref(v[-1]) != b"").map(lambda v: ["seq", v]),
            base_types().filter(lambda s: s[0] in DATA).map(lambda s: ["data", s])]
    return st.sampled_from([0, 0, 1, 2, 2, 3]).flatmap(alts.__getitem__)


def ref(s):
    t = s[0]
    if t in INT:
        n, signed = g.INTS[INT[t]]
        return s[1].to_bytes(n, "big", signed=signed)
    if t in SIZED:
        return bytes.fromhex(s[1])
    if t == "OctetString":
        b = bytes.fromhex(s[1])
        return g.ref_len(len(b)) + b
    if t in ("VisibleString", "UTF8String"):
        b = s[1].encode("utf-8")
        return g.ref_len(len(b)) + b
    if t == "BOOLEAN":
        return bytes((s[1],))
    if t == "BitString":
        return g.ref_len(len(s[1])) + g.pack_bits(s[1])
    if t in ("Null", "DontCare"):
        return b""
    if t == "opt":
        return b"\x01" + ref(s[1]) if s[2] else b"\x00"
    if t == "seq":
        return b"".join(map(ref, s[1]))
    return bytes((DATA[s[1][0]],)) + ref(s[1])


_types = {}


def type_of(s):
    t = s[0]
    if t == "opt":
        return ut.OPTIONAL(type_of(s[1]))
    if t == "seq":
        return make_dataclass("Seq", [(F"f{i}", type_of(it)) for i, it in enumerate(s[1])], bases=(ut.Sequence,))
    if t == "data":
        return ut.Data
    return getattr(ut, t)


def build(s, cls):
    t = s[0]
    if t in INT or t in ("VisibleString", "UTF8String"):
        return cls(s[1])
    if t in SIZED or t == "OctetString":
        return cls(bytes.fromhex(s[1]))
    if t == "BOOLEAN":
        return cls(s[1])
    if t == "BitString":
        return cls([int(ch) for ch in s[1]])
    if t in ("Null", "DontCare"):
        return cls()
    if t == "opt":
        return cls(build(s[1], cls.TYPE) if s[2] else None)
    if t == "seq":
        import dataclasses
        return cls(*[build(it, f.type) for it, f in zip(s[1], dataclasses.fields(cls))])
    return cls(build(s[1], type_of(s[1])))


def round_trip(ctx, c):
    s, tail = c
    tail = bytes.fromhex(tail)
    cls = type_of(s)
    want = ref(s)
    ctx.nt(s[0] in ("seq", "opt", "data") or len(want) > 2)
    ctx.label(s[0])
    x = build(s, cls)
    ctx.eq(bytes(x.contents), want, "contents")
    if want or s[0] != "seq":
        if want or s[0] in ("Null",):
            y, rest = ut.get_instance_and_context(cls, want + tail)
            ctx.eq(bytes(y.contents), want, "contents of the value taken from contents")
            ctx.eq(rest, tail, "octets behind are handed back")
            ctx.check(type(y) is cls or s[0] == "Null", "type")
            if s[0] in INT or s[0] in ("BOOLEAN", "BitString", "opt", "data"):
                ctx.check(y == x, "equality")
    for n in range(len(want)) if s[0] != "seq" else ():
        ctx.raises(lambda: cls.from_contents(want[:n]), F"contents cut to {n} of {len(want)}")


BASE = {"CosemClassId": "Unsigned16", "CosemObjectAttributeId": "Integer8", "CosemObjectMethodId": "Integer8"}


def derived(ctx, c):
    """a type derived from an alternative of Data goes under its tag"""
    s, depth = c
    name = s[0]
    cls = getattr(ut, name)
    for i in range(depth):
        cls = type(F"Derived{i}", (cls,), {})
    d = ut.Data(build(s, cls))
    want = bytes((DATA[BASE.get(name, name)],)) + ref(s)
    ctx.eq(bytes(d.contents), want, "contents")
    back, rest = ut.get_instance_and_context(ut.Data, want + b"\x55")
    ctx.eq((bytes(back.contents), rest), (want, b"\x55"), "taken back")
    ctx.check(back == d and d == back, "equality")
    ctx.nt(depth > 0 or name in BASE)
    ctx.label(name)


def equal(ctx, c):
    """two values of one type are equal exactly when their octets are"""
    a, b = c
    x, y = (build(s, type_of(s)) for s in c)
    same = ref(a) == ref(b)
    ctx.label("equal", same)
    ctx.nt(not same)
    ctx.eq((x == y, x != y), (same, not same), "equality of values")


def same_type():
    base = base_types().filter(lambda s: s[0] in INT or s[0] in ("BOOLEAN", "BitString"))
    def mate(s):
        other = g.ints(INT[s[0]]) if s[0] in INT else st.booleans() if s[0] == "BOOLEAN" else st.one_of(st.text("01", max_size=40), st.sampled_from([s[1] + "0", "0" + s[1], s[1][:-1]]))
        return st.tuples(st.just(s), st.one_of(st.just(s), other.map(lambda v: [s[0], v])))
    data = base.flatmap(mate)
    return st.one_of(data, data, data.filter(lambda t: t[0][0] in DATA).map(lambda t: [["data", x] for x in t]),
                     st.tuples(*[st.sampled_from(["Unsigned8", "Integer8", "Enum", "Bcd"]).flatmap(lambda n: st.integers(0, 127).map(lambda v: ["data", [n, v]]))] * 2)).map(list)


def text(ctx, c):
    name, s = c
    if name == "BOOLEAN":
        ok = s in ("0", "1", "False", "True")
        if ok:
            x = ut.BOOLEAN.from_str(s)
            ctx.eq((bool(x), int(x), str(x)), (s in ("1", "True"), int(s in ("1", "True")), str(s in ("1", "True"))), "boolean of text")
            ctx.eq(ut.BOOLEAN.from_str(str(x)), x, "own text")
            ctx.check(ut.BOOLEAN.from_int(int(x)) == x, "number")
        else:
            ctx.raises(lambda: ut.BOOLEAN.from_str(s), f"boolean of {s!r}", ValueError)
    else:
        cls = getattr(ut, name)
        ok = name == "UTF8String" or s.isascii()
        if ok:
            for x in (cls(s), cls.from_str(s)):
                ctx.eq((str(x), len(x)), (s, len(s)), "text")
                ctx.eq(x.contents, ref([name, s]), "contents of text")
                if s:
                    ctx.eq((x[0], x[-1]), (s[0], s[-1]), "characters")
        else:
            ctx.raises(lambda: cls(s), f"{name} of {s!r}", ValueError)
            ctx.raises(lambda: cls.from_contents(ref(["UTF8String", s])), f"{name} from octets above 127", ValueError)
    ctx.nt(len(s) > 1)
    ctx.label("rejected", not ok)


def ints(ctx, c):
    name, v, w = c
    cls = getattr(ut, name)
    lo, hi = g.int_range(INT[name])
    ctx.nt(not lo <= v <= hi or v not in (0, 1))
    if not lo <= v <= hi:
        ctx.label("out of range")
        ctx.raises(lambda: cls(v), "number out of range")
        ctx.raises(lambda: cls.from_str(str(v)), "text out of range")
        return
    x = cls(v)
    ctx.eq((int(x), x.value), (v, v), "int")
    ctx.eq(int(cls.from_str(str(v))), v, "text")
    ctx.eq(len(x), g.INTS[INT[name]][0], "len")
    if name != "CosemClassId":
        ctx.eq(str(x), str(v), "str")
    if lo <= w <= hi:
        y = cls(w)
        ctx.eq((x > y, x == y, x < y), (v > w, v == w, v < w), "order")
        ctx.eq(len({x, y}), len({v, w}), "set of numbers")


def data(ctx, c):
    tag, body = c
    body = bytes.fromhex(body)
    ctx.nt()
    if tag not in DATA.values():
        ctx.raises(lambda: ut.Data.from_contents(bytes((tag,)) + body), "unknown tag")
        return
    try:
        x = ut.Data.from_contents(bytes((tag,)) + body)
    except Exception:
        ctx.label("rejected")
        return
    con = bytes(x.contents)
    ctx.eq(con[0], tag, "tag of the value")
    ctx.check(ut.Data.from_contents(con) == x, "value of own contents")
    if tag not in (3, 4):
        ctx.check((bytes((tag,)) + body).startswith(con) or (body[:1] >= b"\x80"), "value of taken octets")


def descriptors(ctx, c):
    cid, ln, idx = c
    b = bytes(ln)
    ctx.nt()
    want = cid.to_bytes(2, "big") + b + idx.to_bytes(1, "big", signed=True)
    for cls, idt in ((ut.CosemAttributeDescriptor, ut.CosemObjectAttributeId), (ut.CosemMethodDescriptor, ut.CosemObjectMethodId)):
        x = cls(ut.CosemClassId(cid), ut.CosemObjectInstanceId(b), idt(idx))
        ctx.eq(x.contents, want, "descriptor octets")
        y = cls.from_contents(want)
        ctx.eq(y.contents, want, "descriptor from octets")
        ctx.eq((int(y.class_id), y.instance_id.contents), (cid, b), "members")
        for n in range(1, 9):
            try:
                z = cls.from_contents(want[:n])
            except Exception:
                continue
            ctx.fail(F"descriptor of {n} octets accepted: {z}")


def invoke(ctx, c):
    v, = c
    ctx.nt()
    iid, sc, pr = v & 15, bool(v & 0x40), bool(v & 0x80)
    x = ut.InvokeIdAndPriority(iid, serviceClass.CONFIRMED if sc else serviceClass.UNCONFIRMED, priority.HIGH if pr else priority.NORMAL)
    ctx.eq((x.contents, int(x)), (bytes((v & 0xcf,)), v & 0xcf), "octet of the members")
    if sc != pr and ctx.known("C17-priority-bit"):
        return
    y = ut.InvokeIdAndPriority.from_contents(bytes((v,)))
    ctx.eq((y.invoke_id, bool(y.service_class.value), bool(y.priority.value)), (iid, sc, pr), "members of the octet")
    ctx.eq(y.contents, bytes((v & 0xcf,)), "octet back")


def flags(ctx, c):
    """A-XDR: every octet but 0 is TRUE, the usage flag of an optional member is such a BOOLEAN"""
    v, = c
    ctx.nt()
    ctx.eq((bool(ut.BOOLEAN.from_contents(bytes((v, 1)))), ut.BOOLEAN.from_contents(bytes((v,))).contents), (v != 0, bytes((v != 0,))), "boolean")
    x = ut.OPTIONAL(ut.Unsigned8).from_contents(bytes((v, 7)))
    ctx.eq(x.contents, b"\x01\x07" if v else b"\x00", "optional member")
    y = ut.Data.from_contents(bytes((3, v)))
    ctx.eq(y.contents, bytes((3, v != 0)), "boolean of data")


PROP = Prop("C17", rule="generated declarations (integers, strings, bit strings, choices, optional members, sequences up to depth 2) and their values against reference octets, every cut, "
            "all invoke octets; non-trivial: composed type or more than two octets",
            facets=[
                Facet("round_trip", st.tuples(any_type(), st.binary(max_size=3).map(bytes.hex)), round_trip, quick=2500, thorough=30000),
                Facet("ints", st.sampled_from(sorted(INT)).flatmap(lambda n: st.tuples(st.just(n), st.one_of(g.ints(INT[n]), st.integers(-(1 << 66), 1 << 66), st.sampled_from(
                    [g.int_range(INT[n])[0] - 1, g.int_range(INT[n])[1] + 1])), g.ints(INT[n]))), ints, quick=1500, thorough=15000),
                Facet("equal", same_type(), equal, quick=600, thorough=8000),
                Facet("derived", st.tuples(st.one_of(base_types().filter(lambda s: s[0] in DATA or s[0] in BASE), st.integers(0, 255).map(lambda v: ["Enum", v]), st.just(["DontCare", None])), st.integers(0, 2)), derived, quick=500, thorough=5000),
                Facet("text", st.one_of(st.tuples(st.just("BOOLEAN"), st.one_of(st.sampled_from(["0", "1", "False", "True", "", "2", "false", "00", "TRUE"]), st.text("01TrueFals", max_size=5))),
                                        st.tuples(st.sampled_from(["VisibleString", "UTF8String"]), st.one_of(st.text(st.characters(max_codepoint=127), max_size=20), st.text(st.characters(codec="utf-8"), max_size=20)))).map(list),
                      text, quick=500, thorough=5000),
                Facet("data", st.tuples(st.one_of(st.sampled_from(sorted(DATA.values())), st.integers(0, 255)), st.binary(max_size=12).map(bytes.hex)), data, quick=2000, thorough=20000),
                Facet("descriptors", st.tuples(g.ints("u16"), st.lists(st.integers(0, 255), min_size=6, max_size=6), g.ints("i8")), descriptors, quick=500, thorough=5000),
                Facet("flags", None, flags, exhaustive=lambda: ([v] for v in range(256))),
                Facet("invoke", None, invoke, exhaustive=lambda: ([v] for v in range(256))),
            ], assumptions=["members without octets do not stand at the end of a sequence", "a sequence whose octets end between its members is judged only for descriptors"])
