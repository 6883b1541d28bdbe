"""service layer types over a positioned buffer (cosem_pdu), and the buffer itself"""
from hypothesis import strategies as st
from .. import gens as g
from ..core import Prop, Facet
from src.DLMS_SPODES.types import cosem_pdu as pdu
from src.DLMS_SPODES.types.byte_buffer import ByteBuffer

INT = {"Integer8": "i8", "Integer16": "i16", "Integer32": "i32", "Integer64": "i64", "Unsigned8": "u8", "Unsigned16": "u16", "Unsigned32": "u32", "Unsigned64": "u64", "Bcd": "i8", "Enum": "u8"}
SIZED = {"OctetString4": 4, "OctetString5": 5, "OctetString6": 6, "OctetString8": 8, "OctetString12": 12, "Time": 4}
DATA = {"NULL": 0, "BOOLEAN": 3, "Integer32": 5, "Unsigned32": 6, "OctetString": 9, "Bcd": 13, "Integer8": 15, "Integer16": 16, "Unsigned8": 17, "Unsigned16": 18, "Integer64": 20, "Unsigned64": 21,
        "Enum": 22, "OctetString4": 23, "OctetString8": 24, "OctetString12": 25, "OctetString5": 26, "Time": 27, "DontCare": 255}

ints_ = {n: g.ints(t).map(lambda v, n=n: [n, v]) for n, t in INT.items()}
sized_ = {n: st.binary(min_size=k, max_size=k).map(lambda b, n=n: [n, b.hex()]) for n, k in SIZED.items()}


def base():
    alts = [st.sampled_from(sorted(INT)).flatmap(ints_.__getitem__), st.sampled_from(sorted(SIZED)).flatmap(sized_.__getitem__), g.blobs(20).map(lambda b: ["OctetString", b.hex()]),
            st.booleans().map(lambda v: ["BOOLEAN", v]), st.sampled_from([["NULL", None], ["DontCare", None]])]
    return st.sampled_from([0, 0, 1, 2, 2, 3, 4]).flatmap(alts.__getitem__)


def data(depth=3):
    leaf = base().filter(lambda s: s[0] in DATA).map(lambda s: ["data", s])
    if not depth:
        return leaf
    sub = st.deferred(lambda: data(depth - 1))
    return st.sampled_from([leaf, leaf, st.tuples(st.sampled_from([1, 2]), st.lists(sub, max_size=4)).map(lambda t: ["data", ["of", t[0], t[1]]])]).flatmap(lambda x: x)


def any_type(depth=2):
    if not depth:
        return base()
    sub = any_type(depth - 1)
    alts = [base(), st.tuples(sub.filter(lambda s: s[0] not in ("NULL",)), st.booleans()).map(lambda t: ["opt", t[0], t[1]]),
            st.lists(sub, min_size=1, max_size=10).map(lambda v: ["seq", v]),
            st.tuples(base(), st.integers(0, 5), st.integers(0, 4)).flatmap(lambda t: st.just(["seqof", t[0], [0, 1, 2, 5, 127, 130][t[1]]]) if t[2] == 0 else
                                                                            st.just(["seqof", t[0], t[1]])),
            data()]
    return st.sampled_from([0, 1, 2, 2, 3, 4]).flatmap(alts.__getitem__)


def ref(s):
    t = s[0]
    if t in INT:
        n, signed = g.INTS[INT[t]]
        return s[1].to_bytes(n, "big", signed=signed)
    if t in SIZED:
        return bytes.fromhex(s[1])
    if t == "OctetString":
        b = bytes.fromhex(s[1])
        return g.ref_len(len(b)) + b
    if t == "BOOLEAN":
        return bytes((s[1],))
    if t in ("NULL", "DontCare"):
        return b""
    if t == "opt":
        return b"\x01" + ref(s[1]) if s[2] else b"\x00"
    if t == "seq":
        return b"".join(map(ref, s[1]))
    if t == "seqof":
        return g.ref_len(s[2]) + ref(s[1]) * s[2]
    if t == "data" and s[1][0] == "of":
        return bytes((s[1][1],)) + g.ref_len(len(s[1][2])) + b"".join(map(ref, s[1][2]))
    return bytes((DATA[s[1][0]],)) + ref(s[1])


def type_of(s):
    t = s[0]
    if t == "opt":
        return pdu.OPTIONAL(type_of(s[1]))
    if t == "seq":
        return type("Seq", (pdu.Sequence,), {"__annotations__": {F"f{i}": type_of(it) for i, it in enumerate(s[1])}})
    if t == "seqof":
        return pdu.SEQUENCE_OF(type_of(s[1]))
    if t == "data":
        return pdu.Data
    return getattr(pdu, t)


def build(s, cls):
    t = s[0]
    if t in INT:
        return cls.from_int(s[1])
    if t in SIZED or t == "OctetString":
        return cls(memoryview(bytes.fromhex(s[1])))
    if t == "BOOLEAN":
        return cls.from_int(int(s[1]))
    if t == "NULL":
        return pdu.NULL_
    if t == "DontCare":
        return cls.default()
    if t == "opt":
        return cls(build(s[1], cls.TYPE) if s[2] else pdu.NULL_)
    if t == "seq":
        return cls(tuple(build(it, ty) for it, ty in zip(s[1], cls.__annotations__.values())))
    if t == "seqof":
        return cls([build(s[1], cls.TYPE) for _ in range(s[2])])
    if s[1][0] == "of":
        return cls({e.tag: e for e in pdu.Data.ELEMENTS}[s[1][1]].type([build(it, pdu.Data) for it in s[1][2]]))
    return cls(build(s[1], type_of(s[1])))


def put(x):
    buf = pdu.Buffer.allocate(len(x))
    n = x.put(buf)
    return bytes(buf), n, buf.get_pos()


def check_same(ctx, s, x, where):
    """members of a decoded value equal the generated ones"""
    t = s[0]
    if t in INT:
        ctx.eq(int(x), s[1], where)
    elif t in SIZED or t == "OctetString":
        ctx.eq(bytes(x), bytes.fromhex(s[1]), where)
    elif t == "BOOLEAN":
        ctx.eq(bool(x), s[1], where)
    elif t == "opt":
        if s[2]:
            check_same(ctx, s[1], x.value, where + "?")
        else:
            ctx.check(x.value is pdu.NULL_, where + " absent")
    elif t == "seq":
        for i, it in enumerate(s[1]):
            check_same(ctx, it, x[i], F"{where}.{i}")
            ctx.check(getattr(x, F"f{i}") is x[i], F"{where}: attribute f{i} is member {i}")
    elif t == "seqof":
        ctx.eq(len(x.values), s[2], where + " number")
        for i in range(s[2]):
            check_same(ctx, s[1], x[i], F"{where}[{i}]")
    elif t == "data" and s[1][0] == "of":
        ctx.eq(len(x.value.values), len(s[1][2]), where + " number")
        for i, it in enumerate(s[1][2]):
            check_same(ctx, it, x[i], F"{where}[{i}]")
    elif t == "data":
        check_same(ctx, s[1], x.value, where + ":")


def round_trip(ctx, c):
    s, head, tail = c
    head, tail = bytes.fromhex(head), bytes.fromhex(tail)
    cls, want = type_of(s), ref(s)
    ctx.nt(s[0] in ("seq", "opt", "data", "seqof"))
    ctx.label(s[0])
    x = build(s, cls)
    ctx.eq(len(x), len(want), "announced size")
    got, n, pos = put(x)
    ctx.eq((got, n, pos), (want, len(want), len(want)), "put into a buffer")
    buf = pdu.Buffer.wrap(head + want + tail)
    buf.set_pos(len(head))
    y = cls.get(buf)
    ctx.eq(buf.get_pos(), len(head) + len(want), "position behind the value")
    ctx.eq(put(y)[0], want, "value taken from the buffer")
    check_same(ctx, s, y, s[0])
    ctx.eq(bytes(pdu.create_buf(x)), want, "create_buf")
    for k in range(len(want)) if len(want) <= 150 else sorted({*range(60), *range(60, len(want), 29), *range(len(want) - 40, len(want))}):
        ctx.raises(lambda: cls.get(pdu.Buffer.wrap(want[:k])), F"octets cut to {k} of {len(want)}")
    for k in {0, 1, len(want) // 2, len(want) - 1}:
        if 0 <= k < len(want):
            ctx.raises(lambda: x.put(pdu.Buffer.allocate(k)), F"put into {k} octets of space")


def tags(ctx, c):
    tag, body = c
    ctx.nt()
    buf = pdu.Buffer.wrap(bytes((tag,)) + bytes.fromhex(body))
    if tag not in set(DATA.values()) | {1, 2}:
        ctx.raises(lambda: pdu.Data.get(buf), "unknown tag")
        return
    try:
        x = pdu.Data.get(buf)
    except Exception as e:
        ctx.check(isinstance(e, (BufferError, ValueError, RecursionError)), F"rejected by {e!r}")
        ctx.label("rejected")
        return
    again = pdu.Data.get(pdu.Buffer.wrap(put(x)[0]))
    ctx.eq(put(again)[0], put(x)[0], "own octets are taken back")
    ctx.eq(bytes(x), put(x)[0], "bytes")


def text(ctx, c):
    name, v = c
    cls = getattr(pdu, name)
    lo, hi = g.int_range(INT[name])
    ctx.nt()
    if lo <= v <= hi:
        ctx.eq((int(cls.from_str(str(v))), str(cls.from_int(v)), int(cls.default())), (v, str(v), 0), "text")
        for w in (lo, hi, 0):
            ctx.eq((cls.from_int(v) > cls.from_int(w), cls.from_int(v) == cls.from_int(w)), (v > w, v == w), "order")
    else:
        ctx.raises(lambda: cls.from_int(v), "number out of range")
        ctx.raises(lambda: cls.from_str(str(v)), "text out of range")


def derived(ctx, c):
    """a type derived from an alternative of Data goes under its tag"""
    (name, v), depth, form = c
    cls = getattr(pdu, name)
    for i in range(depth):
        cls = type(F"Derived{i}", (cls,), {})
    x = cls(memoryview(b"")) if name in ("NULL", "DontCare") else cls.from_int(int(v)) if name in INT else cls(memoryview(bytes((v,)) if name == "BOOLEAN" else bytes.fromhex(v)))
    d = pdu.Data(x)
    want = ref(["data", [name, v]])
    ctx.eq(put(d)[0], want, "octets of Data")
    ctx.eq(bytes(d), want, "bytes")
    d.validation()
    if form:
        a = {e.tag: e for e in pdu.Data.ELEMENTS}[form].type([d, d])
        ctx.eq(put(pdu.Data(a))[0], bytes((form, 2)) + want * 2, "octets of the container")
    ctx.nt(depth > 0)
    ctx.label(name)


EQ = sorted(n for n in INT) + ["BOOLEAN"]


def equal(ctx, c):
    """numbers in a choice are equal exactly when alternative and number are"""
    (n1, v1), (n2, v2) = c
    for x, y in ((pdu.Data(build([n1, v1], getattr(pdu, n1))), pdu.Data(build([n2, v2], getattr(pdu, n2)))),):
        same = DATA[n1] == DATA[n2] and int(v1) == int(v2)
        ctx.eq((x == y, y == x, x != y), (same, same, not same), "equality of choices")
        back = pdu.Data.get(pdu.Buffer.wrap(put(x)[0]))
        ctx.check(back == x and x == back, "the value taken back")
        if n1 == n2:
            ctx.eq(x.value == y.value, same, "equality of values")
            if n1 != "BOOLEAN":
                ctx.eq(x.value > y.value, v1 > v2, "order")
                ctx.check(not same or hash(x.value) == hash(y.value), "hash of equal values")
        elif "BOOLEAN" in (n1, n2):
            b, o = (x, y) if n1 == "BOOLEAN" else (y, x)
            ctx.check(b.value != o.value, "a boolean is no number")
    ctx.label("same", same)
    ctx.nt(n1 == n2 or int(v1) == int(v2))


def numbers():
    return st.sampled_from([n for n in EQ if n in DATA]).flatmap(lambda n: ints_[n] if n in INT else st.booleans().map(lambda v: ["BOOLEAN", v])).map(list)


def fits(x, name):
    return x[0] != "BOOLEAN" and name != "BOOLEAN" and g.int_range(INT[name])[0] <= x[1] <= g.int_range(INT[name])[1]


def empty(s):
    """octets of the default value of a declaration"""
    t = s[0]
    if t in INT:
        return bytes(g.INTS[INT[t]][0])
    if t in SIZED:
        return bytes(SIZED[t])
    if t in ("NULL", "DontCare"):
        return b""
    if t == "seq":
        return b"".join(map(empty, s[1]))
    return b"\x00"   # absent, no elements, no octets, false, null-data


def words(s):
    """text of a value of one word, None where it has none"""
    if s[0] in INT:
        return str(s[1])
    if s[0] == "BOOLEAN":
        return str(s[1])
    if s[0] == "opt":
        return (words(s[1]) or None) if s[2] else ""
    if s[0] == "data" and s[1][0] in DATA and words(s[1]) is not None:
        return F"{DATA[s[1][0]]}:{words(s[1])}"
    return None


def composed_text(ctx, c):
    """defaults of declarations and values from text"""
    cls = type_of(c)
    ctx.eq(put(cls.default())[0], empty(c), "default")
    t = c[0]
    w = words(c)
    if t == "seq":
        w = [words(x) for x in c[1]]
        w = " ".join(w) if None not in w and all(x[0] != "seq" for x in c[1]) else None
    elif t == "seqof":
        w = "; ".join([words(c[1])] * c[2]) if c[2] and words(c[1]) is not None else None
    if w is not None:
        ctx.eq(put(cls.from_str(w))[0], ref(c), F"value of text {w!r}")
        ctx.nt()
        ctx.label(t)
    if t == "BOOLEAN":
        ctx.eq((str(cls.from_str(w)), bool(cls.from_str(str(int(c[1]))))), (w, c[1]), "boolean")
        for bad in ("", "2", "true ", "-1", "no"):
            ctx.raises(lambda: cls.from_str(bad), F"text {bad!r}", ValueError)
    if t == "data":
        for bad in (":1", "x:1", "-3:1", "19:1", "28:0", "17"):
            ctx.raises(lambda: cls.from_str(bad), F"text {bad!r}", ValueError)


op = st.one_of(
    st.tuples(st.just("read"), st.integers(0, 12)), st.tuples(st.just("write"), st.binary(max_size=12).map(bytes.hex)), st.tuples(st.just("read_pos"), st.integers(0, 34), st.integers(0, 12)),
    st.tuples(st.just("write_pos"), st.integers(0, 34), st.binary(max_size=12).map(bytes.hex)), st.tuples(st.just("set_pos"), st.integers(-3, 36)), st.tuples(st.just("uint"), st.integers(0, 9)),
    st.tuples(st.just("uint_pos"), st.integers(0, 34), st.integers(0, 9)), st.tuples(st.just("uint8")), st.tuples(st.just("get")), st.tuples(st.just("put_int"), st.integers(-2, 257)),
    st.tuples(st.just("slice")), st.tuples(st.just("frozen")), st.tuples(st.just("remaining")), st.tuples(st.just("put_len"), st.sampled_from([0, 1, 127, 128, 255, 256, 65535, 65536, 1 << 32])),
    st.tuples(st.just("get_length")), st.tuples(st.just("with_length"), st.binary(max_size=6).map(bytes.hex)), st.tuples(st.just("by_length"))).map(list)


def buffer(ctx, c):
    """model: bytearray and a position; a refused operation changes nothing"""
    size, ops = c
    b = pdu.Buffer.allocate(size)
    m, p, done = bytearray(size), 0, 0
    kept = []

    def refused(fn, what):
        ctx.raises(fn, F"{what} beyond the space of {size} at {p}", (BufferError, IndexError, ValueError, TypeError, OverflowError))
    for i, o in enumerate(ops):
        k = o[0]
        w = F"step {i} {o}"
        before = p
        if k == "read":
            if p + o[1] <= size:
                ctx.eq(bytes(b.read(o[1])), bytes(m[p:p + o[1]]), w)
                p += o[1]
            else:
                refused(lambda: b.read(o[1]), w)
        elif k == "get" or k == "uint8":
            if p < size:
                ctx.eq(b.get() if k == "get" else b.get_uint8(), bytes(m[p:p + 1]) if k == "get" else m[p], w)
                p += 1
            else:
                refused(b.get if k == "get" else b.get_uint8, w)
        elif k == "uint":
            if p + o[1] <= size:
                ctx.eq(b.get_uint(o[1]), int.from_bytes(m[p:p + o[1]], "big"), w)
                p += o[1]
            else:
                refused(lambda: b.get_uint(o[1]), w)
        elif k in ("read_pos", "uint_pos"):
            if o[1] + o[2] <= size:
                want = bytes(m[o[1]:o[1] + o[2]])
                ctx.eq(bytes(b.read_pos(o[1], o[2])) if k == "read_pos" else b.get_uint_pos(o[1], o[2]), want if k == "read_pos" else int.from_bytes(want, "big"), w)
            else:
                refused(lambda: b.read_pos(o[1], o[2]), w)
        elif k == "write":
            v = bytes.fromhex(o[1])
            if p + len(v) <= size:
                ctx.eq(b.write(v), len(v), w)
                m[p:p + len(v)] = v
                p += len(v)
            else:
                refused(lambda: b.write(v), w)
        elif k == "write_pos":
            v = bytes.fromhex(o[2])
            if o[1] + len(v) <= size:
                ctx.eq(b.write_pos(v, o[1]), len(v), w)
                m[o[1]:o[1] + len(v)] = v
            else:
                refused(lambda: b.write_pos(v, o[1]), w)
        elif k == "set_pos":
            if 0 <= o[1] <= size:
                b.set_pos(o[1])
                p = o[1]
            else:
                refused(lambda: b.set_pos(o[1]), w)
        elif k == "put_int":
            if p < size and 0 <= o[1] <= 255:
                ctx.eq(b.put_int(o[1]), 1, w)
                m[p] = o[1]
                p += 1
            else:
                refused(lambda: b.put_int(o[1]), w)
                if p == size and 0 <= o[1] <= 255:
                    ctx.raises(lambda: b.put_int(o[1]), "no space for an octet", BufferError)
        elif k in ("slice", "frozen"):
            x = b.slice() if k == "slice" else b.frozen()
            ctx.eq((bytes(x), x.get_pos(), len(x)), (bytes(m[p:] if k == "slice" else m), 0, size - p if k == "slice" else size), w)
            if k == "frozen":
                kept.append((x, bytes(m)))
                if size:
                    ctx.raises(lambda: x.put_int(1), "write into a frozen buffer")
            elif size > p:
                x.put_int(o_ := (m[p] + 37) % 256)       # the slice is a view
                m[p] = o_
        elif k == "remaining":
            ctx.eq(b.remaining(), size - p, w)
        elif k == "put_len":
            v = g.ref_len(o[1])
            ctx.eq(pdu.decide_len(o[1]), len(v), "decide_len")
            if p + len(v) <= size:
                ctx.eq(b.put_len(o[1]), len(v), w)
                m[p:p + len(v)] = v
                p += len(v)
            else:
                try:
                    b.put_len(o[1])
                except (BufferError, IndexError, ValueError):
                    pass
                else:
                    ctx.fail(F"{w} accepted without space")
                return  # a long length may be put partly
        elif k == "with_length":
            v = bytes.fromhex(o[1])
            if p + 1 + len(v) <= size:
                ctx.eq(b.write_with_length(v), 1 + len(v), w)
                m[p:p + 1 + len(v)] = bytes((len(v),)) + v
                p += 1 + len(v)
            else:
                refused(lambda: b.write_with_length(v), w)
                return
        else:
            if p >= size:
                refused(b.get_length, w)
                return
            n, q = m[p], p + 1
            if n & 0x80:
                q += n & 0x7f
                if q > size:
                    refused(b.get_length, w)
                    return
                n = int.from_bytes(m[p + 1:q], "big")
            if k == "get_length":
                ctx.eq(b.get_length(), n, w)
                p = q
            elif q + n <= size:
                ctx.eq(bytes(b.read_by_length()), bytes(m[q:q + n]), w)
                p = q + n
            else:
                refused(b.read_by_length, w)
                return
        done += p != before
        ctx.eq([bytes(x) for x, _ in kept], [v for _, v in kept], "frozen buffers keep their octets")
        ctx.eq((b.get_pos(), bytes(b)), (p, bytes(m)), F"buffer after {w}")
    ctx.nt(done > 1)


PROP = Prop("C18", rule="generated declarations (optional, sequences up to 10 members, sequence-of, Data of depth 3) written and read at any position, every cut; any tag with any octets; "
            "operation sequences on a buffer against a bytearray; non-trivial: composed type / two moves of the position",
            facets=[
                Facet("round_trip", st.tuples(any_type(), st.binary(max_size=4).map(bytes.hex), st.binary(max_size=4).map(bytes.hex)), round_trip, quick=2000, thorough=30000),
                Facet("tags", st.tuples(st.one_of(st.sampled_from([1, 2, 9, 0, 3, 15, 22, 255]), st.integers(0, 255)), st.one_of(st.binary(max_size=16), st.lists(
                    st.sampled_from([0, 1, 2, 3, 9, 15, 17]), max_size=16).map(bytes)).map(bytes.hex)), tags, quick=2000, thorough=30000),
                Facet("text", st.sampled_from(sorted(INT)).flatmap(lambda n: st.tuples(st.just(n), st.one_of(g.ints(INT[n]), st.integers(-(1 << 66), 1 << 66), st.sampled_from(
                    [g.int_range(INT[n])[0] - 1, g.int_range(INT[n])[1] + 1])))), text, quick=1000, thorough=10000),
                Facet("derived", st.tuples(base().filter(lambda s: s[0] in DATA).map(lambda s: [s[0], s[1]]), st.integers(0, 2), st.sampled_from([0, 1, 2])), derived, quick=500, thorough=5000),
                Facet("equal", st.tuples(numbers(), numbers()).flatmap(lambda t: st.sampled_from([list(t), [t[0], t[0]], [t[0], [t[1][0], t[0][1] if fits(t[0], t[1][0]) else t[1][1]]]])), equal, quick=800, thorough=8000),
                Facet("composed", any_type(), composed_text, quick=1000, thorough=10000),
                Facet("buffer", st.tuples(st.one_of(st.integers(0, 32), st.integers(200, 300)), st.lists(op, min_size=2, max_size=25)), buffer, quick=1500, thorough=30000),
            ])
