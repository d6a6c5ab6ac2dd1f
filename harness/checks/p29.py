"""Buffers and value objects compare by content, and hash alike."""
import array
import copy
import pickle
import struct

from harness.core import check, expect_raises
from harness.svz import AlwaysEqual
from v8serialize import JSRegExpFlag
from v8serialize.constants import SerializationTag
from v8serialize.jstypes import (JSArray, JSArrayBuffer, JSArrayBufferTransfer, JSBigInt64Array, JSBigUint64Array, JSDataView, JSError, JSErrorData, JSFloat16Array,
                                 JSFloat32Array, JSFloat64Array, JSInt8Array, JSInt16Array, JSInt32Array, JSMap, JSObject, JSPrimitiveObject, JSRegExp, JSSet,
                                 JSSharedArrayBuffer, JSUint8Array, JSUint8ClampedArray, JSUint16Array, JSUint32Array)
from v8serialize.jstypes._v8 import V8SharedObjectReference

QUICK, THOROUGH = 120000, 3000000
RULE = "distinct (kinds of both values, backing of both, outcome) of comparisons, and (kind, change) of comparisons repeated after a change"
MIN = {"view pairs": 15000, "equal view pairs": 6000, "equal view pairs of different kinds": 2000, "hashes compared": 9000, "buffer pairs": 9000, "equal buffer pairs": 2000,
       "comparisons after changes": 15000, "changes that decide": 4000, "inaccessible pairs": 3000, "primitive pairs": 6000, "equal primitive pairs": 2000, "regexp pairs": 4000,
       "equal regexp pairs": 700, "unhashable": 20000, "lookups": 9000, "copies": 4000, "frozen": 3000, "large pairs": 100, "comparisons with other types": 8000}
ASSUMPTIONS = ["elements compare as Python numbers (NaN equals nothing; a view is always equal to itself)", "only memory nobody can write is hashable", "comparing buffers with bytearrays and memoryviews, which compare themselves with any buffer, is not specified"]

KINDS = {JSInt8Array: "b", JSUint8Array: "B", JSUint8ClampedArray: "B", JSInt16Array: "h", JSUint16Array: "H", JSInt32Array: "i", JSUint32Array: "I", JSFloat16Array: "e", JSFloat32Array: "f",
         JSFloat64Array: "d", JSBigInt64Array: "q", JSBigUint64Array: "Q", JSDataView: "B"}
VIEWS = list(KINDS)
NAN = float("nan")


def size(cls):
    return struct.calcsize("<" + KINDS[cls])


def case(sh, rng):
    rng.choices([views, buffers, changes, inaccessible, primitives, regexps, references, others, containers], [8, 3, 4, 2, 3, 2, 1, 1, 1])[0](sh, rng)


def pack(cls, xs):
    """The values as elements of the class, as far as it can hold them."""
    f = "<" + KINDS[cls]
    out = []
    for x in xs:
        if KINDS[cls] in "efd":
            try:
                out.append(struct.pack(f, x))
            except (OverflowError, struct.error):
                out.append(struct.pack(f, 0))
        else:
            n = size(cls)
            i = 0 if x != x or x in (float("inf"), -float("inf")) else int(x)
            out.append((i % (1 << 8 * n)).to_bytes(n, "little"))
    return b"".join(out)


def unpack(cls, data):
    n = size(cls)
    return [struct.unpack_from("<" + KINDS[cls], data, i)[0] for i in range(0, len(data) // n * n, n)]


def back(rng, data):
    """(backing buffer, hashable or None when unspecified, setter of all bytes or None, name)"""
    k = rng.randrange(11)
    if k == 0:
        return bytes(data), True, None, "bytes"
    if k == 1:
        b = bytearray(data)
        return b, False, b, "bytearray"
    if k == 2:
        b = JSArrayBuffer(bytes(data))
        return b, False, b, "buffer"
    if k == 3:
        return JSArrayBuffer(bytes(data), readonly=True), True, None, "read-only buffer"
    if k == 4:
        b = JSArrayBuffer(bytes(data), max_byte_length=len(data) + rng.randrange(20))
        return b, False, b, "resizable buffer"
    if k == 5:
        return JSArrayBuffer(bytes(data), copy_data=False), True, None, "wrapped bytes"
    if k == 6:
        b = bytearray(data)
        return JSArrayBuffer(b, copy_data=False), False, b, "wrapped bytearray"
    if k == 7:
        return memoryview(bytes(data)), True, None, "memoryview of bytes"
    if k == 8:
        b = bytearray(data)
        return memoryview(b), False, b, "memoryview of bytearray"
    if k == 9:
        b = bytearray(data)
        return memoryview(b).toreadonly(), None, b, "read-only memoryview of bytearray"
    b = array.array("B", data)
    return b, None, b, "array"


class Made:
    """A view and everything the oracle knows about it."""

    def __init__(self, rng, cls, data, shape=None):
        """data: the bytes the view is to show."""
        n = size(cls)
        pre = rng.choice([0, 0, 1, 3]) * n
        post = rng.choice([0, 0, 1, 9])
        self.cls, self.bytes = cls, rng.randbytes(pre) + data + rng.randbytes(post)
        self.buf, self.hashable, self.mem, self.name = back(rng, self.bytes)
        self.offset = pre // n
        self.length = len(data) // n
        if not post and rng.random() < 0.5:
            self.length = None
        if rng.random() < 0.04:
            self.offset += 50  # out of range
        elif self.length is not None and rng.random() < 0.03:
            self.length += 90
        ro = rng.choice([None, None, True])
        self.view = cls(self.buf, self.offset, self.length, ro)
        self.text = f"{cls.__name__}({self.name} {self.bytes[:40].hex()}, {self.offset}, {self.length})"

    def items(self):
        n = size(self.cls)
        start = self.offset * n
        end = len(self.bytes) if self.length is None else start + self.length * n
        if start > len(self.bytes) or end > len(self.bytes):
            return []
        return unpack(self.cls, self.bytes[start:end])


def try_hash(v):
    try:
        return hash(v)
    except (TypeError, ValueError):
        return None


def compare(sh, a, b, want, what):
    """a and b compare as wanted in both directions, and hash alike when equal."""
    for x, y in ((a, b), (b, a)):
        check((x == y) is want, "%s: == is %s, expected %s", what, x == y, want)
        check((x != y) is (not want), "%s: != is %s", what, x != y)
    ha, hb = try_hash(a), try_hash(b)
    check(ha == try_hash(a) and hb == try_hash(b), "%s: hashes change", what)
    if want and ha is not None and hb is not None:
        sh.count("hashes compared")
        check(ha == hb, "%s: equal, but hashes differ", what)
    if ha is not None and hb is not None:
        sh.count("lookups")
        check((b in {a}) is want and (a in {b: 1}) is want and len({a, b}) == (1 if want or a is b else 2), "%s: lookup", what)
    return ha, hb


def hashable(sh, v, want, what):
    if want:
        check(type(hash(v)) is int, "%s: hash", what)
    elif want is False:
        sh.count("unhashable")
        expect_raises((TypeError, ValueError), lambda: hash(v), what + " hashed")


NUMBERS = [0, 0, 1, 1, 2, 3, 5, 100, 127, -1, -2, -128, 0.0, -0.0, 0.5, 1.5, 128, 255, 256, 1000, 32767, 65535, 65504, -32768, 2**31, 2**32 - 1, 2**53, -(2**31), 2**63, 2**64 - 1,
           float("inf"), -float("inf"), 1e300, 2**24 + 1, 1 / 3, 257, 0x0101, 0x01010101]


def values(rng):
    n = rng.choice([0, 1, 1, 1, 2, 3, 4, 8] if rng.random() < 0.99 else [40, 300, 1500])
    if rng.random() < 0.15:
        return [rng.choice([0, 1, -1])] * n
    return [NAN if rng.random() < 0.02 else rng.choice(NUMBERS) if rng.random() < 0.4 else rng.randrange(0, 128) for _ in range(n)]


def element_equal(x, y):
    return len(x) == len(y) and all(a == b for a, b in zip(x, y))


def views(sh, rng):
    xs = values(rng)
    k1 = rng.choice(VIEWS)
    k2 = k1 if rng.random() < 0.3 else rng.choice(VIEWS)
    ys = list(xs)
    how = rng.randrange(6)
    if how == 0 and ys:
        ys[rng.randrange(len(ys))] = rng.choice(NUMBERS)
    elif how == 1:
        ys = ys[:-1] if rng.random() < 0.5 else ys + [rng.choice([0, 1])]
    elif how == 2:
        rng.shuffle(ys)
    d1 = pack(k1, xs)
    d2 = pack(k2, ys)
    if how == 3:  # the same bytes, seen differently
        d2 = d1[:len(d1) // size(k2) * size(k2)]
    a, b = Made(rng, k1, d1), Made(rng, k2, d2)
    want = element_equal(a.items(), b.items())
    what = f"{a.text} and {b.text}"
    sh.count("view pairs")
    sh.count("large pairs", len(xs) > 30)
    sh.count("equal view pairs", want)
    sh.count("equal view pairs of different kinds", want and k1 is not k2 and bool(a.items()))
    compare(sh, a.view, b.view, want, what)
    check(a.view == a.view and not a.view != a.view, "%s: not equal to itself", a.text)
    hashable(sh, a.view, a.hashable, a.text)
    hashable(sh, b.view, b.hashable, b.text)
    sh.nontrivial("view", k1.__name__, k2.__name__, a.name, b.name, want)
    if rng.random() < 0.2 and not isinstance(a.buf, memoryview):
        copies(sh, rng, a.view, element_equal(a.items(), a.items()), a.text)
    if rng.random() < 0.1:
        foreign(sh, rng, a.view, a.text, [a.bytes, bytearray(a.bytes), memoryview(a.bytes), a.items(), tuple(a.items()), array.array("B", a.bytes)] + ([] if k1 is JSDataView else [a.buf]))
    if rng.random() < 0.1:
        frozen(sh, rng, a.view, ["backing_buffer", "item_offset", "item_length", "readonly"], a.text)


def copies(sh, rng, v, want, what):
    sh.count("copies")
    for c in (copy.copy(v), copy.deepcopy(v), pickle.loads(pickle.dumps(v))):
        check(type(c) is type(v), "%s: a copy is a %s", what, type(c).__name__)
        compare(sh, v, c, want or c is v, what + " and its copy")


def foreign(sh, rng, v, what, xs):
    for x in xs + [None, 1, "a", object(), True, (), float("nan"), JSObject(), type(v)]:
        sh.count("comparisons with other types")
        check((v == x) is False and (x == v) is False and (v != x) is True and (x != v) is True, "%s compared with %s %.60s", what, type(x).__name__, x)
    x = AlwaysEqual()
    check((v == x) is True, "%s: a value that is equal to everything is not asked", what)


def frozen(sh, rng, v, fields, what):
    sh.count("frozen")
    f = rng.choice(fields)
    was = getattr(v, f)
    expect_raises((AttributeError, TypeError), lambda: setattr(v, f, was), f"{what}: setting {f}")
    expect_raises((AttributeError, TypeError), lambda: delattr(v, f), f"{what}: deleting {f}")
    check(getattr(v, f) is was, "%s: %s", what, f)


class Buf:
    def __init__(self, rng, data, maximum, resizable, hashable_):
        self.data, self.maximum, self.resizable, self.hashable = data, maximum, resizable, hashable_


def buffer(rng, data):
    """(JSArrayBuffer, what it must compare as, hashable or None, name)"""
    n = len(data)
    k = rng.randrange(9)
    if k == 0:
        return JSArrayBuffer(data), (data, n, False), False, "buffer"
    if k == 1:
        return JSArrayBuffer(data, readonly=True), (data, n, False), True, "read-only"
    if k == 2:
        return JSArrayBuffer(data, resizable=True), (data, n, True), False, "resizable"
    if k == 3:
        m = n + rng.choice([0, 1, 5])
        return JSArrayBuffer(data, max_byte_length=m), (data, m, True), False, "maximum"
    if k == 4:
        return JSArrayBuffer(data, copy_data=False), (data, n, False), True, "wrapped bytes"
    if k == 5:
        return JSArrayBuffer(bytearray(data), copy_data=False), (data, n, False), False, "wrapped bytearray"
    if k == 6:
        return JSArrayBuffer(memoryview(data), copy_data=False), (data, n, False), True, "wrapped memoryview"
    if k == 7:
        return JSArrayBuffer(memoryview(bytearray(data)), copy_data=False), (data, n, False), False, "wrapped memoryview of bytearray"
    e = data[:n // 2 * 2]
    return JSArrayBuffer(memoryview(e).cast("H"), copy_data=False), (e, len(e), False), None, "wrapped memoryview of uint16"


def buffers(sh, rng):
    data = rng.randbytes(rng.choice([0, 1, 2, 4, 7, 8] if rng.random() < 0.98 else [100, 5000]))
    other = data
    if rng.random() < 0.4:
        other = rng.choice([data + b"\0", data[:-1], data[::-1], bytes(len(data)), data[:-1] + b"\1"])
    a, ma, ha, na = buffer(rng, data)
    b, mb, hb, nb = buffer(rng, other)
    what = f"{na} {ma} and {nb} {mb}"[:300]
    want = ma == mb
    sh.count("buffer pairs")
    sh.count("equal buffer pairs", want)
    compare(sh, a, b, want, what)
    hashable(sh, a, ha, na)
    hashable(sh, b, hb, nb)
    sh.nontrivial("buffer", na, nb, want)
    if rng.random() < 0.2:
        foreign(sh, rng, a, what, [data, JSUint8Array(data), JSSharedArrayBuffer(0), JSArrayBufferTransfer(0), list(data)])
    if rng.random() < 0.2:
        frozen(sh, rng, a, ["max_byte_length", "resizable"], what)
    if rng.random() < 0.2 and "memoryview" not in na:
        copies(sh, rng, a, True, na)
    if ha is False and rng.random() < 0.5:
        with a.data as d:
            if len(d):
                d[0] ^= 1
                check((a == b) is (bytes(d) == mb[0] and ma[1:] == mb[1:]), "%s: after writing", what)


def changes(sh, rng):
    """Equality follows the memory as it is now."""
    n = rng.choice([1, 4, 8, 16, 24])
    data = bytearray(rng.choice([0, 1, 255]) for _ in range(n))
    m = rng.choice([n, n + 8, 64])
    buf = JSArrayBuffer(bytes(data), max_byte_length=m)
    other = JSArrayBuffer(bytes(data), max_byte_length=m)
    made = []
    for b in (buf, other, buf):
        cls = rng.choice([JSUint8Array, JSInt8Array, JSDataView, JSUint16Array, JSFloat32Array] + VIEWS)
        off = rng.choice([0, 0, 0, 1, 2])
        length = rng.choice([None, None, 0, 1, max(0, n // size(cls) - off)])
        made.append((cls, off, length, cls(b, off, length), b))
    state = {id(buf): bytearray(data), id(other): bytearray(data)}
    ops = []

    def items(v):
        cls, off, length, _, b = v
        d = state[id(b)]
        start = off * size(cls)
        end = len(d) if length is None else start + length * size(cls)
        return [] if start > len(d) or end > len(d) else unpack(cls, d[start:end])

    previous = None
    for _ in range(rng.choice([2, 4, 8])):
        results = []
        for i in range(3):
            for j in range(i, 3):
                sh.count("comparisons after changes")
                x, y = made[i], made[j]
                want = i == j or element_equal(items(x), items(y))
                what = f"{x[0].__name__} {x[1:3]} and {y[0].__name__} {y[1:3]} after {ops} on {data.hex()}"
                for p, q in ((x, y), (y, x)):
                    check((p[3] == q[3]) is want and (p[3] != q[3]) is not want, "%s: == is %s", what, p[3] == q[3])
                results.append(want)
        wantb = state[id(buf)] == state[id(other)]
        check((buf == other) is wantb and (other != buf) is not wantb, "buffers after %s", ops)
        results.append(wantb)
        if previous is not None and results != previous:
            sh.count("changes that decide")
        previous = results
        b = rng.choice([buf, other])
        d = state[id(b)]
        op = rng.choice(["resize", "write", "same", "fill"])
        if op == "resize":
            k = rng.choice([0, 1, n - 1, n, min(m, n + 1), min(m, n + 8), m, len(state[id(other if b is buf else buf)])])
            b.resize(k)
            state[id(b)] = d[:k] + bytearray(max(0, k - len(d)))
        elif op == "write" and d:
            i = rng.randrange(len(d))
            d[i] = rng.choice([0, 1, 255, d[i] ^ 128])
            b.data[i] = d[i]
        elif op == "same":
            o = other if b is buf else buf
            b.resize(len(state[id(o)]))
            b.data[:] = state[id(o)]
            state[id(b)] = bytearray(state[id(o)])
        elif op == "fill" and d:
            x = rng.choice([0, 1, 255])
            d[:] = bytes([x]) * len(d)
            b.data[:] = d
        ops.append((op, "ab"[b is other], len(state[id(b)])))
    sh.nontrivial("changes", tuple(sorted(v[0].__name__ for v in made)), tuple(o[0] for o in ops))


def inaccessible(sh, rng):
    """Views of memory Python cannot read: the same region of the same buffer."""
    def one():
        kind = rng.choice([JSSharedArrayBuffer, JSArrayBufferTransfer])
        i, cls, off, length = rng.choice([0, 1, 1]), rng.choice([JSUint8Array, JSInt16Array, JSDataView, JSFloat64Array] if rng.random() < 0.8 else VIEWS), rng.choice([0, 0, 1]), rng.choice([0, 1, 2])
        return cls(kind(i), off, length), (cls, kind, i, off, length)
    if rng.random() < 0.15:
        m = Made(rng, rng.choice(VIEWS), b"" if rng.random() < 0.6 else b"\0" * 8)
        v, mv = one()
        sh.count("inaccessible pairs")
        compare(sh, v, m.view, False, f"{mv} and {m.text}")
        return
    a, ma = one()
    b, mb = one()
    if rng.random() < 0.4:
        cls, kind, i, off, length = mb = ma
        b = cls(kind(i), off, length)
    sh.count("inaccessible pairs")
    what = f"{ma} and {mb}"
    ha, _ = compare(sh, a, b, ma == mb, what)
    check(ha is not None, "%s: not hashable", what)
    x, y = a.backing_buffer, b.backing_buffer
    compare(sh, x, y, ma[1:3] == mb[1:3], f"buffers of {what}")
    check(x in {y} or ma[1:3] != mb[1:3], "lookup")
    if rng.random() < 0.2:
        foreign(sh, rng, x, what, [ma[2], (ma[2],), JSArrayBuffer(b""), V8SharedObjectReference(ma[2])])
        frozen(sh, rng, x, ["buffer_id" if ma[1] is JSSharedArrayBuffer else "transfer_id"], what)
        copies(sh, rng, a, True, what)
        copies(sh, rng, x, True, what)
    sh.nontrivial("inaccessible", ma[0].__name__, mb[0].__name__, ma[1] is mb[1], ma == mb)


NUM, BIG, STR, T, F = (SerializationTag.kNumberObject, SerializationTag.kBigIntObject, SerializationTag.kStringObject, SerializationTag.kTrueObject, SerializationTag.kFalseObject)


def primitive(rng, x=None):
    if x is None:
        x = rng.choice([0, 1, 1.0, 0.0, -0.0, True, False, "", "a", "1", "é", "\ud800", 2**53 - 1, 1 - 2**53, 2**53, -(2**53), 2**53 + 1, 2**70, -1, -(2**70), 0.5, NAN, float("nan"), float("inf"), float(2**53), float(2**70), "True"])
    tag = {str: STR, float: NUM}.get(type(x)) or (T if x is True else F if x is False else BIG if abs(x) > 2**53 - 1 else rng.choice([NUM, BIG]))
    explicit = tag is BIG and abs(x) <= 2**53 - 1 or rng.random() < 0.3
    o = JSPrimitiveObject(x, tag) if explicit else JSPrimitiveObject(x)
    check((o.value is x or o.value == x and type(o.value) is type(x)) and (o.tag is tag or not explicit and tag is BIG and abs(x) <= 2**53 - 1), "JSPrimitiveObject(%r%s) is %r", x, f", {tag!r}" if explicit else "", o)
    return o, (x, tag)


def primitives(sh, rng):
    a, (x, tx) = primitive(rng)
    b, (y, ty) = primitive(rng, x if rng.random() < 0.4 else float(x) if rng.random() < 0.1 and type(x) is int else None)
    check(a.value is x and a.tag is tx and b.tag is ty, "%r: value and tag", a)
    want = tx is ty and (x is y or x == y)
    sh.count("primitive pairs")
    sh.count("equal primitive pairs", want)
    ha, hb = compare(sh, a, b, want, f"boxed {x!r} {tx!s} and {y!r} {ty!s}")
    check(ha is not None and hb is not None, "boxed %r: not hashable", x)
    sh.nontrivial("primitive", repr(x), str(tx), repr(y), str(ty))
    if rng.random() < 0.3:
        foreign(sh, rng, a, f"boxed {x!r}", [x, (x, tx), tx])
        frozen(sh, rng, a, ["value", "tag"], f"boxed {x!r}")
        if x == x:
            copies(sh, rng, a, True, f"boxed {x!r}")


FLAGS = [f for f in JSRegExpFlag]


def regexps(sh, rng):
    def one():
        f = JSRegExpFlag.NoFlag
        for g in FLAGS:
            if rng.random() < 0.15:
                f |= g
        if f & JSRegExpFlag.Unicode and f & JSRegExpFlag.UnicodeSets:
            f ^= JSRegExpFlag.Unicode
        s = rng.choice(["", "(?:)", "a", "a", "b", "/", "\\/", "é", "[", "A"])
        return JSRegExp(s, f) if f or rng.random() < 0.5 else JSRegExp(s), (s or "(?:)", f)
    a, ma = one()
    b, mb = one()
    if rng.random() < 0.3:
        f = mb[1]
        if rng.random() < 0.5:
            f = ma[1]
        mb = (ma[0], f)
        b = JSRegExp(*mb)
    want = ma == mb
    sh.count("regexp pairs")
    sh.count("equal regexp pairs", want)
    what = f"{ma} and {mb}"
    ha, _ = compare(sh, a, b, want, what)
    check(ha is not None, "%s: not hashable", what)
    sh.nontrivial("regexp", ma, mb)
    if rng.random() < 0.3:
        foreign(sh, rng, a, what, [a.source, ma, a.flags, a.as_python_pattern(throw=False)])
        frozen(sh, rng, a, ["source", "flags"], what)
        copies(sh, rng, a, True, what)


def references(sh, rng):
    i, j = rng.choice([0, 1, 2**32 - 1, 300]), rng.choice([0, 1, 2**32 - 1, 300])
    kinds = [V8SharedObjectReference, JSSharedArrayBuffer, JSArrayBufferTransfer]
    k, l = rng.choice(kinds), rng.choice(kinds)
    a, b = k(i), l(j)
    ha, _ = compare(sh, a, b, k is l and i == j, f"{a!r} and {b!r}")
    check(ha is not None, "%r: not hashable", a)
    foreign(sh, rng, a, repr(a), [i, (i,), JSPrimitiveObject(i)])
    frozen(sh, rng, a, [{V8SharedObjectReference: "shared_value_id", JSSharedArrayBuffer: "buffer_id", JSArrayBufferTransfer: "transfer_id"}[k]], repr(a))
    copies(sh, rng, a, True, repr(a))
    sh.nontrivial("reference", k.__name__, l.__name__, i == j)


def others(sh, rng):
    """Values of different types are not equal, however alike."""
    xs = [JSArrayBuffer(b""), JSSharedArrayBuffer(0), JSArrayBufferTransfer(0), V8SharedObjectReference(0), JSPrimitiveObject(0), JSPrimitiveObject(""), JSPrimitiveObject(False), JSRegExp("a"), JSUint8Array(b""),
          JSObject(), JSMap(), JSSet(), JSError(""), JSUint8Array(JSSharedArrayBuffer(0), 0, 0)]
    for _ in range(4):
        a, b = rng.sample(range(len(xs)), 2)
        compare(sh, xs[a], xs[b], False, f"{xs[a]!r} and {xs[b]!r}")
    sh.count("comparisons with other types", 4)


def containers(sh, rng):
    """What can change has no hash."""
    xs = rng.choice([[], [1], ["a", 2]])
    vs = [JSObject(enumerate(xs)), JSArray(xs), JSMap(enumerate(xs)), JSSet(xs), JSError("m"), JSErrorData("m"), JSObject().array, JSArray(xs).array]
    for v in vs:
        hashable(sh, v, False, type(v).__name__)
        expect_raises(TypeError, lambda: {v}, f"{type(v).__name__} in a set")
        expect_raises(TypeError, lambda: {v: 1}, f"{type(v).__name__} as a key")
        check(v == v and not v != v, "%r: not equal to itself", v)
