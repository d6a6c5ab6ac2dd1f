"""Low-level reads invert low-level writes at exact positions."""
import math
import struct
from datetime import datetime, timedelta, timezone
from types import SimpleNamespace

from harness.core import Violation, check, expect_raises
from harness.util import as_flags, pick_features
from v8serialize.constants import (
    JS_ARRAY_BUFFER_TAGS, JS_CONSTANT_TAGS, JS_OBJECT_KEY_TAGS, JS_PRIMITIVE_OBJECT_TAGS, JS_STRING_TAGS, ArrayBufferViewTag,
    JSErrorName, JSRegExpFlag, SerializationTag, TagConstraint)
from v8serialize import V8SerializeError
from v8serialize.decode import DecodeV8SerializeError, DefaultDecodeContext, ReadableTagStream
from v8serialize.encode import DefaultEncodeContext, EncodeV8SerializeError, WritableTagStream
from v8serialize.jstypes._v8 import V8SharedObjectReference
from v8serialize.jstypes import JSArrayBuffer, JSArrayBufferTransfer, JSPrimitiveObject, JSRegExp, JSSharedArrayBuffer

QUICK, THOROUGH = 36000, 700000
RULE = "distinct sequences of (kind, nesting, position parity) in programs"
MIN = {"programs": 8000, "items written": 100000, "items read back": 800000, "positions checked": 800000, "illegal values refused": 25000,
       "wrong kinds refused": 180000, "peeks": 150000, "cuts refused": 120000, "invalid data refused": 16000, "constrained writes": 90000, "constraints left by exceptions": 8000}
ASSUMPTIONS = ["the byte encodings were written from the format, not from the code"]
TAGS = list(SerializationTag)
TAG_BYTES = {int(t) for t in TAGS}
T = SerializationTag
EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)


# --- an independent encoder -------------------------------------------------
def varint(n):
    out = bytearray()
    while n > 127:
        out.append(n % 128 + 128)
        n //= 128
    out.append(n)
    return bytes(out)


def zigzag(n):
    return varint(2 * n if n >= 0 else -2 * n - 1)


def double(x):
    return struct.pack("<d", x)


def bigint(n):
    size = len(bin(abs(n))) - 2 if n else 0
    size = size // 8 + 1
    return varint(size * 2 + (n < 0)) + abs(n).to_bytes(size, "little")


def text8(s):
    return varint(len(s.encode())) + s.encode()


# --- values -----------------------------------------------------------------
CHARS = ["", "a", "é", "ÿ", "Ā", "€", "😀", "\0", "\n", "日", "\u2028", "\ufeff", "\uffff", "\x7f", "\x80"]


def text(rng, latin=False):
    cs = [c for c in CHARS if all(ord(x) < 256 for x in c)] if latin else CHARS
    n = rng.choice([0, 1, 2, 3, 5, 9]) if rng.random() < 0.95 else rng.choice([63, 64, 65, 127, 128, 129, 200, 8200])
    return "".join(rng.choice(cs) for _ in range(n))


def bad_text(rng):
    s = text(rng)[:9]
    i = rng.randint(0, len(s))
    return s[:i] + rng.choice(["\ud800", "\udfff", "\udc00", "\udbff"]) + s[i:]


def integer(rng, bits=None):
    b = bits or rng.choice([1, 6, 7, 8, 13, 14, 15, 20, 21, 22, 28, 29, 31, 32, 33, 35, 53, 54, 63, 64, 65, 70, 127, 128, 200, 1100])
    b = rng.randint(1, b)
    n = rng.choice([0, (1 << b) - 1, 1 << (b - 1), rng.getrandbits(b), rng.getrandbits(b)])
    return n


def number(rng):
    r = rng.random()
    if r < 0.3:
        return rng.choice([0.0, -0.0, math.inf, -math.inf, math.nan, 5e-324, 1.7976931348623157e308, 2.0**53, 2**53 - 1, 1e21, 0.1, -1.5])
    if r < 0.6:
        return struct.unpack("<d", rng.randbytes(8))[0]
    if r < 0.8:
        return rng.choice([-1, 1]) * integer(rng)
    return rng.uniform(-1e6, 1e6)


def same_double(a, b):
    return type(b) is float and (struct.pack("<d", a) == struct.pack("<d", b) or a != a and b != b)


class State:
    """What the expected bytes of a program depend on."""

    def __init__(self, start):
        self.out = bytearray(start)
        self.ids = 0

    def add(self, b):
        self.out += b

    def take(self):
        self.ids += 1
        return self.ids - 1


class Op:
    """One item; tag is the byte it starts with (None: untagged)."""
    tag = None
    nested = ()
    obj_id = None
    open = False

    def __init__(self, p, rng, tagged=True, depth=0):
        self.p, self.rng = p, rng
        self.tagged = tagged
        self.depth = depth
        self.make(rng)

    def kw(self):
        return {} if self.tagged else {"tag": None}

    def emit(self, st):
        """Appends the expected bytes; notes where the item and its tag lie."""
        self.start = len(st.out)
        self.expect(st)
        self.end = len(st.out)
        self.tag_pos = self.start
        while self.tagged and self.tag is not None and st.out[self.tag_pos] == 0:
            self.tag_pos += 1

    def eq(self, got, want):
        check(type(got) is type(want) and got == want, "%s: wrote %r, read %r", self.name, want, got)


class Simple(Op):
    """value -> tag, bytes; read_NAME(tag=)."""

    def write(self, ws, ctx):
        getattr(ws, "write_" + self.name)(self.value, **self.kw())

    def expect(self, st):
        if self.tagged:
            st.add(bytes([self.tag]))
        st.add(self.enc())

    def read(self, rs, ctx, tag):
        self.same(getattr(rs, "read_" + self.name)(tag=tag))

    def same(self, got):
        self.eq(got, self.value)


class Double(Simple):
    name, tag = "double", ord("N")

    def make(self, rng):
        v = number(rng)
        if isinstance(v, int):
            v = v if abs(v) < 2**1000 else 2**1000
        self.value = v

    def enc(self):
        return double(self.value)

    def same(self, got):
        check(same_double(float(self.value), got), "double: wrote %r, read %r", self.value, got)


class OneByte(Simple):
    name, tag = "string_onebyte", ord('"')

    def make(self, rng):
        self.value = text(rng, latin=True)

    def enc(self):
        return varint(len(self.value)) + bytes(map(ord, self.value))


class TwoByte(Simple):
    name, tag = "string_twobyte", ord("c")

    def make(self, rng):
        self.value = text(rng)

    def enc(self):
        b = self.value.encode("utf-16-le")
        return varint(len(b)) + b

    def expect(self, st):
        data = self.value.encode("utf-16-le")
        head = varint(len(data))
        if self.tagged:
            head = b"c" + head
            if (len(st.out) + len(head)) % 2:
                self.p.sh.count("padded")
                head = b"\0" + head
        st.add(head + data)


class Utf8(Simple):
    name, tag = "string_utf8", ord("S")

    def make(self, rng):
        self.value = text(rng)

    def enc(self):
        return text8(self.value)


class BigInt(Simple):
    name, tag = "bigint", ord("Z")

    def make(self, rng):
        self.value = rng.choice([-1, 1]) * integer(rng)

    def enc(self):
        return bigint(self.value)


class Int32(Simple):
    name, tag = "int32", ord("I")

    def make(self, rng):
        n = integer(rng, 31)
        self.value = rng.choice([n, -n, -n - 1, -(2**31), 2**31 - 1])

    def enc(self):
        return zigzag(self.value)


class Uint32(Simple):
    name, tag = "uint32", ord("U")

    def make(self, rng):
        self.value = rng.choice([integer(rng, 32), 2**32 - 1])

    def enc(self):
        return varint(self.value)


class Varint(Op):
    name = "varint"

    def make(self, rng):
        self.tagged = False
        self.value = integer(rng)

    def write(self, ws, ctx):
        ws.write_varint(self.value)

    def expect(self, st):
        self.raw = varint(self.value)
        st.add(self.raw)

    def read(self, rs, ctx, tag):
        r, n, pos = self.rng, len(self.raw), rs.pos
        if r.random() < 0.5:
            # a limit of bits admits as many bytes as hold them
            bits = r.randint(1, 7 * n + 12)
            if n > -(-bits // 7):
                expect_raises(DecodeV8SerializeError, lambda: rs.read_varint(max_bits=bits), f"varint of {n} bytes with {bits} bits")
                check(rs.pos == pos or len(rs.data) < pos + n, "refused varint moved %s -> %s", pos, rs.pos)
                self.p.sh.count("oversized varints refused")
            else:
                self.eq(rs.read_varint(max_bits=bits), self.value)
                return
        self.eq(rs.read_varint(), self.value)


class Zigzag(Varint):
    name = "zigzag"

    def make(self, rng):
        self.tagged = False
        self.value = rng.choice([-1, 1]) * integer(rng)

    def write(self, ws, ctx):
        ws.write_zigzag(self.value)

    def expect(self, st):
        self.raw = zigzag(self.value)
        st.add(self.raw)

    def read(self, rs, ctx, tag):
        if self.rng.random() < 0.5:
            return self.eq(rs.read_zigzag(max_bits=7 * len(self.raw)), self.value)
        self.eq(rs.read_zigzag(), self.value)


class Raw(Op):
    name = "bytes"

    def make(self, rng):
        self.tagged = False
        self.value = rng.randbytes(rng.choice([0, 1, 2, 7, 30]))

    def write(self, ws, ctx):
        ws.data.extend(self.value)

    def expect(self, st):
        st.add(self.value)

    def read(self, rs, ctx, tag):
        rs.ensure_capacity(len(self.value))
        got = bytes(rs.read_bytes(len(self.value)))
        self.eq(got, self.value)


class Constant(Op):
    name = "constant"

    def make(self, rng):
        self.value = rng.choice([T.kTheHole, T.kUndefined, T.kNull, T.kTrue, T.kFalse])
        self.tag = int(self.value)

    def write(self, ws, ctx):
        if self.rng.random() < 0.5:
            ws.write_tag(self.value)
        else:
            ws.write_constant(self.value)

    def expect(self, st):
        st.add({T.kTheHole: b"-", T.kUndefined: b"_", T.kNull: b"0", T.kTrue: b"T", T.kFalse: b"F"}[self.value])

    def read(self, rs, ctx, tag):
        if tag:
            t = rs.read_tag(self.rng.choice([None, self.value, JS_CONSTANT_TAGS]))
            check(t is self.value, "constant %s read as %s", self.value, t)


class Tag(Constant):
    name = "tag"

    def make(self, rng):
        self.value = rng.choice([t for t in TAGS if t])
        self.tag = int(self.value)

    def write(self, ws, ctx):
        ws.write_tag(None)
        ws.write_tag(self.value)

    def expect(self, st):
        st.add(bytes([self.tag]))

    def read(self, rs, ctx, tag):
        if tag:
            c = self.rng.choice([None, self.value, TagConstraint("some", frozenset({self.value, T.kNull}))])
            check(rs.read_tag(c) is self.value, "tag")


class Header(Op):
    name, tag = "header", 0xFF

    def make(self, rng):
        pass

    def write(self, ws, ctx):
        ws.write_header()

    def expect(self, st):
        st.add(b"\xff\x0f")

    def read(self, rs, ctx, tag):
        check(rs.read_header() == 15 and rs.version == 15, "header")


class Obj(Op):
    """An item with an object id; own: pass an identity, else the value is it."""

    def take(self, st):
        self.obj_id = st.take()

    def ident(self):
        self.identity = self.value
        if self.rng.random() < 0.5:
            self.identity = SimpleNamespace(of=self.name)
            return {"identity": self.identity}
        return {}

    def got(self, rs, i, obj):
        check(i == self.obj_id, "%s has object id %s, expected %s", self.name, i, self.obj_id)
        check(rs.objects.get_object(i) is obj, "%s: object %s of the log is another one", self.name, i)
        check(rs.objects.get_serialized_id(obj) >= i, "%s: id of the object", self.name)
        self.p.read_objs[i] = obj


class Prim(Obj):
    name = "primitive object"

    def make(self, rng):
        k = rng.randrange(4)
        if k == 0:
            v = rng.random() < 0.5
            self.value = JSPrimitiveObject(v)
            self.raw = b"y" if v else b"x"
        elif k == 1:
            v = number(rng)
            v = float(v) if abs(v) < 2**1000 else 1.5
            self.value = JSPrimitiveObject(v, T.kNumberObject)
            self.raw = b"n" + double(v)
        elif k == 2:
            v = rng.choice([-1, 1]) * integer(rng)
            self.value = JSPrimitiveObject(v, T.kBigIntObject)
            self.raw = b"z" + bigint(v)
        else:
            v = text(rng)
            self.value = JSPrimitiveObject(v)
            self.raw = b"sS" + text8(v)
        self.v = v
        self.tag = self.raw[0]

    def write(self, ws, ctx):
        ws.write_js_primitive_object(self.value, **self.ident())

    def expect(self, st):
        self.take(st)
        st.add(self.raw)

    def read(self, rs, ctx, tag):
        if tag and self.rng.random() < 0.5:
            t, tag = rs.read_tag(JS_PRIMITIVE_OBJECT_TAGS), False
        i, o = rs.read_js_primitive_object() if tag else rs.read_js_primitive_object(T(self.tag))
        check(type(o) is JSPrimitiveObject and o.tag == self.tag, "primitive object tag %s, wrote %s", o.tag, self.tag)
        if self.tag == ord("n"):
            check(same_double(self.v, o.value), "number object: wrote %r, read %r", self.v, o.value)
        else:
            self.eq(o.value, self.v)
        self.got(rs, i, o)


class RegExp(Obj):
    name, tag = "regexp", ord("R")

    def make(self, rng):
        self.bits = rng.randrange(512)
        if self.bits & 16 and self.bits & 256:
            self.bits &= ~16
        self.src = text(rng).replace("\0", "x") or "(?:)"
        self.value = JSRegExp(self.src, JSRegExpFlag(self.bits))

    def write(self, ws, ctx):
        ws.write_js_regexp(self.value, **self.ident())

    def expect(self, st):
        self.take(st)
        st.add(b"RS" + text8(self.src) + varint(self.bits))

    def read(self, rs, ctx, tag):
        i, o = rs.read_js_regexp(self.p.plain_ctx(rs), tag=tag)
        self.eq(o.source, self.src)
        check(int(o.flags) == self.bits, "regexp flags %s, wrote %s", int(o.flags), self.bits)
        self.got(rs, i, o)


class Date(Obj):
    name, tag = "date", ord("D")

    def make(self, rng):
        tz = timezone(timedelta(minutes=rng.randint(-1439, 1439), seconds=rng.choice([0, 0, 1, 59])))
        if rng.random() < 0.5:  # whole milliseconds in the whole range
            us = rng.randint(-62135000000000, 253402200000000) * 1000
        else:
            us = rng.choice([rng.randint(-(10**15), 10**15), rng.randint(-10**7, 10**7)])
        try:
            self.value = (EPOCH + timedelta(microseconds=us)).astimezone(tz)
        except OverflowError:
            self.value = EPOCH + timedelta(microseconds=us)
        self.us, self.tz = us, rng.choice([tz, timezone.utc])
        try:
            (EPOCH + timedelta(microseconds=us)).astimezone(self.tz)
        except OverflowError:
            self.tz = timezone.utc

    def write(self, ws, ctx):
        ws.write_js_date(self.value, **self.ident())

    def expect(self, st):
        self.take(st)
        st.add(b"D" + double(self.us / 1000))

    def read(self, rs, ctx, tag):
        i, o = rs.read_js_date(tz=self.tz, tag=tag)
        check(o == EPOCH + timedelta(microseconds=self.us) and o.utcoffset() == self.tz.utcoffset(None),
              "date: wrote %s, read %s in %s", self.value, o, self.tz)
        self.got(rs, i, o)


class Buffer(Obj):
    name = "buffer"

    def make(self, rng):
        k = rng.randrange(4)
        d = self.data = rng.randbytes(rng.choice([0, 1, 2, 8, 33, 200]))
        n = self.n = integer(rng, 32)
        self.max = None
        if k == 0:
            self.value, self.raw = JSArrayBuffer(d), b"B" + varint(len(d)) + d
        elif k == 1:
            self.max = len(d) + rng.choice([0, 1, 300])
            self.value = JSArrayBuffer(d, max_byte_length=self.max)
            if "ResizableArrayBuffers" in self.p.feats:
                self.raw = b"~" + varint(len(d)) + varint(self.max) + d
            else:
                self.max, self.raw = None, b"B" + varint(len(d)) + d
        elif k == 2:
            self.value, self.raw = JSSharedArrayBuffer(n), b"u" + varint(n)
        else:
            self.value, self.raw = JSArrayBufferTransfer(n), b"t" + varint(n)
        self.tag = self.raw[0]

    def write(self, ws, ctx):
        ws.write_js_array_buffer(self.value, **self.ident())

    def expect(self, st):
        self.take(st)
        st.add(self.raw)

    def read(self, rs, ctx, tag):
        calls = []

        def cons(what):
            def f(**kw):
                o = SimpleNamespace(what=what, data=bytes(kw.pop("data", b"")), **kw)
                calls.append(o)
                return o
            return f

        o = rs.read_js_array_buffer(array_buffer=cons("ab"), shared_array_buffer=cons("sab"), array_buffer_transfer=cons("tab"),
                                    **({} if tag else {"tag": T(self.tag)}))
        check(calls == [o], "buffer constructors called %d times", len(calls))
        t = chr(self.tag)
        want = {"B": dict(what="ab", data=self.data, max_byte_length=None, resizable=False),
                "~": dict(what="ab", data=self.data, max_byte_length=self.max, resizable=True),
                "u": dict(what="sab", data=b"", buffer_id=self.n), "t": dict(what="tab", data=b"", transfer_id=self.n)}[t]
        check(vars(o) == want, "buffer: wrote %s, read %s", want, vars(o))
        self.got(rs, rs.objects.get_serialized_id(o), o)


class View(Obj):
    name, tag = "view", ord("V")

    def make(self, rng):
        self.code = rng.choice("bBCwWdDfFqQ?" + ("h" if "Float16Array" in self.p.feats else ""))
        self.off, self.blen = integer(rng, 32), integer(rng, 32)
        self.track, self.resz = rng.random() < 0.3, rng.random() < 0.3
        self.value = SimpleNamespace(
            view_tag=ArrayBufferViewTag(ord(self.code)), byte_offset=self.off, byte_length=None if self.track else self.blen,
            is_backing_buffer_resizable=self.resz, is_length_tracking=self.track)

    def write(self, ws, ctx):
        ws.write_js_array_buffer_view(self.value, **self.ident())

    def expect(self, st):
        self.take(st)
        self.flags = (self.track + 2 * self.resz) if "ResizableArrayBuffers" in self.p.feats else 0
        st.add(b"V" + self.code.encode() + varint(self.off) + varint(0 if self.track else self.blen) + varint(self.flags))

    def read(self, rs, ctx, tag):
        backing, calls = object(), []

        def cons(**kw):
            calls.append(SimpleNamespace(**kw))
            return calls[-1]

        o = rs.read_js_array_buffer_view(backing, array_buffer_view=cons, tag=tag)
        n = None if self.flags & 1 else 0 if self.track else self.blen
        check(o.buffer is backing and o.format is ArrayBufferViewTag(ord(self.code)) and o.byte_offset == self.off
              and o.byte_length == n and len(calls) == 1, "view: wrote %s, read %s", vars(self.value), vars(o))
        self.got(rs, rs.objects.get_serialized_id(o), o)


class Shared(Obj):
    name, tag = "shared object", ord("p")

    def make(self, rng):
        self.n = integer(rng, 32)
        self.value = V8SharedObjectReference(self.n)

    def write(self, ws, ctx):
        ws.write_v8_shared_object_reference(self.value, **self.ident())

    def expect(self, st):
        self.take(st)
        st.add(b"p" + varint(self.n))

    def read(self, rs, ctx, tag):
        i, o = rs.read_v8_shared_object_reference(tag=tag)
        check(type(o) is V8SharedObjectReference and o.shared_value_id == self.n, "shared object: wrote %s, read %s", self.n, o)
        self.got(rs, i, o)


class Ref(Op):
    name, tag = "reference", ord("^")

    def make(self, rng):
        pass

    def write(self, ws, ctx):
        """Chosen while writing, from the objects that can be referred to."""
        ok = [o for o in self.p.written if not o.open]
        self.target = self.rng.choice(ok) if ok else None
        if self.target is None:
            self.tag = ord("0")
            return ws.write_constant(T.kNull)
        if self.rng.random() < 0.5:
            return ws.write_object_reference(obj=self.target.identity)
        ws.write_object_reference(serialized_id=ws.objects.get_serialized_id(self.target.identity))

    def expect(self, st):
        st.add(b"0" if self.target is None else b"^" + varint(self.target.obj_id))

    def read(self, rs, ctx, tag):
        if self.target is None:
            if tag:
                rs.read_tag(T.kNull)
            return
        i, o = rs.read_object_reference(tag=tag)
        check(i == self.target.obj_id, "reference to %s, wrote %s", i, self.target.obj_id)
        check(o is self.p.read_objs[i], "reference %s is another object", i)


class Container(Obj):
    def make(self, rng):
        n = rng.choice([0, 1, 1, 2, 3, 5]) if self.depth < 3 else 0
        self.nested = [self.child(i) for i in range(n * self.per)]
        self.value = self.nested
        self.n = n

    def child(self, i):
        return self.p.op(self.rng, nested=True, depth=self.depth + 1)

    def begun(self):
        self.p.written.append(self)
        self.p.begun.add(id(self))

    def pairs(self, xs):
        return list(zip(xs[::2], xs[1::2]))

    def one(self, ctx, step, op):
        check(step is op, "%s: read an item for another", self.name)

    def kids(self, st):
        for o in self.nested:
            o.emit(st)


class Map(Container):
    name, tag, per = "map", ord(";"), 2

    def write(self, ws, ctx):
        kw = self.ident()
        self.begun()
        v = self.pairs(self.nested)
        if not kw:
            self.identity = v
        ws.write_jsmap(v if not kw or self.rng.random() < 0.5 else iter(v), ctx, **kw)

    def expect(self, st):
        self.take(st)
        st.add(b";")
        self.kids(st)
        st.add(b":" + varint(2 * self.n))

    def run(self, gen, rs, shape):
        """Drives a generator of items; returns (items, its result)."""
        out = []
        while True:
            try:
                out.append(next(gen))
            except StopIteration as e:
                return out, e.value

    def read(self, rs, ctx, tag):
        me = SimpleNamespace(of=self.name)
        self.p.read_objs[self.obj_id] = me
        items, res = self.run(rs.read_jsmap(ctx, identity=me, tag=tag), rs, None)
        check(items == self.pairs(self.nested) and res == 2 * self.n, "map: %d items, result %r", len(items), res)
        self.got(rs, rs.objects.get_serialized_id(me), me)


class Set(Map):
    name, tag, per = "set", ord("'"), 1

    def write(self, ws, ctx):
        kw = self.ident()
        self.begun()
        ws.write_jsset(self.nested if not kw or self.rng.random() < 0.5 else iter(self.nested), ctx, **kw)

    def expect(self, st):
        self.take(st)
        st.add(b"'")
        self.kids(st)
        st.add(b"," + varint(self.n))

    def read(self, rs, ctx, tag):
        me = SimpleNamespace(of=self.name)
        self.p.read_objs[self.obj_id] = me
        items, res = self.run(rs.read_jsset(ctx, identity=me, tag=tag), rs, None)
        check(items == self.nested and res == self.n, "set: %d items, result %r", len(items), res)
        self.got(rs, rs.objects.get_serialized_id(me), me)


class Object(Map):
    name, tag = "object", ord("o")
    method, end = "js_object", b"{"

    def child(self, i):
        if i % 2 == 0:
            return self.rng.choice([Int32, Uint32, Double, OneByte, TwoByte, Utf8])(self.p, self.rng, depth=9)
        return self.p.op(self.rng, nested=True, depth=self.depth + 1)

    def write(self, ws, ctx):
        kw = self.ident()
        self.begun()
        v = self.pairs(self.nested)
        if not kw:
            self.identity = v
        ws.write_js_object(v, ctx, **kw)

    def expect(self, st):
        self.take(st)
        st.add(b"o")
        self.kids(st)
        st.add(b"{" + varint(self.n))

    def read(self, rs, ctx, tag):
        me = SimpleNamespace(of=self.name)
        self.p.read_objs[self.obj_id] = me
        items, res = self.run(rs.read_js_object(ctx, identity=me, tag=tag), rs, None)
        self.same(items)
        check(res == self.n, "object result %r for %d", res, self.n)
        self.got(rs, rs.objects.get_serialized_id(me), me)

    def same(self, items):
        check(len(items) == self.n, "%s: %d properties, wrote %d", self.name, len(items), self.n)
        for (k, v), (ko, vo) in zip(items, self.pairs(self.nested[-2 * self.n:] if self.n else [])):
            check(k is ko.value, "%s: key %r, wrote %r", self.name, k, ko.value)
            check(v is vo, "%s: value of another key", self.name)


class Sparse(Object):
    name, tag = "sparse array", ord("a")

    def write(self, ws, ctx):
        kw = self.ident()
        self.begun()
        v = self.pairs(self.nested)
        if not kw:
            self.identity = v
        self.length = self.rng.choice([integer(self.rng, 32), 0, 2**32 - 1])
        ws.write_js_array_sparse(v, ctx, length=self.length, **kw)

    def expect(self, st):
        self.take(st)
        st.add(b"a" + varint(self.length))
        self.kids(st)
        st.add(b"@" + varint(self.n) + varint(self.length))

    def read(self, rs, ctx, tag):
        me = SimpleNamespace(of=self.name)
        self.p.read_objs[self.obj_id] = me
        res = rs.read_js_array_sparse(ctx, identity=me, tag=tag)
        check(res.length == self.length, "sparse array length %s, wrote %s", res.length, self.length)
        items, n = self.run(res.items, rs, None)
        self.same(items)
        check(n == self.n, "sparse array result %r", n)
        self.got(rs, rs.objects.get_serialized_id(me), me)


class Dense(Object):
    name, tag = "dense array", ord("A")

    def make(self, rng):
        super(Dense, self).make(rng)
        m = rng.choice([0, 1, 2, 4]) if self.depth < 3 else 0
        self.els = [self.p.op(rng, nested=True, depth=self.depth + 1) for _ in range(m)]
        self.props = self.nested
        self.nested = self.els + self.props
        self.value = self.els

    def write(self, ws, ctx):
        v = self.pairs(self.props)
        if v or self.rng.random() < 0.5:
            self.identity = SimpleNamespace(of="dense")
            self.begun()
            return ws.write_js_array_dense(self.els, ctx, properties=iter(v), identity=self.identity)
        kw = self.ident()
        self.begun()
        ws.write_js_array_dense(self.els, ctx, **kw)

    def expect(self, st):
        self.take(st)
        st.add(b"A" + varint(len(self.els)))
        self.kids(st)
        st.add(b"$" + varint(self.n) + varint(len(self.els)))

    def read(self, rs, ctx, tag):
        me = SimpleNamespace(of=self.name)
        self.p.read_objs[self.obj_id] = me
        items, res = self.run(rs.read_js_array_dense(ctx, identity=me, tag=tag), rs, None)
        m = len(self.els)
        check([k for k, _ in items[:m]] == list(range(m)) and all(v is o for (_, v), o in zip(items, self.els)), "dense elements")
        self.same(items[m:])
        check(res == (m, self.n), "dense array result %r", res)
        self.got(rs, rs.objects.get_serialized_id(me), me)


ERR = {"Error": b"", "EvalError": b"E", "RangeError": b"R", "ReferenceError": b"F", "SyntaxError": b"S", "TypeError": b"T",
       "URIError": b"U"}


class Error(Container):
    name, tag, per = "error", ord("r"), 1

    def make(self, rng):
        self.ename = rng.choice(list(ERR) + ["Other", ""])
        self.message, self.stack = (None if rng.random() < 0.4 else text(rng) for _ in range(2))
        self.nested = [self.child(0)] if rng.random() < 0.4 and self.depth < 3 else []
        self.value = SimpleNamespace(name=self.ename, message=self.message, stack=self.stack,
                                     cause=self.nested[0] if self.nested else None)

    def write(self, ws, ctx):
        kw = self.ident()
        self.open = bool(self.nested) and "CircularErrorCause" not in self.p.feats
        self.begun()
        ws.write_js_error(self.value, ctx, **kw)
        self.open = False

    def expect(self, st):
        st.add(b"r" + ERR.get(self.ename, b""))
        if self.message is not None:
            st.add(b"mS" + text8(self.message))
        if self.stack is not None:
            st.add(b"sS" + text8(self.stack))
        self.take(st)
        if self.nested:
            st.add(b"c")
        self.kids(st)
        st.add(b".")

    def read(self, rs, ctx, tag):
        step = ctx.decode_steps[0]
        builds = []

        def build(data):
            o = SimpleNamespace(of="error")
            builds.append(o)
            self.p.read_objs[self.obj_id] = o
            return o, data_of.append(data) or data

        data_of = []
        step.strings += (self.message is not None) + (self.stack is not None)
        if self.p.features_cycle_free(self) and self.rng.random() < 0.5:
            i, o = rs.read_js_error(ctx, tag=tag)
            data_of = [o]
        else:
            i, o = rs.read_js_error(ctx, error=build, tag=tag)
            check(builds == [o], "error builder")
        d = data_of[0]
        want = {"URIError": "UriError"}.get(self.ename, self.ename if self.ename in ERR else "Error")  # as JSErrorName spells it
        check(d.name == want and d.message == self.message and d.stack == self.stack
              and d.cause is (self.nested[0] if self.nested else None), "error: wrote %s, read %s", vars(self.value), d)
        self.got(rs, i, o)


class Host(Container):
    name, tag, per = "host object", ord("\\"), 1

    def write(self, ws, ctx):
        kw = self.ident()
        self.open = True
        self.begun()

        def ser(*, value, stream):
            check(value is self.value and stream is ws, "host object serializer called with others")
            for o in self.nested:
                self.p.put(o, ws, ctx)

        s = ser if self.rng.random() < 0.5 else SimpleNamespace(serialize_host_object=ser)
        ws.write_host_object(self.value, serializer=s, **kw)
        self.open = False

    def child(self, i):
        return self.p.op(self.rng, nested=False, depth=self.depth + 1)

    def expect(self, st):
        self.take(st)
        st.add(b"\\")
        self.kids(st)

    def read(self, rs, ctx, tag):
        me = self.rng.choice([SimpleNamespace(of="host"), None, 0, "", (), False])

        def des(*, stream):
            check(stream is rs, "host object deserializer called with another stream")
            if self.rng.random() < 0.2:  # a reference to what is not finished
                inner = ReadableTagStream(b"^" + varint(self.obj_id), objects=rs.objects)
                expect_raises(DecodeV8SerializeError, lambda: inner.read_object_reference(tag=True), "reference to an unfinished host object")
            for o in self.nested:
                self.p.take_one(o, rs, ctx)
            return me

        d = des if self.rng.random() < 0.5 else SimpleNamespace(deserialize_host_object=des)
        o = rs.read_host_object(d, tag=tag)
        check(o is me and rs.objects.get_object(self.obj_id) is me, "host object")
        self.p.read_objs[self.obj_id] = me


SIMPLE = [Double, OneByte, TwoByte, Utf8, BigInt, Int32, Uint32]
VALUES = SIMPLE * 2 + [Constant] * 2 + [Prim, Prim, RegExp, Date, Buffer, View, Shared, Ref, Ref]
DEEP = [Map, Set, Object, Dense, Sparse, Error, Host]
LOOSE = [Varint, Varint, Zigzag, Raw, Tag, Header]


class Step:
    """Encodes and decodes the items of a program inside containers."""

    def __init__(self, p):
        self.p = p
        self.strings = 0
        self.queue = []

    def encode(self, value, /, ctx, next):
        self.p.put(value, ctx.stream, ctx)

    def decode(self, tag, /, ctx, next):
        rs = ctx.stream
        if self.strings:  # the message or stack of an error
            self.strings -= 1
            return getattr(rs, {T.kUtf8String: "read_string_utf8"}[tag])()
        o = self.p.order[self.p.at]
        check(o.tag == tag, "tag %s where %s was written", tag, o.name)
        check(rs.pos == o.tag_pos + 1, "%s: decoded at %s, its tag is at %s", o.name, rs.pos, o.tag_pos)
        self.p.at += 1
        o.read(rs, ctx, False)
        check(rs.pos == o.end, "%s: position %s after reading, ends at %s", o.name, rs.pos, o.end)
        self.p.sh.count("positions checked")
        self.p.sh.count("items read back")
        # object keys are read as their values, other items stand for themselves
        return o.value if o.depth == 9 else o


WRONG = [(t, "read_" + n, {"tag": True}) for t, n in [
    (b"N", "double"), (b'"', "string_onebyte"), (b"c", "string_twobyte"), (b"S", "string_utf8"), (b"Z", "bigint"), (b"I", "int32"),
    (b"U", "uint32"), (b"D", "js_date"), (b"^", "object_reference"), (b"p", "v8_shared_object_reference")]] + [
    (b"\xff", "read_header", {}), (b"yxnzs", "read_js_primitive_object", {}), (b"R", "ctx read_js_regexp", {"tag": True}),
    (b"r", "ctx read_js_error", {"tag": True}), (b";", "gen read_jsmap", {"tag": True}), (b"'", "gen read_jsset", {"tag": True}),
    (b"o", "gen read_js_object", {"tag": True}), (b"A", "gen read_js_array_dense", {"tag": True}),
    (b"a", "ctx read_js_array_sparse", {"tag": True, "identity": None}), (b"B~ut", "buffer", {}),
    (b"V", "view", {}), (b"\\", "host", {})]


def never(*a, **k):
    raise Violation("constructed from data of another kind")


class Program:
    def __init__(self, sh, rng):
        self.sh, self.rng = sh, rng
        self.feats = pick_features(rng)
        self.step = Step(self)
        self.written, self.begun = [], set()
        self.read_objs = {}
        self.order, self.at = [], 0
        self.size = 0

    def op(self, rng, nested, depth):
        self.size += 1
        deep = depth < 3 and self.size < 60
        if not nested and rng.random() < 0.35:
            if rng.random() < 0.5:
                return rng.choice(LOOSE)(self, rng, depth=depth)
            return rng.choice(SIMPLE)(self, rng, tagged=rng.random() < 0.3, depth=depth)
        if deep and rng.random() < 0.3:
            return rng.choice(DEEP)(self, rng, depth=depth)
        return rng.choice(VALUES)(self, rng, depth=depth)

    def put(self, o, ws, ctx):
        self.order.append(o)
        pos = ws.pos
        o.write(ws, ctx)
        check(ws.pos == len(ws.data) >= pos, "writer position")
        if isinstance(o, Obj) and id(o) not in self.begun:
            self.written.append(o)
        self.sh.count("items written")
        if self.rng.random() < 0.25:
            self.illegal(ws, ctx)
        if self.rng.random() < 0.1:
            self.constrained(ws, ctx)

    # --- writes that must leave no trace --------------------------------
    def illegal(self, ws, ctx):
        r = self.rng
        far = 2 ** r.choice([1024, 1025, 2000, 5000])
        kw = {} if r.random() < 0.5 else {"tag": None}
        s = bad_text(r)
        what, types, fn = r.choice([
            ("varint -n", EncodeV8SerializeError, lambda: ws.write_varint(-1 - integer(r))),
            ("double", EncodeV8SerializeError, lambda: ws.write_double(r.choice([far, -far]), **kw)),
            ("int32", EncodeV8SerializeError,
             lambda: ws.write_int32(r.choice([2**31 + integer(r), -(2**31) - 1 - integer(r)]), **kw)),
            ("uint32", EncodeV8SerializeError, lambda: ws.write_uint32(r.choice([2**32 + integer(r), -1 - integer(r)]), **kw)),
            ("one-byte", ValueError, lambda: ws.write_string_onebyte(text(r) + r.choice("Ā€😀"), **kw)),
            ("two-byte", (ValueError, V8SerializeError), lambda: ws.write_string_twobyte(s, **kw)),
            ("utf-8", EncodeV8SerializeError, lambda: ws.write_string_utf8(s, **kw)),
            ("constant", EncodeV8SerializeError,
             lambda: ws.write_constant(r.choice([t for t in TAGS if chr(t) not in "-_0TF"]))),
            ("unknown object", V8SerializeError, lambda: ws.write_object_reference(obj=object())),
            ("unknown id", V8SerializeError,
             lambda: ws.write_object_reference(serialized_id=r.choice([len(self.ids(ws)) + integer(r), -1 - integer(r, 3)]))),
            ("negative buffer id", EncodeV8SerializeError, lambda: ws.write_js_array_buffer(JSSharedArrayBuffer(-1 - integer(r)))),
            ("negative transfer id", EncodeV8SerializeError,
             lambda: ws.write_js_array_buffer(JSArrayBufferTransfer(-1 - integer(r)))),
            ("array length", ValueError,
             lambda: ws.write_js_array_sparse([], ctx, length=r.choice([2**32 + integer(r), -1 - integer(r)]))),
            ("ambiguous identity", ValueError, lambda: ws.write_js_array_dense([], ctx, properties=[])),
        ])
        before, n = bytes(ws.data), len(self.ids(ws))
        e = expect_raises(types, fn, f"writing illegal {what}")
        check(bytes(ws.data) == before, "%s: refused (%s) but wrote %s", what, e, bytes(ws.data)[len(before):].hex())
        check(len(self.ids(ws)) == n, "%s: refused (%s) but took an object id", what, e)
        self.sh.count("illegal values refused")
        self.sh.count("illegal " + what)

    def ids(self, ws):
        n = 0
        while True:  # by the public interface
            try:
                ws.objects.get_object(n)
            except ReferenceError:
                pass
            except V8SerializeError as e:
                if not hasattr(e, "serialized_id"):
                    raise
                return range(n)
            n += 1

    def constrained(self, ws, ctx):
        """Only allowed tags can be written in a block of constrain_tags()."""
        r = self.rng
        c = r.choice([JS_OBJECT_KEY_TAGS, JS_STRING_TAGS, JS_CONSTANT_TAGS, TagConstraint("few", frozenset(r.sample(TAGS, r.randint(0, 5))))])
        before = bytes(ws.data)
        if ws.allowed_tags is not None:
            return
        with ws.constrain_tags(c):
            for t in r.sample(TAGS, 6):
                if t in c.allowed_tags:
                    ws.write_tag(t)
                    check(bytes(ws.data) == before + bytes([t]), "tag %s", t)
                    del ws.data[len(before):]
                else:
                    expect_raises(EncodeV8SerializeError, lambda: ws.write_tag(t), f"{t.name} among {c}")
            for tag, fn in [(T.kInt32, lambda: ws.write_int32(1)), (T.kDouble, lambda: ws.write_double(1)), (T.kUint32, lambda: ws.write_uint32(1)),
                            (T.kUtf8String, lambda: ws.write_string_utf8("a")), (T.kOneByteString, lambda: ws.write_string_onebyte("a")),
                            (T.kTwoByteString, lambda: ws.write_string_twobyte("a")), (T.kBigInt, lambda: ws.write_bigint(1)),
                            (T.kNull, lambda: ws.write_constant(T.kNull)), (T.kVersion, lambda: ws.write_header()),
                            (None, lambda: ws.write_uint32(7, tag=None)), (None, lambda: ws.write_varint(7))]:
                if tag is None or tag in c.allowed_tags:
                    fn()
                    check(len(ws.data) > len(before), "nothing written")
                    del ws.data[len(before):]
                else:
                    expect_raises(EncodeV8SerializeError, fn, f"{tag.name} among {c}")
                check(bytes(ws.data) == before, "%s: refused tag left bytes behind", tag)
                self.sh.count("constrained writes")
        check(ws.allowed_tags is None, "still constrained")
        ws.write_tag(T.kTheHole)
        del ws.data[len(before):]
        # the block also ends when something in it fails
        what = r.randrange(4)
        try:
            with ws.constrain_tags(JS_STRING_TAGS if what else c):
                if what == 0:
                    raise KeyboardInterrupt
                elif what == 1:
                    ws.write_int32(1)
                elif what == 2:
                    ws.write_double(10**400)
                else:
                    ws.write_string_utf8("\ud800")
        except (KeyboardInterrupt, EncodeV8SerializeError):
            pass
        else:
            raise Violation("nothing was raised in a block of constrain_tags()")
        check(ws.allowed_tags is None, "still constrained after an exception")
        ws.write_tag(T.kTheHole)
        check(bytes(ws.data) == before + b"-", "writing after an exception")
        del ws.data[len(before):]
        self.sh.count("constraints left by exceptions")

    # --- reading ----------------------------------------------------------
    def plain_ctx(self, rs):
        from v8serialize.decode import TagReader

        return DefaultDecodeContext(stream=rs, decode_steps=[TagReader()])

    def features_cycle_free(self, op):
        """Whether nothing inside refers to op, so it needs no object of ours while read."""
        todo = list(op.nested)
        while todo:
            o = todo.pop()
            if isinstance(o, Ref) and o.target is op:
                return False
            todo += o.nested
        return True

    def probe(self, o, rs, ctx):
        """Reads that must not move past the item."""
        r, data = self.rng, self.data
        n = len(rs.data)
        pos = rs.pos
        x = pos
        while x < n and data[x] == 0:
            x += 1
        want = data[x] if x < n and data[x] in TAG_BYTES else None
        for _ in range(r.randint(1, 2)):
            t = rs.peak_tag()
            check(t == want and (t is None or type(t) is SerializationTag), "peeked %s at %s, the byte is %s", t, pos, want)
            check(rs.pos == pos, "peeking moved")
            self.sh.count("peeks")
        check(rs.eof == (pos == n), "eof at %s of %s", pos, n)
        check(expect_raises(DecodeV8SerializeError, lambda: rs.ensure_capacity(n - pos + r.randint(1, 9)), "capacity").position == pos
              and rs.pos == pos, "ensure_capacity moved")
        rs.ensure_capacity(n - pos)
        expect_raises(DecodeV8SerializeError, lambda: rs.read_bytes(n - pos + r.randint(1, 9)), "bytes beyond the end")
        check(rs.pos == pos, "read_bytes beyond the end moved")
        if o is None or o.tag is None or not o.tagged:
            if want is None and x < n:
                e = expect_raises(DecodeV8SerializeError, lambda: rs.read_tag(r.choice([None, T.kNull, JS_STRING_TAGS])), "no tag")
                check(rs.pos == x, "moved past %s to %s where there is no tag", x, rs.pos)
                rs.pos = pos
            return
        if r.random() < 0.5:
            c = r.choice([None, T(o.tag), TagConstraint("it", frozenset({T(o.tag)}))])
            t = rs.read_tag(c, consume=False)
            check(t == o.tag and pos <= rs.pos <= o.tag_pos, "read_tag without consuming: %s, position %s", t, rs.pos)
            check(data[pos:rs.pos] == bytes(rs.pos - pos), "passed more than padding")
        for tags, name, kw in r.sample(WRONG, 3):
            if o.tag in tags:
                continue
            kind, _, m = name.rpartition(" ")
            size = len(self.ids(rs))
            if kind == "gen":
                def fn():
                    next(getattr(rs, m)(ctx, identity=object(), **kw))
            elif kind == "ctx":
                def fn():
                    getattr(rs, m)(ctx, **kw)
            elif m == "buffer":
                def fn():
                    rs.read_js_array_buffer(array_buffer=never, shared_array_buffer=never, array_buffer_transfer=never)
            elif m == "view":
                def fn():
                    rs.read_js_array_buffer_view(object(), array_buffer_view=never, tag=True)
            elif m == "host":
                def fn():
                    rs.read_host_object(never, tag=True)
            else:
                def fn():
                    getattr(rs, m)(**kw)
            e = expect_raises(DecodeV8SerializeError, fn, f"{name} at {o.name} {chr(o.tag)!r}")
            check(pos <= rs.pos <= o.tag_pos, "%s at %s: position %s -> %s, the tag is at %s", name, o.name, pos, rs.pos, o.tag_pos)
            check(e.position == rs.pos, "error position %s, stream at %s", e.position, rs.pos)
            check(len(self.ids(rs)) == size, "%s at %s recorded an object", name, o.name)
            self.sh.count("wrong kinds refused")
        others = [t for t in TAGS if t and t != o.tag]
        c = r.choice([r.choice(others), TagConstraint("others", frozenset(others)), TagConstraint("few", frozenset(r.sample(others, 3)))])
        expect_raises(DecodeV8SerializeError, lambda: rs.read_tag(c, consume=r.random() < 0.5), f"{c} at {o.name}")
        check(pos <= rs.pos <= o.tag_pos, "position after a refused tag")

    def take_one(self, o, rs, ctx, probe=True):
        check(self.order[self.at] is o, "order of items")
        self.at += 1
        if probe and self.rng.random() < 0.6:
            self.probe(o, rs, ctx)
        o.read(rs, ctx, o.tagged and o.tag is not None)
        check(rs.pos == o.end, "%s: position %s after reading, ends at %s", o.name, rs.pos, o.end)
        self.sh.count("positions checked")
        self.sh.count("items read back")

    def reader(self, data, pos=0):
        r = self.rng
        d = r.choice([bytes, bytearray, lambda b: memoryview(bytes(b)), lambda b: memoryview(bytearray(b))])(data)
        rs = ReadableTagStream(d, pos)
        self.step.strings = 0
        self.read_objs = {}
        self.at = 0
        return rs, DefaultDecodeContext(stream=rs, decode_steps=[self.step])


def case(sh, rng):
    p = Program(sh, rng)
    junk = rng.randbytes(rng.choice([0, 0, 1, 2, 5]))
    ws = WritableTagStream(bytearray(junk), features=as_flags(p.feats)) if junk else WritableTagStream(features=as_flags(p.feats))
    ectx = DefaultEncodeContext([p.step], stream=ws)
    ops = [p.op(rng, nested=False, depth=0) for _ in range(rng.choice([1, 2, 3, 5, 8, 14]))]
    for o in ops:
        p.put(o, ws, ectx)
    st = State(junk)
    for o in ops:
        o.emit(st)
    for o in ops:
        got = bytes(ws.data[o.start:o.end])
        check(got == bytes(st.out[o.start:o.end]), "%s: wrote %s at %s, the format says %s", o.name, got.hex(), o.start,
              bytes(st.out[o.start:o.end]).hex())
    check(bytes(ws.data) == bytes(st.out) and ws.pos == len(st.out), "written bytes differ")
    check(len(p.ids(ws)) == st.ids, "%s objects recorded, %s written", len(p.ids(ws)), st.ids)
    p.data = bytes(st.out)
    for _ in range(2):
        rs, dctx = p.reader(p.data, len(junk))
        for o in ops:
            p.take_one(o, rs, dctx)
        p.probe(None, rs, dctx)
        check(rs.eof and len(p.ids(rs)) == st.ids, "end of the stream, %s objects read of %s", len(p.ids(rs)), st.ids)
    sh.count("programs")
    for o in p.order:
        sh.count("kind " + o.name)
    sh.nontrivial(tuple((o.name, o.depth, o.tagged, o.start & 1) for o in p.order))
    # data that ends early
    n = len(p.data)
    if n - len(junk) <= 600:
        cuts = range(len(junk), n) if n < 60 else sorted(rng.sample(range(len(junk), n), 12))
        for cut in cuts:
            rs, dctx = p.reader(p.data[:cut], len(junk))
            for o in ops:
                if o.end <= cut:
                    p.take_one(o, rs, dctx, probe=False)
                    continue
                # a varint cut short is still too long for few bits, but nothing else may succeed
                expect_raises(DecodeV8SerializeError, lambda: p.take_one(o, rs, dctx, probe=False),
                              f"{o.name} at {o.start}..{o.end} cut at {cut}: {p.data[:cut].hex()}")
                check(rs.pos <= cut, "position beyond the end")
                sh.count("cuts refused")
                break
    invalid(sh, rng)


def invalid(sh, rng):
    """Data no writer produces."""
    pre = rng.randbytes(rng.choice([0, 1, 3]))
    for _ in range(2):
        k = rng.randrange(7)
        post = rng.randbytes(4)
        if k == 0:
            name, raw = "uint32", varint(rng.randint(2**32, 2**35 - 1))
        elif k == 1:
            name, raw = "int32", varint(rng.randint(2**32, 2**35 - 1))
        elif k == 2:
            name, raw = rng.choice(["uint32", "int32", "bigint", "string_utf8", "string_onebyte", "string_twobyte"]), \
                bytes([rng.randint(128, 255) for _ in range(5)] + [1])
        elif k == 3:
            b = rng.choice([text(rng).encode("utf-16-le")[:-1] or b"a", b"\0\xd8", b"\x00\xdc", b"a\0\0\xd8", b"\0\xd8a\0"])
            name, raw = "string_twobyte", varint(len(b)) + b
        elif k == 4:
            b = rng.choice([b"\x80", b"\xff", b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"a\xe2\x82", b"\xf0\x9f\x98"])
            b = text(rng).encode() + b
            name, raw = "string_utf8", varint(len(b)) + b
        elif k == 5:
            name = rng.choice(["string_utf8", "string_onebyte", "string_twobyte"])
            raw = varint((len(post) + rng.randint(1, 2**20)) * 2)
        else:
            name, raw = "header", b"\xff" + varint(rng.choice([0, 1, 11, 12, 16, 17, 255, 2**32, 2**31]))
        tag = {"uint32": b"U", "int32": b"I", "bigint": b"Z", "string_utf8": b"S", "string_onebyte": b'"', "string_twobyte": b"c"}.get(name)
        use = tag is not None and rng.random() < 0.5
        data = pre + (tag if use else b"") + raw + post
        rs = ReadableTagStream(data, len(pre))
        e = expect_raises(DecodeV8SerializeError, lambda: getattr(rs, "read_" + name)(**({} if tag is None else {"tag": use})),
                          f"{name} from {data.hex()} at {len(pre)}")
        check(len(pre) <= e.position <= len(data) and e.data == data, "error names position %s", e.position)
        sh.count("invalid data refused")
