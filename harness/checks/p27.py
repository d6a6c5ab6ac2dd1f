"""Node.js's own format for views is read and written exactly."""
import struct

from harness import wire
from harness.core import Violation, check, expect_raises, short
from harness.graph import Compare, Node, is_node, walk
from harness.model import Builder, from_python, to_python
from harness.nodeoracle import NodeRefused
from harness.util import ALL, as_flags, gen_for, nodebufs_as_views, parse, pick_features, same, varied
from harness.wire import NODE_VIEWS, VIEW_CODE
from v8serialize import Decoder, Encoder, TagReader, V8SerializeError, loads
from v8serialize.constants import ArrayBufferViewTag
from v8serialize.decode import DecodeV8SerializeError, ReadableTagStream
from v8serialize.encode import EncodeV8SerializeError, TagWriter, WritableTagStream, serialize_object_references
from v8serialize.extensions import (
    NodeBufferFormat, NodeJsArrayBufferViewHostObjectHandler, NodeJsArrayBufferViewHostObjectHandlerDecodeError,
    serialize_js_array_buffer_views_as_nodejs_host_object as node_step,
)
from v8serialize.jstypes import (
    JSArray, JSArrayBuffer, JSArrayBufferTransfer, JSDataView, JSMap, JSObject, JSSharedArrayBuffer, JSTypedArray, create_view,
)

QUICK, THOROUGH = 120000, 2500000
RULE = "distinct (direction, view kind, source of the bytes, size class, position) tuples"
MIN = {"direct": 5000, "fallbacks": 2600, "misaligned lengths": 1300, "refused data": 5000, "views in graphs from Node.js": 2500, "views read back": 2900, "views read by Node.js": 800,
       "views read from own": 2300, "views read from pool": 1100, "views read from tracking": 1100, "views read from shared": 1100, "views written": 2900}
ASSUMPTIONS = ["Node.js 22 stands for Node.js"]
STEPS = [serialize_object_references, node_step, TagWriter()]


def case(sh, rng):
    rng.choices([graphs_from_node, sources, to_node, fallback, hostile, misaligned, direct, formats], [3, 3, 5, 2, 4, 1, 4, 0.5])[0](sh, rng)


def readers(rng):
    """Ways to read Node.js data."""
    h = NodeJsArrayBufferViewHostObjectHandler()
    return rng.choice([
        loads, lambda d: loads(d, nodejs=True), lambda d: Decoder(decode_steps=[TagReader(host_object_deserializer=h)]).decodes(d),
        lambda d: loads(d, decode_steps=[TagReader(host_object_deserializer=h)]),
        lambda d: loads(d, decode_steps=[TagReader(host_object_deserializer=h.deserialize_host_object)]),
        lambda d: loads(bytearray(d)), lambda d: loads(memoryview(d))])


def size_class(n):
    return n if n < 2 else len(bin(n))


def region(v):
    """The bytes a view of the library shows."""
    with v.get_buffer_as_memoryview() as m:
        return m.tobytes()


def tag_name(v):
    return v.view_tag.name[1:] if v.view_tag.name.startswith("k") else v.view_tag.name


def cut_views(m):
    """What V8's serializer with Node.js's extension makes of the model: views get buffers of their own."""
    for n in walk(m):
        if n.kind == "view":
            n.buf = Node("buf", data=bytes(n.buf.data[n.off:n.off + n.blen]), maxlen=None)
            n.off, n.track = 0, False
    return m


# --- reading

def graphs_from_node(sh, rng):
    g = gen_for(rng, {"ResizableArrayBuffers"}, **varied(rng), kinds=dict(view=6, buf=1, obj=2, arr=2, map=1, set=1, error=1), nodejs=True)
    m = g.graph()
    views = [n for n in walk(m) if n.kind == "view"]
    if not views or any(n.buf.kind != "buf" for n in views) or any(n.kind in ("arr", "obj") and any(k == "length" for k, _ in n.props) for n in walk(m)):
        return
    if rng.random() < 0.3:  # one view twice, two views of one buffer
        v = rng.choice(views)
        m = Node("arr", form="list", props=[], length=3, elems={0: v, 1: m, 2: v})
    try:
        data = sh.node.write(m)
    except NodeRefused as e:
        raise Violation(f"V8 does not write this graph: {e.args[0]}")
    py = readers(rng)(data)
    same(Compare(strict_num=False, null_message=True), cut_views(m), from_python(py), "loads sees another value than Node.js wrote", data)
    sh.count("views in graphs from Node.js", len(views))
    for n in views:
        sh.nontrivial("graph", n.tag, size_class(n.blen))


SOURCES = r"""(function (specs) {
  const v8 = require('v8');
  const V = {Int8Array, Uint8Array, Uint8ClampedArray, Int16Array, Uint16Array, Int32Array, Uint32Array, Float32Array, Float64Array, DataView, BigInt64Array, BigUint64Array};
  const expected = [], vals = [];
  for (const s of specs) {
    const bytes = Buffer.from(s.data, 'hex');
    const C = V[s.kind], size = C && C.BYTES_PER_ELEMENT || 1;
    let v;
    if (s.src === 'again') v = vals[s.index % Math.max(1, vals.length)];
    if (s.src === 'pool') v = Buffer.from(bytes);
    else if (s.src === 'text') v = Buffer.from(bytes.toString('latin1'), 'latin1');
    else if (s.src === 'sub') v = Buffer.concat([Buffer.alloc(s.off), bytes, Buffer.alloc(3)]).subarray(s.off, s.off + bytes.length);
    if (!v) {
      const off = s.off * size, total = off + bytes.length + 16;
      let ab;
      if (s.src === 'resizable') ab = new ArrayBuffer(total, {maxByteLength: total + 8});
      else if (s.src === 'tracking') ab = new ArrayBuffer(off + bytes.length, {maxByteLength: total + 8});
      else if (s.src === 'shared') ab = new SharedArrayBuffer(total);
      else if (s.src === 'growable') ab = new SharedArrayBuffer(total, {maxByteLength: total + 8});
      else ab = new ArrayBuffer(total);
      new Uint8Array(ab).fill(0xEE);
      new Uint8Array(ab).set(bytes, off);
      if (s.src === 'tracking') v = new C(ab, off);
      else if (s.src === 'subclass') v = new (class X extends C {})(ab, off, bytes.length / size);
      else if (s.src === 'odd') { v = new C(ab, off, bytes.length / size); v.extra = 1; Object.freeze(ab); }
      else v = new C(ab, off, bytes.length / size);
    }
    vals.push(v);
    expected.push([Buffer.isBuffer(v) ? 'Uint8Array' : Object.prototype.toString.call(v).slice(8, -1),
      Buffer.from(new Uint8Array(v.buffer, v.byteOffset, v.byteLength)).toString('hex'), vals.indexOf(v)]);
  }
  const wrap = specs.map((s, i) => s.wrap === 'obj' ? {v: vals[i]} : s.wrap === 'map' ? new Map([[vals[i], i]]) : s.wrap === 'error' ? new Error('x', {cause: vals[i]}) : vals[i]);
  return {data: v8.serialize(wrap).toString('hex'), one: v8.serialize(vals[0]).toString('hex'), expected};
})"""


def unwrap(x, how):
    return x["v"] if how == "obj" else next(iter(x)) if how == "map" else x.cause if how == "error" else x


def some_bytes(rng, size):
    n = rng.choice([0, 1, 2, 3, 5, 8, 16, 31]) if rng.random() < 0.97 else rng.choice([127, 128, 1000, 2100, 9000])
    return rng.randbytes(n * size)


def sources(sh, rng):
    """Views of every origin there is in Node.js."""
    specs = []
    for i in range(rng.randint(1, 6)):
        kind = rng.choice([k for k in NODE_VIEWS if k != "FastBuffer"])
        size = VIEW_CODE[kind][1]
        specs.append({"kind": kind, "data": some_bytes(rng, size).hex(), "off": rng.choice([0, 0, 1, 3]), "index": rng.randrange(6),
                      "src": rng.choice(["own", "own", "pool", "text", "sub", "resizable", "tracking", "shared", "growable", "subclass", "odd", "again"]),
                      "wrap": rng.choice(["", "", "obj", "map", "error"])})
    r = sh.node.eval(SOURCES, specs)
    data = bytes.fromhex(r["data"])
    got = readers(rng)(data)
    check(isinstance(got, JSArray) and len(got.array) == len(specs), "%s instead of %d values", short(got), len(specs))
    views = [unwrap(got.array[i], s["wrap"]) for i, s in enumerate(specs)]
    for v, (tag, hexa, first), s in zip(views, r["expected"], specs):
        check(isinstance(v, (JSTypedArray, JSDataView)) and tag_name(v) == tag, "a %s of Node.js is read as %s", tag, short(v))
        check(region(v) == bytes.fromhex(hexa), "a %s with bytes %s is read with %s", tag, hexa, region(v).hex())
        check(v.backing_buffer.data.nbytes == len(hexa) // 2 and v.byte_offset == 0, "the buffer has other bytes than the view: %s", short(v))
        check(v is views[first], "a view that occurs twice is read as two")
        sh.count("views read from " + s["src"])
        sh.nontrivial("source", tag, s["src"], s["wrap"], size_class(len(hexa) // 2))
    one = readers(rng)(bytes.fromhex(r["one"]))
    check(tag_name(one) == r["expected"][0][0] and region(one).hex() == r["expected"][0][1], "read alone it is %s instead of %s", short(one), r["expected"][0])
    # views and their buffers are the reader's own
    if len(views) > 1 and len(region(views[0])) and views[0] is not views[1]:
        before = region(views[1])
        with views[0].get_buffer_as_memoryview() as mv, mv.cast("B") as b:
            check(not b.readonly, "a view read from Node.js cannot be changed")
            b[0] ^= 255
        check(region(views[1]) == before or views[1] is views[0], "changing one view changes another")
        check(readers(rng)(data) is not None and region(unwrap(loads(data).array[0], specs[0]["wrap"])).hex() == r["expected"][0][1], "changing a view changes the data it was read from")


# --- writing

class Views(Compare):
    """Views whose bytes are available are written as copies of their region."""

    def step(self, a, b, path, key):
        if is_node(a) and a.kind == "view" and is_node(b):
            self.objects += 1
            known = a.tag in NODE_VIEWS and a.buf.kind == "buf"
            if b.kind == "nodebuf":
                if not known:
                    self.fail(path, "cannot be expressed by the extension", a, b)
                d = a.buf.data[a.off:a.off + a.blen]
                if b.tag != a.tag or bytes(b.data) != bytes(d):
                    self.fail(path, "view", (a.tag, bytes(d).hex()), (b.tag, bytes(b.data).hex()))
                if self.fwd.setdefault(id(a), id(b)) != id(b):
                    self.fail(path, "one view became several", a, b)
                return
            if known:
                self.fail(path, "not written with the extension", a, b)
        super().step(a, b, path, key)


class AsNode(Compare):
    """What Node.js makes of it."""

    def step(self, a, b, path, key):
        if is_node(a) and a.kind == "view" and is_node(b) and a.tag in NODE_VIEWS and a.buf.kind == "buf":
            self.objects += 1
            if b.kind != "view" or b.buf.kind != "buf":
                self.fail(path, "not a view", a, b)
            d, e = a.buf.data[a.off:a.off + a.blen], b.buf.data[b.off:b.off + b.blen]
            if b.tag != a.tag or bytes(d) != bytes(e):
                self.fail(path, "view", (a.tag, bytes(d).hex()), (b.tag, bytes(e).hex()))
            if self.fwd.setdefault(id(a), id(b)) != id(b) or self.back.setdefault(id(b), id(a)) != id(a):
                self.fail(path, "other sharing", a, b)
            return
        super().step(a, b, path, key)


def to_node(sh, rng):
    feats = pick_features(rng)
    kinds = dict(view=6, buf=1, obj=2, arr=2, map=1, set=1, error=1, sbuf=0.3) if rng.random() < 0.6 else None
    m = gen_for(rng, feats, **varied(rng), **({"kinds": kinds} if kinds else {})).graph()
    views = [n for n in walk(m) if n.kind == "view"]
    if not views:
        return
    if rng.random() < 0.4:
        v, w = rng.choice(views), rng.choice(views)
        m = Node("arr", form="list", props=[], length=4, elems={0: v, 1: m, 2: w, 3: v})
    data = Encoder(encode_steps=STEPS, features=as_flags(feats)).encode(to_python(m))
    res = "ResizableArrayBuffers" in feats
    read = parse(data, nodejs=True)
    same(Views(null_message=True, resizable=res, date="us"), m, read, "an independent reader sees another value", data)
    sh.count("views written", len(views))
    for n in views:
        sh.nontrivial("write", n.tag, n.buf.kind, n.form, n.track, size_class(n.blen))
    nodes = walk(m)
    if rng.random() < 0.4 and all(n.kind in ("view", "buf", "obj", "arr", "map", "set") for n in nodes) and "Float16Array" not in {n.tag for n in views} \
            and not any(n.kind in ("arr", "obj") and any(k == "length" for k, _ in n.props) or n.kind == "arr" and n.length > 10 ** 6 for n in nodes):
        try:
            got = sh.node.read(data)
        except NodeRefused as e:
            raise Violation(f"Node.js refuses the data: {e.args[0]}: {data[:300].hex()}") from None
        same(AsNode(strict_num=False, resizable=res), m, got, "Node.js sees another value than written", data)
        sh.count("views read by Node.js", len(views))
    # and back
    back = readers(rng)(data)
    same(Back(strict_num=False, null_message=True, resizable=res, date="us", unbox=True), m, from_python(back), "reading it back gives another value", data)
    sh.count("views read back", len(views))


class Back(AsNode):
    pass


def fallback(sh, rng):
    """Views the extension has no form for."""
    f16 = rng.random() < 0.4
    shared = rng.random() < 0.5
    data = rng.randbytes(2 * rng.randrange(0, 9))
    if f16:
        kind, buf = "Float16Array", JSArrayBuffer(data) if not shared else JSSharedArrayBuffer(rng.randrange(5))
    else:
        kind = rng.choice(NODE_VIEWS[:10])
        buf = JSSharedArrayBuffer(rng.randrange(5)) if shared else JSArrayBufferTransfer(rng.randrange(5))
    kw = {} if isinstance(buf, JSArrayBuffer) else {"byte_length": 8 * rng.randrange(3)}
    v = create_view(buf, ArrayBufferViewTag[f"k{kind}"], **kw)
    other = create_view(JSArrayBuffer(b"12345678"), ArrayBufferViewTag.kUint8Array)
    seen = []

    class Last:
        def encode(self, value, /, ctx, next):
            seen.append(value)
            next(value)

    graph = [v, other, JSObject(a=v), other]
    enc = Encoder(encode_steps=[serialize_object_references, node_step, Last(), TagWriter()], features=ALL)
    out = enc.encode(graph)
    check(any(x is v for x in seen) and not any(x is other for x in seen), "the step passes on %s", short(seen))
    plain = Encoder(features=ALL).encode([v])
    alone = Encoder(encode_steps=STEPS, features=ALL).encode([v])
    check(plain == alone, "a view without a form in the extension is written as %s instead of %s", alone.hex(), plain.hex())
    got = loads(out)
    a = list(got.array)
    check(type(a[0]) is type(v) and (region(a[0]) == region(v) if isinstance(buf, JSArrayBuffer) else a[0] == v) and a[2]["a"] is a[0] and a[1] is a[3] and region(a[1]) == b"12345678", "read back as %s", short(got))
    sh.count("fallbacks")
    sh.nontrivial("fallback", kind, type(buf).__name__)
    # without the feature the ordinary refusal
    if f16:
        expect_raises(EncodeV8SerializeError, lambda: Encoder(encode_steps=STEPS, features=as_flags([])).encode([v]), "Float16Array without its feature")


# --- hostile data

def varint(n):
    out = bytearray()
    while n > 127:
        out.append(n & 127 | 128)
        n >>= 7
    out.append(n)
    return bytes(out)


def hostile(sh, rng):
    code = rng.randrange(13)
    kind = NODE_VIEWS[code]
    size = VIEW_CODE.get(kind, ("", 1))[1]
    body = some_bytes(rng, size)
    head = b"\xff\x0f"
    pre, post = rng.choice([(b"", b""), (b"o\"\x01a", b"{\x01"), (b"A\x01", b"$\x00\x01"), (b";", b"T:\x02")])
    good = head + pre + b"\\" + varint(code) + varint(len(body)) + body + post
    v = readers(rng)(good)
    check(v is not None, "nothing read")
    r = rng.randrange(5)
    start = len(head + pre)
    nodejs_error = None
    if r == 0:
        bad_code = rng.choice([13, 14, 15, 20, 127, 128, 255, 2 ** 31, 2 ** 32 - 1, rng.randrange(13, 256), ord(rng.choice("bBCwWdDhfFqQ?")), rng.randrange(13, 2 ** 32)])
        bad = head + pre + b"\\" + varint(bad_code) + varint(len(body)) + body + post
        what, nodejs_error = f"kind {bad_code}", True
    elif r == 1:
        extra = rng.choice([1, 2, 8, 2 ** 16, 2 ** 31 - 1, 2 ** 32 - 1 - len(body) - len(post)])
        bad = head + pre + b"\\" + varint(code) + varint(len(body) + len(post) + extra) + body + post
        what, nodejs_error = f"{len(body) + len(post) + extra} bytes where there are {len(body) + len(post)}", True
    elif r == 2:
        cut = rng.randrange(start, len(good) - len(post)) if len(good) - len(post) > start else start
        bad = good[:cut]
        what = f"data that ends at {cut} of {len(good)}"
    elif r == 3:
        # numbers of more than 32 bits
        big = rng.choice([2 ** 32, 2 ** 40, 2 ** 63, 2 ** 70])
        bad = head + pre + b"\\" + (varint(big) + varint(len(body)) if rng.random() < 0.5 else varint(code) + varint(big)) + body + post
        what = "a number of more than 32 bits"
    else:
        # without the extension this is no known data
        for read in (lambda d: loads(d, nodejs=False), lambda d: Decoder().decodes(d)):
            expect_raises(DecodeV8SerializeError, lambda: read(good), "a host object without its reader")
        sh.count("refused data")
        return
    e = expect_raises(DecodeV8SerializeError, lambda: readers(rng)(bad), what)
    if nodejs_error:
        check(isinstance(e, NodeJsArrayBufferViewHostObjectHandlerDecodeError), "%s raises %r", what, e)
        check(bytes(e.data) == bad and start < e.position <= start + 11, "%s is reported at %s, the host object is at %d", what, e.position, start)
    sh.count("refused data")
    sh.nontrivial("hostile", r, kind, bool(pre), size_class(len(body)))


def misaligned(sh, rng):
    """Lengths that are no multiple of the element size: the elements that are complete, as in Node.js."""
    kind = rng.choice([k for k in NODE_VIEWS if VIEW_CODE.get(k, ("", 1))[1] > 1])
    size = VIEW_CODE[kind][1]
    body = rng.randbytes(size * rng.randrange(0, 4) + rng.randrange(1, size))
    data = b"\xff\x0f\\" + varint(NODE_VIEWS.index(kind)) + varint(len(body)) + body
    v = readers(rng)(data)
    whole = body[:len(body) // size * size]
    check(tag_name(v) == kind and region(v) == whole, "%s of %d bytes is read as %s", kind, len(body), short(v))
    n = sh.node.read(data)
    check(n.tag == kind and bytes(n.buf.data[n.off:n.off + n.blen]) == whole, "Node.js reads %s %s", n.tag, n.blen)
    sh.count("misaligned lengths")
    sh.nontrivial("misaligned", kind, len(body))


# --- the handler itself

def direct(sh, rng):
    code = rng.choice([c for c in range(13) if c != 10])
    kind = NODE_VIEWS[code]
    size = VIEW_CODE[kind][1]
    body = some_bytes(rng, size)
    pad = rng.randrange(0, 4) * size
    backing = rng.choice([
        lambda b: JSArrayBuffer(b), lambda b: JSArrayBuffer(b, max_byte_length=len(b) + 8), lambda b: JSArrayBuffer(b, readonly=True), lambda b: bytes(b),
        lambda b: bytearray(b), lambda b: JSArrayBuffer(bytearray(b), copy_data=False)])
    raw = bytes(rng.randbytes(pad)) + body + bytes(rng.randbytes(rng.choice([0, size])))
    buf = backing(raw)
    track = pad + len(body) == len(raw) and rng.random() < 0.5
    v = create_view(buf, ArrayBufferViewTag[f"k{kind}"], byte_offset=pad, **({} if track else {"byte_length": len(body)}))
    h = NodeJsArrayBufferViewHostObjectHandler()
    s = WritableTagStream()
    before = rng.randbytes(rng.randrange(4))
    s.data.extend(before)
    h.serialize_host_object(stream=s, value=v)
    want = varint(code) + varint(len(body)) + body
    check(bytes(s.data) == before + want, "a %s of %d bytes is written as %s instead of %s", kind, len(body), short(bytes(s.data)), short(before + want))
    # nothing keeps the buffer's memory busy
    if isinstance(buf, bytearray):
        buf.append(0)
        buf.pop()
    elif isinstance(buf, JSArrayBuffer) and buf.resizable:
        buf.resize(len(raw) + 1)
        buf.resize(len(raw))
    after = rng.randbytes(rng.randrange(4))
    s.data.extend(after)
    r = ReadableTagStream(bytes(s.data), pos=len(before)) if rng.random() < 0.5 else ReadableTagStream(s.data, pos=len(before))
    x = h.deserialize_host_object(stream=r)
    check(tag_name(x) == kind and region(x) == body, "%s %s is read back as %s", kind, body.hex(), short(x))
    check(r.pos == len(before) + len(want), "reading ends at %d instead of %d", r.pos, len(before) + len(want))
    # code 10 is the buffer of Node.js
    if kind == "Uint8Array":
        y = h.deserialize_host_object(stream=ReadableTagStream(varint(10) + varint(len(body)) + body))
        check(tag_name(y) == "Uint8Array" and region(y) == body, "a Buffer is read as %s", short(y))
    # through a stream, with its tag and its number as an object
    s = WritableTagStream()
    s.write_host_object(v, serializer=rng.choice([h, h.serialize_host_object]))
    check(bytes(s.data) == b"\\" + want, "a host object is written as %s", short(bytes(s.data)))
    sh.count("direct")
    sh.nontrivial("direct", kind, type(buf).__name__, track, size_class(len(body)))


def formats(sh, rng):
    for code, kind in enumerate(NODE_VIEWS):
        f = NodeBufferFormat(code)
        check(f.name == kind and f.nodejs_code == code, "code %d is %s", code, f)
    for t in ArrayBufferViewTag:
        name = t.name[1:]
        has = name in NODE_VIEWS
        check(NodeBufferFormat.supports(t) is has, "supports(%s) is %s", t, not has)
        if has:
            check(NodeBufferFormat(t).name == name, "%s is %s", t, NodeBufferFormat(t))
        else:
            expect_raises(ValueError, lambda: NodeBufferFormat(t), f"{t}")
    for bad in (13, -1, 99, None, "x", 2 ** 40):
        expect_raises(ValueError, lambda: NodeBufferFormat(bad), f"format {bad}")
    sh.count("formats")


fixed = [lambda sh: formats(sh, None)]
fixed[0].__name__ = "formats"
