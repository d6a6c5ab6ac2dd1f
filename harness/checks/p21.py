"""Buffers and views track size, range and sharing as in JavaScript."""
import array
import copy
import ctypes
import dataclasses

from harness.core import Violation, check, expect_raises
from v8serialize.constants import ArrayBufferViewTag
from v8serialize.jstypes import (ArrayBufferViewStructFormat, DataFormat, JSArrayBuffer, JSArrayBufferTransfer, JSBigInt64Array, JSBigUint64Array, JSDataView, JSFloat16Array,
                                 JSFloat32Array, JSFloat64Array, JSInt8Array, JSInt16Array, JSInt32Array, JSSharedArrayBuffer, JSTypedArray, JSUint8Array,
                                 JSUint8ClampedArray, JSUint16Array, JSUint32Array, create_view)

QUICK, THOROUGH = 96000, 2400000
RULE = "distinct (buffer configuration, kinds and ranges of views, operations) of histories of at least 4 operations"
MIN = {"operations": 60000, "view states compared": 400000, "out of range views": 30000, "recovered views": 1500, "resizes": 15000, "refused resizes": 4000, "views refused": 12000,
       "histories in V8": 1500, "view states in V8": 15000, "bytes written through views": 3500, "writes refused": 1500, "resizes with held memory": 1000, "large buffers": 500,
       "memory resized by its owner as JavaScript cannot": 1500}
ASSUMPTIONS = ["V8 12.4 as embedded in Node.js 22 stands for JavaScript", "resizing while Python code holds the buffer's memory fails or takes effect completely",
               "a bytearray used directly as backing buffer counts as resizable"]

KINDS = [(JSInt8Array, "Int8Array", 1), (JSUint8Array, "Uint8Array", 1), (JSUint8ClampedArray, "Uint8ClampedArray", 1), (JSInt16Array, "Int16Array", 2),
         (JSUint16Array, "Uint16Array", 2), (JSInt32Array, "Int32Array", 4), (JSUint32Array, "Uint32Array", 4), (JSFloat16Array, "Float16Array", 2), (JSFloat32Array, "Float32Array", 4),
         (JSFloat64Array, "Float64Array", 8), (JSBigInt64Array, "BigInt64Array", 8), (JSBigUint64Array, "BigUint64Array", 8), (JSDataView, "DataView", 1)]


class Model:
    """An ArrayBuffer."""

    def __init__(self, data, maximum, resizable, readonly):
        self.data, self.maximum, self.resizable, self.readonly = bytearray(data), maximum, resizable, readonly
        self.excess = 0  # bytes by which the memory's owner extended it beyond the buffer
        self.plain = True  # nothing happened that JavaScript cannot do


class View:
    def __init__(self, kind, offset, length, readonly):
        self.cls, self.name, self.size = kind
        self.offset, self.length, self.readonly = offset, length, readonly
        self.was_out = False

    def region(self, m):
        """(in range, start, length) in bytes."""
        n = len(m.data)
        start = self.offset * self.size
        if self.length is None:
            return (True, start, (n - start) // self.size * self.size) if start <= n else (False, 0, 0)
        if start + self.length * self.size <= n:
            return True, start, self.length * self.size
        return False, 0, 0


def sources(rng, data):
    """(object holding the bytes, name) of many types."""
    even = data + b"\0" * (-len(data) % 8)
    return rng.choice([
        lambda: (bytes(data), data), lambda: (bytearray(data), data), lambda: (memoryview(bytes(data)), data), lambda: (memoryview(bytearray(data)), data),
        lambda: (array.array("B", data), data), lambda: (array.array("b", bytes(b & 127 for b in data)), bytes(b & 127 for b in data)),
        lambda: (array.array("I", even), even), lambda: (memoryview(even).cast("d"), even), lambda: (memoryview(bytearray(b"xx" + data + b"yyy"))[2:2 + len(data)], data),
        lambda: ((ctypes.c_uint16 * (len(even) // 2)).from_buffer_copy(even), even), lambda: (memoryview(even).cast("B", (2, len(even) // 2)) if even else even, even)])()


def case(sh, rng):
    rng.choices([history, construction, creation, inaccessible], [8, 3, 3, 0.3])[0](sh, rng)


def content(b):
    with memoryview(b) as v:
        return v.tobytes()


def construction(sh, rng):
    """Every combination of constructor options."""
    data = rng.randbytes(rng.choice([0, 1, 5, 8, 13, 16] if rng.random() < 0.95 else [130, 300, 2000, 70000]))
    src, data = sources(rng, data)
    before = content(src)
    opts = {}
    if rng.random() < 0.4:
        opts["max_byte_length"] = max(0, len(data) + rng.choice([-3, -1, 0, 1, 7, 100]))
    for k in ("resizable", "readonly", "copy_data"):
        if rng.random() < 0.5:
            opts[k] = rng.choice([True, False, None])
    how = rng.randrange(4)
    text = f"JSArrayBuffer({type(src).__name__} of {len(data)} bytes, {opts})"
    if how == 0:
        n = rng.choice([None, 0, 1, 8, 21, -1])
        data = b"\0" * (n or 0)
        text = f"JSArrayBuffer({n}, {opts})"
        make = (lambda: JSArrayBuffer(**opts)) if n is None else (lambda: JSArrayBuffer(n, **opts))
        opts.pop("copy_data", None)
        src = None
        if n == -1:
            expect_raises(ValueError, make, text)
            sh.count("constructions refused")
            return
    else:
        make = lambda: JSArrayBuffer(src, **opts)
    copied = opts.get("copy_data") is not False
    resizable = opts.get("resizable") is True or "max_byte_length" in opts
    readonly = opts.get("readonly") is True
    maximum = opts.get("max_byte_length", len(data))
    refused = (resizable and readonly) or maximum < len(data) or (resizable and not copied and not isinstance(src, bytearray) and src is not None)
    if refused:
        expect_raises(ValueError, make, text)
        sh.count("constructions refused")
        return
    b = make()
    fixed = readonly or (not copied and src is not None and memoryview(src).readonly)
    check(bytes(b.data) == data and b.data.readonly == fixed and b.data.format == "B" and b.data.ndim == 1, "%s: data is %s", text, b.data)
    check(b.resizable is resizable and b.max_byte_length == maximum, "%s: %s, maximum %s", text, b.resizable, b.max_byte_length)
    check(memoryview(b).readonly == fixed and memoryview(b).nbytes == len(data), "%s: as a buffer", text)
    if src is not None and data and not memoryview(src).readonly:
        # later changes to the source are seen exactly when it was not copied
        with memoryview(src) as mv, (mv if mv.format == "B" and mv.ndim == 1 else mv.cast("B")) as raw:
            raw[0] ^= 255
            now = raw.tobytes()
        check(bytes(b.data) == (data if copied else now), "%s: after changing the source", text)
        if not fixed:
            was = content(src)
            with b.data as d:
                d[len(d) - 1] ^= 85
            check(content(src) == (was if copied else was[:-1] + bytes([was[-1] ^ 85])), "%s: source after changing the buffer", text)
    elif src is not None and copied:
        if not fixed and data:
            with b.data as d:
                d[0] ^= 1
        check(content(src) == before, "%s: the source changed", text)
    if fixed and data:
        expect_raises(TypeError, lambda: b.data.__setitem__(0, 1), text + ": writing a read-only buffer")
        sh.count("writes refused")
    if copied and isinstance(src, memoryview):
        src.release()
        check(len(b.data) == len(data), "%s: after releasing the source", text)
    sh.count("constructions")
    sh.nontrivial("construct", type(src).__name__, tuple(sorted(opts.items(), key=str)), how == 0)


def creation(sh, rng):
    """Views are created or refused as JavaScript does."""
    m, buf, direct = backing(sh, rng)
    js = []
    for _ in range(rng.choice([3, 6, 10])):
        kind = rng.choice(KINDS)
        size, n = kind[2], len(m.data)
        off = rng.choice([0, 0, size, n, n - n % size, n + size, n - size, 1, rng.randint(-size, n + size), 2**40 * size])
        length = rng.choice([None, None, 0, size, n, n - off if off <= n else 0, max(0, (n - off) // size * size), (max(0, n - off) // size + 1) * size, rng.randint(-1, n + 2), 2**40 * size])
        ro = rng.choice([None, None, True])
        text = f"{kind[1]} over {n} of at most {m.maximum} bytes ({'' if m.resizable else 'not '}resizable), offset {off}, length {length}"
        end = off + (length or 0)
        bad = (off % size or off < 0 or (length is not None and (length % size or length < 0)) or off > n or end > n
               or (length is None and not m.resizable and n % size))
        fn = rng.choice([lambda: kind[0].from_bytes(buf, byte_offset=off, byte_length=length, readonly=ro), lambda: create_view(buf, kind[0].view_tag, byte_offset=off, byte_length=length, readonly=ro),
                         lambda: create_view(buf, ArrayBufferViewStructFormat(kind[0].view_tag), byte_offset=off, byte_length=length, readonly=ro)])
        if bad:
            e = expect_raises(ValueError, fn, text)
            sh.count("views refused")
            if off >= 0 and (length or 0) >= 0:
                from v8serialize.jstypes import JSArrayBufferError

                check(isinstance(e, JSArrayBufferError), "%s: raised %r", text, e)
        else:
            v = fn()
            check(type(v) is kind[0] and v.backing_buffer is buf, "%s: %r", text, v)
            compare(sh, m, v, View(kind, off // size, None if length is None else length // size, ro), text)
            sh.count("views created")
        if length is None or length % size == 0:
            js.append([kind[1], off, None if length is None else length // size if kind[1] != "DataView" else length, bool(bad)])
        sh.nontrivial("create", kind[1], n, m.maximum, m.resizable, off, length)
    if rng.random() < 0.4:
        got = sh.node.eval("""([n, max, views]) => {
          const b = max === null ? new ArrayBuffer(n) : new ArrayBuffer(n, {maxByteLength: max});
          return views.map(([k, o, l]) => { try { new globalThis[k](b, o, l === null ? undefined : l); return false; } catch (e) {
            if (!(e instanceof RangeError)) throw e; return true; } }); }""", [len(m.data), m.maximum if m.resizable else None, js])
        for (k, o, l, bad), g in zip(js, got):
            check(g == bad, "V8 %s a %s at %s of length %s over %d bytes (%s), ours does not", "refuses" if g else "accepts", k, o, l, len(m.data), m.resizable)
        sh.count("creations in V8", len(js))


class Bytes(bytearray):
    pass


def backing(sh, rng):
    """(model, backing buffer, the bytearray behind it if it can be resized directly)."""
    large = rng.random() < 0.06
    data = rng.randbytes(rng.choice([0, 1, 4, 8, 9, 16, 24, 33] if not large else [0, 120, 257, 400, 1000, 4096, 70001]))
    extra = rng.choice([100, 300, 1000, 6000, 70000]) if large else 0
    sh.count("large buffers", large)
    how = rng.choice(["fixed", "resizable", "resizable", "resizable", "wrapped", "bytearray", "bytes", "readonly", "memory", "max", "fixed over bytearray", "view of read-only memory"])
    if how == "fixed":
        return Model(data, len(data), False, False), JSArrayBuffer(data), None
    if how == "resizable":
        mx = len(data) + extra + rng.choice([0, 1, 8, 16, 40])
        return Model(data, mx, True, False), JSArrayBuffer(data, max_byte_length=mx), None
    if how == "max":
        return Model(data, len(data), True, False), JSArrayBuffer(data, resizable=True), None
    if how == "wrapped":
        mx = len(data) + extra + rng.choice([0, 8, 40])
        b = bytearray(data)
        return Model(data, mx, True, False), JSArrayBuffer(b, max_byte_length=mx, copy_data=False), b
    if how == "bytearray":
        b = rng.choice([bytearray, Bytes])(data)
        return Model(data, 10**6, True, False), b, b
    if how == "bytes":
        return Model(data, len(data), False, True), data, None
    if how == "readonly":
        return Model(data, len(data), False, True), JSArrayBuffer(data, readonly=True), None
    if how == "fixed over bytearray":
        b = bytearray(data)
        return Model(data, len(data), False, False), JSArrayBuffer(b, copy_data=False), b
    if how == "view of read-only memory":
        with memoryview(b"<<" + data + b">>") as mv, mv[2:-2] as part:
            return Model(data, len(data), False, True), JSArrayBuffer(part, copy_data=False, readonly=rng.choice([None, True])), None
    b = bytearray(b"<<" + data + b">>")
    return Model(data, len(data), False, False), JSArrayBuffer(memoryview(b)[2:-2], copy_data=False), None


def compare(sh, m, v, model, what):
    ok, start, length = model.region(m)
    sh.count("view states compared")
    check(v.is_in_range is ok, "%s: is_in_range is %s", what, v.is_in_range)
    check(v.byte_offset == (start if ok else 0) and v.byte_length == length, "%s: offset %s and length %s, expected %s and %s", what, v.byte_offset, v.byte_length, start, length)
    check(v.is_backing_buffer_resizable is m.resizable and v.is_length_tracking is (m.resizable and model.length is None), "%s: tracking %s, resizable %s",
          what, v.is_length_tracking, v.is_backing_buffer_resizable)
    check((v.item_offset, v.item_length, v.readonly) == (model.offset, model.length, model.readonly), "%s: item fields", what)
    want = bytes(m.data[start:start + length])
    ro = m.readonly or model.readonly is True
    with v.get_buffer_as_memoryview() as raw:
        check(raw.tobytes() == want and raw.readonly is ro and raw.format == "B" and raw.ndim == 1, "%s: bytes %s, expected %s, readonly %s", what, raw.tobytes().hex(), want.hex(), raw.readonly)
    with v.get_buffer_as_memoryview(readonly=True) as raw:
        check(raw.readonly and raw.tobytes() == want, "%s: read-only bytes", what)
    with v.get_buffer() as b:
        if isinstance(v, JSTypedArray):
            check(b.nbytes == length and len(b) == length // model.size and b.itemsize == model.size and b.readonly is ro and bytes(b.cast("B")) == want, "%s: items", what)
        else:
            check(len(b) == length and bytes(b.buffer) == want and b.buffer.readonly is ro, "%s: data view", what)
    with v.get_buffer(readonly=True) as b:
        raw = b if isinstance(v, JSTypedArray) else b.buffer
        check(raw.readonly and bytes(raw.cast("B")) == want, "%s: get_buffer(readonly=True) gives writable or other items", what)
    if not ok:
        sh.count("out of range views")
        model.was_out = True
    elif model.was_out:
        sh.count("recovered views")
        model.was_out = False


def raw_of(buf):
    return bytes(buf.data) if isinstance(buf, JSArrayBuffer) else bytes(buf)


def history(sh, rng):
    m, buf, direct = backing(sh, rng)
    views, ops, js = [], [], []
    n = len(m.data)
    for _ in range(rng.choice([1, 3, 5, 8])):
        kind = rng.choice(KINDS)
        size = kind[2]
        off = rng.choice([0, 0, 1, 2, n // size, n // size + 1, rng.randint(0, max(1, (m.maximum if m.maximum < 10**6 else len(m.data)) // size))])
        length = rng.choice([None, None, 0, 1, 2, max(0, n // size - off), rng.randint(0, 9), rng.randint(0, 9 + n // size)])
        model = View(kind, off, length, rng.choice([None, None, None, True]))
        v = kind[0](buf, item_offset=off, item_length=length, readonly=model.readonly)
        views.append((v, model))
        ops.append(f"{kind[1]}({off}, {length})")
    held = None

    def check_all(what):
        check(raw_of(buf) == bytes(m.data), "%s: buffer holds %s, expected %s", what, raw_of(buf).hex(), m.data.hex())
        if isinstance(buf, JSArrayBuffer):
            check(buf.max_byte_length == m.maximum and buf.resizable is m.resizable, "%s: limits", what)
        for v, model in views:
            compare(sh, m, v, model, f"{what}: {model.name}({model.offset}, {model.length}) over {len(m.data)} of at most {m.maximum} bytes")

    check_all("new views")
    first = bytes(m.data)
    for _ in range(rng.choice([3, 6, 12])):
        op = rng.choices(["resize", "bad resize", "write", "view write", "direct", "copy", "hold", "new view"], [6, 1, 2, 3, 1.5 if direct is not None else 0, 0.7, 1, 0.5])[0]
        what = f"after {ops}, {op}"
        sh.count("operations")
        js_ok = isinstance(buf, JSArrayBuffer)
        if op == "resize" and js_ok:
            edges = [model.offset * model.size + d for _, model in views for d in (0, 1, -1)] + [(model.offset + model.length) * model.size + d for _, model in views if model.length for d in (0, -1)]
            k = rng.choice([0, len(m.data), m.maximum, rng.randint(0, m.maximum), rng.choice(edges)])
            if not m.resizable or not 0 <= k <= m.maximum:
                expect_raises(ValueError, lambda: buf.resize(k), what)
                sh.count("refused resizes")
                js.append(["resize", k])
                ops.append(f"resize({k}) refused")
            else:
                buf.resize(k)
                m.data = m.data[:k] + bytes(max(0, k - len(m.data)))
                m.excess = 0
                sh.count("resizes")
                js.append(["resize", k])
                ops.append(f"resize({k})")
        elif op == "bad resize" and js_ok:
            k = rng.choice([-1, m.maximum + 1, 2**40, -2**40]) if m.resizable else rng.choice([-1, 0, len(m.data), m.maximum])
            expect_raises(ValueError, lambda: buf.resize(k), what)
            sh.count("refused resizes")
            ops.append(f"resize({k}) refused")
        elif op == "write" and m.data:
            i, x = rng.randrange(len(m.data)), rng.randrange(256)
            if m.readonly:
                if js_ok:
                    expect_raises(TypeError, lambda: buf.data.__setitem__(i, x), what)
                    sh.count("writes refused")
                continue
            with (buf.data if js_ok else memoryview(buf)) as d:
                d[i] = x
            m.data[i] = x
            js.append(["write", i, x])
            ops.append(f"[{i}] = {x}")
        elif op == "view write" and views:
            v, model = rng.choice(views)
            ok, start, length = model.region(m)
            with v.get_buffer_as_memoryview() as d:
                if not length:
                    expect_raises(IndexError if not d.readonly else (IndexError, TypeError), lambda: d.__setitem__(0, 1), what)
                    continue
                i, x = rng.randrange(length), rng.randrange(256)
                if m.readonly or model.readonly:
                    expect_raises(TypeError, lambda: d.__setitem__(i, x), what)
                    sh.count("writes refused")
                    continue
                d[i] = x
            m.data[start + i] = x
            sh.count("bytes written through views")
            js.append(["write", start + i, x])
            ops.append(f"{model.name}[{i}] = {x}")
        elif op == "direct":
            k = len(m.data) * rng.choice([1, 1, 2]) + 20
            k = rng.randint(0, k if rng.random() < 0.2 else min(m.maximum, k))
            old = len(m.data) + m.excess
            if k < old:
                del direct[k:]
            else:
                direct.extend(bytes(k - old) if rng.random() < 0.7 or k <= m.maximum else rng.randbytes(k - old) if old >= m.maximum else bytes(k - old))
            m.data = m.data[:k] + bytes(max(0, min(k, m.maximum) - len(m.data)))
            m.excess = max(0, k - m.maximum)
            if m.excess or not m.resizable:
                m.plain = False
                sh.count("memory resized by its owner as JavaScript cannot")
            js.append(["resize", k])
            ops.append(f"resized to {k} from outside")
        elif op == "copy" and views:
            v, model = rng.choice(views)
            c = rng.choice([copy.copy, lambda x: dataclasses.replace(x), lambda x: type(x)(x.backing_buffer, x.item_offset, x.item_length, x.readonly)])(v)
            check(type(c) is type(v) and c.backing_buffer is buf, "%s: copy %r", what, c)
            compare(sh, m, c, model, what + ": copy")
        elif op == "new view":
            kind = rng.choice(KINDS)
            model = View(kind, rng.randint(0, 4), rng.choice([None, 0, 1, 3]), None)
            v = kind[0](buf, model.offset, model.length)
            views.append((v, model))
            js.append(["view", len(views) - 1])
        elif op == "hold" and js_ok and views:
            v, model = rng.choice(views)
            with v.get_buffer_as_memoryview() as d:
                length = d.nbytes
                k = rng.choice([0, m.maximum, len(m.data), rng.randint(0, m.maximum)])
                try:
                    buf.resize(k)
                except BufferError:
                    pass  # Python does not move memory in use
                except ValueError:
                    check(not m.resizable, "%s: resize(%d) refused", what, k)
                else:
                    m.data = m.data[:k] + bytes(max(0, k - len(m.data)))
                    m.excess = 0
                    js.append(["resize", k])
                check(d.nbytes == length, "%s: held memory changed its size", what)
                d.tobytes()
            sh.count("resizes with held memory")
        check_all(what)
    if len(ops) - len(views) >= 4:
        sh.nontrivial(tuple(o for o in ops))
    sh.sample(ops)
    if rng.random() < 0.3 and js and m.maximum <= 7000 and m.plain:
        v8(sh, rng, m, views, js, first)


V8 = """([data, max, views, ops]) => {
  const b = max === null ? new ArrayBuffer(data.length / 2) : new ArrayBuffer(data.length / 2, {maxByteLength: max});
  new Uint8Array(b).set(Buffer.from(data, 'hex'));
  const n0 = b.byteLength;
  if (max !== null) b.resize(max);  // the views may start out of range
  const vs = [];
  for (const [k, o, s, l] of views) { try { vs.push(new globalThis[k](b, o * s, l === null ? undefined : l)); } catch (e) { vs.push(null); } }
  if (max !== null) { b.resize(n0); }
  new Uint8Array(b).set(Buffer.from(data, 'hex'));
  const state = () => [Buffer.from(b).toString('hex'), ...vs.map(v => { if (v === null) return null;
     try { return [v.byteOffset, v.byteLength, Buffer.from(b, v.byteOffset, v.byteLength).toString('hex')]; } catch (e) { return [0, 0, '']; } })];
  const out = [state()];
  for (const [op, i, x] of ops) {
    if (op === 'resize') { try { b.resize(i); } catch (e) { if (!(e instanceof RangeError || e instanceof TypeError)) throw e; } }
    else if (op === 'write') new Uint8Array(b)[i] = x;
    out.push(state());
  }
  return out; }"""


def v8(sh, rng, m, views, js, first):
    """The same history in JavaScript, compared with the model at every step."""
    spec = [[x.name, x.offset, x.size, None if x.length is None else x.length] for _, x in views]
    mx = m.maximum if m.resizable else None
    got = sh.node.eval(V8, [first.hex(), mx, spec, js])
    h = Model(first, m.maximum, m.resizable, m.readonly)
    for step, st in zip([None] + js, got):
        if step and step[0] == "resize" and m.resizable and 0 <= step[1] <= m.maximum:
            h.data = h.data[:step[1]] + bytes(max(0, step[1] - len(h.data)))
        elif step and step[0] == "write":
            h.data[step[1]] = step[2]
        check(st[0] == h.data.hex(), "V8's buffer holds %s, ours %s", st[0], h.data.hex())
        for (_, x), s in zip(views, st[1:]):
            if s is None:
                continue
            ok, start, length = x.region(h)
            check(s == [start, length, h.data[start:start + length].hex()], "V8's %s is %s, ours %s", (x.name, x.offset, x.length), s, (start, length))
            sh.count("view states in V8")
    check(h.data == m.data, "the history in V8 ended differently")
    sh.count("histories in V8")


def inaccessible(sh, rng):
    """Views over memory that Python cannot access keep the range they were created with."""
    buf = rng.choice([JSSharedArrayBuffer(rng.randrange(2**32)), JSArrayBufferTransfer(rng.randrange(2**32))])
    kind = rng.choice(KINDS)
    off, n = rng.randrange(10), rng.randrange(10)
    v = create_view(buf, kind[0].view_tag, byte_offset=off * kind[2], byte_length=n * kind[2])
    check((v.byte_offset, v.byte_length) == (off * kind[2], n * kind[2]) and v.backing_buffer is buf, "%r: %s %s", v, v.byte_offset, v.byte_length)
    check(not v.is_backing_buffer_resizable and not v.is_length_tracking, "%r: tracking", v)
    with v.get_buffer_as_memoryview() as d:
        check(d.nbytes == 0, "%r: bytes", v)
    expect_raises(NotImplementedError, lambda: memoryview(buf).tobytes(), "memory of " + repr(buf))
    if kind[2] > 1:
        expect_raises(ValueError, lambda: create_view(buf, kind[0].view_tag, byte_offset=off * kind[2] + 1, byte_length=n * kind[2]), "misaligned")
    w = create_view(buf, kind[0].view_tag, byte_offset=off * kind[2], byte_length=n * kind[2])
    sh.count("inaccessible")


def formats(sh):
    """Views are found by tag, format and name."""
    for cls, name, size in KINDS:
        f = ArrayBufferViewStructFormat(cls.view_tag)
        check(f.name == name and f.view_type is cls and f is ArrayBufferViewStructFormat[name], "%s: %r", name, f)
        check(cls.view_tag is ArrayBufferViewTag["k" + name] and cls.data_format.byte_length == size, "%s: class", name)
        check(DataFormat.resolve(data_type=cls.data_format.data_type, byte_length=size) == cls.data_format, "%s: format", name)
        v = create_view(bytes(16), cls.view_tag)
        check(type(v) is cls, "%s: create_view", name)


def options(sh):
    """Fields are checked when views are constructed directly."""
    for cls, _, _ in KINDS:
        for kw in (dict(item_offset=-1), dict(item_length=-1), dict(readonly=False)):
            expect_raises(ValueError, lambda: cls(bytes(16), **kw), f"{cls.__name__} {kw}")


def closing(sh):
    """close() releases memory that was wrapped, and leaves other buffers usable."""
    src = bytearray(8)
    b = JSArrayBuffer(memoryview(src), copy_data=False)
    with b as c:
        check(c is b and b.data.nbytes == 8, "with")
    expect_raises(ValueError, lambda: b.data, "data of a closed buffer")
    src.extend(b"x")  # no longer exported
    for b in (JSArrayBuffer(b"abc"), JSArrayBuffer(b"abc", readonly=True), JSArrayBuffer(bytearray(b"abc"), copy_data=False)):
        with b:
            pass
        check(bytes(b.data) == b"abc", "data after close")


fixed = [formats, options, closing]
