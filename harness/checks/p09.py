"""Container types and aliasing of the input."""
import array
import ctypes
import gc
import io
import mmap
import os
import tempfile

from harness import fuzz
from harness.core import Violation, check
from harness.graph import Compare, Node, walk
from harness.model import from_python
from harness.util import observe, same
from harness.wire import NODE_VIEWS, VIEW_CODE
from v8serialize import DecodeV8SerializeError, Decoder, TagReader, loads
from v8serialize.extensions import NodeJsArrayBufferViewHostObjectHandler

QUICK, THOROUGH = 24000, 200000
RULE = "distinct (container, value kinds) pairs"
MIN = {"containers": 20000, "buffers written to": 3000, "containers resized afterwards": 2000, "rejected alike": 200}


class BufferSubclass(bytearray):
    pass


def mapped(data):
    m = mmap.mmap(-1, max(1, len(data)))
    m[:len(data)] = data
    return m


def containers(rng, data):
    """(name, container, function that overwrites it or None)"""
    def wipe(b):
        for i in range(len(b)):
            b[i] ^= 0xFF

    ba = bytearray(data)
    yield "bytes", bytes(data), None
    yield "bytearray", ba, wipe
    pad = bytearray(b"\xaa" * rng.randint(1, 9)) + data + b"\xbb" * 3
    start = len(pad) - len(data) - 3
    yield "memoryview slice", memoryview(pad)[start:start + len(data)], wipe
    yield "readonly memoryview", memoryview(bytes(data)), None
    yield "memoryview of char", memoryview(bytearray(data)).cast("c"), None
    yield "memoryview of signed", memoryview(bytearray(data)).cast("b"), None
    yield "array B", array.array("B", data), wipe
    a = array.array("b")
    a.frombytes(data)
    yield "array b", a, None
    for code, size in (("H", 2), ("i", 4), ("d", 8)):
        if len(data) % size == 0:
            a = array.array(code)
            a.frombytes(data)
            yield "array " + code, a, None
            yield "memoryview of " + code, memoryview(bytearray(data)).cast(code), None
    yield "ctypes", (ctypes.c_ubyte * len(data)).from_buffer_copy(data), wipe
    yield "bytearray subclass", BufferSubclass(data), wipe
    if len(data) % 3 == 0 and len(data):
        yield "two-dimensional", memoryview(bytearray(data)).cast("B", (3, len(data) // 3)), None
    if data:
        yield "mmap", mapped(data), wipe
        yield "memoryview of mmap", memoryview(mapped(data)), wipe


def stream_for(rng):
    w = fuzz.valid(rng)
    if rng.random() < 0.3:  # with Node.js buffers
        t = rng.choice(NODE_VIEWS)
        d = rng.randbytes(rng.randint(0, 4) * VIEW_CODE.get(t, ("", 1))[1])
        return w.out + b"", b"\xff\x0fA\2" + b"\\" + fuzz.varint(NODE_VIEWS.index(t)) + fuzz.varint(len(d)) + d + b"B\3abc$\0\2"
    return w.out, None


def node_decoder():
    return Decoder(decode_steps=[TagReader(host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler())])


def outcome(fn):
    try:
        return "value", fn()
    except DecodeV8SerializeError as e:
        return "error", (type(e).__name__, e.message, e.position)


def case(sh, rng):
    a, b = stream_for(rng)
    data = bytes(b or a)
    if rng.random() < 0.15:
        data = fuzz.mutate(rng, data, [], b"")
    want = outcome(lambda: loads(data))
    kinds = ()
    if want[0] == "value":
        model = from_python(want[1])
        kinds = tuple(sorted({n.kind for n in walk(model)}))
        observe(sh, model)
    all_ = list(containers(rng, data))
    for name, c, wipe in rng.sample(all_, min(5, len(all_))):
        sh.count("containers")
        sh.count("container " + name)
        sh.nontrivial(name, kinds)
        how = rng.randrange(3)
        try:
            got = outcome(lambda: loads(c) if how else node_decoder().decodes(c)) if how < 2 else outcome(lambda: loads(data=c))
        except Violation:
            raise
        if want[0] == "error" or got[0] == "error":
            check(got == want, "%s: %s instead of %s for %s", name, got, want, data[:200].hex())
            sh.count("rejected alike")
            continue
        same(Compare(strict_num=True), model, from_python(got[1]), f"{name} differs from bytes", data)
        view = memoryview(c)
        check(view.tobytes() == data if name != "mmap" else view.tobytes()[:len(data)] == data, "%s was modified", name)
        view.release()
        if wipe:
            wipe(c)
            same(Compare(strict_num=True), model, from_python(got[1]), f"values changed with the {name} they were read from", data)
            if name in ("bytearray", "bytearray subclass", "array B"):
                c.extend(b"\1" * 100)  # BufferError if the library still holds the container
                del c[:]
                sh.count("containers resized afterwards")
        independent(sh, rng, got[1], model, data)
    files(sh, rng, data, want)


def independent(sh, rng, py, model, data):
    """Writing into one returned buffer changes that buffer alone."""
    nodes = buffers_of(py)
    if not nodes:
        return
    i = rng.randrange(len(nodes))
    before = [bytes(b.data) for b in nodes]
    with memoryview(nodes[i].data) as mv:
        if mv.readonly or not mv.nbytes:
            return
        mv[0] ^= 0x55
        mv[mv.nbytes - 1] ^= 0x66
    sh.count("buffers written to")
    for j, b in enumerate(nodes):
        check((bytes(b.data) == before[j]) == (j != i), "writing buffer %d changed buffer %d: %s", i, j, data[:200].hex())
    again = from_python(loads(data))
    same(Compare(strict_num=True), model, again, "writing into a returned buffer changed the input", data)


def buffers_of(py):
    from v8serialize.jstypes import JSArray, JSArrayBuffer, JSError, JSMap, JSObject, JSSet
    from v8serialize.jstypes.jsbuffers import JSArrayBufferView

    seen, todo, out = {}, [py], []
    while todo:
        v = todo.pop()
        if id(v) in seen:
            continue
        seen[id(v)] = v
        if isinstance(v, JSArrayBuffer):
            out.append(v)
        elif isinstance(v, JSArrayBufferView):
            todo.append(v.backing_buffer)
        elif isinstance(v, (JSMap, JSObject)):
            for k in list(v):
                todo += [k, v[k]]
        elif isinstance(v, JSSet):
            todo += list(v)
        elif isinstance(v, JSError):
            todo.append(v.cause)
    return out


def files(sh, rng, data, want):
    """The same bytes from file objects."""
    x = rng.random()
    if x > 0.4:
        return
    with tempfile.TemporaryFile() if x < 0.05 else io.BytesIO() as f:
        skip = rng.randint(0, 3)
        f.write(b"\0" * skip + data)
        f.seek(skip)
        if x < 0.02:
            f2 = io.BufferedReader(io.FileIO(os.dup(f.fileno()), "rb"))
        else:
            f2 = f
        got = outcome(lambda: node_decoder().decode(f2))
        if f2 is not f:
            f2.close()
    sh.count("files")
    if want[0] == "error":
        check(got == want, "file: %s instead of %s for %s", got, want, data[:200].hex())
    else:
        check(got[0] == "value", "file: %s", got)
        same(Compare(strict_num=True), from_python(want[1]), from_python(got[1]), "a file differs from bytes", data)
