"""Encode steps see every value in order and control what is written."""
import functools

from harness.core import Violation, check, expect_raises
from harness.graph import HOLE, NULL, Compare, Node, is_node, walk
from harness.model import Builder, Gen, from_python, prim_to_python
from harness.util import as_flags, gen_for, observe, parse, pick_features, same, varied
from harness.wire import Bad, Parser
from v8serialize import Decoder, Encoder, TagReader, dumps, loads
from v8serialize.encode import (
    DefaultEncodeContext, EncodeV8SerializeError, TagWriter, UnhandledValueEncodeV8SerializeError, serialize_object_references,
)
from v8serialize.jstypes import JSArray, JSErrorData, JSHole, JSMap, JSObject, JSSet, JSUndefined

QUICK, THOROUGH = 90000, 900000
RULE = "distinct (pipeline, graph shape) pairs"
MIN = {"traces": 3000, "trace events": 30000, "references in traces": 1000, "substitutions": 2000, "temporary substitutes": 3000,
       "host objects": 1000, "pipelines alike": 1000, "swallowed": 500, "keys replaced": 1500, "unsuitable keys refused": 600}


def case(sh, rng):
    return rng.choices([trace, substitute, temporaries, alike, direct, hosts, keys], [4, 3, 2, 1, 2, 1, 0.7])[0](sh, rng)


def forms(rng, step):
    """The same step in the ways a step can be given."""

    class Obj:
        def encode(self, value, /, ctx, next):
            return step(value, ctx=ctx, next=next)

    class Call:
        def __call__(self, value, /, ctx, next):
            return step(value, ctx=ctx, next=next)

    def fn(value, /, ctx, next):
        return step(value, ctx=ctx, next=next)

    return rng.choice([fn, Obj(), Call(), Obj().encode, functools.partial(fn), lambda v, ctx, next: step(v, ctx=ctx, next=next)])


class Arrays:
    """Which arrays were written sparse, in order."""

    def __init__(self, data):
        self.p = Parser(data)
        self.p.parse()
        self.it = iter([t == "a" for _, t in self.p.tags if t in "aA"])
        self.refs = sum(t == "^" for _, t in self.p.tags)


def expected_trace(m, b, arrays):
    """(python value, is an object) for each occurrence in write order."""
    out, seen = [], set()

    def occ(v):
        py = b.value(v) if is_node(v) else prim_to_python(v)
        out.append((py, is_node(v)))
        if not is_node(v):
            return ()
        key = ("range", py) if v.form == "range" else id(v) if v.form not in ("tuple", "frozenset") else id(py)
        if key in seen:
            return ()
        seen.add(key)
        return kids(v)

    def kids(v):
        k = v.kind
        if k == "obj":
            for name, x in v.props:
                out.append((name, False))
                yield x
        elif k == "arr":
            if next(arrays.it):
                for i, x in v.elems.items():
                    out.append((i, False))
                    yield x
            else:
                for i in range(v.length):
                    yield v.elems.get(i, HOLE)
            for name, x in v.props:
                out.append((name, False))
                yield x
        elif k == "map":
            for a, x in v.items:
                yield a
                yield x
        elif k == "set":
            yield from v.items
        elif k == "error":
            if v.cause is not None:
                yield v.cause
        elif k == "view":
            yield v.buf

    stack = [iter([m])]
    while stack:
        for x in stack[-1]:
            stack.append(iter(occ(x)))
            break
        else:
            stack.pop()
    return out


def alike_values(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    return a == b or a != a and b != b


def trace(sh, rng):
    feats = pick_features(rng)
    g = gen_for(rng, feats, **varied(rng))
    m = g.graph()
    if any(n.kind == "arr" and n.length > 300 and len(n.elems) * 3 >= n.length - len(n.elems) for n in walk(m)):
        return
    b = Builder()
    py = b.build(m)
    logs = [[], [], []]

    def logger(i):
        def step(value, /, ctx, next):
            logs[i].append(value)
            next(value)
        return forms(rng, step)

    both = rng.random() < 0.5
    steps = [logger(0), *([logger(1)] if both else []), serialize_object_references, logger(2), TagWriter()]
    enc = Encoder(encode_steps=iter(steps) if rng.random() < 0.2 else steps, features=as_flags(feats))
    if rng.random() < 0.2:
        enc.encode(py)
        for log in logs:
            log.clear()
    data = enc.encode(py)
    check(data == dumps(py, features=as_flags(feats)), "observing steps change the output: %s", bytes(data[:300]).hex())
    arrays = Arrays(data)
    want = expected_trace(m, b, arrays)
    got = logs[0]
    for i, ((w, _), x) in enumerate(zip(want, got)):
        check(alike_values(w, x), "value %d offered to the first step is a %s (%.100r) instead of %s (%.100r)", i, type(x), x, type(w), w)
    check(len(got) == len(want), "%d values offered instead of %d; output %s", len(got), len(want), bytes(data[:200]).hex())
    if both:
        check(len(logs[1]) == len(got) and all(x is y for x, y in zip(logs[1], got)), "the second step sees other values than the first passed on")
    # after the reference step: everything but what became a reference
    it = iter(logs[2])
    dropped = 0
    cur = next(it, None)
    left = len(logs[2])
    for w, is_obj in want:
        if left and alike_values(w, cur):
            left -= 1
            cur = next(it, None)
        else:
            check(is_obj, "a primitive %r did not reach the last step", w)
            dropped += 1
    check(left == 0, "the step after the references sees values out of order: %d left", left)
    check(dropped == arrays.refs, "%d values kept from the last step, %d references written", dropped, arrays.refs)
    observe(sh, m, "traces")
    sh.count("trace events", len(want))
    sh.count("references in traces", arrays.refs)


def transform(m, table, text, memo=None, prim=None):
    """A copy of the model with nodes of the table replaced and text mapped."""
    memo = {} if memo is None else memo
    prim = prim or (lambda p: ("str", text(p[1])) if p[0] == "str" else p)

    def val(v):
        if not is_node(v):
            return prim(v)
        r = table.get(id(v), v)
        if not is_node(r):
            return prim(r)
        if id(r) not in memo:
            n = Node(r.kind, imm=r.imm)
            memo[id(r)] = n
            todo.append((r, n))
        return memo[id(r)]

    todo = []
    root = val(m)
    while todo:
        r, n = todo.pop()
        for a in Node.__slots__:
            if a not in ("kind", "imm", "py", "props", "elems", "items", "cause", "buf", "note") and hasattr(r, a):
                setattr(n, a, getattr(r, a))
        if r.kind in ("obj", "arr"):
            n.props = [(k if isinstance(k, int) else text(k), val(v)) for k, v in r.props]
        if r.kind == "arr":
            n.elems = {i: val(v) for i, v in r.elems.items()}
        elif r.kind == "map":
            n.items = [(val(k), val(v)) for k, v in r.items]
        elif r.kind == "set":
            n.items = [val(k) for k in r.items]
        elif r.kind == "error":
            n.cause = None if r.cause is None else val(r.cause)
        elif r.kind == "view":
            n.buf = val(r.buf)
    return root


def mark(s):
    return "p_" + s


def substitute(sh, rng):
    """Steps that pass on something else than they got."""
    feats = pick_features(rng)
    m = gen_for(rng, feats, **varied(rng)).graph()
    b = Builder()
    py = b.build(m)
    cand = [n for n in walk(m) if not n.imm and n.kind in ("obj", "arr", "map", "set", "error") and id(n) in b.memo]
    table, pytable, keep = {}, {}, []
    for n in rng.sample(cand, min(len(cand), rng.choice([0, 1, 2, 4]))):
        r = replacement(rng, rng.choice(cand))
        keep.append(r)
        table[id(n)] = r
        pytable[id(b.memo[id(n)])] = r
    # replacements may hold objects of the graph: substitution applies to them, too
    extra = Builder()
    extra.memo = b.memo
    pytable = {k: extra.build(r) if is_node(r) else prim_to_python(r) for k, r in pytable.items()}
    texts = rng.random() < 0.5

    def nodes_step(value, /, ctx, next):
        next(pytable.get(id(value), value))

    def text_step(value, /, ctx, next):
        next(mark(value) if isinstance(value, str) else value)

    steps = [forms(rng, nodes_step), serialize_object_references, TagWriter()]
    if texts:
        steps.insert(rng.randint(1, 2), forms(rng, text_step))
    data = Encoder(encode_steps=steps, features=as_flags(feats | {"CircularErrorCause"})).encode(py)
    want = transform(m, table, mark if texts else lambda s: s)
    same(Compare(null_message=True, date="us", resizable="ResizableArrayBuffers" in feats), want, parse(data),
         "substituted values are not what is written", data)
    sh.count("substitutions", len(table) + texts)
    observe(sh, want, "substituted graphs")


def replacement(rng, some):
    """A new value to put in the place of another; some: an object of the graph."""
    k = rng.randrange(6)
    if k == 0:
        return ("str", "sub")
    if k == 1:
        return Node("obj", form="jsobject", props=[("of", ("num", 1.0, "int")), ("old", some)])
    if k == 2:
        return Node("arr", form="list", props=[], length=2, elems={0: some, 1: some})
    if k == 3:
        return Node("date", ms=5.0, form="utc", note=5000)
    if k == 4:
        return Node("error", form="jserrordata", name="TypeError", message="sub", stack=None, cause=None)
    return NULL


def fresh(value):
    """A new object for each call, alive only as long as it is needed."""
    t = type(value)
    if t in (list, JSSet, set, frozenset, bytearray):
        return t(value)
    if t is dict:
        return dict(value)
    if t is JSMap:
        return JSMap(value.items())
    if t is JSObject:
        return JSObject(value)
    if t is tuple:
        return [*value]
    if t is bytes:
        return bytearray(value)
    if t is JSErrorData:
        return JSErrorData(message=value.message, name=value.name, stack=value.stack, cause=value.cause)
    return value


def temporaries(sh, rng):
    """Steps that create a new object for every value they see."""
    feats = pick_features(rng)
    kw = varied(rng)
    kw["budget"] = rng.choice([8, 15, 25, 40])
    m = gen_for(rng, feats, cycles=False, **kw).graph()
    b = Builder()
    py = b.build(m)
    n = [0]

    def step(value, /, ctx, next):
        v = fresh(value)
        n[0] += v is not value
        next(v)

    steps = [forms(rng, step), serialize_object_references, TagWriter()]
    if rng.random() < 0.3:
        steps = [serialize_object_references, forms(rng, step), TagWriter()]
    data = Encoder(encode_steps=steps, features=as_flags(feats)).encode(py)
    same(Compare(identity=False, null_message=True, date="us", resizable="ResizableArrayBuffers" in feats), m, parse(data),
         "objects created by a step are confused", data)
    sh.count("temporary substitutes", n[0])
    sh.nontrivial("temporaries", n[0], len(data))


def alike(sh, rng):
    """Functions, objects, contexts and encoders are interchangeable."""
    feats = pick_features(rng)
    m = gen_for(rng, feats, **varied(rng)).graph()
    py = Builder().build(m)

    def text_step(value, /, ctx, next):
        next(mark(value) if isinstance(value, str) else value)

    def wrap(inner):
        return forms(rng, inner)

    outs = []
    tw = TagWriter()
    for _ in range(3):
        steps = [wrap(text_step), wrap(serialize_object_references), rng.choice([tw, wrap(tw.encode), tw.encode])]
        if rng.random() < 0.5:
            from v8serialize.encode import WritableTagStream

            s = WritableTagStream(features=as_flags(feats))
            s.write_header()
            DefaultEncodeContext(steps, stream=s).encode_object(py)
            outs.append(bytes(s.data))
        else:
            outs.append(bytes(dumps(py, encode_steps=rng.choice([list, tuple, iter])(steps), features=as_flags(feats))))
    check(outs[0] == outs[1] == outs[2], "the same steps in other forms write something else")
    plain = dumps(py, features=as_flags(feats))
    check(plain == dumps(py, encode_steps=None, features=as_flags(feats)) == bytes(Encoder(encode_steps=None, features=as_flags(feats)).encode(py))
          == bytes(Encoder(encode_steps=[serialize_object_references, tw], features=as_flags(feats)).encode(py)), "the default steps write something else")
    sh.count("pipelines alike")
    want = transform(m, {}, mark)
    same(Compare(null_message=True, date="us", resizable="ResizableArrayBuffers" in feats), want, parse(outs[0]), "text step", outs[0])


def direct(sh, rng):
    """Steps that write to the stream themselves."""
    feats = pick_features(rng)
    m = gen_for(rng, feats, **varied(rng)).graph()
    b = Builder()
    py = b.build(m)
    cand = [n for n in walk(m) if n.form in ("list", "dict", "jsobject", "jsset", "jsarray") and id(n) in b.memo]
    chosen = rng.sample(cand, min(len(cand), rng.choice([1, 1, 2, 3])))
    how = {id(b.memo[id(n)]): rng.choice(["text", "object", "array", "none", "map"]) for n in chosen}
    table = {}
    payload = Node("arr", form="list", props=[], length=1, elems={0: ("str", "shared")})
    shared = b.build(payload)
    for n in chosen:
        h = how[id(b.memo[id(n)])]
        if h == "text":
            table[id(n)] = ("str", "swallowed")
        elif h == "none":
            table[id(n)] = NULL
        elif h == "object":
            table[id(n)] = Node("obj", props=[("self", n), ("x", payload), ("1.5", ("str", "f"))])
        elif h == "array":
            table[id(n)] = Node("arr", length=3, props=[("p", ("bool", True))], elems={0: n, 2: payload})
        else:
            table[id(n)] = Node("map", items=[(("str", "k"), payload), (payload, n)])
    sh.count("swallowed", len(chosen))

    def step(value, /, ctx, next):
        h = how.get(id(value))
        s = ctx.stream
        if h is None:
            return next(value)
        if h == "text":
            s.write_string_twobyte("swallowed")
        elif h == "none":
            ctx.encode_object(None)
        elif h == "object":
            s.write_js_object(iter([("self", value), ("x", shared), (1.5, "f")]), ctx, identity=value)
        elif h == "array":
            s.write_js_array_dense((value, JSHole, shared), ctx, properties=[("p", True)], identity=value)
        else:
            s.write_jsmap([("k", shared), (shared, value)], ctx, identity=value)

    enc = Encoder(encode_steps=[serialize_object_references, forms(rng, step), TagWriter()], features=as_flags(feats | {"CircularErrorCause"}))
    data = enc.encode(py)
    want = transform(m, table, lambda s: s)
    same(Compare(null_message=True, date="us", resizable="ResizableArrayBuffers" in feats), want, parse(data),
         "values written by a step", data)
    observe(sh, want, "direct graphs")


class Custom:
    def __init__(self, payload):
        self.payload = payload


class Hashless(Custom):
    __hash__ = None

    def __eq__(self, other):
        return True


def hosts(sh, rng):
    """Host objects of the user, with sharing."""
    objs = [rng.choice([Custom, Hashless])(rng.randbytes(rng.randint(0, 200))) for _ in range(rng.randint(1, 4))]

    def write(*, stream, value):
        stream.write_varint(len(value.payload))
        stream.data.extend(value.payload)

    class Writer:
        def serialize_host_object(self, *, stream, value):
            write(stream=stream, value=value)

    def read(*, stream):
        return Custom(bytes(stream.read_bytes(stream.read_varint())))

    class Reader:
        def deserialize_host_object(self, *, stream):
            return read(stream=stream)

    def step(value, /, ctx, next):
        if isinstance(value, Custom):
            return ctx.stream.write_host_object(value, serializer=rng.choice([write, Writer()]))
        next(value)

    enc = Encoder(encode_steps=[serialize_object_references, forms(rng, step), TagWriter()])
    items = [rng.choice([*objs, {}, "x", 1, [], b"ab"]) for _ in range(rng.randint(1, 12))]
    items.append(items)
    data = enc.encode(items)
    dec = Decoder(decode_steps=[TagReader(host_object_deserializer=rng.choice([read, Reader()]))])
    out = dec.decodes(data)
    check(len(out) == len(items) and out[len(items) - 1] is out, "items around host objects: %r", out)
    ids = {}
    for i, w in enumerate(items[:-1]):
        g = out[i]
        if isinstance(w, Custom):
            check(type(g) is Custom and g.payload == w.payload, "host object %d: %r", i, g)
        if isinstance(w, (Custom, dict, list)):
            check(ids.setdefault(id(w), g) is g, "sharing at %d", i)
            check(sum(v is g for v in ids.values()) == 1, "sharing at %d", i)
    sh.count("host objects", sum(isinstance(w, Custom) for w in items))
    first = next((w for w in items if isinstance(w, Custom)), None)
    if first is not None:
        e = expect_raises(UnhandledValueEncodeV8SerializeError, lambda: dumps(items), "a host object without its step")
        check(e.value is first, "value %r", e.value)


def keys(sh, rng):
    """A step that passes on another value for a property key: a name or number becomes the key, nothing else is written."""
    names = ["k%d" % i for i in range(rng.choice([1, 2, 5]))]
    kind = rng.choice(["object", "indexed", "dense", "sparse"])
    el = {"indexed": [0, 3], "dense": [0, 1], "sparse": [1, 70000]}.get(kind, [])
    o = {"object": JSObject, "indexed": JSObject, "dense": JSArray, "sparse": JSArray}[kind]()
    for i in el:
        o[i] = "e%d" % i
    for k in names:
        o[k] = "v" + k
    at = rng.choice(names)
    shared = [1]
    bad = rng.random() < 0.6
    new = (rng.choice([True, None, JSUndefined, [], [1], {}, JSMap(), JSSet([1]), b"x", JSErrorData("m"), JSHole, shared, JSArray(), JSObject()]) if bad
           else rng.choice(["new", "", "\u2603", 7.5, 2**70, 12, 5000, -3, 4294967295]))

    def step(value, /, ctx, next):
        next(new if type(value) is str and value == at else value)

    where = rng.choice(["top", "nested", "value"])
    value = {"top": o, "nested": [shared, {"in": o}], "value": JSMap([("m", o), ("s", shared)])}[where]
    steps = [step, serialize_object_references, TagWriter()] if rng.random() < 0.5 else [serialize_object_references, step, TagWriter()]
    enc = Encoder(encode_steps=[forms(rng, s) if s is step else s for s in steps])
    what = f"{new!r} in place of the key {at!r} of a {kind} ({where})"
    sh.count("keys replaced")
    sh.nontrivial("key", kind, len(names), names.index(at), where, repr(new))
    if bad:
        expect_raises(EncodeV8SerializeError, lambda: enc.encode(value), what)
        sh.count("unsuitable keys refused")
    else:
        back = loads(enc.encode(value))
        if where != "top":
            back = back[1]["in"] if where == "nested" else back["m"]
        want = {**{i: "e%d" % i for i in el}, **{(new if k == at else k): "v" + k for k in names}}
        ref = JSArray() if kind in ("dense", "sparse") else JSObject()
        for k, v in want.items():
            ref[k] = v
        check(dict(back.items()) == dict(ref.items()), "%s: read as %s, expected %s", what, dict(back.items()), dict(ref.items()))
    # the step has no part in what comes later
    check(bytes(enc.encode({"a": [1]})) == bytes(dumps({"a": [1]})), "%s: another result later", what)


def unhandled_substitute(sh):
    """The error names what the last step was given."""
    x = object()

    def step(value, /, ctx, next):
        next(x if value == "boom" else value)

    e = expect_raises(UnhandledValueEncodeV8SerializeError, lambda: dumps([1, {"a": "boom"}], encode_steps=[step, serialize_object_references, TagWriter()]), "")
    check(e.value is x, "value %r", e.value)


fixed = [unhandled_substitute]
