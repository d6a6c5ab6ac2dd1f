"""Unserializable values are reported, wherever they are, without after-effects."""
import collections
import datetime as dt
import decimal
import enum
import fractions
import pathlib
import re
import types
import uuid

from harness.core import Violation, check, expect_raises
from harness.graph import Compare, Node, children, is_node, walk
from harness.model import Builder, Gen, from_python, to_python
from harness.util import as_flags, gen_for, observe, parse, pick_features, same, varied
from v8serialize import Encoder, V8SerializeError, dumps, loads
from v8serialize.encode import (
    EncodeV8SerializeError, TagWriter, UnhandledValueEncodeV8SerializeError, default_encode_steps,
    serialize_object_references,
)
from v8serialize.jstypes import (
    JSArrayBuffer, JSArrayBufferTransfer, JSError, JSErrorData, JSFloat16Array, JSObject, JSPrimitiveObject, JSRegExp,
    JSSharedArrayBuffer, JSUndefined,
)
from v8serialize.jstypes._v8 import V8SharedObjectReference, V8SharedValueId

QUICK, THOROUGH = 40000, 400000
RULE = "distinct (kind of unserializable value, position, containers on the way) triples"
MIN = {"refused: unsupported type": 3000, "refused: value out of range": 1500, "refused: property key": 500,
       "later encodes compared": 5000, "fallback steps": 300}


class Plain:
    pass


class Unhashable:
    __hash__ = None


class BadHash:
    def __hash__(self):
        raise TypeError("no hash")

    def __eq__(self, other):
        return self is other


class BadEq:
    def __eq__(self, other):
        raise RuntimeError("no equality")

    def __hash__(self):
        return 1


class Color(enum.Enum):
    RED = 1


class Iterable:
    def __iter__(self):
        return iter([1, 2])


class Sized:
    def __len__(self):
        return 2

    def __getitem__(self, i):
        return i


Data = type("Data", (), {"__slots__": ("x",)})

UNSUPPORTED = [
    object, Plain, Unhashable, BadHash, BadEq, Iterable, Sized, Data, lambda: Color.RED, lambda: (lambda x: x), lambda: int,
    lambda: re, lambda: 1j, lambda: dt.date(2020, 1, 1), lambda: dt.timedelta(1), lambda: dt.time(1), lambda: decimal.Decimal("1.5"),
    lambda: fractions.Fraction(1, 2), lambda: iter([1]), lambda: (x for x in [1]), lambda: Ellipsis, lambda: NotImplemented,
    lambda: pathlib.PurePosixPath("/x"), lambda: uuid.UUID(int=1), lambda: slice(1, 2), lambda: types.SimpleNamespace(a=1),
    lambda: dt.timezone.utc, lambda: map(str, [1]), lambda: zip([1]), lambda: len, lambda: property(), lambda: Plain().__init__,
]
# serializable types, values that cannot be represented
OUT_OF_RANGE = [
    lambda: "\ud800", lambda: "a\udfffb", lambda: re.compile(b"\xff"), lambda: re.compile("a", re.X | re.I),
    lambda: JSSharedArrayBuffer(-1), lambda: JSSharedArrayBuffer(2**32), lambda: JSArrayBufferTransfer(-1),
    lambda: JSArrayBufferTransfer(2**40), lambda: V8SharedObjectReference(V8SharedValueId(-1)),
    lambda: V8SharedObjectReference(V8SharedValueId(2**32)), lambda: JSErrorData(message="\udc00"),
    lambda: JSErrorData(message="a", stack="\ud800"), lambda: JSError("\udc00"), lambda: JSRegExp("\ud800"),
    lambda: JSPrimitiveObject("\ud801"), lambda: JSObject({"\ud800": 1}), lambda: JSObject({"a": 1, "b": "\ud800"}),
    lambda: {"\ud800": 1}, lambda: {"\udc00"}, lambda: ("\udc00",), lambda: ValueError("\ud800"),
]
HASHABLE_BAD_KEYS = [lambda: None, lambda: True, lambda: False, lambda: (1,), lambda: b"a", lambda: frozenset([1]),
                     lambda: JSUndefined, lambda: dt.datetime(2020, 1, 1), lambda: JSRegExp("a"), lambda: object(),
                     lambda: "\ud800", lambda: Plain(), lambda: 1j, lambda: JSSharedArrayBuffer(1), lambda: range(3)]


def positions(nodes):
    """(node, where) pairs where a value can be replaced."""
    for n in nodes:
        if n.py is not None:
            continue
        if n.kind == "obj":
            yield from ((n, ("prop", i)) for i in range(len(n.props)))
        elif n.kind == "arr" and n.form != "range":
            yield from ((n, ("elem", i)) for i in n.elems)
            yield from ((n, ("prop", i)) for i in range(len(n.props)))
        elif n.kind == "map":
            yield from ((n, ("value", i)) for i in range(len(n.items)))
            if n.form == "jsmap":
                yield from ((n, ("key", i)) for i in range(len(n.items)))
        elif n.kind == "set" and n.form == "jsset":
            yield from ((n, ("member", i)) for i in range(len(n.items)))
        elif n.kind == "error":
            yield n, ("cause", 0)


def put(n, where, v):
    k, i = where
    if k == "prop":
        n.props[i] = (n.props[i][0], v)
    elif k == "elem":
        n.elems[i] = v
    elif k == "value":
        n.items[i] = (n.items[i][0], v)
    elif k == "key":
        n.items[i] = (v, n.items[i][1])
    elif k == "member":
        n.items[i] = v
    else:
        n.cause = v


def case(sh, rng):
    x = rng.random()
    if x < 0.15:
        return keys(sh, rng)
    if x < 0.25:
        return fallback(sh, rng)
    feats = pick_features(rng)
    g = gen_for(rng, feats, **{**varied(rng), "budget": rng.choice([2, 4, 8, 15, 25])})
    m = g.graph()
    pos = list(positions(walk(m)))
    bads = []
    unsupported = rng.random() < 0.6
    made = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if "Float16Array" not in feats and rng.random() < 0.1:
            make, kind = (lambda: JSFloat16Array(JSArrayBuffer(b"abcd"))), "type"
        elif unsupported:
            make, kind = rng.choice(UNSUPPORTED), "type"
        else:
            make, kind = rng.choice(OUT_OF_RANGE), "range"
        bad = Node("host", form=kind, py=make())
        bad.value = repr(type(bad.py))
        bad.imm = False
        if pos:
            n, where = rng.choice(pos)
            if isinstance(bad.py, BadEq) and where[0] in ("key", "member"):
                bad.py = Plain()
            put(n, where, bad)
            made.append((bad, n.kind + "/" + str(n.form), where[0]))
        else:
            m = bad
            made.append((bad, "top", ""))
    reachable = [n for n in walk(m) if n.kind == "host"]
    if not reachable:
        return
    first = reachable[0]
    sh.nontrivial([(type(b.py).__name__, c, w) for b, c, w in made])
    b = Builder()
    py = b.build(m)
    enc = Encoder(features=as_flags(feats))
    good = to_python(gen_for(rng, feats, budget=6).graph())
    before = bytes(enc.encode(good))
    encode = rng.choice([enc.encode, lambda v: dumps(v, features=as_flags(feats))])
    try:
        out = encode(py)
    except V8SerializeError as e:
        check(isinstance(e, ValueError) or not isinstance(e, UnhandledValueEncodeV8SerializeError), "error class %s", type(e))
        if first.form == "type":
            check(isinstance(e, UnhandledValueEncodeV8SerializeError), "%r raised for an unsupported type %s", e, type(first.py))
            check(e.value is first.py, "the error names %s instead of %s", type(e.value), type(first.py))
            sh.count("refused: unsupported type")
        else:
            check(not isinstance(e, UnhandledValueEncodeV8SerializeError), "unhandled instead of out of range: %r", e)
            sh.count("refused: value out of range")
        str(e), repr(e)
    else:
        raise Violation(f"{type(first.py)} was serialized: {bytes(out[:200]).hex()}")
    # no trace: the encoder and the objects behave as before
    check(enc.encode(good) == before, "the encoder writes something else after a failure")
    fresh = Encoder(features=as_flags(feats))
    clean = [n for n in walk(m) if id(n) in b.memo and not any(c.kind == "host" for c in walk(n))]
    for n in rng.sample(clean, min(3, len(clean))):
        sh.count("later encodes compared")
        v = b.memo[id(n)]
        x = enc.encode(v)
        check(x == fresh.encode(v), "the encoder and a fresh one differ after a failure")
        same(Compare(identity=False, null_message=True, date="us", resizable="ResizableArrayBuffers" in feats), n, parse(x),
             "an object of the failed graph is written differently", x)
    # repair the graph in place: it serializes as if it had never failed
    if rng.random() < 0.3:
        n2 = Node("arr", form="list", length=1, props=[], elems={0: m})
        expect_raises(V8SerializeError, lambda: enc.encode([py]), "failing again")


def as_object(value, /, ctx, next):
    if type(value) is dict:
        return ctx.stream.write_js_object(value.items(), ctx, identity=value)
    next(value)


def keys(sh, rng):
    """Property keys that are not strings or numbers."""
    enc = Encoder(encode_steps=[serialize_object_references, as_object, TagWriter()])
    good = {"a": 1, 2: None, 1.5: True, 2**70: [1, {"x": (1, 2)}], -1: b"a"}
    before = bytes(enc.encode(good))
    parse(before)
    make = rng.choice(HASHABLE_BAD_KEYS)
    bad = make()
    items = [("k", 1), (rng.choice([3, "z", 0.5]), [1, 2])]
    if rng.random() < 0.3 and not isinstance(bad, (str, bool, type(None))):
        items.insert(0, ("first", bad))  # later a reference as a key
        if type(bad) in (object, Plain, complex):
            items.pop(0)
    items.insert(rng.randint(1, len(items)), (bad, 1))
    py = dict(items)
    for _ in range(rng.randint(0, 3)):
        py = rng.choice([lambda v: [v], lambda v: {"in": v}, lambda v: (1, v), lambda v: JSObject(x=v),
                         lambda v: JSErrorData(message="m", cause=v)])(py)
    e = expect_raises(V8SerializeError, lambda: enc.encode(py), f"property key {bad!r}")
    check(isinstance(e, EncodeV8SerializeError), "property key %r raised %r", bad, e)
    sh.count("refused: property key")
    sh.nontrivial("key", type(bad).__name__, type(py).__name__)
    check(enc.encode(good) == before, "the encoder writes something else after a refused key")


def fallback(sh, rng):
    """A step that handles what the last step refuses."""
    seen = []

    def describe(value, /, ctx, next):
        try:
            next(value)
        except UnhandledValueEncodeV8SerializeError as e:
            if e.value is not value:
                raise
            seen.append(value)
            next("<" + type(value).__name__ + ">")

    enc = Encoder(encode_steps=[serialize_object_references, as_object, describe, TagWriter()])
    objs = [m for m in (f() for f in rng.sample(UNSUPPORTED, 3)) if not isinstance(m, (Unhashable, BadHash, BadEq))]
    keys = [o for o in objs if o.__hash__ is not None]
    py = [objs, {o: i for i, o in enumerate(keys)}, {"n": {"v": tuple(objs), "w": [{k: k for k in keys[:1]}]}}]
    text = lambda o: "<" + type(o).__name__ + ">"
    arr = lambda vs: Node("arr", length=len(vs), props=[], elems=dict(enumerate(vs)))
    s = lambda o: ("str", text(o))
    d = {}
    for i, o in enumerate(keys):
        d[text(o)] = ("num", float(i), "int")
    if len(d) != len(keys):
        return
    m = arr([arr([s(o) for o in objs]), Node("obj", props=list(d.items())),
             Node("obj", props=[("n", Node("obj", props=[("v", arr([s(o) for o in objs])),
                                                         ("w", arr([Node("obj", props=[(text(k), s(k)) for k in keys[:1]])]))]))])])
    data = enc.encode(py)
    same(Compare(identity=False), m, parse(data), "a fallback step", data)
    same(Compare(identity=False), m, from_python(loads(data)), "a fallback step", data)
    sh.count("fallback steps")
    check(len(seen) == 2 * len(objs) + len(keys) + 2 * len(keys[:1]), "values refused %d times", len(seen))


def edges(sh):
    for v in (dt.datetime.min, dt.datetime.max):  # outside the range in some zones
        for w in (v, [v]):
            try:
                data = dumps(w)
            except V8SerializeError:
                continue
            parse(data)
    for steps in ([], [serialize_object_references]):
        e = expect_raises(UnhandledValueEncodeV8SerializeError, lambda: dumps(1, encode_steps=steps), "no steps")
        check(e.value == 1, "value %r", e.value)


fixed = [edges]
