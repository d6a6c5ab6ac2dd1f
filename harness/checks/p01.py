"""dumps then loads gives back the same JavaScript value."""
import enum
from datetime import datetime, timedelta, timezone

from harness.core import check
from harness.graph import Compare, Node
from harness.model import BIGS, FLOATS, INTS, Gen, MyFloat, MyInt, MyStr, from_python, num, prim_to_python, to_python
from harness.util import as_flags, gen_for, observe, pick_features, same, varied, graph_of
from v8serialize import Decoder, Encoder, dumps, loads
from v8serialize.jstypes import JSArray, JSArrayBuffer, JSMap, JSObject, JSPrimitiveObject, JSSet, JSUndefined

QUICK, THOROUGH = 60000, 600000
RULE = "distinct graph shapes (kinds, Python types, sizes, sharing) with at least one object"
MIN = {"values": 2000, "confusable values": 500}


def compare_for(feats):
    return Compare(identity=False, null_message=True, date="us", resizable="ResizableArrayBuffers" in feats)


class IntE(enum.IntEnum):
    ONE = 1


class StrE(str, enum.Enum):
    A = "a"


def case(sh, rng):
    if rng.random() < 0.25:
        return confusable(sh, rng)
    if rng.random() < 0.1:
        return flat(sh, rng)
    feats = pick_features(rng)
    g = gen_for(rng, feats, cycles=rng.random() < 0.3, **varied(rng))
    m = graph_of(sh, g)
    observe(sh, m)
    py = to_python(m)
    if rng.random() < 0.5:
        data = dumps(py, features=as_flags(feats))
        out = loads(data)
    else:
        data = Encoder(features=as_flags(feats)).encode(py)
        out = Decoder().decodes(data)
    sh.sample(f"{py!r:.200}" if m.__class__ is not Node or m.kind != "arr" or m.length < 100 else m)
    same(compare_for(feats), m, from_python(out), "value changed by dumps and loads", data)


def flat(sh, rng):
    """Long flat containers of primitives."""
    g = Gen(rng)
    n = rng.choice([100, 127, 128, 129, 1000])
    vals = [g.primitive() for _ in range(n)]
    m = Node("arr", form="list", props=[], length=n, elems=dict(enumerate(vals)))
    data = dumps(to_python(m))
    sh.count("values")
    sh.count("primitives", n)
    same(compare_for(()), m, from_python(loads(data)), "value changed by dumps and loads")


UTC = timezone.utc


def confusables(rng):
    """Values that are equal in Python (some of them) but differ in JavaScript."""
    base = rng.choice([0, 1, 2, 2**31, 2**53])
    n = lambda v: num(v)
    arr = lambda *vs, form="tuple": Node("arr", form=form, props=[], length=len(vs), elems=dict(enumerate(vs)), imm=form == "tuple")
    out = [
        (base, n(base)), (float(base), n(float(base))), (-base, n(-base)), (-float(base), n(-float(base))),
        (MyInt(base), n(base)), (MyFloat(base), n(float(base))), (True, ("bool", True)), (False, ("bool", False)),
        ((base,), arr(n(base))), ((float(base),), arr(n(float(base)))), ((-float(base),), arr(n(-float(base)))),
        ((True,), arr(("bool", True))), ((False,), arr(("bool", False))),
        (((base,), base), arr(arr(n(base)), n(base))), (((float(base),), float(base)), arr(arr(n(float(base))), n(float(base)))),
        (frozenset([base]), Node("set", form="frozenset", items=[n(base)])),
        (frozenset([float(base)]), Node("set", form="frozenset", items=[n(float(base))])),
        (frozenset([True]), Node("set", form="frozenset", items=[("bool", True)])),
        (frozenset([False]), Node("set", form="frozenset", items=[("bool", False)])),
        (frozenset([(base,)]), Node("set", form="frozenset", items=[arr(n(base))])),
        (frozenset([(float(base),)]), Node("set", form="frozenset", items=[arr(n(float(base)))])),
        (IntE.ONE, n(1)), (StrE.A, ("str", "a")), (MyStr("a"), ("str", "a")), ("a", ("str", "a")),
        (b"a", Node("buf", data=b"a", maxlen=None)), (bytearray(b"a"), Node("buf", data=b"a", maxlen=None)),
        (JSArrayBuffer(b"a"), Node("buf", data=b"a", maxlen=None)),
        (range(0), arr(form="range")), ((), arr()), ([], arr(form="list")), (JSArray(), arr(form="jsarray")),
        (frozenset(), Node("set", items=[])), (JSSet(), Node("set", items=[])), (JSMap(), Node("map", items=[])),
        ({}, Node("map", items=[])), (JSObject(), Node("obj", props=[])),
        (None, ("null",)), (JSUndefined, ("undef",)), ("", ("str", "")), (str(base), ("str", str(base))),
        (JSPrimitiveObject(1), ("num", 1.0, "float")), (JSPrimitiveObject(True), ("bool", True)),
        (JSPrimitiveObject(1.0), ("num", 1.0, "float")), (JSPrimitiveObject("a"), ("str", "a")),
        (JSPrimitiveObject(0.0), ("num", 0.0, "float")), (JSPrimitiveObject(-0.0), ("num", -0.0, "float")),
        (datetime(2020, 11, 1, 5, tzinfo=UTC), Node("date", ms=1604206800000.0)),
        (datetime(2020, 11, 1, 7, tzinfo=timezone(timedelta(hours=2))), Node("date", ms=1604206800000.0)),
        (datetime(2020, 11, 1, 5, 0, 0, 1000, tzinfo=UTC), Node("date", ms=1604206800001.0)),
    ]
    return out


def confusable(sh, rng):
    cs = confusables(rng)
    picked = [rng.choice(cs) for _ in range(rng.randint(2, 12))]
    kind = rng.randrange(4)
    pys, ms = [p for p, _ in picked], [m for _, m in picked]
    if kind == 0:
        py, m = list(pys), Node("arr", form="list", props=[], length=len(ms), elems=dict(enumerate(ms)))
    elif kind == 1:
        py, m = tuple(pys), Node("arr", form="tuple", props=[], length=len(ms), elems=dict(enumerate(ms)))
    elif kind == 2:
        py = JSMap((f"k{i}", p) for i, p in enumerate(pys))
        m = Node("map", items=[(("str", f"k{i}"), v) for i, v in enumerate(ms)])
    else:
        py = JSObject({f"k{i}": p for i, p in enumerate(pys)})
        m = Node("obj", props=[(f"k{i}", v) for i, v in enumerate(ms)])
    sh.count("confusable values", len(picked))
    sh.nontrivial("confusable", kind, tuple(repr(p) for p in pys))
    data = dumps(py)
    same(compare_for(()), m, from_python(loads(data)), f"value changed by dumps and loads of {py!r:.300}", data)


def boundaries(sh):
    """Every listed number alone, in a list with its neighbours, and as a key."""
    for v in INTS + BIGS + FLOATS + [x + d for x in INTS + BIGS for d in (-1, 1)]:
        m = num(v)
        sh.count("boundary numbers")
        same(compare_for(()), m, from_python(loads(dumps(v))), f"number {v!r}")
        same(compare_for(()), Node("map", items=[(m, m)]), from_python(loads(dumps(JSMap([(v, v)])))), f"key {v!r}")
        if isinstance(v, int):
            same(compare_for(()), m, from_python(loads(dumps(MyInt(v)))), f"int subclass {v!r}")


fixed = [boundaries]


def merged_members(sh):
    s = loads(dumps(JSSet([bytes([1, 2]), bytes(bytearray([1, 2]))])))
    return len(s) != 2


probes = {"merged-members": merged_members}
