"""Copies and pickles hold the same value and share nothing that can change."""
import collections
import copy
import datetime
import pickle

from harness.core import Violation, check
from harness.graph import Compare, walk
from harness.model import from_python, to_python
from harness.util import as_flags, gen_for, graph_of, observe, pick_features, same, varied
from v8serialize import dumps, loads
from v8serialize.jstypes import (JSArray, JSArrayBuffer, JSArrayBufferTransfer, JSDataView, JSError, JSErrorData, JSHole, JSMap, JSObject, JSPrimitiveObject, JSRegExp,
                                 JSSet, JSSharedArrayBuffer, JSUint8Array, JSUndefined)
from v8serialize.jstypes._v8 import V8SharedObjectReference

QUICK, THOROUGH = 16000, 400000
RULE = "distinct shapes (kinds, Python types, sizes, sharing) of copied graphs with at least one object"
MIN = {"values": 3000, "deep copies": 3000, "pickles": 3000, "decoded values": 2500, "changed copies": 3000, "objects changed": 15000, "shallow copies": 8000, "shared objects": 700, "views of copied buffers": 1000,
       "subclass values": 500, "two roots": 700, "large graphs": 40}
ASSUMPTIONS = ["Python objects that cannot be copied themselves (memoryviews, dict views, mapping proxies) and the order of ordinary sets are not the library's",
               "shallow copies of buffers share memory", "nesting is limited by the interpreter", "pickle protocols 2 and later"]

JS = (JSObject, JSArray, JSMap, JSSet, JSError, JSErrorData, JSPrimitiveObject, JSRegExp, JSArrayBuffer, JSSharedArrayBuffer, JSArrayBufferTransfer, V8SharedObjectReference)
PLAIN = {list, tuple, dict, bytes, bytearray, collections.OrderedDict, datetime.datetime, datetime.date, collections.deque, type(None)}


class SubObject(JSObject):
    pass


class SubArray(JSArray):
    pass


class SubMap(JSMap):
    pass


class SubSet(JSSet):
    pass


class SubError(JSError):
    pass


SUBS = [SubObject, SubArray, SubMap, SubSet, SubError]


def deep(rng):
    if rng.random() < 0.5:
        return "deep copies", copy.deepcopy
    p = rng.randint(2, 5)
    return "pickles", lambda x: pickle.loads(pickle.dumps(x, p))


def case(sh, rng):
    rng.choices([graphs, shallow, subclasses, constants], [10, 5, 2, 0.3])[0](sh, rng)


def value(sh, rng):
    """A value, its description, features and its serialized form."""
    feats = pick_features(rng)
    m = graph_of(sh, gen_for(rng, feats, cycles=rng.random() < 0.4, **varied(rng)))
    flags = as_flags(feats)
    v = to_python(m)
    data = bytes(dumps(v, features=flags))
    if rng.random() < 0.7:
        v = loads(data)
        data = bytes(dumps(v, features=flags))
        sh.count("decoded values")
    elif not all(type(n.py) in PLAIN or isinstance(n.py, JS) or hasattr(n.py, "backing_buffer") for n in walk(from_python(v))):
        return None
    return v, from_python(v), flags, data


def identical(a, b, what):
    d = Compare(strict_num=True, identity=True).compare(a, b)
    if d:
        raise Violation(f"{what}: {d}")


def mutable(n):
    o = n.py
    return isinstance(o, (JSObject, JSMap, JSSet, JSError, JSErrorData, list, dict, bytearray, collections.deque)) or isinstance(o, JSArrayBuffer) and not o.data.readonly


def graphs(sh, rng):
    """Any graph: copied as a whole, with its sharing and cycles, and apart from the original."""
    r = value(sh, rng)
    if r is None:
        return
    v, before, flags, data = r
    how, fn = deep(rng)
    root = [v, v] if rng.random() < 0.2 else None
    try:
        c = fn(root or v)
    except RecursionError:
        return sh.count("nested too deep")
    if root:
        check(len(c) == 2 and c[0] is c[1] or not isinstance(v, JS), "the two roots of %s are %s", how, type(c[0]))
        c = c[0]
        sh.count("two roots")
    sh.count(how)
    after = from_python(c)
    identical(before, after, f"{how}: not the same value; data={data[:300].hex()}")
    for x, y in zip(walk(before), walk(after)):
        check(type(x.py) is type(y.py), "%s: a %s became a %s", how, type(x.py).__name__, type(y.py).__name__)
    check(bytes(dumps(c, features=flags)) == data, "%s: serialized as %s instead of %s", how, bytes(dumps(c, features=flags))[:200].hex(), data[:200].hex())
    mine = {id(n.py) for n in walk(before) if mutable(n)}
    for n in walk(after):
        check(not mutable(n) or id(n.py) not in mine, "%s: shares a %s", how, type(n.py).__name__)
    observe(sh, before)
    sh.count("views of copied buffers", sum(1 for n in walk(after) if n.kind == "view"))
    # changing every object of one leaves the other as it was
    one, other, was = (c, v, before) if rng.random() < 0.7 else (v, c, after)
    for n in walk(after if one is c else before):
        sh.count("objects changed", spoil(n))
    identical(was, from_python(other), f"{how}: changing one changed the other; data={data[:300].hex()}")
    check(bytes(dumps(other, features=flags)) == data, "%s: changing one changed what the other is serialized as", how)
    sh.count("changed copies")


def spoil(n):
    """Change an object; 1 when it could be changed."""
    o = n.py
    if isinstance(o, JSObject):
        o.array.resize(0)
        for k in list(o):
            del o[k]
        o["spoiled"], o[3] = 1, 1
    elif isinstance(o, (JSMap, dict, collections.OrderedDict)):
        o.clear()
        o["spoiled"] = 1
    elif isinstance(o, (JSSet, set)):
        o.clear()
        o.add("spoiled")
    elif isinstance(o, (list, collections.deque)):
        o.clear()
        o.append("spoiled")
    elif isinstance(o, (JSError, JSErrorData)):
        o.message, o.cause, o.stack = "spoiled", "spoiled", "spoiled"
    elif isinstance(o, bytearray):
        o[:] = b"\xee" * len(o)
    elif isinstance(o, JSArrayBuffer):
        d = o.data
        if d.readonly or not len(d):
            return 0
        d[:] = b"\xee" * len(d)
    else:
        return 0
    return 1


def members(o):
    if isinstance(o, (JSObject, JSMap)):
        return [x for kv in o.items() for x in kv]
    if isinstance(o, JSSet):
        return list(o)
    if isinstance(o, (JSError, JSErrorData)):
        return [o.name, o.message, o.stack, o.cause]
    return []


def is_same(a, b):
    return len(a) == len(b) and all(x is y or type(x) is type(y) and x == y and isinstance(x, (int, str, float)) for x, y in zip(a, b))


def shallow(sh, rng):
    """A shallow copy of any object of a graph: the same members in an object of its own."""
    r = value(sh, rng)
    if r is None:
        return
    v, before, flags, data = r
    nodes = walk(before)
    for n in nodes if len(nodes) < 40 else rng.sample(nodes, 40):
        o = n.py
        if not isinstance(o, JS) and not hasattr(o, "backing_buffer"):
            continue
        c = copy.copy(o)
        t = type(o).__name__
        check(type(c) is type(o), "a copy of a %s is a %s", t, type(c).__name__)
        check(is_same(members(o), members(c)), "a copy of a %s has members %s instead of %s", t, members(c), members(o))
        if isinstance(o, JSObject):
            check(len(c.array) == len(o.array) and type(c.array) is type(o.array), "a copy of a %s of length %d has length %d", t, len(o.array), len(c.array))
        if not members(o):
            check(bytes(dumps([c], features=flags)) == bytes(dumps([o], features=flags)), "a copy of a %s is serialized otherwise", t)
        if isinstance(o, (JSObject, JSMap, JSSet, JSError, JSErrorData)):
            check(c is not o, "a copy of a %s is itself", t)
            was = members(o)
            n.py = c
            sh.count("objects changed", spoil(n))
            n.py = o
            check(is_same(members(o), was), "changing a copy of a %s changed it from %s to %s", t, was, members(o))
        sh.count("shallow copies")
    check(bytes(dumps(v, features=flags)) == data, "changing shallow copies of the objects of a value changed it")


def subclasses(sh, rng):
    """Instances of subclasses keep their class and attributes."""
    pool = []

    def leaf():
        return rng.choice([0, "a", None, JSUndefined, 0.5, JSRegExp("a"), JSPrimitiveObject(1), JSArrayBuffer(b"ab"), datetime.datetime(2020, 1, 1)] + pool * 2)

    for _ in range(rng.randint(1, 5)):
        cls = rng.choice(SUBS)
        if cls is SubError:
            o = cls("m", cause=leaf())
        elif cls is SubSet:
            o = cls(leaf() for _ in range(rng.randint(0, 3)))
        elif cls is SubMap:
            o = cls((leaf(), leaf()) for _ in range(rng.randint(0, 3)))
        elif cls is SubArray:
            o = cls([JSHole if rng.random() < 0.2 else leaf() for _ in range(rng.randint(0, 4))], x=leaf())
            o.array.resize(len(o.array) + rng.randint(0, 2))
        else:
            o = cls({rng.choice([0, 5, 2**31, "b"]): leaf()}, a=leaf())
        o.note = rng.choice([1, [leaf()], leaf()])
        pool.append(o)
    for o in pool:  # cycles, also through the attributes
        if rng.random() < 0.5 and not isinstance(o, (SubError, SubSet)):
            o["c"] = rng.choice(pool)
        if rng.random() < 0.3:
            o.other = rng.choice(pool)
    how, fn = deep(rng)
    c = fn(pool)
    sh.count(how)
    pairs, seen = [(pool, c)], {}

    def walk_both(a, b, where):
        if id(a) in seen:
            return check(seen[id(a)] is b, "%s: %s: sharing is lost", how, where)
        if isinstance(a, tuple(SUBS) + (list,)):
            seen[id(a)] = b
            check(a is not b, "%s: %s: shared with the original", how, where)
        check(type(a) is type(b), "%s: %s: a %s became a %s", how, where, type(a).__name__, type(b).__name__)
        if not isinstance(a, tuple(SUBS) + (list,)):
            return check(a == b, "%s: %s: %r became %r", how, where, a, b)
        xs, ys = (a, b) if isinstance(a, list) else (members(a), members(b))
        check(len(xs) == len(ys), "%s: %s: %d members instead of %d", how, where, len(ys), len(xs))
        if isinstance(a, JSObject):
            check(len(a.array) == len(b.array), "%s: %s: length %d instead of %d", how, where, len(b.array), len(a.array))
        for i, (x, y) in enumerate(zip(xs, ys)):
            pairs.append((x, y, f"{where}[{i}]"))
        if not isinstance(a, list):
            for name in ("note", "other"):
                check(hasattr(a, name) == hasattr(b, name), "%s: %s: attribute %s", how, where, name)
                if hasattr(a, name):
                    pairs.append((getattr(a, name), getattr(b, name), f"{where}.{name}"))

    pairs = [(pool, c, "")]
    while pairs:
        walk_both(*pairs.pop())
    for o in pool:
        s = copy.copy(o)
        check(type(s) is type(o) and s is not o and s.note is o.note and is_same(members(o), members(s)), "a copy of a %s is %r", type(o).__name__, type(s))
        s.note = "changed"
        check(o.note != "changed", "attributes of a copy are those of the original")
        sh.count("shallow copies")
    sh.count("subclass values", len(pool))
    sh.nontrivial("sub", tuple(type(o).__name__ for o in pool), how)


def constants(sh, rng):
    """undefined and holes are themselves after copying."""
    for v in (JSUndefined, JSHole):
        for f in (copy.copy, copy.deepcopy, *[lambda x, p=p: pickle.loads(pickle.dumps(x, p)) for p in range(2, 6)]):
            check(f(v) is v, "a copy of %r is %r", v, f(v))
            check(f([v, v])[1] is v, "a copy of %r in a list", v)
