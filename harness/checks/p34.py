"""Work and memory grow in proportion to the data."""
import copy
import datetime
import gc
import pickle
import random
import sys
import time
import tracemalloc

from harness.core import SRC, Violation
from v8serialize import Decoder, Encoder, dumps, loads
from v8serialize.encode import default_encode_steps
from v8serialize.jstypes import (JSArray, JSArrayBuffer, JSDataView, JSError, JSErrorData, JSHole, JSMap, JSObject, JSPrimitiveObject, JSRegExp, JSRepr, JSSet, JSUint8Array, JSUint16Array)
from v8serialize.jstypes.jsarrayproperties import DenseArrayProperties, SparseArrayProperties
from harness.util import ALL

QUICK, THOROUGH = 4800, 40000
RULE = "distinct (operation, container, elements) tuples measured at two sizes"
MIN = {"executed lines compared": 1000, "peaks of memory compared": 400, "times compared": 120, "histories": 350, "raw streams": 220, "deep": 150}
ASSUMPTIONS = ["executed lines and peaks of traced memory are deterministic; CPU time is only judged when three measurements at two pairs of sizes agree",
               "popping the first item (popitem, JSSet.pop), insert and del at the front of arrays, and comparing or printing shared (not cyclic) values are left out: like Python's own, they are linear in each call or exponential"]
STEP = 8
LINES, MEMORY, CPU = 13, 14, 26  # linear is 8, quadratic is 64
UTC = datetime.timezone.utc
LIMITS = dict.fromkeys(("maxdict", "maxlist", "maxset", "maxtuple", "maxarray", "maxstring", "maxlong", "maxother", "maxdeque", "maxfrozenset", "maxjsarray", "maxjsobject"), 10 ** 9)


def full_repr():
    r = JSRepr(maxlevel=10 ** 6)
    for k, v in LIMITS.items():
        if hasattr(r, k):
            setattr(r, k, v)
    return r


# --- measuring

class Lines:
    """Counts lines of the library that are executed."""

    TOOL = sys.monitoring.PROFILER_ID

    def __init__(self):
        m = sys.monitoring
        if m.get_tool(self.TOOL) is None:
            m.use_tool_id(self.TOOL, "verif-lines")
        m.register_callback(self.TOOL, m.events.LINE, self.line)
        self.n = 0

    def line(self, code, line):
        if code.co_filename.startswith(SRC):
            self.n += 1
        else:
            return sys.monitoring.DISABLE

    def of(self, fn):
        self.n = 0
        sys.monitoring.set_events(self.TOOL, sys.monitoring.events.LINE)
        try:
            fn()
        finally:
            sys.monitoring.set_events(self.TOOL, 0)
        return self.n


def peak(fn):
    tracemalloc.start()
    try:
        fn()
        return tracemalloc.get_traced_memory()[1]
    finally:
        tracemalloc.stop()


def cpu(fn_of, times=3):
    """The least of some measurements, each with a state of its own."""
    best = None
    for _ in range(times):
        fn = fn_of()
        gc.collect()
        gc.disable()
        try:
            a = time.process_time()
            fn()
            b = time.process_time() - a
        finally:
            gc.enable()
        best = b if best is None else min(best, b)
    return best


def judge(sh, what, prepare, n, how, key):
    """prepare(n) makes a function that is to take time proportional to n."""
    if how == "lines":
        measure, limit, floor = (lambda k: sh.lines.of(prepare(k))), LINES, 400
        sh.count("executed lines compared")
    elif how == "memory":
        measure, limit, floor = (lambda k: peak(prepare(k))), MEMORY, 20000
        sh.count("peaks of memory compared")
    else:
        measure, limit, floor = (lambda k: cpu(lambda: prepare(k))), CPU, 0.008  # clocks may tick each 4 ms
        sh.count("times compared")
    if how == "time":
        a, b = cpu(lambda: prepare(n), 1), cpu(lambda: prepare(STEP * n), 1)
    else:
        a, b = measure(n), measure(STEP * n)
    sh.nontrivial(how, *key)
    ratio = b / max(a, floor)
    if ratio <= limit:
        return
    sh.count("looked at again")
    if how == "time":
        again = [(measure(k), measure(STEP * k)) for k in (n, 2 * n)]
    else:  # another way of storing may start at some size
        again = [(measure(STEP * n), measure(STEP * STEP * n))] if STEP * STEP * n <= 200000 else [(measure(2 * n), measure(2 * STEP * n)), (measure(4 * n), measure(4 * STEP * n))]
    if all(y / max(x, floor) > limit for x, y in again):
        raise Violation(f"{what}: {how} for {n} and {STEP * n}: {a} and {b}, and again {again}")


def setup(sh):
    sh.lines = Lines()
    loads(dumps([1, "a", JSObject(a=1), JSMap(a=1), JSSet([1]), JSUint8Array(b"1")]))


def case(sh, rng):
    rng.choices([values, values, histories, raw, deep], [5, 3, 3, 2, 1.5])[0](sh, rng)


def way(rng):
    return rng.choices(["lines", "memory", "time"], [10, 5, 1])[0]


# --- values

def elements(rng, mixed=0.1):
    """A function from an index to a value."""
    if rng.random() < mixed:
        es = [elements(rng, 0) for _ in range(12)]
        return "all sorts", lambda i: es[i % 12][1](i)
    salt = rng.randrange(1000)
    o, buf, s = JSObject(a=1), JSArrayBuffer(bytes(64)), f"shared {salt}"
    pool = [JSObject(i=i) for i in range(7)]
    return rng.choice([
        ("ints", lambda i: i), ("negative", lambda i: -i - salt), ("floats", lambda i: i + 0.5), ("bigints", lambda i: 2 ** 70 + i), ("bools", lambda i: i % 2 == 0), ("None", lambda i: None),
        ("latin", lambda i: f"é{i}"), ("strings", lambda i: f"s{i}"), ("wide", lambda i: f"ŝ{i}😀"), ("same string", lambda i: s), ("equal strings", lambda i: f"{s}!"),
        ("objects", lambda i: JSObject(a=i)), ("dicts", lambda i: {"a": i}), ("lists", lambda i: [i]), ("empty", lambda i: []), ("arrays", lambda i: JSArray([i, JSHole])), ("maps", lambda i: JSMap([(i, i)])), ("sets", lambda i: JSSet([i])),
        ("one object", lambda i: o), ("few objects", lambda i: pool[i % 7]), ("views of one buffer", lambda i: JSUint8Array(buf, i % 8, 4)), ("buffers", lambda i: JSArrayBuffer(b"%d" % i)), ("views", lambda i: JSUint16Array(bytes(4))),
        ("data views", lambda i: JSDataView(bytes(i % 9))), ("bytes", lambda i: b"%d" % i), ("dates", lambda i: datetime.datetime(2001, 1, 1, tzinfo=UTC) + datetime.timedelta(minutes=i % 10 ** 6)), ("errors", lambda i: JSError(f"e{i}")),
        ("error data", lambda i: JSErrorData(f"e{i}", stack="s")), ("exceptions", lambda i: ValueError(i)), ("boxed", lambda i: JSPrimitiveObject(i)), ("boxed strings", lambda i: JSPrimitiveObject(f"b{i}")), ("regexps", lambda i: JSRegExp(f"a{i}")),
    ])


def order_of(rng):
    kind = rng.choice(["ascending", "descending", "shuffled", "strided", "far"])
    k, seed = rng.choice([3, 50, 1000]), rng.getrandbits(32)

    def keys(n):
        if kind == "ascending":
            return range(n)
        if kind == "descending":
            return range(n - 1, -1, -1)
        if kind == "strided":
            return range(0, n * k, k)
        if kind == "far":
            return [(i * 2654435761 + seed) % (2 ** 32 - 1) for i in range(n)]
        ks = [i * k for i in range(n)]
        random.Random(seed).shuffle(ks)
        return ks

    return kind, keys


def containers(rng, e):
    """A function from a size to a value."""
    order, keys = order_of(rng)
    return rng.choice([
        ("list", lambda n: [e(i) for i in range(n)]),
        ("JSArray", lambda n: JSArray([e(i) for i in range(n)])),
        ("holes", lambda n: JSArray([e(i) if i % 3 else JSHole for i in range(n)])),
        ("array and properties", lambda n: JSArray([e(i) for i in range(n // 2)], **{f"p{i}": e(i) for i in range(n // 2)})),
        ("object", lambda n: JSObject({f"k{i}": e(i) for i in range(n)})),
        ("dict", lambda n: {f"k{i}": e(i) for i in range(n)}),
        (f"indexes {order}", lambda n: JSObject({k: e(k) for k in keys(n)})),
        (f"array indexes {order}", lambda n: JSArray(JSObject({k: e(k) for k in keys(n)}))),
        (f"numbers as text {order}", lambda n: JSObject({str(k): e(k) for k in keys(n)})),
        ("negative keys", lambda n: JSObject({-i - 1: e(i) for i in range(n)})),
        ("map", lambda n: JSMap([(i, e(i)) for i in range(n)])),
        ("map by element", lambda n: JSMap([(e(i), i) for i in range(n)])),
        ("dict of numbers", lambda n: {i: e(i) for i in range(n)}),
        ("set", lambda n: JSSet([e(i) for i in range(n)])),
        ("chunks", lambda n: [[e(i) for i in range(k, min(n, k + 20))] for k in range(0, n, 20)]),
        ("error cause", lambda n: JSError("x", cause=[e(i) for i in range(n)])),
        ("boxes", lambda n: [JSObject(a=e(i), b=e(i + 1)) for i in range(n // 2)]),
    ])


def beside(mk, where):
    def both(n):
        b = "x" * (300 * n) if "text" in where else JSArrayBuffer(bytes(300 * n))
        return [b, mk(n)] if "before" in where else [mk(n), b]

    return both


def scalars(rng):
    c = rng.choice(["a", "é", "ŝ", "😀", "\0"])
    cut = rng.randrange(3)
    return rng.choice([
        ("text", lambda n: c * n), ("mixed text", lambda n: "a" * n + c), ("buffer", lambda n: JSArrayBuffer(bytes(n))), ("bytes", lambda n: bytes(n)), ("view", lambda n: JSUint8Array(bytes(n))),
        ("resizable", lambda n: JSArrayBuffer(bytes(n - cut), max_byte_length=n)), ("bigint", lambda n: (1 << 8 * n) - cut), ("key", lambda n: JSObject({c * n: 1})), ("regexp", lambda n: JSRegExp("a" * n)), ("message", lambda n: JSError(c * n, stack=c * n)),
        ("bytearray", lambda n: bytearray(n)), ("memoryview", lambda n: memoryview(bytearray(n))), ("boxed text", lambda n: JSPrimitiveObject(c * n)),
    ])


OPS = {
    "build": lambda mk, n: lambda: mk(n),
    "dumps": lambda mk, n: (lambda v: lambda: dumps(v, features=ALL))(mk(n)),
    "encode": lambda mk, n: (lambda v, e: lambda: e.encode(v))(mk(n), Encoder(encode_steps=[forward, *default_encode_steps], features=ALL)),
    "loads": lambda mk, n: (lambda d: lambda: loads(d))(dumps(mk(n), features=ALL)),
    "decode": lambda mk, n: (lambda d: lambda: Decoder().decodes(memoryview(d)))(dumps(mk(n), features=ALL)),
    "eq": lambda mk, n: (lambda v, w: lambda: v == w)(mk(n), mk(n)),
    "ne": lambda mk, n: (lambda v, w: lambda: v != w)(mk(n), mk(n + 1)),
    "repr": lambda mk, n: (lambda v, r: lambda: r.repr(v))(mk(n), full_repr()),
    "short repr": lambda mk, n: (lambda v, r: lambda: r.repr(v))(mk(n), JSRepr()),
    "copy": lambda mk, n: (lambda v: lambda: copy.copy(v))(mk(n)),
    "deepcopy": lambda mk, n: (lambda v: lambda: copy.deepcopy(v))(mk(n)),
    "pickle": lambda mk, n: (lambda v: lambda: pickle.loads(pickle.dumps(v)))(mk(n)),
    "iterate": lambda mk, n: (lambda v: lambda: iterate(v))(mk(n)),
    "look up": lambda mk, n: (lambda v: lambda: look_up(v))(mk(n)),
}


def forward(value, /, ctx, next):
    return next(value)


def iterate(v):
    if isinstance(v, (JSObject, JSMap)):
        list(v), list(v.values()), list(v.items()), list(v.keys()), len(v), dict.fromkeys(map(id, v))
        if isinstance(v, JSObject):
            list(v.array.elements().items())
    elif isinstance(v, (JSSet, list)):
        list(v)


def look_up(v):
    if isinstance(v, (JSObject, JSMap)):
        for k in v:
            v[k], k in v, v.get(k), len(v)
    elif isinstance(v, JSSet):
        for k in v:
            k in v


def values(sh, rng):
    op = rng.choice([*OPS, "dumps", "loads", "loads"])
    how = way(rng)
    if rng.random() < 0.2:
        (name, mk), el = scalars(rng), "one"
        if name == "bigint" and "repr" in op or name == "bigint" and op in ("build", "eq", "ne", "short repr"):
            return  # printing numbers is Python's
        n = rng.choice([500, 3000]) if how != "time" else 100000
        if name == "bigint":
            n //= 10
    else:
        el, e = elements(rng, 0.6 if how == "time" else 0.1)
        if how == "memory" and el in ("views of one buffer", "all sorts"):
            return
        name, mk = containers(rng, e)
        if name == "map by element" and el in ("one object",):
            return
        n = rng.choice([60, 150, 300]) if how != "time" else rng.choice([1000, 3000])
        if op == "copy" and name in ("dict", "list"):
            return
    if name == "memoryview" and op in ("copy", "deepcopy", "pickle"):
        return
    if how == "time" and el != "one" and op in ("dumps", "encode", "loads", "decode", "pickle", "deepcopy") and rng.random() < 0.7:
        # What copies all of it for each element must be noticed.
        mk, name = beside(mk, rng.choice(["before", "after", "text before", "text after"])), f"{name} and much else"
    judge(sh, f"{op} of {name} with {el}", lambda k: OPS[op](mk, k), n, how, (op, name, el))


# --- histories of collections

def per_step(sh, rng, name, make, phases):
    """Phases of n steps each, one after the other, or those of a group in turn."""
    order, keys = order_of(rng)
    how = rng.choices(["lines", "time"], [4, 1])[0]
    chosen = [rng.choice(phases) for _ in range(rng.randint(1, 3) if how == "lines" else rng.randint(4, 8))]
    n = rng.choice([100, 300]) if how == "lines" else 4000
    if "ndex" not in name and "Sparse" not in name and "JSArray" != name[-7:] and rng.random() < 0.4:
        chosen = [(f"{x[0]} and {y[0]} in turn", x[1] + y[1]) for x, y in zip(chosen, rng.choices(phases, k=len(chosen)))]

    def prepare(k):
        c = make(k)
        ks = list(keys(k))

        def run():
            for group in chosen:
                for i in range(k):
                    for f in group[1]:
                        f(c, i, k, ks[i])

        return run

    sh.count("histories")
    what = [g[0] for g in chosen]
    judge(sh, f"{name} with {order} keys: {what}", prepare, n, how, (name, *what, order))


def drop(c, k):
    if k in c:
        del c[k]


def every(f, part=50):
    """Something linear that is done only some times."""
    def g(c, i, n, k):
        if i % max(1, n // 4) == 0:
            f(c)
    return g


MAPPING = [
    ("set", [lambda c, i, n, k: c.__setitem__(f"x{i}", i)]), ("set and delete", [lambda c, i, n, k: c.__setitem__(f"y{i}", i), lambda c, i, n, k: c.__delitem__(f"y{i}")]), ("get", [lambda c, i, n, k: c.get(f"k{i}"), lambda c, i, n, k: c.get(f"no{i}")]),
    ("in", [lambda c, i, n, k: f"k{i}" in c]), ("len", [lambda c, i, n, k: len(c), lambda c, i, n, k: bool(c)]), ("delete from the front", [lambda c, i, n, k: drop(c, f"k{i}")]), ("delete from the back", [lambda c, i, n, k: drop(c, f"k{n - 1 - i}")]),
    ("pop", [lambda c, i, n, k: c.pop(f"k{i}", None)]), ("setdefault", [lambda c, i, n, k: c.setdefault(f"k{i}", 1)]), ("update", [lambda c, i, n, k: c.update({f"k{i}": 2})]), ("move", [lambda c, i, n, k: c.pop(f"k{i}", None), lambda c, i, n, k: c.__setitem__(f"k{i}", 1)]),
    ("clear and fill", [lambda c, i, n, k: i % max(1, n // 3) or c.clear(), lambda c, i, n, k: c.__setitem__(f"z{i}", 1)]), ("sometimes iterate", [every(lambda c: list(c.items())), lambda c, i, n, k: c.__setitem__(f"w{i}", 1)]),
    ("failing", [lambda c, i, n, k: fails(lambda: c[f"missing{i}"]), lambda c, i, n, k: fails(lambda: c.__delitem__(f"missing{i}"))]),
]
INDEXED = [
    ("set", [lambda c, i, n, k: c.__setitem__(k, i)]), ("set and get", [lambda c, i, n, k: c.__setitem__(k, i), lambda c, i, n, k: c[k]]), ("set and delete", [lambda c, i, n, k: c.__setitem__(k, i), lambda c, i, n, k: c.__delitem__(k)]),
    ("get", [lambda c, i, n, k: c.get(k)]), ("in", [lambda c, i, n, k: k in c]), ("len", [lambda c, i, n, k: len(c)]), ("delete", [lambda c, i, n, k: drop(c, k)]), ("delete from the back", [lambda c, i, n, k: drop(c, len(c.array) - 1 - i)]),
    ("set at the end", [lambda c, i, n, k: len(c.array) >= 2 ** 32 - 1 or c.__setitem__(len(c.array), i)]), ("text keys", [lambda c, i, n, k: c.__setitem__(str(k), i), lambda c, i, n, k: c.get(str(k))]), ("grow", [lambda c, i, n, k: len(c.array) > 2 ** 31 or c.array.resize(len(c.array) + 1)]),
    ("append", [lambda c, i, n, k: len(c.array) > 2 ** 31 or c.array.append(i)]), ("pop the last", [lambda c, i, n, k: len(c.array) and c.array.pop()]), ("shrink", [lambda c, i, n, k: len(c.array) and c.array.resize(len(c.array) - 1)]),
    ("set the last", [lambda c, i, n, k: len(c.array) and c.array.__setitem__(-1, i)]), ("used", [lambda c, i, n, k: c.array.elements_used, lambda c, i, n, k: len(c.array.elements())]), ("elements", [lambda c, i, n, k: c.array.elements().get(k)]),
    ("properties", [lambda c, i, n, k: c.__setitem__(f"p{i}", i), lambda c, i, n, k: c.properties[f"p{i}"]]), ("sometimes iterate", [every(lambda c: list(c.items()))]), ("sometimes clear", [every(lambda c: c.clear()), lambda c, i, n, k: c.__setitem__(k, 1)]),
    ("failing", [lambda c, i, n, k: fails(lambda: c[-1 - k]), lambda c, i, n, k: fails(lambda: c.array[2 ** 33])]),
]
ARRAY = [
    ("append", [lambda a, i, n, k: a.append(i)]), ("append holes", [lambda a, i, n, k: a.append(JSHole if i % 2 else i)]), ("pop", [lambda a, i, n, k: len(a) and a.pop()]), ("hole and pop", [lambda a, i, n, k: len(a) and a.__setitem__(len(a) - 1, JSHole), lambda a, i, n, k: len(a) and a.pop()]), ("hole and shrink", [lambda a, i, n, k: len(a) and a.__setitem__(-1, JSHole), lambda a, i, n, k: len(a) and a.resize(len(a) - 1)]),
    ("set the last and grow", [lambda a, i, n, k: len(a) and a.__setitem__(len(a) - 1, 1), lambda a, i, n, k: a.resize(len(a) + 1), lambda a, i, n, k: a.resize(len(a))]), ("append and pop", [lambda a, i, n, k: a.append(i), lambda a, i, n, k: a.pop()]),
    ("set", [lambda a, i, n, k: a.__setitem__(k % len(a), i) if len(a) else None]), ("make holes", [lambda a, i, n, k: a.__setitem__(k % len(a), JSHole) if len(a) else None]), ("get", [lambda a, i, n, k: a[k % len(a)] if len(a) else None]), ("len", [lambda a, i, n, k: len(a)]),
    ("grow", [lambda a, i, n, k: a.resize(len(a) + 1)]), ("shrink", [lambda a, i, n, k: len(a) and a.resize(len(a) - 1)]), ("grow and shrink", [lambda a, i, n, k: a.resize(len(a) + 3), lambda a, i, n, k: a.resize(len(a) - 3)]), ("used", [lambda a, i, n, k: a.elements_used]),
    ("sometimes iterate", [every(lambda a: list(a.elements().items()))]), ("sometimes extend", [every(lambda a: a.extend([1, JSHole, 2]))]), ("sometimes reverse", [every(lambda a: len(a) < 10 ** 6 and a.reverse())]),
    ("last", [lambda a, i, n, k: len(a) and a[-1], lambda a, i, n, k: len(a) and a.__setitem__(-1, i)]), ("insert at the end", [lambda a, i, n, k: isinstance(a, DenseArrayProperties) and a.insert(len(a), i)]),
]
SET = [
    ("add", [lambda s, i, n, k: s.add(f"x{k}")]), ("add objects", [lambda s, i, n, k: s.add(JSObject())]), ("discard", [lambda s, i, n, k: s.discard(k)]), ("discard from the back", [lambda s, i, n, k: s.discard(n - 1 - i)]), ("in", [lambda s, i, n, k: k in s]),
    ("move", [lambda s, i, n, k: s.discard(i), lambda s, i, n, k: s.add(i)]), ("len", [lambda s, i, n, k: len(s)]), ("update one", [lambda s, i, n, k: s.__ior__([i])]), ("sometimes subtract", [every(lambda s: s - JSSet(range(50)))]),
    ("sometimes unite", [every(lambda s: s | list(range(50)))]), ("sometimes intersect", [every(lambda s: s & JSSet(s))]), ("sometimes exclude", [every(lambda s: s ^ JSSet(s))]), ("sometimes compare", [every(lambda s: (s <= JSSet(s), s == JSSet(s), s.isdisjoint(JSSet(s)), s >= set(range(5))))]),
    ("sometimes clear", [every(lambda s: s.clear()), lambda s, i, n, k: s.add(i)]), ("failing", [lambda s, i, n, k: fails(lambda: s.remove("none"))]),
]


def fails(f):
    try:
        f()
    except (KeyError, IndexError):
        pass


def histories(sh, rng):
    stride = rng.choice([1, 1, 7, 1000])
    name, make, phases = rng.choice([
        ("JSObject", lambda n: JSObject({f"k{i}": i for i in range(n)}), MAPPING), ("JSMap", lambda n: JSMap([(f"k{i}", i) for i in range(n)]), MAPPING), ("JSArray with properties", lambda n: JSArray(range(n), **{f"k{i}": i for i in range(n)}), MAPPING),
        (f"JSObject with indexes of step {stride}", lambda n: JSObject({i * stride: i for i in range(n)}), INDEXED), ("empty JSArray", lambda n: JSArray(), INDEXED), ("JSArray", lambda n: JSArray(range(n)), INDEXED),
        ("DenseArrayProperties", lambda n: DenseArrayProperties(range(n)), ARRAY), ("SparseArrayProperties", lambda n: SparseArrayProperties(entries=[(i * stride, i) for i in range(n)]), ARRAY), ("JSSet", lambda n: JSSet(range(n)), SET),
    ])
    if isinstance(make(1), SparseArrayProperties) or phases is INDEXED:
        # What needs the order of the elements, and what changes it, are not done in turn.
        phases = [p for p in phases if not (isinstance(make(1), SparseArrayProperties) and p[0] == "sometimes reverse" and stride > 1)]
    per_step(sh, rng, name, make, phases)


# --- streams nobody would write

def varint(n):
    out = bytearray()
    while n > 127:
        out.append(n & 127 | 128)
        n >>= 7
    return bytes(out) + bytes([n])


def raw(sh, rng):
    """Streams with much of something."""
    salt = rng.randrange(50)
    head = b"\xff\x0f"
    name, make = rng.choice([
        ("references", lambda n: b"A" + varint(n) + b"o{\0" + b"^\x01" * (n - 1) + b"$\0" + varint(n)),
        ("the same key", lambda n: b"o" + b'"\1aI\2' * n + b"{" + varint(n)),
        ("the same index", lambda n: b"o" + b"I\x0aI\2" * n + b"{" + varint(n)),
        ("padding", lambda n: b"\0" * n + b"I\2"),
        ("padding within", lambda n: b"A\2" + b"\0" * n + b"I\2" + b"I\4$\0\2"),
        ("alternating indexes", lambda n: b"o" + b"".join(b"U" + varint(i * 2654435761 % 2 ** 32) + b"I\2" for i in range(n)) + b"{" + varint(n)),
        ("falling indexes", lambda n: b"a" + varint(n * 9) + b"".join(b"U" + varint((n - i) * 9 - 1) + b"I\2" for i in range(n)) + b"@" + varint(n) + varint(n * 9)),
        ("rising indexes", lambda n: b"a" + varint(n * 9) + b"".join(b"U" + varint(i * 9) + b"I\2" for i in range(n)) + b"@" + varint(n) + varint(n * 9)),
        ("far indexes in a dense array", lambda n: b"A\1I\2" + b"".join(b"U" + varint(10 ** 6 + i * 1000) + b"T" for i in range(n)) + b"$" + varint(n) + b"\1"),
        ("double keys", lambda n: b"o" + b"".join(b"N" + i.hex().encode()[:0] + __import__("struct").pack("<d", i * 1.5) + b"_" for i in map(float, range(n))) + b"{" + varint(n)),
        ("numeric text keys", lambda n: b"o" + b"".join(b'"' + bytes([len(str(i * 3 + salt))]) + str(i * 3 + salt).encode() + b"T" for i in range(n)) + b"{" + varint(n)),
        ("the same map key", lambda n: b";" + b"I\2F" * n + b":" + varint(2 * n)),
        ("NaN in a set", lambda n: b"'" + b"N\0\0\0\0\0\0\xf8\x7f" * n + b"," + varint(n)),
        ("views", lambda n: b"A" + varint(n) + b"B\x08\0\0\0\0\0\0\0\0VB" + bytes([0, 4, 0]) + b"".join(b"^\x01VB" + bytes([i % 5, 3, 0]) for i in range(n - 1)) + b"$\0" + varint(n)),
        ("shared buffers", lambda n: b"A" + varint(n) + b"".join(b"B\x01x" for i in range(n)) + b"$\0" + varint(n)),
        ("holes", lambda n: b"A" + varint(n) + b"-" * n + b"$\0" + varint(n)),
        ("boxed", lambda n: b"A" + varint(n) + b"y" * n + b"$\0" + varint(n)),
        ("errors", lambda n: b"A" + varint(n) + b'rEm"\1a.' * n + b"$\0" + varint(n)),
        ("error fields", lambda n: b"r" + b'm"\1a' * 1 + b"s" + b'"' + varint(n) + b"b" * n + b"."),
        ("truncated", lambda n: b"A" + varint(n) + b"I\2" * (n - 1)),
        ("bad at the end", lambda n: b"A" + varint(n) + b"o{\0" * (n - 1) + b"?"),
        ("key of much text", lambda n: b'o"' + varint(n) + b"k" * n + b"I\2{\1"),
        ("digits as key", lambda n: b'o"' + varint(n) + b"1" * n + b"I\2{\1"),
        ("bigint", lambda n: b"Z" + varint((n // 8 * 8) << 1) + b"\xff" * (n // 8 * 8)),
        ("regexp", lambda n: b'R"' + varint(n) + b"a" * n + b"\0"),
        ("dates", lambda n: b"A" + varint(n) + b"D\0\0\0\0\0\0\0\0" * n + b"$\0" + varint(n)),
    ])
    how = way(rng)
    n = rng.choice([100, 400]) if how != "time" else 5000
    then = rng.choice([None, None, dumps, repr, copy.deepcopy, lambda v: v == v])

    def prepare(k):
        d = head + make(k)
        return lambda: read(d, then)

    sh.count("raw streams")
    judge(sh, f"reading {name}", prepare, n, how, (name, getattr(then, "__name__", "")))


def read(d, then):
    try:
        v = loads(d)
    except ValueError:
        return
    if then:
        then(v)


# --- depth

def deep(sh, rng):
    kind = rng.choice(["list", "object", "map", "set", "error", "array", "mixed"])

    def wrap(x, i, twice):
        k = kind if kind != "mixed" else ("list", "object", "map", "array")[i % 4]
        y = [x, x] if twice else [x]
        return {"list": lambda: y, "object": lambda: JSObject(enumerate(y)) if i % 2 else JSObject({f"k{j}": e for j, e in enumerate(y)}), "map": lambda: JSMap(enumerate(y)), "set": lambda: JSSet([*y, i]), "error": lambda: JSError("x", cause=x),
                "array": lambda: JSArray(y)}[k]()

    twice = rng.random() < 0.5
    ring = rng.random() < 0.3
    op = rng.choice(["dumps", "loads", "deepcopy", "pickle"] + ([] if twice else ["eq", "repr", "short repr"]))

    def mk(n):
        first = x = JSObject()
        for i in range(n):
            x = wrap(x, i, twice)
        if ring:
            first["back"] = x
        return x

    how = rng.choice(["lines", "memory"])
    sh.count("deep")
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(40000)
    try:
        judge(sh, f"{op} of nested {kind} twice={twice} ring={ring}", lambda k: OPS[op](mk, k), 10, how, ("deep", op, kind, twice, ring))
    finally:
        sys.setrecursionlimit(old)
