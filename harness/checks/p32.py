"""Finished calls keep nothing alive, and repeating them accumulates nothing."""
import copy
import datetime
import gc
import io
import mmap
import pickle
import random
import struct
import sys
import weakref
from enum import Enum

from harness import fuzz
from harness.core import Violation, check, short
from harness.graph import walk
from harness.model import Gen, from_python, to_python
from harness.util import ALL, varied
from v8serialize import Decoder, Encoder, JSRegExpFlag, TagReader, V8SerializeError, default_encode_steps, dumps, loads
from v8serialize.encode import TagWriter
from v8serialize.jstypes import (JSArray, JSArrayBuffer, JSDataView, JSError, JSErrorData, JSFloat64Array, JSHole, JSMap, JSObject, JSPrimitiveObject, JSRegExp, JSRepr, JSSet, JSUint8Array,
                                 JSUint16Array, JSUndefined, create_view, js_repr_settings)

QUICK, THOROUGH = 50000, 1200000
RULE = "distinct (operation, kinds of values, outcome) tuples"
MIN = {"objects watched": 120000, "calls": 60000, "failed calls": 5000, "results released": 10000, "inputs released": 3500, "members dropped": 10000, "members removed and released": 50000, "memory released": 5000, "series": 300,
       "classes released": 400}
ASSUMPTIONS = ["what is only referred to by cycles is released by the garbage collector", "exceptions hold the frames they passed through while they are kept"]


def setup(sh):
    for seed in range(4):  # what is made once
        r = random.Random(seed)
        v = to_python(Gen(r, budget=30, depth=4).graph())
        loads(dumps(v, features=ALL))
        repr(v)
    gc.collect()
    gc.freeze()


class Odd:
    """Nothing can write one."""

    def __init__(self, name="odd"):
        self.name = name


class SubObject(JSObject):
    pass


class SubArray(JSArray):
    pass


class SubMap(JSMap):
    pass


class SubSet(JSSet):
    pass


class SubError(JSError):
    pass


def case(sh, rng):
    rng.choices([writing, reading, collections, memory, series, classes], [6, 6, 5, 3, 0.5, 0.5])[0](sh, rng)


class Watch:
    """The number of references to objects before and after.  Strings, numbers and dates are left out: a bounded cache may keep some."""

    def __init__(self, sh, objs):
        self.sh = sh
        self.objs = list({id(o): o for o in objs if not isinstance(o, (str, int, float, bytes, datetime.datetime))}.values())
        gc.collect()  # what made the values
        self.before = self.counts()
        sh.count("objects watched", len(self.objs))

    def counts(self):
        return [sys.getrefcount(o) for o in self.objs]

    def unchanged(self, what):
        after = self.counts()
        if after != self.before:
            gc.collect()
            after = self.counts()
            self.sh.count("released by the garbage collector")
        for o, b, a in zip(self.objs, self.before, after):
            check(a <= b, "%s: %d references to %s are kept", what, a - b, describe(o))


def describe(o):
    try:
        return f"a {type(o).__name__}: {short(o, 200)}"
    except Exception:
        return f"a {type(o).__name__}"


def tokens(rng):
    """Values nobody else refers to."""
    x = rng.getrandbits(60)
    return [f"token {x}", f"töken {x}", 2 ** 80 + x, x + 0.5, b"token %d" % x, datetime.datetime(2020, 1, 1) + datetime.timedelta(seconds=x % 10 ** 8), bytearray(b"%d" % x), JSPrimitiveObject(f"p{x}"),
            JSRegExp(f"a{x}", JSRegExpFlag.NoFlag), (x, "t"), {f"k{x}": x}, [x], {x}]


def value(rng):
    """A value and the objects of it to watch."""
    m = Gen(rng, cycles=rng.random() < 0.4, float16=True, error_cycles=True, **varied(rng)).graph()
    v = to_python(m)
    t = tokens(rng)
    root = rng.choice([lambda: [v, *t], lambda: JSObject({"v": v, f"k{rng.getrandbits(60)}": t[0], "t": t, 7: t[1]}), lambda: JSMap([(x, i) if x.__hash__ else (i, x) for i, x in enumerate(t)] + [("v", v)]),
                       lambda: JSArray([*t, v]), lambda: SubArray([v, JSHole], x=t)])()
    watched = [n.py for n in walk(from_python(root)) if not isinstance(n.py, (str, int, float, bool, type(None)))] + t + [root]
    return root, watched


# --- writing, comparing, printing, copying

def fails(value, /, ctx, next):
    if isinstance(value, Odd):
        raise ZeroDivisionError(value)
    return next(value)


def writing(sh, rng):
    v, watched = value(rng)
    kept = rng.choice([None, Encoder(features=ALL), Encoder(encode_steps=[fails, *default_encode_steps], features=ALL)])
    odd = Odd()
    bad = rng.choice([lambda: [v, odd], lambda: JSMap([(v, odd)]), lambda: {"a": v, "b": odd}, lambda: JSObject(a=[v], b=odd), lambda: JSSet([odd, v])])()
    w = Watch(sh, watched + [odd, bad])
    done = []
    for _ in range(rng.randint(1, 3)):
        op = rng.choice(["dumps", "encoder", "bad dumps", "bad encoder", "no references", "repr", "repr", "eq", "ne", "copy", "deepcopy", "pickle", "hash", "from_exception", "round trip", "lookup", "writer"])
        try:
            perform(op, v, bad, kept, rng)
        except (V8SerializeError, ZeroDivisionError, TypeError) as e:
            if op in ("dumps", "repr", "round trip"):
                raise
            sh.count("failed calls")
            outcome = type(e).__name__
            if rng.random() < 0.3:
                str(e)
            e.__traceback__ = None
            del e
        except RecursionError:
            outcome = "RecursionError"
        else:
            outcome = "done"
        sh.count("calls")
        done.append(op)
        w.unchanged(f"after {done} ({outcome})")
        sh.nontrivial(op, type(v).__name__, outcome, kept is not None)


def perform(op, v, bad, kept, rng):
    if op == "dumps":
        dumps(v, features=ALL)
    elif op == "encoder":
        (kept or Encoder(features=ALL)).encode(v)
    elif op == "bad dumps":
        dumps(bad, features=ALL)
    elif op == "bad encoder":
        (kept or Encoder()).encode(bad)
    elif op == "no references":
        dumps(JSObject(a=1, b=[2, "x"], c=v if rng.random() < 0.2 else None), encode_steps=[TagWriter()], features=ALL)
    elif op == "repr":
        with js_repr_settings(indent=rng.choice([None, 2]), maxlevel=rng.choice([2, 6])):
            repr(v), repr(bad), JSRepr().repr(v)
    elif op == "eq":
        v == v, v == bad, v == copy.copy(v)
    elif op == "ne":
        v != bad, JSObject(a=v) != JSObject(a=bad)
    elif op == "copy":
        copy.copy(v)
    elif op == "deepcopy":
        copy.deepcopy(v)
    elif op == "pickle":
        pickle.loads(pickle.dumps(v))
    elif op == "hash":
        hash(v)
    elif op == "from_exception":
        try:
            raise ValueError("x", v) from KeyError(v)
        except ValueError as e:
            dumps(e)
            JSErrorData.from_exception(e)
    elif op == "round trip":
        loads(dumps(v, features=ALL))
    elif op == "lookup":
        JSMap([(v, 1)]).get(v), v in JSSet([bad]), JSSet([v]) | JSSet([bad]), JSMap([(v, bad)]) == JSMap([(bad, v)])
    else:
        JSObject(a=v).update(b=bad)
        o = JSObject(a=v)
        o["b"] = bad
        del o["b"]


# --- reading

def host(*, stream):
    raise ZeroDivisionError


def reading(sh, rng):
    if rng.random() < 0.7:
        w = fuzz.valid(rng)
        data = bytes(w.out)
        if rng.random() < 0.35:
            data = data[:rng.randrange(len(data))] if rng.random() < 0.5 else fuzz.mutate(rng, data, w.marks, b"")
    else:
        data = fuzz.grammar(rng)
    data = bytes(bytearray(data))
    how = rng.choice(["bytes", "bytearray", "memoryview", "file", "mmap"])
    src = {"bytes": lambda: data, "bytearray": lambda: bytearray(data), "memoryview": lambda: memoryview(bytearray(data)), "file": lambda: io.BytesIO(data), "mmap": lambda: anonymous(data)}[how]()
    types = dict(jsmap_type=SubMap, jsset_type=SubSet, js_object_type=SubObject, js_array_type=SubArray, js_error_builder=SubError.builder) if rng.random() < 0.6 else {}
    if rng.random() < 0.1:
        types["host_object_deserializer"] = host
    steps = [TagReader(**types)]
    kept = Decoder(decode_steps=steps) if rng.random() < 0.5 else None
    made = []
    w = Watch(sh, [src, steps, steps[0]])
    for _ in range(rng.choice([1, 1, 2])):
        outcome = read(src, how, kept, types, made, rng)
        sh.count("calls")
        sh.count("failed calls", outcome not in ("done", "RecursionError"))
        if how == "file":
            src.seek(0)
    w.unchanged(f"after reading {data[:200].hex()} ({outcome})")
    if any(r() is not None for r in made):
        gc.collect()
    for r in made:
        o = r()
        check(o is None, "after reading %s (%s): %s is kept", data[:200].hex(), outcome, describe(o))
    sh.count("results released", len(made))
    try:
        if how == "bytearray":
            src.extend(b"more")
        elif how == "memoryview":
            b = src.obj
            src.release()
            b.append(1)
        elif how == "mmap":
            src.close()
    except BufferError as e:
        raise Violation(f"the {how} is still in use after reading {data[:200].hex()} ({outcome}): {e}")
    sh.count("inputs released", how in ("bytearray", "memoryview", "mmap"))
    sh.nontrivial("read", how, outcome, bool(types), len(made) > 3)


def anonymous(data):
    m = mmap.mmap(-1, max(1, len(data)))
    m[:len(data)] = data
    return m


def read(src, how, kept, types, made, rng):
    try:
        if how == "file":
            r = (kept or Decoder(decode_steps=[TagReader(**types)])).decode(src)
        elif kept:
            r = kept.decodes(src)
        else:
            r = loads(src, **types)
    except RecursionError:
        return "RecursionError"
    except (V8SerializeError, ZeroDivisionError) as e:
        return type(e).__name__
    if rng.random() < 0.3:
        repr(r)
    for n in everything(r):
        try:
            made.append(weakref.ref(n))
        except TypeError:
            pass
    return "done"


def everything(v):
    todo, seen = [v], {}
    while todo and len(seen) < 3000:
        x = todo.pop()
        if id(x) in seen or isinstance(x, (str, int, float, bytes, type(None), Enum)):
            continue
        seen[id(x)] = x
        if isinstance(x, JSObject):
            todo += x.values()
            seen[id(x.array)] = x.array
        elif isinstance(x, JSMap):
            todo += [y for e in x.items() for y in e]
        elif isinstance(x, JSSet):
            todo += x
        elif isinstance(x, JSError):
            todo.append(x.cause)
        elif hasattr(x, "backing_buffer"):
            todo.append(x.backing_buffer)
    return list(seen.values())


# --- collections

class Token:
    __slots__ = ("__weakref__",)


class Equal(Token):
    """Equal to any other of its class, but not the same value."""
    __slots__ = ()

    def __eq__(self, other):
        return type(other) is Equal

    __hash__ = None


def collections(sh, rng):
    """A member is released when it is removed, replaced or never accepted."""
    kind = rng.choice([JSObject, JSArray, JSMap, JSSet, SubArray, SubMap, JSError])
    made = []

    def token():
        t = rng.choice([Token, Token, Equal])()
        made.append(weakref.ref(t))
        return t

    far = rng.random() < 0.5
    c = kind("m") if kind is JSError else kind()
    trace = []
    for i in range(rng.choice([3, 10, 25])):
        op = mutate(kind, c, token, rng, far)
        trace.append(op)
        if rng.random() < 0.5:
            released(sh, c, made, trace)
    released(sh, c, made, trace)
    sh.nontrivial("collection", kind.__name__, tuple(trace[:3]), len(made))
    if rng.random() < 0.4:
        what = rng.choice(["iterator", "view", "nothing"])
        held = iter(c) if what == "iterator" and not isinstance(c, JSError) else c.items() if what == "view" and isinstance(c, (JSObject, JSMap)) else None
        if what == "iterator" and held is not None:
            next(held, None)
        del held
    del c
    gc_if_needed(made)
    check(not any(r() for r in made), "after %s and dropping the %s: %d members are kept", trace, kind.__name__, sum(r() is not None for r in made))
    sh.count("members dropped", len(made))


def gc_if_needed(made):
    if any(r() is not None for r in made):
        gc.collect()


def released(sh, c, made, trace):
    inside = {id(x) for x in members(c)}
    out = [r for r in made if r() is not None and id(r()) not in inside]
    if out:
        gc.collect()
    for r in out:
        check(r() is None, "after %s: a removed member is kept by a %s of %d members: %s", trace, type(c).__name__, len(inside), sys.getrefcount(r()) if r() else 0)
    sh.count("members removed and released", sum(r() is None for r in made))
    made[:] = [r for r in made if r() is not None]


def members(c):
    if isinstance(c, JSObject):
        return [x for x in [*c.values(), *c.array.elements().values()] if isinstance(x, Token)]
    if isinstance(c, JSMap):
        return [x for e in c.items() for x in e if isinstance(x, Token)]
    if isinstance(c, JSSet):
        return [x for x in c if isinstance(x, Token)]
    return [x for x in (c.message, c.stack, c.cause, c.name) if isinstance(x, Token)]


def mutate(kind, c, token, rng, far):
    try:
        if kind is JSError:
            setattr(c, rng.choice(["cause", "stack"]), token())
            return "set"
        if kind is JSSet:
            op = rng.choice(["add", "add", "discard", "remove other", "pop", "clear", "ior", "isub", "ixor", "and", "or", "contains"])
            some = list(c)
            if op == "add":
                c.add(token())
            elif op == "discard" and some:
                c.discard(rng.choice(some))
            elif op == "remove other":
                c.remove(token())
            elif op == "pop" and some:
                c.pop()
            elif op == "clear":
                c.clear()
            elif op == "ior":
                c |= [token(), token()]
            elif op == "isub":
                c -= [*some[:2], token()]
            elif op == "ixor":
                c ^= [*some[:1], token()]
            elif op == "and":
                c & [token()]
            elif op == "or":
                c | JSSet([token()])
            else:
                token() in c
            return op
        if issubclass(kind, JSMap):
            op = rng.choice(["set", "set", "replace", "del", "del other", "pop", "popitem", "clear", "update", "setdefault", "get", "equal"])
            some = list(c)
            if op == "set":
                c[token()] = token()
            elif op == "replace" and some:
                c[rng.choice(some)] = token()
            elif op == "del" and some:
                del c[rng.choice(some)]
            elif op == "del other":
                del c[token()]
            elif op == "pop" and some:
                c.pop(rng.choice(some))
            elif op == "popitem" and some:
                c.popitem()
            elif op == "clear":
                c.clear()
            elif op == "update":
                c.update([(token(), token()), *([(some[0], token())] if some else [])])
            elif op == "setdefault":
                c.setdefault(rng.choice(some) if some and rng.random() < 0.5 else token(), token())
            elif op == "get":
                c.get(token()), token() in c
            else:
                c == JSMap([(token(), token())])
            return op
        a = c.array
        op = rng.choice(["set", "set", "index", "index", "del", "del index", "pop", "clear", "update", "resize", "append", "insert", "array pop", "array set", "slice", "reverse", "extend", "refused", "get", "equal", "init"])
        index = lambda: rng.choice([0, 1, 2, 5, 9] + [500, 5000, 2 ** 31] * far)
        if op == "set":
            c[rng.choice("abcd")] = token()
        elif op == "index":
            c[index()] = token()
        elif op == "del" and c.properties:
            del c[rng.choice(list(c.properties))]
        elif op == "del index" and a.elements_used:
            del c[rng.choice(list(a.elements()))]
        elif op == "pop" and len(c):
            c.pop(rng.choice(list(c)))
        elif op == "clear":
            c.clear()
        elif op == "update":
            c.update({"a": token(), 3: token()})
        elif op == "resize":
            a.resize(rng.choice([0, 1, 3, 8] + [6000] * far))
        elif op == "append" and len(a) < 10000:
            a.append(token())
        elif op == "insert" and len(a) < 10000:
            a.insert(rng.choice([0, 1, -1]), token())
        elif op == "array pop" and 0 < len(a) < 10000:
            a.pop(rng.choice([0, -1]))
        elif op == "array set" and len(a):
            a[rng.randrange(len(a))] = token() if rng.random() < 0.6 else JSHole
        elif op == "slice" and len(a) < 10000:
            a[1:3] = [token()]
        elif op == "reverse" and len(a) < 10000:
            a.reverse()
        elif op == "extend" and len(a) < 10000:
            a.extend([token(), JSHole, token()])
        elif op == "refused":
            a[len(a) + 5] = token()
        elif op == "get":
            c.get(token()), token() in c
        elif op == "equal":
            c == kind({"a": token()})
        elif op == "init" and type(c) is kind:
            c.__init__({"x": token()})
        return op
    except (KeyError, IndexError, TypeError, ValueError, AttributeError, NotImplementedError) as e:
        return type(e).__name__


# --- memory

def memory(sh, rng):
    """Memory is only held by what says so, and not longer than it exists."""
    n = rng.choice([8, 16, 64])
    raw = rng.choice([lambda: bytearray(n), lambda: anonymous(bytes(n))])()
    own = isinstance(raw, bytearray)
    with_view = not own or rng.random() < 0.4
    outer = memoryview(raw) if with_view else raw
    b = JSArrayBuffer(outer, copy_data=False) if rng.random() < 0.7 else outer
    cls = rng.choice([JSUint8Array, JSUint16Array, JSFloat64Array, JSDataView])
    v = rng.choice([lambda: cls(b), lambda: cls.from_bytes(b, byte_offset=8), lambda: create_view(b, cls.view_tag)])()
    trace = []
    for _ in range(rng.randint(1, 5)):
        op = rng.choice(["read", "write", "bad read", "bad write", "get_buffer", "get_buffer raises", "dumps", "repr", "eq", "hash", "data", "iterate", "failed dumps", "lengths", "contains"])
        trace.append(op)
        try:
            use(op, v, b, rng)
        except (IndexError, TypeError, ValueError, ZeroDivisionError, V8SerializeError, OverflowError, struct.error):
            trace[-1] += " failed"
        sh.count("calls")
        if not with_view:
            try:
                raw.append(1)
                raw.pop()
            except BufferError as e:
                raise Violation(f"after {trace}: the memory of a {cls.__name__} over a {type(b).__name__} is still in use: {e}")
            sh.count("memory released")
    if with_view:
        if rng.random() < 0.5 and isinstance(b, JSArrayBuffer):
            trace.append("close")
            b.close()
        del b, v
        outer.release()
        try:
            raw.append(1) if own else raw.close()
        except BufferError:
            gc.collect()
            try:
                raw.append(1) if own else raw.close()
            except BufferError as e:
                raise Violation(f"after {trace} and dropping the {cls.__name__}: the memory is still in use: {e}")
        sh.count("memory released")
    sh.nontrivial("memory", cls.__name__, own, with_view, tuple(trace[:3]))


def use(op, v, b, rng):
    seq = not isinstance(v, JSDataView)
    if op in ("read", "write", "bad read", "bad write"):
        i = 0 if op in ("read", "write") else 10 ** 6
        with v.get_buffer() as d:
            if seq:
                d[i] if "read" in op else d.__setitem__(i, rng.choice([1, "x"]))
            else:
                d.get_float64(i) if "read" in op else d.set_int8(i, rng.choice([1, 10 ** 6, "x"]))
    elif op == "get_buffer":
        with v.get_buffer() as m:
            m.__class__, dir(m)
    elif op == "get_buffer raises":
        with v.get_buffer():
            raise ZeroDivisionError
    elif op == "dumps":
        dumps([v, b] if isinstance(b, JSArrayBuffer) else v)
    elif op == "failed dumps":
        dumps([v, Odd()])
    elif op == "repr":
        repr(v)
    elif op == "eq":
        v == type(v)(bytes(8)), v == v
    elif op == "hash":
        hash(v)
    elif op == "data" and isinstance(b, JSArrayBuffer):
        with b.data as d:
            bytes(d)
    elif op == "iterate" and seq:
        with v.get_buffer() as d:
            list(d), next(iter(d), None)
    elif op == "lengths":
        v.byte_length, v.byte_offset, v.is_in_range, v.is_length_tracking
    elif op == "contains" and seq:
        with v.get_buffer() as d:
            1 in d


# --- accumulation

def one(i, salt):
    return JSObject({f"k{i} {salt}": [f"v{i} {salt}", 2 ** 70 + i, i + 0.25], 3: JSMap([(f"m{i} {salt}", JSSet([i, f"s{salt} {i}"]))]), "b": JSUint8Array(b"%d" % i), "e": JSError(f"e{i} {salt}", cause=[i])})


def quiet(fn, *types):
    try:
        fn()
    except types:
        pass


SERIES = {
    "dumps": lambda i, s: dumps(one(i, s)),
    "encoder": lambda i, s: ENCODER.encode(one(i, s)),
    "loads": lambda i, s: loads(dumps(one(i, s))),
    "decoder": lambda i, s: DECODER.decodes(dumps(one(i, s))),
    "bad loads": lambda i, s: quiet(lambda: loads(dumps(one(i, s))[:-1 - i % 20]), V8SerializeError),
    "bad dumps": lambda i, s: quiet(lambda: dumps([one(i, s), Odd(f"{i} {s}")]), V8SerializeError),
    "repr": lambda i, s: repr(one(i, s)),
    "settings": lambda i, s: settings(i, s),
    "eq": lambda i, s: (one(i, s) == one(i, s), one(i, s) == one(i + 1, s), JSArray([one(i, s)]) != JSArray([1])),
    "raising eq": lambda i, s: quiet(lambda: JSArray([Raises(f"{i} {s}")]) == JSArray([Raises(i)]), ZeroDivisionError),
    "raising repr": lambda i, s: quiet(lambda: repr(JSArray([Raises(f"{i} {s}")])), ZeroDivisionError),
    "hash": lambda i, s: (hash(JSUint16Array(b"%06d" % (i % 10 ** 6))), hash(JSPrimitiveObject(f"{i} {s}")), hash(JSRegExp(f"{i} {s}"))),
    "deepcopy": lambda i, s: copy.deepcopy(one(i, s)),
    "keys": lambda i, s: churn(i, s),
    "exceptions": lambda i, s: dumps(ValueError(f"{i} {s}", [i])),
    "dates": lambda i, s: loads(dumps(datetime.datetime(2000, 1, 1) + datetime.timedelta(seconds=i))),
    "buffers": lambda i, s: buffers(i),
}
SERIES_OVER = {
    "eq of existing objects": lambda a, b: quiet(lambda: a == b, ZeroDivisionError),
    "eq of existing objects and copies": lambda a, b: quiet(lambda: a == copy.deepcopy(a), ZeroDivisionError),
    "eq of existing pairs": lambda a, b: quiet(lambda: a == TWINS[id(a)], ZeroDivisionError),
    "repr of existing objects": lambda a, b: quiet(lambda: repr([a, b]), ZeroDivisionError),
    "dumps of existing objects": lambda a, b: quiet(lambda: dumps([a, b]), V8SerializeError),
    "encode of existing objects": lambda a, b: quiet(lambda: ENCODER.encode([a, b]), V8SerializeError),
    "copies of existing objects": lambda a, b: (copy.copy(a), copy.deepcopy(b), copy.copy(a) is b),
    "keys of existing objects": lambda a, b: (LASTING_MAP.__setitem__(a, b), LASTING_SET.add(b), LASTING_MAP.pop(a), LASTING_SET.remove(b)),
    "lookups of existing objects": lambda a, b: (a in LASTING_SET, b in LASTING_MAP, LASTING_MAP.get(a)),
    "members that are existing objects": lambda a, b: (LASTING.__setitem__("x", a), LASTING.__setitem__("x", b), LASTING.__delitem__("x")),
}
ENCODER, DECODER, LASTING = Encoder(), Decoder(), JSObject(a=1)
LASTING_MAP, LASTING_SET = JSMap(a=1), JSSet([1])


class Raises:
    def __init__(self, x):
        self.x = x

    def __eq__(self, other):
        raise ZeroDivisionError

    def __repr__(self):
        raise ZeroDivisionError

    __hash__ = None


TWINS = {}


def settings(i, s):
    with js_repr_settings(fillvalue=f"{i} {s}", maxlevel=i % 5 + 1):
        repr(JSArray([[[1]]]))


def churn(i, s):
    """Members come and go."""
    k, n = f"key {i} {s}", 10 ** 6 + i * 1000
    for c in (LASTING, LASTING_MAP):
        c[k], c[n] = [i], i
        c.get(k), c.get(f"{k}?")
        del c[k], c[n]
    LASTING_SET.add(k)
    LASTING_SET.discard(k)
    LASTING.array.resize(0)


def buffers(i):
    b = JSArrayBuffer(bytes(i % 50), max_byte_length=100)
    v = JSUint8Array(b)
    b.resize(i % 100)
    with v.get_buffer() as m:
        list(m)
    quiet(lambda: b.resize(1000 + i), V8SerializeError)


def series(sh, rng):
    """The interpreter has no more memory allocated after many calls than after a few."""
    name = rng.choice([*SERIES, *SERIES_OVER])
    salt, n = rng.getrandbits(40), 60
    i = rng.randrange(10 ** 6)
    for warm in (30, 6000):  # the second is not reached unless something might accumulate, and fills bounded caches
        if name in SERIES:
            fn = SERIES[name]
        else:  # the objects exist throughout, so that no id is used again
            over = [one(k, salt) if k % 2 else JSArray([Raises(k)]) for k in range(warm + 6 * n + 1)]
            for x in over:
                for y in everything(x):  # the interpreter makes dicts of attributes when they are first asked for
                    getattr(y, "__dict__", None)
            TWINS.clear()
            if name == "eq of existing pairs":
                TWINS.update((id(x), JSArray([Raises(0)]) if isinstance(x, JSArray) else JSObject(x)) for x in over)
            fn = lambda i, s: SERIES_OVER[name](over[i - first], over[i - first + 1])
        first = i
        for _ in range(warm):
            fn(i, salt)
            i += 1
        grown, last = [], None
        for _ in range(6):
            for _ in range(n):
                fn(i, salt)
                i += 1
            gc.collect()
            now = sys.getallocatedblocks()
            if last is not None:
                grown.append(now - last)
                if now - last < n * 0.7:
                    break
            last = now
        else:
            sh.count("series looked at again")
            continue
        break
    else:
        raise Violation(f"{n} calls of {name} leave {grown} more blocks of memory behind each time")
    sh.count("series")
    sh.count("calls", n * (len(grown) + 1))
    sh.nontrivial("series", name, len(grown))


def classes(sh, rng):
    """Classes made at run time, and everything they refer to, are released."""
    base = rng.choice([dict, list, JSObject, JSArray, JSMap, JSSet, str, int, object, JSError, Exception])
    big = Token()
    cls = type(f"Made{rng.randrange(100)}", (base,), {"big": big})
    r, rb = weakref.ref(cls), weakref.ref(big)
    x = cls()
    ops = rng.sample([lambda: dumps(x), lambda: dumps([x, {1: x}]), lambda: repr(JSObject(a=x)), lambda: JSObject(a=x) == JSArray([x]), lambda: JSMap([(1, x)]), lambda: isinstance(x, JSErrorData), lambda: copy.deepcopy(JSArray([x])),
                      lambda: JSObject()[x], lambda: JSSet([1]) - cls(), lambda: create_view(x, JSUint8Array.view_tag), lambda: JSArrayBuffer(x), lambda: x == JSMap(), lambda: loads(x)], rng.randint(1, 4))
    for f in ops:
        try:
            f()
        except Exception:
            sh.count("failed calls")
    del ops, x, cls, big, f
    gc.collect()
    if r() is not None:
        gc.collect()
    check(r() is None and rb() is None, "a class based on %s is kept", base.__name__)
    sh.count("classes released")
    sh.nontrivial("class", base.__name__)
