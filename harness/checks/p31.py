"""Errors tell what failed, and survive being copied and sent between processes."""
import concurrent.futures
import copy
import datetime
import io
import multiprocessing
import pickle
import sys
import traceback
from collections import OrderedDict, deque

from harness import fuzz
from harness.checks.p06 import nested
from harness.core import Violation, check, short
from v8serialize import (DecodeV8SerializeError, Decoder, JSRegExpFlag, SerializationFeature, V8SerializeError, dumps, loads)
from v8serialize.constants import SerializationTag
from v8serialize.decode import ReadableTagStream, UnhandledTagDecodeV8SerializeError
from v8serialize.encode import (EncodeV8SerializeError, FeatureNotEnabledEncodeV8SerializeError, UnhandledValueEncodeV8SerializeError, WritableTagStream)
from v8serialize.extensions import NodeJsArrayBufferViewHostObjectHandlerDecodeError
from v8serialize.jstypes import (JSArray, JSArrayBuffer, JSDataView, JSError, JSFloat16Array, JSMap, JSObject, JSPrimitiveObject, JSRegExp, JSSet, JSUint8Array, JSUint16Array,
                                 JSFloat64Array, JSUndefined)
from v8serialize.jstypes.jsbuffers import BoundsJSArrayBufferError, ByteLengthJSArrayBufferError, ItemSizeJSArrayBufferError

QUICK, THOROUGH = 60000, 1500000
RULE = "distinct (source of the error, class, message) tuples"
MIN = {"errors": 20000, "copied errors": 20000, "pickled errors": 20000, "undecodable data": 5000, "values that cannot be written": 3000, "features not enabled": 1000, "keys that do not exist": 2000,
       "buffer errors": 2000, "expressions Python does not have": 500, "own errors": 3000, "references": 500, "errors from other processes": 10}
ASSUMPTIONS = ["errors refer to values that can be copied themselves", "tracebacks, causes and contexts are not copied with Python exceptions"]


class Odd:
    """Nothing can write one."""

    def __init__(self, x):
        self.x = x

    def __eq__(self, other):
        return type(other) is Odd and self.x == other.x

    __hash__ = None

    def __repr__(self):
        return f"Odd({self.x!r})"


class HashedOdd(Odd):
    def __hash__(self):
        return 5

    def __eq__(self, other):
        return type(other) is HashedOdd and self.x == other.x


class OwnDecode(DecodeV8SerializeError):
    def __init__(self, message, *, position, data, why):
        super().__init__(message, why, position=position, data=data)
        self.why = why


class OwnEncode(UnhandledValueEncodeV8SerializeError):
    pass


class OwnError(V8SerializeError):
    def __init__(self, first, second):
        super().__init__(f"{first} and {second}", second)
        self.second = second


class OwnJSError(JSError):
    def __init__(self, code, **kw):
        super().__init__(f"code {code}", **kw)
        self.code = code


def case(sh, rng):
    what, e, fields, bases = rng.choices([bad_data, unknown, feature, key, buffers, regexp, own, reference], [5, 4, 2, 2, 3, 0.7, 4, 1])[0](sh, rng)
    if e is None:
        return
    sh.count("errors")
    judge(sh, rng, what, e, fields, bases)


def caught(fn, types):
    try:
        fn()
    except types as e:
        return e
    raise Violation("nothing was raised")


def judge(sh, rng, what, e, fields, bases):
    t = type(e).__name__
    for b in bases:
        check(isinstance(e, b), "%s: %s is no %s", what, t, b.__name__)
    for k, v in fields.items():
        got = getattr(e, k)
        check(got is v or type(got) is type(v) and got == v, "%s: %s.%s is %s, expected %s", what, t, k, short(got), short(v))
    text = str(e)
    check(type(text) is str and text, "%s: %s has no text", what, t)
    if isinstance(e, V8SerializeError) and type(e).__name__ != "JSError" and not isinstance(e, KeyError):
        check(type(e.message) is str and e.message and e.message in text, "%s: the text of %s does not have its message: %s", what, t, short(text))
    shown = "".join(traceback.format_exception(e))
    check(t in shown, "%s: the traceback does not show %s", what, t)
    if rng.random() < 0.3:
        e.add_note("noted")
    if rng.random() < 0.3:
        e.extra = rng.choice([1, [1, 2], "x"])
    before = describe(e, fields)
    if rng.random() < 0.4:
        how, c = "copy", copy.copy(e)
        sh.count("copied errors")
    elif rng.random() < 0.4:
        how, c = "deepcopy", copy.deepcopy(e)
        sh.count("copied errors")
    else:
        p = rng.randrange(0, 6)
        how, c = f"pickle protocol {p}", pickle.loads(pickle.dumps(e, p))
        sh.count("pickled errors")
    if rng.random() < 0.2:  # a copy of the copy
        c = copy.deepcopy(c) if rng.random() < 0.5 else pickle.loads(pickle.dumps(c))
    check(type(c) is type(e) and c is not e, "%s: %s of %s is a %s", what, how, t, type(c).__name__)
    after = describe(c, fields)
    for k in before:
        check(same(before[k], after[k]), "%s: %s of %s: %s is %s, it was %s", what, how, t, k, short(after[k]), short(before[k]))
    check(describe(e, fields) == before, "%s: %s changed the %s", what, how, t)
    if not isinstance(e, JSError):
        check(c == e or type(e).__eq__ is object.__eq__, "%s: %s of %s is not equal to it", what, how, t)
    try:
        raise c
    except bases as x:
        check(x is c, "another error")
    if "extra" in before["attributes"] and isinstance(e.extra, list) and how != "copy":
        c.extra.append(3)
        check(e.extra == [1, 2], "%s: %s of %s shares its attributes", what, how, t)
    sh.nontrivial(what, t, e.args[0][:50] if e.args and isinstance(e.args[0], str) else "", how[:6])


def same(a, b):
    return type(a) is type(b) and a == b


def describe(e, fields):
    return dict(text=str(e), repr=repr(e), args=e.args, attributes=dict(vars(e)), notes=list(getattr(e, "__notes__", [])), **{"field " + k: getattr(e, k) for k in fields})


# --- sources

def bad_data(sh, rng):
    x = rng.random()
    if x < 0.3:
        data = fuzz.grammar(rng)
    else:
        w = fuzz.valid(rng)
        data = bytes(w.out)
        if x < 0.6:
            data = data[:rng.randrange(len(data))]
        else:
            data = fuzz.mutate(rng, data, w.marks, fuzz.grammar(rng))
    data = bytes(data)
    src = bytearray(data) if rng.random() < 0.3 else data
    call = rng.choice([lambda: loads(src), lambda: Decoder().decodes(src), lambda: loads(src, nodejs=False), lambda: loads(src, host_object_deserializer=nested)]
                      + ([lambda: Decoder().decode(io.BytesIO(data))] if src is data else []))
    try:
        call()
    except DecodeV8SerializeError as e:
        sh.count("undecodable data")
        check(bytes(e.data) == data and type(e.position) is int and 0 <= e.position <= len(data), "position %s, data %s of %s", e.position, short(e.data), data.hex())
        if type(src) is bytearray and rng.random() < 0.5:
            c = copy.deepcopy(e)
            check(c.data == data and c.data is not e.data, "a deep copy shares the data")
        return "undecodable data", e, {"position": e.position, "data": e.data, "message": e.args[0]}, (DecodeV8SerializeError, V8SerializeError, ValueError)
    except (RecursionError, MemoryError):
        pass
    return None, None, None, None


def place(rng, v, key=False):
    """v somewhere in a value."""
    for _ in range(rng.choice([0, 1, 1, 2, 4, 9])):
        pad = rng.choice([0, "a", None, JSUndefined, [1], b"x"])
        v = rng.choice([lambda: [v], lambda: [pad, v, pad], lambda: {"k": v}, lambda: JSObject(a=pad, b=v), lambda: JSObject({5: v}), lambda: JSArray([pad, v]), lambda: JSArray([pad], x=v),
                        lambda: JSMap([(pad, v)]), lambda: JSMap([(v, pad)]), lambda: JSSet([v]), lambda: err(v), lambda: OrderedDict(x=v), lambda: {0: pad, 1: v},
                        lambda: JSArray({900: v})])()
    return v


def err(v):
    e = JSError("x")
    e.cause = v
    return e


def unknown(sh, rng):
    bad = rng.choice([lambda: Odd(rng.randrange(9)), lambda: Odd([1]), lambda: HashedOdd(3), lambda: complex(1, 2), lambda: range, lambda: len, lambda: datetime.timedelta(3),
                      lambda: datetime.time(3, 4), lambda: (_ for _ in ()), lambda: Ellipsis, lambda: NotImplemented, lambda: Odd(10 ** 40)])()
    v = place(rng, bad)
    e = caught(lambda: dumps(v), V8SerializeError)
    sh.count("values that cannot be written")
    check(isinstance(e, UnhandledValueEncodeV8SerializeError), "writing a %s raises %s", type(bad).__name__, type(e).__name__)
    check(e.value is bad, "the error for a %s names %s", type(bad).__name__, short(e.value))
    check(repr(bad) in str(e), "the text for a %s does not show it: %s", type(bad).__name__, str(e))
    if not isinstance(bad, (Odd, complex, type, datetime.timedelta, datetime.time, type(len), type(Ellipsis), type(NotImplemented))):
        return None, None, None, None  # cannot be copied
    return "unknown value", e, {"value": bad, "message": e.args[0]}, (UnhandledValueEncodeV8SerializeError, EncodeV8SerializeError, V8SerializeError, ValueError)


def feature(sh, rng):
    need = SerializationFeature.Float16Array
    flags = SerializationFeature.MaxCompatibility
    for f in SerializationFeature:
        if f is not need and rng.random() < 0.5:
            flags |= f
    flags &= ~need
    v = JSFloat16Array(JSArrayBuffer(bytes(rng.choice([0, 2, 8]))))
    sh.count("features not enabled")
    if rng.random() < 0.5:
        w = WritableTagStream(bytearray(), features=flags)
        w.write_header()
        e = caught(lambda: w.write_js_array_buffer_view(v), V8SerializeError)
        return "feature", e, {"feature_required": need, "message": e.args[0]}, (FeatureNotEnabledEncodeV8SerializeError, EncodeV8SerializeError, V8SerializeError, ValueError)
    placed = place(rng, v)
    e = caught(lambda: dumps(placed, features=flags), V8SerializeError)
    check("Float16Array" in "".join(getattr(e, "__notes__", [])) or isinstance(e, FeatureNotEnabledEncodeV8SerializeError), "the error does not tell what is required: %s", e)
    return "feature", e, {"value": v, "message": e.args[0]} if isinstance(e, UnhandledValueEncodeV8SerializeError) else {"message": e.args[0]}, (EncodeV8SerializeError, V8SerializeError, ValueError)


def key(sh, rng):
    k = rng.choice([0, 5, -1, 2 ** 32 - 2, 2 ** 32 - 1, 2 ** 40, "", "0", "05", "x", "-1", "4294967295", 1.0, 2 ** 60, "\ud800"])
    o = rng.choice([JSObject, JSArray])(rng.choice([{}, {"other": 1}, {7: 1}, {"9": 3, "y": 2}]))
    fn = rng.choice([lambda: o[k], lambda: o.__delitem__(k), lambda: o.pop(k)])
    try:
        fn()
    except KeyError as e:
        sh.count("keys that do not exist")
        check(e.raw_key is k, "the key asked for is %r, not %r", e.raw_key, k)
        return "missing key", e, {"raw_key": k, "normalized_key": e.normalized_key}, (KeyError, LookupError)
    raise Violation(f"{o!r} has {k!r}")


def buffers(sh, rng):
    sh.count("buffer errors")
    r = rng.randrange(3)
    if r == 0:
        n, m = rng.choice([0, 5, 16]), rng.choice([0, 1, 100])
        b = JSArrayBuffer(bytes(n), max_byte_length=n + m)
        want = n + m + rng.choice([1, 7, 2 ** 33])
        e = caught(lambda: b.resize(want), ByteLengthJSArrayBufferError)
        return "resize", e, {"byte_length": want, "max_byte_length": n + m, "message": e.args[0]}, (ByteLengthJSArrayBufferError, V8SerializeError, ValueError)
    if r == 1:
        n = rng.choice([0, 8, 24])
        off = n + rng.choice([8, 80])
        cls = rng.choice([JSUint8Array, JSFloat64Array, JSDataView])
        length = rng.choice([None, 0, 8])
        e = caught(lambda: cls.from_bytes(bytes(n), byte_offset=off, byte_length=length), BoundsJSArrayBufferError)
        return "bounds", e, {"byte_offset": off, "byte_length": length, "buffer_byte_length": n, "message": e.args[0]}, (BoundsJSArrayBufferError, V8SerializeError, ValueError)
    cls, size = rng.choice([(JSUint16Array, 2), (JSFloat64Array, 8)])
    off, length = rng.choice([(1, None), (size - 1, size), (size + 1, 0), (size // 2, size), (size + size // 2, None)]) if rng.random() < 0.5 else (rng.choice([0, size, 4 * size]), rng.choice([1, size + 1, size // 2, size * 2 - 1]))
    e = caught(lambda: cls.from_bytes(bytes(64), byte_offset=off, byte_length=length), ItemSizeJSArrayBufferError)
    return "item size", e, {"itemsize": size, "byte_offset": off, "byte_length": length, "message": e.args[0]}, (ItemSizeJSArrayBufferError, V8SerializeError, ValueError)


def regexp(sh, rng):
    r = JSRegExp(rng.choice(["(", "[a", "(?<n>a)(?<n>b)", "a{2}{3}", "\\p{L}", "*", "(?<=a+)b"]), rng.choice([JSRegExpFlag.NoFlag, JSRegExpFlag.Unicode, JSRegExpFlag.Sticky, JSRegExpFlag.Linear]))
    try:
        r.as_python_pattern()
    except V8SerializeError as e:
        sh.count("expressions Python does not have")
        return "expression", e, {"message": e.args[0]}, (V8SerializeError,)
    return None, None, None, None


def own(sh, rng):
    """Errors raised by users' own steps and handlers."""
    sh.count("own errors")
    pos, data = rng.choice([0, 3, 2 ** 70]), rng.choice([b"", b"abc", bytearray(b"xy")])
    r = rng.randrange(9)
    m = rng.choice(["m", "\n", "caf\u00e9 \ud800", "x" * 200])
    if r == 0:
        e = DecodeV8SerializeError(m, *rng.choice([(), (1, "b")]), position=pos, data=data)
        return "own", e, dict(position=pos, data=data, message=m), (DecodeV8SerializeError, ValueError)
    if r == 1:
        tag = rng.choice(list(SerializationTag))
        e = UnhandledTagDecodeV8SerializeError(m, *rng.choice([(), (2,)]), tag=tag, position=pos, data=data)
        return "own", e, dict(position=pos, data=data, message=m, tag=tag), (UnhandledTagDecodeV8SerializeError, DecodeV8SerializeError, ValueError)
    if r == 2:
        v = rng.choice([Odd(1), None, [1], 2 ** 70])
        e = rng.choice([UnhandledValueEncodeV8SerializeError, OwnEncode])(m, *rng.choice([(), ("x",)]), value=v)
        return "own", e, dict(value=v, message=m), (UnhandledValueEncodeV8SerializeError, EncodeV8SerializeError, ValueError)
    if r == 3:
        f = rng.choice(list(SerializationFeature))
        e = FeatureNotEnabledEncodeV8SerializeError(m, feature_required=f)
        return "own", e, dict(feature_required=f, message=m), (FeatureNotEnabledEncodeV8SerializeError, ValueError)
    if r == 4:
        e = OwnDecode(m, position=pos, data=data, why=["w"])
        return "own", e, dict(position=pos, data=data, message=m, why=e.why), (OwnDecode, DecodeV8SerializeError, ValueError)
    if r == 5:
        e = OwnError("a", [m])
        return "own", e, dict(second=e.second, message=f"a and {[m]}"), (OwnError, V8SerializeError)
    if r == 6:
        e = NodeJsArrayBufferViewHostObjectHandlerDecodeError(m, position=pos, data=data)
        return "own", e, dict(position=pos, data=data, message=m), (NodeJsArrayBufferViewHostObjectHandlerDecodeError, DecodeV8SerializeError, ValueError)
    if r == 7:
        e = OwnJSError(rng.choice([1, "c"]), name=rng.choice(["TypeError", "Foo"]), stack=rng.choice([None, "s"]), cause=rng.choice([None, 1, [2]]))
        return "own", e, dict(code=e.code, name=e.name, stack=e.stack, cause=e.cause, message=f"code {e.code}"), (OwnJSError, JSError, V8SerializeError)
    e = V8SerializeError(m, *rng.choice([(), (1,), ([2], "x")]))
    return "own", e, dict(message=m), (V8SerializeError,)


def reference(sh, rng):
    """References that no object has."""
    sh.count("references")
    if rng.random() < 0.5:
        n = rng.choice([0, 1, 7, 2 ** 31])
        s = ReadableTagStream(b"\xff\x0fo{\x00")
        e = caught(lambda: s.objects.get_object(n), V8SerializeError)
        return "reference", e, {"serialized_id": n, "message": e.args[0]}, (V8SerializeError, KeyError)
    obj = rng.choice([[], {}, Odd(2), "abc"])
    w = WritableTagStream(bytearray())
    e = caught(lambda: w.objects.get_serialized_id(obj), V8SerializeError)
    return "reference", e, {"obj": obj, "message": e.args[0]}, (V8SerializeError, KeyError)


# --- other processes

def task(kind, arg):
    if kind == "loads":
        return loads(arg)
    if kind == "dumps":
        return dumps(arg)
    if kind == "key":
        return JSObject()[arg]
    if kind == "resize":
        return JSArrayBuffer(b"").resize(arg)
    raise JSError("remote", name="RangeError", stack="s", cause=arg)


def processes(sh):
    """Failing tasks of a pool of processes report their errors."""
    jobs = [("loads", b"\xff\x0f"), ("loads", b"\xff\x0fo\xf0"), ("loads", bytearray(b"\xff\x0f^\x05")), ("dumps", Odd(1)), ("dumps", [{"a": HashedOdd(2)}]), ("key", "k"), ("key", 4), ("resize", 9), ("raise", 4),
            ("raise", None), ("loads", b"\xff\x0fV"), ("dumps", {3: Odd([])})]
    ctx = multiprocessing.get_context("fork")
    sys.stdout.flush()
    with concurrent.futures.ProcessPoolExecutor(2, mp_context=ctx) as pool:
        for kind, arg in jobs:
            try:
                task(kind, arg)
            except Exception as e:
                local = e
            try:
                r = pool.submit(task, kind, arg).result(timeout=60)
            except Exception as e:
                check(type(e) is type(local) and str(e) == str(local), "%s(%s) in another process raises %s: %s, here %s: %s", kind, short(arg), type(e).__name__, e, type(local).__name__, local)
                sh.count("errors from other processes")
            else:
                raise Violation(f"{kind}({arg!r}) gives {r!r}")


fixed = [processes]
