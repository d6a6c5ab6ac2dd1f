"""Calls are pure, deterministic and independent, also across threads."""
import sys
import threading
import time

from harness import fuzz
from harness.core import Violation, check
from harness.graph import Compare, walk
from harness.model import Builder, from_python, to_python
from harness.util import as_flags, gen_for, observe, pick_features, same, varied, graph_of
from harness.checks.p11 import OUT_OF_RANGE, UNSUPPORTED
from v8serialize import Decoder, Encoder, TagReader, V8SerializeError, default_decode_steps, default_encode_steps, dumps, loads
from v8serialize.encode import TagWriter, serialize_object_references
from v8serialize.extensions import NodeJsArrayBufferViewHostObjectHandler, serialize_js_array_buffer_views_as_nodejs_host_object
from v8serialize.jstypes import JSArrayBuffer

QUICK, THOROUGH = 18000, 150000
RULE = "distinct (kind of scenario, operations, graph shape) triples and thread interleavings"
MIN = {"purity": 2000, "history calls": 10000, "nested calls": 1000, "thread calls": 10000, "thread switches": 2000}



def fresh_steps(rng):
    steps = [serialize_object_references, TagWriter()]
    if rng.random() < 0.2:
        steps.insert(1, serialize_js_array_buffer_views_as_nodejs_host_object)
    return steps


def case(sh, rng):
    x = rng.random()
    if x < 0.4:
        return purity(sh, rng)
    if x < 0.65:
        return history(sh, rng)
    if x < 0.85:
        return nested(sh, rng)
    return threads(sh, rng)


def snapshot_same(a, b, what):
    """Two descriptions of the same Python objects."""
    d = Compare(strict_num=True, identity=True).compare(a, b)
    if d:
        raise Violation(f"{what}: {d}")


def purity(sh, rng):
    feats = pick_features(rng)
    m = graph_of(sh, gen_for(rng, feats, **varied(rng)))
    observe(sh, m, "purity")
    py = to_python(m)
    before = from_python(py)
    flags = as_flags(feats)
    a = dumps(py, features=flags)
    snapshot_same(before, from_python(py), "dumps changed the value")
    b = dumps(py, features=flags)
    check(a == b, "serializing twice gives different bytes: %s, %s", a[:200].hex(), b[:200].hex())
    enc = Encoder(features=flags)
    c = enc.encode(py)
    check(c == a, "Encoder and dumps differ: %s, %s", a[:200].hex(), bytes(c[:200]).hex())
    c[:] = bytes(len(c))
    check(enc.encode(py) == a, "changing the returned bytearray changes later results")
    for n in walk(before):  # no buffer of a plain bytearray is still held
        if type(n.py) is bytearray and not any(v.kind == "view" for v in walk(before)):
            n.py.append(0)
            del n.py[-1:]
    v1 = loads(a)
    m1 = from_python(v1)
    v2 = loads(a)
    m2 = from_python(v2)
    snapshot_same(m1, m2, "loads twice gives different values")
    ids1 = {id(n.py) for n in walk(m1) if not immutable(n)}
    for n in walk(m2):
        check(id(n.py) not in ids1, "two results of loads share a %s", n.kind)
    for n in walk(before):
        check(id(n.py) not in ids1, "a result of loads shares a %s with the serialized value", n.kind)
    d = dumps(v1, features=flags)
    again = from_python(loads(d))
    # a boxed BigInt is read as an int, which is written as a number
    r = Compare(strict_num=False, identity=True, date="us", null_message=True).compare(m1, again)
    if r:
        raise Violation(f"serializing a deserialized value again changes it: {r}: {a[:300].hex()}, {d[:300].hex()}")
    snapshot_same(m1, from_python(v1), "dumps changed the deserialized value")


def immutable(n):
    return n.kind in ("date", "regexp", "sbuf", "tbuf", "shared", "prim") or type(n.py) in (bytes, tuple, frozenset)


def calls(rng, k):
    """Independent (function, expected outcome) pairs over values of their own."""
    out = []
    for _ in range(k):
        feats = set() if rng.random() < 0.5 else pick_features(rng)
        m = gen_for(rng, feats, float16=False, error_cycles=False, budget=rng.choice([1, 3, 6, 12]), share=0.4).graph()
        x = rng.random()
        if x < 0.15:
            make = rng.choice(UNSUPPORTED + OUT_OF_RANGE)
            py = [to_python(m), make(), 1]
            out.append(("bad", py, None))
        elif x < 0.55:
            py = to_python(m)
            out.append(("dump", py, dumps(py)))
        else:
            data = dumps(to_python(m))
            if rng.random() < 0.25:
                data = fuzz.mutate(rng, data, [], b"")
            out.append(("load", data, outcome(lambda: loads(data))))
    return out


def outcome(fn):
    try:
        v = fn()
    except V8SerializeError as e:
        return ("error", type(e).__name__, str(e))
    except RecursionError:
        return ("recursion",)
    return ("value", from_python(v))


def perform(call, enc, dec):
    """None or what is wrong."""
    kind, arg, want = call
    if kind == "bad":
        try:
            enc.encode(arg)
        except V8SerializeError:
            return None
        return "an unserializable value was serialized"
    if kind == "dump":
        got = enc.encode(arg)
        return None if got == want else f"encode gives {bytes(got[:200]).hex()} instead of {want[:200].hex()}"
    got = outcome(lambda: dec.decodes(arg))
    if got[0] != want[0]:
        return f"decode of {arg[:200].hex()} gives {got} instead of {want}"
    if got[0] == "value":
        d = Compare().compare(want[1], got[1])
        return d and f"decode of {arg[:200].hex()}: {d}"
    return None if got == want else f"decode of {arg[:200].hex()} gives {got} instead of {want}"


def shared(rng, step=None):
    steps = [serialize_object_references, TagWriter()]
    if step:
        steps.insert(rng.randint(0, 2), step)
    given = rng.choice([list, tuple, iter])(steps)
    enc = Encoder(encode_steps=given if rng.random() < 0.7 or step else default_encode_steps)
    dec = Decoder(decode_steps=[TagReader(host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler())])
    return enc, dec


def history(sh, rng):
    """Any order and repetition of calls on one encoder and one decoder."""
    cs = calls(rng, rng.randint(2, 6))
    enc, dec = shared(rng)
    order = [rng.randrange(len(cs)) for _ in range(rng.randint(5, 20))]
    sh.nontrivial("history", [cs[i][0] for i in order])
    for i in order:
        sh.count("history calls")
        r = perform(cs[i], enc, dec)
        if r:
            raise Violation(f"after {order}: call {i}: {r}")


def nested(sh, rng):
    """Calls made from inside a call on the same encoder or decoder."""
    cs = calls(rng, 3)
    problems = []
    budget = [rng.randint(1, 5)]

    def reenter():
        if budget[0] > 0 and rng.random() < 0.4:
            budget[0] -= 1
            sh.count("nested calls")
            r = perform(rng.choice(cs), enc, dec)
            if r:
                problems.append(r)

    def step(value, /, ctx, next):
        reenter()
        next(value)
        reenter()

    def dstep(tag, /, ctx, next):
        reenter()
        r = next(tag)
        reenter()
        return r

    enc, _ = shared(rng, step)
    dec = Decoder(decode_steps=[dstep, TagReader(host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler())])
    for c in cs:
        r = perform(c, enc, dec)
        check(not r, "with calls in between: %s", r)
        check(not problems, "called from inside a call: %s", problems)
    sh.nontrivial("nested", [c[0] for c in cs], budget[0])


def threads(sh, rng):
    """The same calls from several threads at once, switching as often as possible."""
    n = rng.choice([2, 3, 4])
    sets = [calls(rng, 3) for _ in range(n)]
    common = calls(rng, 2)
    log = []
    delays = [rng.random() < 0.15 for _ in range(64)]

    def step(value, /, ctx, next):
        log.append(threading.get_ident())
        if delays[len(log) % 64]:
            time.sleep(0)
        next(value)

    def dstep(tag, /, ctx, next):
        log.append(threading.get_ident())
        if delays[len(log) % 64]:
            time.sleep(0)
        return next(tag)

    enc, dec = shared(rng, step)
    dec = Decoder(decode_steps=[dstep, *dec.decode_steps])
    plan = [[rng.choice(s + common) for _ in range(8)] for s in sets]
    problems = []
    start = threading.Barrier(n)

    def run(p):
        try:
            start.wait(20)
            for c in p:
                r = perform(c, enc, dec)
                if r:
                    problems.append(r)
        except BaseException as e:
            problems.append(f"unexpected {e!r}")

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=run, args=(p,), daemon=True) for p in plan]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
            check(not t.is_alive(), "a thread does not end")
    finally:
        sys.setswitchinterval(old)
    sh.count("thread calls", 8 * n)
    switches = sum(a != b for a, b in zip(log, log[1:]))
    sh.count("thread switches", switches)
    idx = {}
    sh.nontrivial("interleaving", [idx.setdefault(t, len(idx)) for t in log][:2000])
    check(not problems, "with %d threads: %s", n, problems[:2])


def defaults(sh):
    """The default steps are not changed by use."""
    a, b = repr(default_encode_steps), repr(default_decode_steps)
    for _ in range(3):
        loads(dumps([JSArrayBuffer(b"x"), {"a": {1}}, None]))
    check((a, b) == (repr(default_encode_steps), repr(default_decode_steps)), "default steps changed")


fixed = [defaults]
