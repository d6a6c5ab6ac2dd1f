"""Property keys follow JavaScript's rules for numbers and text."""
import math
import struct

from harness.core import Violation, check, expect_raises
from harness.graph import canonical_key, js_number_text
from harness.wire import Writer
from v8serialize import default_encode_steps, dumps, loads
from v8serialize.jstypes import JSArray, JSHole, JSObject

QUICK, THOROUGH = 320000, 4000000
RULE = "distinct canonical key sets with the forms they were given in"
MIN = {"key forms": 100000, "equivalent pairs": 50000, "different pairs": 50000, "histories": 2500, "histories in V8": 500,
       "keys in streams": 20000, "keys written by a step": 20000, "number spellings checked by V8": 3000}
ASSUMPTIONS = ["V8 12.4 as embedded in Node.js 22 stands for JavaScript", "integers beyond 2**53 are BigInts"]

MAX = 2**32 - 2
EDGES = [0, 1, 2, 3, 7, 9, 10, 11, 15, 16, 17, 19, 99, 100, 101, 255, 999, 1000, 2**16, 2**30 - 1, 2**30, 2**31 - 2, 2**31 - 1, 2**31,
         2**31 + 1, 999999999, 1000000000, 4294967290, MAX - 1, MAX, MAX + 1, MAX + 2, MAX + 3, 2**33, 9999999999, 10**10,
         10**15, 2**53 - 1]


def spelled_alike(x):
    """Whether Python spells the float as JavaScript does (else: known finding float-keys)."""
    if x != x or math.isinf(x):
        return False
    return js_number_text(x) == pinned(x)


def pinned(x):
    return str(int(x)) if math.isfinite(x) and x.is_integer() else str(x)


def number_key(rng):
    n = rng.choice(EDGES) if rng.random() < 0.5 else rng.choice([
        lambda: rng.randint(0, 40), lambda: rng.randint(0, 2**32 + 10), lambda: rng.randint(2**32 - 6, 2**32 + 3),
        lambda: rng.randint(0, 2**53 - 1), lambda: int("9" * rng.randint(1, 15)), lambda: 10 ** rng.randint(0, 15)])()
    return -n if rng.random() < 0.15 else n


def frac(rng):
    while True:
        x = rng.choice([lambda: rng.randint(-50, 50) / 4, lambda: rng.random() * 100, lambda: rng.uniform(-1e9, 1e9),
                        lambda: number_key(rng) + 0.5, lambda: float(rng.randint(-9, 9)), lambda: -0.0,
                        lambda: rng.randint(0, 20) + 1e-9, lambda: 2**31 + 0.25, lambda: 4294967294.5, lambda: 0.5 ** rng.randint(1, 13),
                        lambda: math.nextafter(rng.randint(0, 2**32), rng.choice([-math.inf, math.inf]))])()
        if spelled_alike(x):
            return x


WORDS = ["", "a", "length", "__proto__", "constructor", "0x1", "1e3", "1e+21", "NaN", "Infinity", "-0", "+1", "-1", "1.0", "1.", ".5",
         "01", "00", "000", "1 ", " 1", "\t1", "1\n", "1_000", "١", "１", "²", "४", "1١", "0b1", "1n", "4294967295", "4294967294",
         "04294967294", "42949672940", "true", "null", "undefined", "\0", "1\0", "é", "𝟙", "-4294967294", "9" * 30, "1" * 400, "0" * 50]


def text_key(rng):
    r = rng.random()
    if r < 0.4:
        return rng.choice(WORDS)
    if r < 0.8:
        s = str(number_key(rng))
        k = rng.randrange(9)
        if k == 0:
            return "0" + s
        if k == 1:
            return s + rng.choice([".0", ".", "e0", "n", " ", "\0", "L", "_"])
        if k == 2:
            return rng.choice(["+", "-", " ", "0x", "\u200b", "\ufeff"]) + s
        if k == 3 and s:
            i = rng.randrange(len(s))
            return s[:i] + rng.choice("٠１²_ .,") + s[i + 1:]
        if k == 4:
            return s.translate({ord(c): 0x660 + int(c) for c in "0123456789"})
        return s
    return "".join(rng.choice("0123456789.-+e aInf") for _ in range(rng.randint(0, 6)))


def key(rng):
    r = rng.random()
    return number_key(rng) if r < 0.4 else text_key(rng) if r < 0.8 else frac(rng)


class IntSub(int):
    pass


class StrSub(str):
    pass


class FloatSub(float):
    pass


def forms_of(name):
    """All ways to give the key with the canonical name."""
    if isinstance(name, int):
        return [name, str(name), float(name)] + ([-0.0] if name == 0 else [])
    out = [name]
    for f in (int, float):
        try:
            v = f(name)
        except (ValueError, OverflowError):
            continue
        if (f is int and str(v) == name) or (f is float and spelled_alike(v) and js_number_text(v) == name):
            out.append(v)
    return out


def any_form(rng, name):
    k = rng.choice(forms_of(name))
    if rng.random() < 0.1:
        t = type(k)
        k = {int: IntSub, str: StrSub, float: FloatSub}[t](k)
    return k


def show(k):
    return f"{type(k).__name__} {k!r}"[:80]


def case(sh, rng):
    rng.choices([single, history, streams, v8_keys, written], [4, 4, 2, 0.5, 1])[0](sh, rng)


def make(rng):
    return rng.choice([JSObject, JSArray])


def plain_key(k):
    return type(k) in (int, str)


def single(sh, rng):
    """One key and one other, in every operation."""
    a = key(rng)
    name = canonical_key(a)
    cls = make(rng)
    v = object()
    forms = forms_of(name)
    check(any(type(f) is type(a) and f == a for f in forms) or isinstance(a, int) and a in forms, "harness: %r not in %r", a, forms)
    for f in forms + [a]:
        sh.count("key forms")
        for how in range(6):
            if how == 0:
                o = cls()
                o[f] = v
            elif how == 1:
                o = cls({f: v})
            elif how == 2:
                o = JSObject(iter([(f, v)])) if cls is JSObject else cls({f: v})
            elif how == 3:
                o = cls()
                check(o.setdefault(f, v) is v, "setdefault")
            elif how == 4:
                o = cls()
                o.update({f: v})
            elif isinstance(f, str):
                o = cls(**{f: v})
            else:
                o = cls()
                o.update([(f, v)])
            got = list(o)
            check(got == [name] and isinstance(got[0], str) == isinstance(name, str), "key %s is named %s, JavaScript names it %s", show(f), [show(x) for x in got], show(name))
            check(len(o) == 1, "one property")
            if isinstance(name, int):
                check(len(o.array) == name + 1 and o.array[name] is v and not o.properties, "the integer key %s is not an array element", show(f))
            else:
                check(len(o.array) == 0 and dict(o.properties) == {name: v}, "the text key %s is not a named property", show(f))
    for g in forms:
        sh.count("equivalent pairs", len(forms))
        check(o[g] is v and g in o and o.get(g) is v and g in o.keys(), "%s does not find the property %s", show(g), show(a))
        check(o.setdefault(g, 5) is v, "setdefault %s after %s", show(g), show(a))
    # others are other properties
    for b in near(rng, name) + [key(rng)]:
        if canonical_key(b) == name:
            continue
        sh.count("different pairs")
        check(b not in o, "%s is found when only %s is set", show(b), show(a))
        check(o.get(b, 7) == 7, "get %s", show(b))
        for fn in (lambda: o[b], lambda: o.__delitem__(b), lambda: o.pop(b)):
            expect_raises(KeyError, fn, f"{show(b)} with only {show(a)} set")
        check(list(o) == [name], "the property is gone after operations on another")
        q = cls({a: 1, b: 2}) if a != b else None
        if q is not None:
            check(len(q) == 2 and q[a] == 1 and q[b] == 2, "%s and %s are one property", show(a), show(b))
    g = rng.choice(forms)
    if rng.random() < 0.5:
        check(o.pop(g) is v, "pop")
    else:
        del o[g]
    check(len(o) == 0 and list(o) == [] and all(f not in o for f in forms), "%s is left after deleting %s", show(a), show(g))
    sh.nontrivial("single", show(name) if isinstance(name, str) else name, type(a).__name__)


def near(rng, name):
    s = str(name)
    out = [s + ".0", "0" + s, s + " ", " " + s, "+" + s, "-" + s, s + "n", s + "0", "1" + s]
    if isinstance(name, int):
        out += [name + 0.5, name + 1, name - 1, -name, name + 2**32, str(name + 2**32), float(name + 2**32), name - 2**32,
                s.translate({ord(c): 0x660 + int(c) for c in "0123456789"})]
    return [k for k in rng.sample(out, 4) if not isinstance(k, float) or spelled_alike(k)]


def model_list(d):
    return [k for k in sorted(x for x in d if isinstance(x, int))] + [k for k in d if isinstance(k, str)]


def history(sh, rng):
    """Operations with keys in any form against a dictionary by canonical name (and V8)."""
    pool = list({canonical_key(key(rng)) for _ in range(rng.randint(2, 12))})
    pool += [canonical_key(k) for n in pool[:3] for k in near(rng, n)]
    ctor = rng.random()
    cls = make(rng)
    init = [(any_form(rng, rng.choice(pool)), i) for i in range(rng.randint(0, 4))] if ctor < 0.5 else []
    o = cls(dict(init)) if cls is JSArray else cls(init)
    d = {}
    js = []

    def put(k, v):
        d[canonical_key(k)] = v
        js.append(["set", enc(k), v])

    for k, v in (dict(init).items() if cls is JSArray else init):
        put(k, v)
    for i in range(rng.randint(1, 25)):
        name = rng.choice(pool)
        k = any_form(rng, name)
        op = rng.choice(["set", "set", "set", "del", "get", "in", "pop", "setdefault", "update", "popdef"])
        if op == "set":
            o[k] = 100 + i
            put(k, 100 + i)
        elif op == "update":
            ks = [any_form(rng, rng.choice(pool)) for _ in range(3)]
            pairs = [(x, 200 + i) for x in ks]
            o.update(pairs if rng.random() < 0.5 else iter(pairs))
            for x, v in pairs:
                put(x, v)
        elif op in ("del", "pop", "popdef"):
            fn = {"del": lambda: o.__delitem__(k), "pop": lambda: o.pop(k), "popdef": lambda: o.pop(k, "none")}[op]
            if name in d:
                r = fn()
                check(op == "del" or r == d[name], "pop %s", show(k))
                del d[name]
                js.append(["del", enc(k)])
            elif op == "popdef":
                check(fn() == "none", "pop default")
            else:
                expect_raises(KeyError, fn, f"{op} {show(k)}")
        elif op == "get":
            check(o.get(k, "none") == d.get(name, "none"), "get %s", show(k))
        elif op == "in":
            check((k in o) == (name in d), "in %s", show(k))
        else:
            r = o.setdefault(k, 300 + i)
            if name not in d:
                put(k, 300 + i)
            check(r == d[name], "setdefault %s", show(k))
    want = model_list(d)
    got = list(o)
    check(got == want and all(isinstance(x, str) == isinstance(y, str) for x, y in zip(got, want)), "keys %s, expected %s", got, want)
    check(list(o.items()) == [(k, d[k]) for k in want], "items %s", list(o.items()))
    check(len(o) == len(d), "len")
    sh.count("histories")
    sh.nontrivial("history", tuple(map(str, want)))
    if rng.random() < 0.25:
        r = sh.node.eval(JS_HISTORY, js)
        check([(k, v) for k, v in r] == [(str(k), d[k]) for k in want], "JavaScript has %s, we have %s after %s", r, want, js)
        sh.count("histories in V8")


def enc(k):
    if isinstance(k, float):
        return ["f", struct.pack(">d", k).hex()]
    if isinstance(k, int):
        return ["i", str(int(k))]
    return ["s", str(k)]


JS_HISTORY = """(ops) => {
  const o = Object.create(null);
  const dec = ([t, v]) => t === 's' ? v : t === 'f' ? Buffer.from(v, 'hex').readDoubleBE(0) : Number.isSafeInteger(Number(v)) ? Number(v) : BigInt(v);
  for (const [op, k, v] of ops) { if (op === 'set') o[dec(k)] = v; else delete o[dec(k)]; }
  return Object.entries(o);
}"""


def streams(sh, rng):
    """Keys in serialized data, as each kind of text and number."""
    w = Writer(rng, vary=1.0, text_index=False)
    w.header()
    cls = rng.choice("oaA")
    keys = [key(rng) for _ in range(rng.randint(1, 12))]
    d = {}
    w.out.append(ord(cls))
    length = 2**32 - 1
    if cls == "a":
        w.varint(length)
    elif cls == "A":
        length = 3
        w.varint(length)
        w.out += b"---"
    n = 0
    for i, k in enumerate(keys):
        name = canonical_key(k)
        if cls != "o" and (isinstance(name, int) and name >= length or name == "length"):
            continue
        k = any_form(rng, name)
        if isinstance(k, float) or isinstance(k, int) and not -(2**31) <= k < 2**32:
            if isinstance(k, int) and abs(k) > 2**53:
                k = name
                w.string(k)
            else:
                w.tag("N")
                w.out += struct.pack("<d", k)
        elif isinstance(k, int):
            w.number(("num", float(k), "int"))
        else:
            w.string(str(k))
        w.number(("num", float(i), "int"))
        d[name] = i
        n += 1
    w.tag({"o": "{", "a": "@", "A": "$"}[cls])
    w.varint(n)
    if cls != "o":
        w.varint(length)
    o = loads(bytes(w.out))
    want = model_list(d)
    got = list(o)
    check(got == want and all(isinstance(x, str) == isinstance(y, str) for x, y in zip(got, want)), "keys %s, expected %s; %s", got, want, bytes(w.out).hex())
    check([o[k] for k in want] == [d[k] for k in want], "values")
    if cls != "o":
        check(len(o.array) == length, "array length %d", len(o.array))
    sh.count("keys in streams", n)
    sh.nontrivial("stream", tuple(map(str, want)))
    if rng.random() < 0.1 and cls == "o":
        data = bytes(dumps(o))
        r = sh.node.eval("(h) => Object.entries(require('v8').deserialize(Buffer.from(h, 'hex')))", data.hex())
        check([(k, v) for k, v in r] == [(str(k), d[k]) for k in want], "JavaScript reads keys %s from %s", r, want)


class Pairs:
    def __init__(self, pairs):
        self.pairs = pairs


def pairs_step(value, /, ctx, next):
    if isinstance(value, Pairs):
        return ctx.stream.write_js_object(iter(value.pairs), ctx, identity=value)
    return next(value)


def written(sh, rng):
    """Keys in any form that a step writes as the properties of an object."""
    d = {}
    pairs = []
    for i in range(rng.randint(1, 8)):
        k = key(rng)
        if rng.random() < 0.2:
            k = rng.choice([-1, 1]) * rng.choice([2**53, 2**53 + 1, 2**64 - 1, 2**64, 10**21, 10**25 + 1, rng.getrandbits(200)])
        name = canonical_key(k)
        if name in d or name == "__proto__":
            continue
        if abs(k) < 2**53 if isinstance(k, (int, float)) else rng.random() < 0.5:
            k = any_form(rng, name)
            if isinstance(k, int) and rng.random() < 0.3:
                k = IntSub(k)
        d[name] = i
        pairs.append((k, i))
    data = bytes(dumps(Pairs(pairs), encode_steps=[pairs_step, *default_encode_steps]))
    o = loads(data)
    want = model_list(d)
    what = [show(k) for k, _ in pairs]
    check(list(o) == want and all(isinstance(x, str) == isinstance(y, str) for x, y in zip(o, want)), "keys %s written, %s read, expected %s", what, list(o), want)
    check([o[k] for k in want] == [d[k] for k in want], "values")
    sh.count("keys written by a step", len(want))
    sh.nontrivial("written", tuple(map(str, want)))
    if rng.random() < 0.05:
        r = sh.node.eval("(h) => Object.entries(require('v8').deserialize(Buffer.from(h, 'hex')))", data.hex())
        check([(k, v) for k, v in r] == [(str(k), d[k]) for k in want], "keys %s: JavaScript reads %s", what, r)


def v8_keys(sh, rng):
    """Keys V8 writes."""
    keys = [key(rng) for _ in range(rng.randint(1, 20))]
    ops = [["set", enc(k), i] for i, k in enumerate(keys)]
    d = {}
    for i, k in enumerate(keys):
        d[canonical_key(k)] = i
    d.pop("__proto__", None)
    ops = [op for op in ops if op[1] != ["s", "__proto__"]]
    h = sh.node.eval(JS_HISTORY.replace("Object.create(null)", "{}").replace("return Object.entries(o)", "return require('v8').serialize(o).toString('hex')"), ops)
    o = loads(bytes.fromhex(h))
    want = model_list(d)
    check(list(o) == want and all(isinstance(x, str) == isinstance(y, str) for x, y in zip(o, want)), "V8 wrote keys %s, read %s", want, list(o))
    check([o[k] for k in want] == [d[k] for k in want], "values")
    sh.count("keys written by V8", len(want))


def setup(sh):
    pass


def spelling(sh):
    """The specification of number spelling used here is V8's."""
    import random

    rng = random.Random(str(sh.seed))
    xs = [struct.unpack(">d", rng.randbytes(8))[0] for _ in range(2000)]
    xs += [rng.uniform(-1, 1) * 10.0 ** rng.randint(-25, 25) for _ in range(1000)] + [float(e) for e in EDGES] + [frac(rng) for _ in range(1000)]
    xs += [10.0**e for e in range(-30, 30)] + [0.0, -0.0, math.inf, -math.inf, math.nan]
    r = sh.node.eval("(hs) => hs.map(h => Object.keys({[Buffer.from(h, 'hex').readDoubleBE(0)]: 1})[0])", [struct.pack(">d", x).hex() for x in xs])
    for x, s in zip(xs, r):
        if js_number_text(x) != s:
            raise Violation(f"harness: {x!r} is {s} in V8, {js_number_text(x)} here")
        sh.count("number spellings checked by V8")


def known_region(sh):
    """Floats that Python spells otherwise: JavaScript's text or the recorded one, nothing else."""
    import random

    rng = random.Random(f'{sh.seed}/region')
    xs = [math.inf, -math.inf, math.nan, 1e21, 1e22, -1e21, 1e-7, 1.5e-10, 1e300, 5e-324, 1e16 + 2, 2.0**64, 2.0**53 + 2, 1e-5, 0.00001234]
    xs += [struct.unpack(">d", rng.randbytes(8))[0] for _ in range(300)]
    for x in xs:
        if spelled_alike(x):
            continue
        js = js_number_text(x)
        o = JSObject()
        o[x] = 1
        k, = list(o)
        check(k in (js, pinned(x)), "float key %r is spelled %r, neither as JavaScript (%r) nor as recorded (%r)", x, k, js, pinned(x))
        check(o[x] == 1 and x in o and len(o.array) == 0, "float key %r", x)
        del o[x]
        check(not o, "float key %r", x)
        sh.count("floats Python spells otherwise")


def holes(sh):
    """Assigning a hole is deleting, in every form of the key."""
    for name in [0, 3, 17, MAX, "a", "-1", "4294967295"]:
        for f in forms_of(name):
            for g in forms_of(name):
                o = JSObject()
                o[f] = 1
                o[g] = JSHole
                check(list(o) == [] and f not in o, "hole at %s", show(g))


fixed = [spelling, known_region, holes]


def probe_float_keys(sh):
    return list(JSObject({1e21: 1})) != ["1e+21"]


probes = {"float-keys": probe_float_keys}
