"""Same-value-zero as stated by ECMAScript, and a pool of keys that tests it."""
import datetime
import enum
import fractions
import math
import struct

from v8serialize.jstypes import JSHole, JSMap, JSObject, JSSet, JSUndefined


class StrSub(str):
    pass


class IntSub(int):
    pass


class FloatSub(float):
    pass


class Colour(enum.IntEnum):
    one = 1
    zero = 0


class Name(str, enum.Enum):
    a = "a"


class AlwaysEqual:
    def __eq__(self, o):
        return True

    def __hash__(self):
        return 1

    def __repr__(self):
        return f"AlwaysEqual@{id(self):x}"


class Refuses:
    """Neither comparable nor hashable."""

    def __eq__(self, o):
        raise RuntimeError("compared")

    def __hash__(self):
        raise RuntimeError("hashed")

    def __repr__(self):
        return f"Refuses@{id(self):x}"


class NeverEqual:
    def __eq__(self, o):
        return False

    __hash__ = None


def ref(v):
    """Values are the same under same-value-zero when this is equal (while both are alive)."""
    if v is True or v is False:
        return ("b", v is True)
    if isinstance(v, (int, float)):
        if isinstance(v, float):
            if math.isnan(v):
                return ("nan",)
            if math.isinf(v):
                return ("inf", v > 0)
        return ("n", fractions.Fraction(v))
    if isinstance(v, str):
        return ("s", "".join(v))
    if isinstance(v, bytes):
        return ("y", tuple(v))
    if v is None or v is JSUndefined:
        return ("k", repr(v))
    return ("o", id(v))


NUMBERS = [0, 0.0, -0.0, 1, 1.0, -1, -1.0, 2, 2.0, 0.5, 2**31, float(2**31), 2**53, float(2**53), 2**53 + 1, 2**53 + 2.0, 10**400, -(10**400), 10**22, 1e22,
           10**22 + 1, math.inf, -math.inf, math.nan, float("nan"), math.inf - math.inf, -math.nan, 5e-324, True, False, IntSub(1), FloatSub(0.5), Colour.one, Colour.zero, FloatSub("nan")]
TEXTS = ["", "a", "1", "0", "nan", "NaN", "True", "undefined", "a\0", "é", "e\u0301", "\ud800", "𝒳", "ab", StrSub("a"), StrSub("ab"), Name.a, b"", b"a", b"1", b"\xe9"]
CONSTS = [None, JSUndefined]


def fresh(rng):
    """A new object, equal to many others in Python."""
    return rng.choice([
        lambda: [], lambda: {}, lambda: [1], lambda: bytearray(), lambda: bytearray(b"a"), lambda: JSObject(), lambda: JSMap(), lambda: JSSet(),
        lambda: JSObject(a=1), lambda: tuple([0]), lambda: frozenset([rng.randrange(2)]), lambda: fractions.Fraction(1), lambda: complex(1, 0), lambda: complex(0),
        lambda: datetime.datetime(2020, 1, 1), AlwaysEqual, AlwaysEqual, Refuses, Refuses, NeverEqual, object, lambda: range(3), lambda: memoryview(b"a"), lambda: float,
        lambda: set(), lambda: (lambda: 1)])()


def again(rng, v):
    """Another spelling of the same value if there is one."""
    if type(v) is str and v:
        return rng.choice([lambda: "".join([v[:1], v[1:]]), lambda: StrSub(v)])()
    if type(v) is bytes:
        return bytes(bytearray(v))
    if isinstance(v, bool):
        return v
    if isinstance(v, float):
        if math.isnan(v):
            return float("nan")
        return int(v) if v.is_integer() and rng.random() < 0.7 else float(v)
    if isinstance(v, int):
        try:
            if float(v) == v:
                return float(v)
        except OverflowError:
            pass
        return IntSub(v)
    return v


def many(rng, keys, n):
    """A number of items to use: up to n, or as many as there are keys when these are numerous."""
    return rng.randint(0, len(keys)) if len(keys) > 60 else rng.randint(0, n)


def bulk(rng):
    """Many distinct keys."""
    n = rng.choice([40, 70, 128, 200, 300, 1100])
    kinds = rng.sample([lambda i: i + 10, lambda i: i + 0.25, lambda i: f"k{i}", lambda i: f"{i}", lambda i: b"%d" % i, lambda i: (i,), lambda i: [i],
                        lambda i: [], lambda i: -(2**40) - i, lambda i: JSObject()], rng.randint(1, 4))
    return [kinds[rng.randrange(len(kinds))](i) for i in range(n)]


def pool(rng, p=0.0):
    """Keys for one case: values, spellings of them, and objects that look alike."""
    out = [rng.choice(NUMBERS) for _ in range(rng.randint(0, 6))] + [rng.choice(TEXTS) for _ in range(rng.randint(0, 4))]
    out += [rng.choice(CONSTS) for _ in range(rng.randint(0, 2))] + [JSHole] * (rng.random() < 0.1)
    out += [again(rng, v) for v in out if rng.random() < 0.6]
    objs = [fresh(rng) for _ in range(rng.randint(0, 4))]
    kinds = [rng.choice([lambda: [7], lambda: tuple([7]), lambda: JSObject(z=1), AlwaysEqual])]
    objs += [k() for k in kinds for _ in range(rng.randint(0, 3))]
    out += objs
    if rng.random() < p:
        out += bulk(rng)
    rng.shuffle(out)
    return out or [0]


def describe(v):
    try:
        return f"{type(v).__name__} {v!r}"[:60]
    except Exception:
        return f"{type(v).__name__}@{id(v):x}"


def js_key(v, ids):
    """The key as data for V8, or None when JavaScript has no such key."""
    if v is True or v is False:
        return ["b", v]
    if isinstance(v, float):
        return ["d", struct.pack(">d", v).hex()]
    if isinstance(v, int):
        return ["d", struct.pack(">d", v).hex()] if abs(v) <= 2**53 else None
    if isinstance(v, str):
        return ["s", [ord(c) for c in v]]
    if isinstance(v, bytes):
        return None
    if v is None:
        return ["null", 0]
    if v is JSUndefined:
        return ["undef", 0]
    return ["o", ids.setdefault(id(v), len(ids))]


JS_KEY = """
const objs = [];
const key = ([t, v]) => {
  switch (t) {
    case 'b': return v;
    case 'd': return Buffer.from(v, 'hex').readDoubleBE(0);
    case 's': return String.fromCodePoint(...v);
    case 'null': return null;
    case 'undef': return undefined;
    case 'o': return objs[v] ??= {o: v};
  }
};
const name = (v) => v === null ? 'null' : typeof v === 'object' ? 'o' + v.o : typeof v + ':' + (typeof v === 'string' ? [...v].map(c => c.codePointAt(0)).join() : String(v));
"""


def js_name(v, ids):
    """The name the code above gives to the key."""
    if v is True or v is False:
        return "boolean:true" if v else "boolean:false"
    if isinstance(v, (int, float)):
        from harness.graph import js_number_text

        return "number:" + js_number_text(float(v))
    if isinstance(v, str):
        return "string:" + ",".join(str(ord(c)) for c in v)
    if v is None:
        return "null"
    if v is JSUndefined:
        return "undefined:undefined"
    return f"o{ids[id(v)]}"
