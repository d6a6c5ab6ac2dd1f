"""Printing values: terminates, stays in its limits, evaluates back, restores settings."""
import array
import collections
import collections.abc
import datetime
import re
import struct
import sys
import threading
import types
import warnings
import zoneinfo

from harness import model
from harness.core import Violation, check, short
from harness.graph import walk
from harness.model import Builder, Gen
from v8serialize import jstypes
from v8serialize.constants import JSErrorName, JSRegExpFlag, SerializationTag
from v8serialize.jstypes import (
    JSArray, JSArrayBuffer, JSError, JSErrorData, JSHole, JSMap, JSObject, JSPrimitiveObject, JSRegExp, JSRepr, JSReprSettingsNotRestored,
    JSSet, JSUndefined, default_js_repr, js_repr_settings,
)

QUICK, THOROUGH = 120000, 3000000
RULE = "distinct (aspect, container kinds, limit hit or settings program shape) tuples"
MIN = {"cyclic values printed": 2700, "deep values printed": 500, "large values printed": 230, "markers hidden by depth": 19000, "markers hidden by length": 17000, "markers shown": 10000,
       "evaluated back": 3300, "evaluated back indented": 6600, "settings blocks": 15000, "closed out of order": 450, "left by an exception": 3100,
       "interrupted prints": 3700, "prints in parallel": 1400, "buffers cut": 180, "values left out": 1000, "empty values at the limit": 60, "values with a text of their own": 600}
ASSUMPTIONS = ["objects printed are not changed while they are printed", "the size of the text of values whose parts are shared is only bounded by the limits' product"]
HUGE = 10 ** 6


def setup(sh):
    sys.set_int_max_str_digits(4300)  # as users have it


def case(sh, rng):
    rng.choices([cyclic, deep, large, limits, leaves, back, settings, interrupted, parallel, nothing, own], [3, 0.6, 0.3, 5, 2, 12, 5, 4, 0.6, 1, 0.5])[0](sh, rng)


def fresh(fn):
    """With the default settings, restored whatever fn does."""
    def wrapped(sh, rng):
        with js_repr_settings(default_js_repr, force_restore=True):
            return fn(sh, rng)
    wrapped.__name__ = fn.__name__
    return wrapped


def text_of(rng, v):
    """The text of v, from any of the ways to ask for it."""
    r = rng.randrange(4)
    if r == 0:
        return repr(v)
    if r == 1:
        return f"{v!r}"
    if r == 2 and not isinstance(v, (str, re.Pattern, datetime.datetime)):
        return "%r" % (v,)
    return ascii_free(v)


def ascii_free(v):
    return v.__repr__()


# --- any value

@fresh
def cyclic(sh, rng):
    limit = rng.choice([None, 2, 3, 5, 8])
    kinds = None
    g = Gen(rng, budget=rng.choice([4, 8, 14, 20]), depth=rng.choice([3, 6, 10]), share=rng.choice([0.1, 0.25, 0.4]), cycles=True, kinds=kinds)
    m = g.graph()
    if paths(m, 20) > 30000:
        return
    py = Builder().build(m)
    with js_repr_settings(maxlevel=limit, indent=rng.choice([None, None, 1, 2, 4])):
        t = text_of(rng, py)
        check(type(t) is str, "repr is %s", short(t))
        sub = [x for x in (py if isinstance(py, (list, tuple)) else py.values() if isinstance(py, (dict, JSObject, JSMap)) else ())]
        for x in sub[:3]:
            text_of(rng, x)
        check(text_of(rng, py) == t or isinstance(py, (set, frozenset)), "printing again gives another text: %s / %s", short(t), short(repr(py)))
    sh.count("cyclic values printed")
    sh.nontrivial("cyclic", type(py).__name__, limit, t.count("..."))


def paths(root, depth):
    """Number of paths of at most depth edges without repeated nodes (capped)."""
    count = 0
    stack = [(root, frozenset(), 0)]
    while stack and count < 40000:
        n, seen, d = stack.pop()
        count += 1
        if not model.is_node(n) or d >= depth or id(n) in seen:
            continue
        seen = seen | {id(n)}
        for x in children(n):
            stack.append((x, seen, d + 1))
    return count


def children(n):
    k = n.kind
    if k == "obj":
        return [x for _, x in n.props]
    if k == "arr":
        return list(n.elems.values()) + [x for _, x in n.props]
    if k == "map":
        return [y for e in n.items for y in e]
    if k == "set":
        return list(n.items)
    if k == "error":
        return [n.cause] if n.cause is not None else []
    if k == "view":
        return [n.buf]
    return []


def err(cause):
    e = JSError("e")
    e.cause = cause
    return e


WRAP = {
    "JSObject": lambda v: JSObject(a=v), "JSObject#": lambda v: JSObject({3: v}), "JSArray": lambda v: JSArray([v]),
    "JSArray.": lambda v: JSArray(a=v), "JSArray,": lambda v: JSArray([0, v], b=1), "JSArray~": lambda v: JSArray({900: v, "x y": 1}),
    "JSMap": lambda v: JSMap([(1, v)]), "JSMap key": lambda v: JSMap([(v, 1)]), "JSSet": lambda v: JSSet([v]), "JSError": err,
    "list": lambda v: [v], "dict": lambda v: {1: v}, "tuple": lambda v: (v,), "OrderedDict": lambda v: collections.OrderedDict(a=v),
    "deque": lambda v: collections.deque([v]),
}


@fresh
def deep(sh, rng):
    names = rng.sample([n for n in WRAP], rng.choice([1, 2, 4]))
    if all(n == "OrderedDict" for n in names):
        return  # printed by the standard library alone
    n = rng.choice([30, 200, 1000, 5000])
    v = rng.choice([1, "x", None])
    for _ in range(n):
        v = WRAP[rng.choice(names)](v)
    v = WRAP[rng.choice(["JSObject", "JSArray", "JSMap", "JSSet", "JSError"])](v)
    lim = rng.choice([None, 1, 2, 10, 60])
    with js_repr_settings(maxlevel=lim, indent=rng.choice([None, None, 2])):
        try:
            t = text_of(rng, v)
        except RecursionError:
            # the standard library does not limit how deep these are printed
            if "OrderedDict" not in names:
                raise Violation(f"printing {n} levels of {names} recurses without limit")
            t = ""
        if "OrderedDict" not in names:
            check(len(t) < 200 + 400 * (lim or 20), "%d levels of %s printed as %d characters", n, names, len(t))
    # the values are freed level by level, which must not be what limits the test
    sh.count("deep values printed")
    sh.nontrivial("deep", tuple(sorted(names)), n, lim)
    while v is not None and not isinstance(v, (int, str)):
        v = unwrap(v)


def unwrap(v):
    if isinstance(v, JSError):
        c, v.cause = v.cause, None
        return c
    if isinstance(v, (JSMap, dict)):
        k, x = next(iter(v.items()))
        v.clear()
        return x if not isinstance(x, int) or isinstance(k, (int, str)) else k
    if isinstance(v, JSObject):
        x = list(v.values())
        x = next((y for y in x if not isinstance(y, int)), x[0])
        v.clear()
        return x
    if isinstance(v, JSSet):
        x = next(iter(v))
        v.clear()
        return x
    if isinstance(v, (list, collections.deque)):
        return v.pop()
    return v[0]


@fresh
def large(sh, rng):
    n = rng.choice([101, 1000, 100000])
    k = rng.randrange(9)
    inner = [lambda i: i, lambda i: f"s{i}", lambda i: {"k": i}][rng.randrange(3)]
    if k == 0:
        v = JSObject({f"k{i}": inner(i) for i in range(n)})
    elif k == 1:
        v = JSArray(inner(i) for i in range(n))
    elif k == 2:
        v = JSMap((i, inner(i)) for i in range(n))
    elif k == 3:
        v = JSSet(range(n))
    elif k == 4:
        v = JSObject({i * 7: inner(i) for i in range(n)})
    elif k == 5:
        v = JSArray({i * 50: inner(i) for i in range(min(n, 20000))})
    elif k == 6:
        v = JSArray([JSHole] * n + [1])
    elif k == 7:
        v = JSObject(a=[{i: [i] * 3} for i in range(n)])
    else:
        v = JSArrayBuffer(bytes(n))
    v = WRAP[rng.choice(["JSObject", "JSArray", "JSMap", "JSSet", "JSError"])](v) if rng.random() < 0.5 else v
    t = text_of(rng, v)
    check(len(t) < 12000, "%s of %d entries printed as %d characters", type(v).__name__, n, len(t))
    if k == 8:
        check(n <= 200 or "…" in t, "a cut buffer is printed as if complete: %s", short(t))
    else:
        check("..." in t, "%s of %d entries is printed as if complete: %s", type(v).__name__, n, short(t))
    sh.count("large values printed")
    sh.nontrivial("large", k, n)


# --- limits

class Tree:
    """A random tree of containers whose leaves are unique texts at known places."""

    def __init__(self, rng, lim, size):
        self.rng, self.lim, self.left = rng, lim, size
        self.marks = {}  # text -> (depth, beyond a limit)
        self.cut = False
        self.kinds = set()
        self.n = 0

    def leaf(self, depth, beyond):
        self.n += 1
        name = f"m{self.n:06}z"
        self.marks[name] = (depth, beyond)
        return name

    def value(self, depth, beyond, top=False):
        rng = self.rng
        self.left -= 1
        if not top and (rng.random() < 0.35 or self.left <= 0 or depth > self.lim["maxlevel"] + 3):
            return self.leaf(depth, beyond)
        kind = rng.choice(["obj", "arr", "map", "set", "error", "list", "dict", "tuple", "sparse", "props", "deque", "subobj", "subarr", "objlist", "holes"]) if not top else \
            rng.choice(["obj", "arr", "map", "set", "error", "sparse", "props", "subobj", "subarr", "objlist", "holes"])
        self.kinds.add(kind)
        return getattr(self, "c_" + kind)(depth + 1, beyond)

    def count(self, limit):
        return self.rng.choice([0, 1, 1, 2, 3, limit, limit + 1, limit + 2, max(0, limit - 1)]) if self.left > 0 else 1

    def kids(self, n, limit, d, beyond, start=0):
        out = []
        if n + start > limit:
            self.cut = True
        for i in range(start, start + n):
            # those beyond the limit only matter as leaves
            if beyond or i >= limit:
                out.append(self.leaf(d, True))
            else:
                out.append(self.value(d, False))
        return out

    def keys(self, n):
        style = self.rng.randrange(3)
        return [f"k{i}" if style == 0 or style == 1 and i else f"k {i}" for i in range(n)]

    def c_obj(self, d, beyond, cls=JSObject):
        n = self.count(self.lim["maxjsobject"])
        return cls(zip(self.keys(n), self.kids(n, self.lim["maxjsobject"], d, beyond)))

    def c_objlist(self, d, beyond, cls=JSObject):
        """Elements, then properties."""
        lim = self.lim["maxjsobject"]
        n, m = self.count(lim), self.count(lim)
        a = self.kids(n, lim, d, beyond)
        b = self.kids(m, lim, d, beyond, n)
        idx = list(range(n)) if self.rng.random() < 0.5 else [i * 40 for i in range(n)]
        keys = self.keys(m)
        o = cls(zip(keys, b)) if self.rng.random() < 0.5 else cls()
        for i, x in zip(idx, a):
            o[i] = x
        for k, x in zip(keys, b):
            o[k] = x
        return o

    def c_subobj(self, d, beyond):
        return self.c_obj(d, beyond, SubObject)

    def c_arr(self, d, beyond, cls=JSArray):
        n = self.count(self.lim["maxjsarray"])
        xs = self.kids(n, self.lim["maxjsarray"], d, beyond)
        return cls(xs)

    def c_subarr(self, d, beyond):
        return self.c_arr(d, beyond, SubArray)

    def c_props(self, d, beyond):
        lim = self.lim["maxjsarray"]
        n, m = self.count(lim), self.count(lim)
        a = self.kids(n, lim, d, beyond)
        b = self.kids(m, lim, d, beyond, n)
        o = JSArray(a)
        for k, x in zip(self.keys(m), b):
            o[k] = x
        return o

    def c_holes(self, d, beyond):
        """Holes among elements count like them."""
        lim = self.lim["maxjsarray"]
        n = self.count(lim)
        m = self.count(lim)
        xs = []
        for i in range(n):
            xs.append(JSHole if self.rng.random() < 0.4 and i < n - 1 else self.kids(1, lim, d, beyond, i)[0])
        b = self.kids(m, lim, d, beyond, n)
        o = JSArray(xs)
        for k, x in zip(self.keys(m), b):
            o[k] = x
        if n > lim:
            self.cut = True
        return o

    def c_sparse(self, d, beyond):
        lim = self.lim["maxjsarray"]
        n = self.count(lim)
        return JSArray({i * 100 + 50: x for i, x in enumerate(self.kids(n, lim, d, beyond))})

    def c_map(self, d, beyond):
        lim = self.lim["maxdict"]
        n = self.count(lim)
        vals = self.kids(n, lim, d, beyond)
        if self.rng.random() < 0.4:
            keys = self.kids(n, lim, d, beyond)
        elif self.rng.random() < 0.5:
            keys = [self.leaf(d, beyond or i >= lim) for i in range(n)]
        else:
            keys = list(range(n))
        return JSMap(zip(keys, vals))

    def c_set(self, d, beyond):
        n = self.count(self.lim["maxset"])
        return JSSet(self.kids(n, self.lim["maxset"], d, beyond))

    def c_error(self, d, beyond):
        e = JSError(self.leaf(d, beyond))
        if self.rng.random() < 0.5:
            e.stack = self.leaf(d, beyond)
        if self.rng.random() < 0.7:
            e.cause = self.leaf(d, True) if beyond else self.value(d, False)
        return e

    def c_list(self, d, beyond):
        return self.kids(self.count(self.lim["maxlist"]), self.lim["maxlist"], d, beyond)

    def c_tuple(self, d, beyond):
        return tuple(self.kids(self.count(self.lim["maxtuple"]), self.lim["maxtuple"], d, beyond))

    def c_deque(self, d, beyond):
        return collections.deque(self.kids(self.count(self.lim["maxdeque"]), self.lim["maxdeque"], d, beyond))

    def c_dict(self, d, beyond):
        n = self.count(self.lim["maxdict"])
        keys = list(range(n))
        return dict(zip(keys, self.kids(n, self.lim["maxdict"], d, beyond)))


def nothing(sh, rng):
    """A value that is left out for its depth or count is not shown as an empty one, and an empty one is whole."""
    fill = rng.choice(["<cut>", "..."])
    n = rng.choice([0, 1, 1, 2, 7])
    level = rng.choice([0, 1, 2, 4])
    kind = rng.choice(["JSObject", "JSObject#", "JSArray", "JSArray.", "JSArray~", "JSMap", "JSSet", "list", "dict", "tuple"])
    xs = [rng.choice([0, "x", None, 1.5]) for _ in range(n)]
    v = {"JSObject": lambda: JSObject({f"k{i}": x for i, x in enumerate(xs)}), "JSObject#": lambda: JSObject({i * 9: x for i, x in enumerate(xs)}),
         "JSArray": lambda: JSArray(xs), "JSArray.": lambda: JSArray(**{f"k{i}": x for i, x in enumerate(xs)}), "JSArray~": lambda: JSArray({i * 500: x for i, x in enumerate(xs)}),
         "JSMap": lambda: JSMap(enumerate(xs)), "JSSet": lambda: JSSet(range(n)), "list": lambda: xs, "dict": lambda: dict(enumerate(xs)), "tuple": lambda: tuple(xs)}[kind]()
    zero = n == 0 or rng.random() < 0.3
    s = {k: 0 for k in ("maxjsobject", "maxjsarray", "maxdict", "maxset", "maxlist", "maxtuple")} if zero and level == 0 else {}
    if level == 0 and not s:
        level = 1  # nothing at all is shown
    for _ in range(level):
        v = WRAP[rng.choice(["JSObject", "JSArray", "JSMap", "JSSet", "list"])](v)
    r = JSRepr(maxlevel=level if not s else 6, fillvalue=fill, indent=rng.choice([None, None, 2]), **s)
    t = r.repr(v)
    check(fill in t if n else r.maxlevel <= level or fill not in t, "a %s of %d entries, %s levels down of %s, settings %s: %s", kind, n, level, r.maxlevel, s, t)
    sh.count("values left out" if n else "empty values at the limit")
    sh.nontrivial("nothing", kind, n, level, bool(s))


class OwnText(JSObject):
    def __repr__(self):
        return "<own object text>"


class OwnTextArray(JSArray):
    def __repr__(self):
        return "<own array text>"


class OwnTextMap(JSMap):
    def __repr__(self):
        return "<own map text>"


class OwnTextError(JSError):
    def __repr__(self):
        return "<own error text>"


@fresh
def own(sh, rng):
    """Classes that print themselves do so inside other values too."""
    cls, text = rng.choice([(OwnText, "<own object text>"), (OwnTextArray, "<own array text>"), (OwnTextMap, "<own map text>"), (OwnTextError, "<own error text>")])
    v = cls("m") if cls is OwnTextError else cls()
    if rng.random() < 0.5 and cls is not OwnTextError:
        v["k"] = 1
    name = rng.choice([n for n in WRAP if n not in ("JSMap key", "OrderedDict")])
    t = text_of(rng, JSObject(a=WRAP[name](v)))
    check(t.count(text) == 1, "a %s inside of %s is printed as %s", cls.__name__, name, t)
    check(repr(v) == text, "a %s is printed as %s", cls.__name__, repr(v))
    sh.count("values with a text of their own")
    sh.nontrivial("own", cls.__name__, name)


class SubObject(JSObject):
    pass


class SubArray(JSArray):
    pass


def lim_settings(rng):
    lim = {k: rng.choice([0, 1, 2, 3, 5] if rng.random() < 0.3 else [1, 2, 3, 5]) for k in ("maxjsobject", "maxjsarray", "maxdict", "maxset", "maxlist", "maxtuple", "maxdeque")}
    lim["maxlevel"] = rng.choice([1, 2, 3, 4, 7])
    return lim


def limits(sh, rng):
    lim = lim_settings(rng)
    fill = rng.choice(["...", "<cut>", "#", "", "\u2026"])
    t = Tree(rng, lim, rng.choice([5, 20, 60]))
    v = t.value(0, False, top=True)
    how = rng.randrange(3)
    s = dict(lim, fillvalue=fill, maxstring=HUGE, maxother=HUGE, maxlong=HUGE, indent=rng.choice([None, None, None, 2]))
    if how == 0:
        with js_repr_settings(**s):
            text = text_of(rng, v)
    elif how == 1:
        with js_repr_settings(JSRepr(**s)):
            text = text_of(rng, v)
    else:
        text = JSRepr(**s).repr(v)
    shown = set(re.findall(r"m\d{6}z", text))
    check(shown <= set(t.marks), "texts that are not in the value: %s", shown - set(t.marks))
    hidden = False
    for name, (depth, beyond) in t.marks.items():
        if beyond or depth > lim["maxlevel"]:
            hidden = True
            check(name not in shown, "%s at depth %d is shown in spite of the limits %s: %s", name, depth, lim, text)
            sh.count("markers hidden by length" if beyond else "markers hidden by depth")
        elif depth < lim["maxlevel"]:
            check(name in shown, "%s at depth %d is not shown, limits %s: %s", name, depth, lim, text)
            sh.count("markers shown")
    counts = collections.Counter(re.findall(r"m\d{6}z", text))
    check(all(c == 1 for c in counts.values()), "parts shown more than once: %s", text)
    if fill in ("<cut>", "#"):
        if hidden or any(m not in shown for m in t.marks):
            check(fill in text, "parts are left out without saying so, limits %s: %s", lim, text)
        elif not t.cut and max(d for d, _ in t.marks.values()) < lim["maxlevel"] - 1 if t.marks else False:
            check(fill not in text, "nothing is left out but the text says so, limits %s: %s", lim, text)
    sh.nontrivial("limits", tuple(sorted(t.kinds)), lim["maxlevel"], t.cut)


@fresh
def leaves(sh, rng):
    """Long texts, numbers and buffers as parts of a value."""
    lim = rng.choice([5, 10, 40, 200])
    wrap = WRAP[rng.choice([n for n in WRAP if n not in ("JSMap key", "OrderedDict")])]
    with js_repr_settings(maxstring=lim, maxlong=lim, maxother=lim, indent=rng.choice([None, None, 2])) as r:
        empty = len(text_of(rng, JSObject(a=wrap(0)))) + 60
        k = rng.randrange(6)
        if k == 0:
            v = "".join(rng.choice("ab\u00e9\U0001f600\n'") for _ in range(rng.choice([lim, lim * 3, 5000])))
            bound = lim
        elif k == 1:
            v = rng.choice([-1, 1]) * rng.getrandbits(rng.choice([64, lim * 8, 14000, 14300, 40000]))
            bound = lim
        elif k == 2:
            v = jstypes.JSPrimitiveObject("x" * rng.choice([1, 50, 5000]))
            bound = lim
        elif k == 3:
            v = JSRegExp("a" * rng.choice([1, 50, 5000]))
            bound = lim
        else:
            data = rng.randbytes(rng.choice([0, 1, lim - 1, lim, lim + 1, lim * 4, 3000]))
            v = rng.choice([
                lambda: JSArrayBuffer(data), lambda: JSArrayBuffer(data, max_byte_length=len(data) + 8), lambda: JSArrayBuffer(bytes(data), readonly=True),
                lambda: JSArrayBuffer(bytearray(data), copy_data=False), lambda: JSArrayBuffer(memoryview(data), copy_data=False),
                lambda: jstypes.JSUint8Array(JSArrayBuffer(data)), lambda: jstypes.JSDataView(bytearray(data)), lambda: bytearray(data), lambda: memoryview(data), lambda: memoryview(bytearray(data)), lambda: JSArrayBuffer(memoryview(bytearray(data)), copy_data=False)])()
            bound = 4 * lim + 100
            t = text_of(rng, JSObject(a=wrap(v))) if k == 5 else r.repr(v)
            inside = type(v) is jstypes.JSUint8Array or type(v) is jstypes.JSDataView
            if not inside:
                want = repr(data[:lim])
                body = want[2:-1]
                check(body in t, "the start of the data is not shown, limit %d: %s", lim, short(t))
                if len(data) > lim:
                    check(body + "\u2026" in t, "data of %d bytes is shown as if it were complete, limit %d: %s", len(data), lim, short(t))
                    sh.count("buffers cut")
                else:
                    check("\u2026" not in t, "complete data is shown as if it were cut: %s", short(t))
                t = r.repr(v)
                again = evaluate(t.replace("\u2026", ""))
                with memoryview(v) as x, memoryview(again) as y:
                    check(type(again) is type(v) and x.readonly == y.readonly and bytes(y) == data[:lim], "limit %d: the shown part of the data evaluates to another kind of value: %s", lim, short(t))
        t = text_of(rng, JSObject(a=wrap(v)))
        check(len(t) <= empty + bound, "a %s is printed with %d characters, limit %d: %s", type(v).__name__, len(t), lim, short(t))
    sh.nontrivial("leaves", type(v).__name__, lim, k)


# --- back from text

ENV = {n: getattr(jstypes, n) for n in dir(jstypes) if n.startswith("JS")}
ENV.update(nan=float("nan"), inf=float("inf"), datetime=datetime, zoneinfo=zoneinfo, re=re, array=array.array, deque=collections.deque, OrderedDict=collections.OrderedDict,
           JSErrorName=JSErrorName, JSRegExpFlag=JSRegExpFlag, SerializationTag=SerializationTag, SubObject=SubObject, SubArray=SubArray)
ENV["dict_keys"] = lambda keys: dict.fromkeys(keys).keys()
ENV.update(mappingproxy=types.MappingProxyType, ChainMap=collections.ChainMap, defaultdict=collections.defaultdict)


def evaluate(text):
    t = re.sub(r"<(JSErrorName|SerializationTag)\.(\w+): [^>]*>", r"\1.\2", text)
    t = t.replace("<class 'int'>", "int")
    t = re.sub(r"<JSRegExpFlag\.[\w|]+: (\d+)>", r"JSRegExpFlag(\1)", t)
    try:
        return eval(t, dict(ENV))
    except Exception as e:
        raise Violation(f"the text does not evaluate ({type(e).__name__}: {e}): {short(text, 1500)}")


def differ(a, b, at="$"):
    """None or where two acyclic values differ."""
    ta, tb = type(a), type(b)
    if ta is model.MyInt or ta is model.MyStr or ta is model.MyFloat:
        ta = ta.__mro__[1]
    ta = {collections.UserDict: dict, collections.UserList: list}.get(ta, ta)
    if ta is not tb:
        return f"{at}: {ta.__name__} / {tb.__name__}"
    if issubclass(ta, JSObject):
        if len(a.array) != len(b.array):
            return f"{at}: length {len(a.array)} / {len(b.array)}"
        return pairs(list(a.items()), list(b.items()), at)
    if issubclass(ta, JSMap):
        return pairs(list(a.items()), list(b.items()), at)
    if issubclass(ta, (JSSet, list, tuple, collections.deque)):
        return sequence(list(a), list(b), at)
    if issubclass(ta, (dict, types.MappingProxyType, collections.ChainMap)):
        return unordered([[k, v] for k, v in a.items()], [[k, v] for k, v in b.items()], at)
    if issubclass(ta, (set, frozenset, type({}.keys()))):
        return unordered(list(a), list(b), at)
    if ta is float:
        return None if struct.pack("d", a) == struct.pack("d", b) or a != a and b != b else f"{at}: {a!r} / {b!r}"
    if ta is JSError or ta is JSErrorData:
        if a.name != b.name:
            return f"{at}.name: {a.name} / {b.name}"
        for f in ("message", "stack", "cause"):
            d = differ(getattr(a, f), getattr(b, f), f"{at}.{f}")
            if d:
                return d
        return None
    if issubclass(ta, JSPrimitiveObject):
        return (None if a.tag is b.tag else f"{at}: {a.tag} / {b.tag}") or differ(a.value, b.value, at)
    if ta is JSArrayBuffer:
        with memoryview(a) as x, memoryview(b) as y:
            same = bytes(x) == bytes(y) and a.max_byte_length == b.max_byte_length and a.resizable == b.resizable and x.readonly == y.readonly
        return None if same else f"{at}: buffers {short(a)} / {short(b)}"
    if ta is memoryview:
        return None if bytes(a) == bytes(b) and a.format == b.format and a.shape == b.shape else f"{at}: {a} / {b}"
    if isinstance(a, jstypes.JSTypedArray) or isinstance(a, jstypes.JSDataView):
        if (a.byte_offset, a.is_length_tracking, a.byte_length) != (b.byte_offset, b.is_length_tracking, b.byte_length):
            return f"{at}: region {a.byte_offset, a.is_length_tracking, a.byte_length} / {b.byte_offset, b.is_length_tracking, b.byte_length}"
        return differ(a.backing_buffer, b.backing_buffer, at + ".buffer")
    if isinstance(a, re.Pattern):
        return None if (a.pattern, a.flags) == (b.pattern, b.flags) else f"{at}: {a} / {b}"
    if isinstance(a, datetime.datetime):
        return None if a == b and a.utcoffset() == b.utcoffset() and a.fold == b.fold else f"{at}: {a!r} / {b!r}"
    return None if a == b else f"{at}: {short(a)} / {short(b)}"


def sequence(a, b, at):
    if len(a) != len(b):
        return f"{at}: {len(a)} / {len(b)} entries"
    for i, (x, y) in enumerate(zip(a, b)):
        d = differ(x, y, f"{at}[{i}]")
        if d:
            return d
    return None


def pairs(a, b, at):
    return sequence([list(e) for e in a], [list(e) for e in b], at)


def unordered(a, b, at):
    if len(a) != len(b):
        return f"{at}: {len(a)} / {len(b)} entries"
    left = list(b)
    for x in a:
        for i, y in enumerate(left):
            if differ(x, y) is None:
                del left[i]
                break
        else:
            return f"{at}: no match for {short(x)}"
    return None


@fresh
def back(sh, rng):
    small = rng.random() < 0.4
    g = Gen(rng, budget=rng.choice([3, 6, 12]), depth=rng.choice([2, 4, 6]), share=0, cycles=False,
            without=("nodebuf", "shared"))
    m = g.graph()
    if any(n.form == "memoryview" for n in walk(m)):
        return  # which Python prints as no expression where it prints containers itself
    py = hostile(rng) if rng.random() < 0.35 else Builder().build(m)
    py = rng.choice([lambda v: v, lambda v: JSObject(v=v), lambda v: JSArray([v]), lambda v: SubObject(a=v), lambda v: SubArray([v, JSHole])])(py)
    if not type(py).__module__.startswith(("v8serialize", __name__.split(".")[0])):
        py = JSMap(a=py) if rng.random() < 0.5 else JSSet([py])
    indent = rng.choice([None, None, 0, 1, 2, 4])
    s = {k: HUGE for k in ("maxstring", "maxother", "maxlong")}
    if not small:
        s.update({k: HUGE for k in ("maxjsobject", "maxjsarray", "maxdict", "maxset", "maxlist", "maxtuple", "maxarray", "maxfrozenset", "maxdeque", "maxlevel")})
    elif widest(py) > 90:
        return
    with js_repr_settings(**s, indent=indent):
        text = repr(py)
    d = differ(py, evaluate(text))
    check(not d, "evaluating the text gives another value: %s; text %s", d, short(text, 1500))
    sh.count("evaluated back indented" if indent is not None else "evaluated back")
    sh.nontrivial("back", re.sub(r"[^A-Za-z(\[{]+", "", re.sub(r"'[^']*'|\"[^\"]*\"|b'[^']*'", "", text))[:60], indent)


def widest(v):
    out = 0
    todo = [v]
    while todo:
        x = todo.pop()
        kids = []
        if isinstance(x, JSObject):
            out = max(out, len(x.array))
            kids = list(x.values())
        elif isinstance(x, collections.abc.Mapping):
            kids = [y for e in x.items() for y in e]
        elif isinstance(x, (JSError, JSErrorData)):
            kids = [x.cause]
        elif isinstance(x, (bytes, array.array, range)):
            out = max(out, len(x))
        elif isinstance(x, collections.abc.Collection) and not isinstance(x, (str, memoryview, bytearray)):
            kids = list(x)
        out = max(out, len(kids))
        todo += kids
    return out


KEYS = ["a", "b_c", "x y", "", "self", "cls", "class", "None", "0a", "\u00e9", "\u00aa", "\uff41", "obj", "properties", "__init__", "1.5", "-1", "a'b", 'q"', "\n", "\u2028", "{", "%s", "jsobject",
        "elements", "array", "iterable", "kwargs", "args", "key", "for", "print", "lambda", "True", "if", "\U0001d4ea", "\u017f", "\u2168", "\ufb01"]


def hostile(rng):
    """Shapes whose text is easily wrong."""
    leaf = lambda: rng.choice([0, 1, True, False, None, JSUndefined, "x", -0.0, float("nan"), float("inf"), float("-inf"), 2 ** 70, -5, 1.5, b"\x00'\"", ""])
    r = rng.randrange(10)
    keys = rng.sample(KEYS, rng.randrange(0, 5))
    if r == 0:
        o = JSObject()
        for k in keys:
            o[k] = leaf()
        for i in rng.sample([0, 1, 2, 5, 40, 4000, 2 ** 32 - 2], rng.randrange(0, 4)):
            o[i] = leaf()
        if rng.random() < 0.3:
            o[rng.choice([3, 50, 9000])] = leaf()
            del o[rng.choice(list(k for k in o if isinstance(k, int)))]
        if rng.random() < 0.3:
            o[rng.choice([6, 60, 9001, 2 ** 32 - 2])] = JSHole
        return o
    if r == 1:
        o = JSArray([rng.choice([leaf(), JSHole]) for _ in range(rng.randrange(0, 6))])
        for k in keys:
            o[k] = leaf()
        if rng.random() < 0.3:
            o[rng.choice([20, 3000])] = rng.choice([leaf(), JSHole])
        return o
    if r == 2:
        return JSArray({rng.choice([20, 3000, 2 ** 32 - 2]): rng.choice([leaf(), JSHole]), **{k: leaf() for k in keys}})
    if r == 3:
        ks = rng.sample([1, True, 1.0, 0, False, -0.0, "1", None, JSUndefined, "a", 2 ** 53, float(2 ** 53), (1,), b"1"], rng.randrange(1, 6))
        return JSMap([(k, leaf()) for k in ks])
    if r == 4:
        return JSMap([([1], 2), ({}, JSObject()), (JSObject(), 1), (JSObject(), 2), (float("nan"), 1)][:rng.randrange(1, 6)])
    if r == 5:
        return JSSet([1, True, [1], [1], {}, JSArray(), JSArray(), float("nan"), None, "1", JSSet(), 0][rng.randrange(0, 5):rng.randrange(5, 13)])
    if r == 6:
        e = JSError(rng.choice(["", "m", None, "a'b"]), name=rng.choice(list(JSErrorName) + ["Foo", "", "error", "AggregateError"]), stack=rng.choice([None, "", "s\nt"]), cause=rng.choice([None, 0, JSObject(a=1), JSError("x")]))
        return e
    if r == 7:
        return rng.choice([lambda: JSArray(), lambda: JSObject(), lambda: JSMap(), lambda: JSSet(), lambda: JSArray([JSArray()]), lambda: JSArray([JSHole] * rng.randrange(1, 5)),
                           lambda: JSArray([memoryview(rng.randbytes(4)), memoryview(bytearray(3))]), lambda: JSMap([(JSMap(), JSMap())]), lambda: JSSet([JSSet(), JSSet()])])()
    if r == 8:
        data = rng.randbytes(rng.choice([0, 8, 24]))
        buf = rng.choice([lambda: JSArrayBuffer(data), lambda: JSArrayBuffer(data, max_byte_length=len(data) + rng.choice([0, 8])),
                          lambda: JSArrayBuffer(data, readonly=True), lambda: bytearray(data), lambda: data])()
        cls = rng.choice([jstypes.JSUint8Array, jstypes.JSFloat64Array, jstypes.JSDataView, jstypes.JSBigInt64Array, jstypes.JSUint8ClampedArray])
        size = len(data)
        off = rng.choice([None, 0, 8]) if size >= 8 else rng.choice([None, 0])
        item = {jstypes.JSFloat64Array: 8, jstypes.JSBigInt64Array: 8}.get(cls, 1)
        kw = {}
        if off is not None:
            kw["byte_offset" if cls is jstypes.JSDataView else "item_offset"] = off // item
        if rng.random() < 0.5:
            kw["byte_length" if cls is jstypes.JSDataView else "item_length"] = max(0, size - (off or 0)) // item
        try:
            return cls(buf, **kw)
        except TypeError:
            return cls(buf)
    return JSObject(**{k: leaf() for k in keys if k.isidentifier() and k not in ("self", "properties")})


# --- settings

PROBE_N = 30


def expected_probe(s):
    n = s["maxjsarray"]
    pieces = [str(100 + i) for i in range(min(n, PROBE_N))]
    if PROBE_N > n:
        pieces.append(s["fillvalue"])
    if s["indent"] is None:
        return "JSArray([" + ", ".join(pieces) + "])"
    sep = "\n" + " " * s["indent"]
    return "JSArray([" + sep + ("," + sep).join(pieces) + ",\n])"


FIELDS = ("maxjsarray", "fillvalue", "indent")


def pick_settings(rng):
    s = {}
    if rng.random() < 0.8:
        s["maxjsarray"] = rng.randrange(0, PROBE_N + 3)
    if rng.random() < 0.3:
        s["fillvalue"] = rng.choice(["...", "+", "<more>"])
    if rng.random() < 0.3:
        s["indent"] = rng.choice([None, 0, 2, 3])
    if rng.random() < 0.2:
        s[rng.choice(["maxjsarray", "fillvalue", "maxlevel", "maxset"])] = None
    if rng.random() < 0.2:
        s[rng.choice(["maxset", "maxdict", "maxlevel", "maxstring"])] = rng.randrange(2, 50)
    return s


class Boom(Exception):
    pass


class Boom2(BaseException):
    pass


def settings(sh, rng):
    probe = JSArray(range(100, 100 + PROBE_N))
    base = {"maxjsarray": 100, "fillvalue": "...", "indent": None}
    shared = [(JSRepr(maxjsarray=n, fillvalue=f"{n}!"), {"maxjsarray": n, "fillvalue": f"{n}!", "indent": None}) for n in (4, 9)]
    with js_repr_settings(default_js_repr, force_restore=True):
        active = ("default", base)  # identity, settings
        blocks, shape, tokens = [], [], 0

        def look(what):
            t = repr(probe)
            check(t == expected_probe(active[1]), "after %s: the settings in effect are not those of %s: %s", shape + [what], active[1], t)

        for _ in range(rng.randrange(2, 14)):
            op = rng.choices(["open", "shared", "close", "close last", "raise", "bad", "with"], [4, 2, 2, 4, 2, 1, 1])[0]
            if op in ("open", "shared"):
                force = rng.random() < 0.25
                if op == "open":
                    kw = pick_settings(rng)
                    new = dict(active[1])
                    new.update({k: v for k, v in kw.items() if k in FIELDS and (v is not None or k == "indent")})
                    cm = js_repr_settings(**kw, **({"force_restore": True} if force else {}))
                    tokens += 1
                    token = tokens
                else:
                    i = rng.randrange(2)
                    cm = js_repr_settings(shared[i][0], force_restore=force)
                    token, new = f"shared{i}", shared[i][1]
                look("making a block")
                r = cm.__enter__()
                check(r.repr(probe) == expected_probe(new), "the block's own settings print %s, expected %s", r.repr(probe), expected_probe(new))
                if op == "shared":
                    check(r is shared[i][0], "the block does not use the settings it was given")
                blocks.append((cm, token, active, force))
                active = (token, new)
                sh.count("settings blocks")
            elif op in ("close", "close last", "raise"):
                if not blocks:
                    continue
                i = len(blocks) - 1 if op == "close last" or rng.random() < 0.4 else rng.randrange(len(blocks))
                cm, token, before, force = blocks.pop(i)
                exc = rng.choice([Boom("x"), Boom2("x")]) if op == "raise" else None
                with warnings.catch_warnings(record=True) as log:
                    warnings.simplefilter("always")
                    try:
                        swallowed = cm.__exit__(type(exc) if exc else None, exc, None)
                        raised = None
                    except BaseException as e:
                        swallowed, raised = False, e
                check(not swallowed and raised in (None, exc), "leaving a block by an exception gives %r, %r", swallowed, raised)
                warned = [w for w in log if issubclass(w.category, JSReprSettingsNotRestored)]
                if active[0] == token or force:
                    active = before
                    check(not log, "closing a block warns: %s", [str(w.message) for w in log])
                else:
                    check(len(warned) == 1 and len(log) == 1, "closing a block that is no longer in effect gives %d warnings", len(log))
                    sh.count("closed out of order")
                if exc:
                    sh.count("left by an exception")
            elif op == "bad":
                kw = pick_settings(rng)
                kw[rng.choice(["maxfoo", "level", "max", "maxtuple "])] = 1
                try:
                    js_repr_settings(**kw).__enter__()
                except TypeError:
                    pass
                else:
                    raise Violation(f"settings {kw} are accepted")
            else:
                kw = pick_settings(rng)
                try:
                    with js_repr_settings(**kw):
                        if rng.random() < 0.5:
                            with js_repr_settings(maxjsarray=3):
                                check(repr(probe).count(", 10") + repr(probe).count(" 10") <= 6, "inner settings are not in effect")
                                if rng.random() < 0.5:
                                    raise Boom
                        new = dict(active[1])
                        new.update({k: v for k, v in kw.items() if k in FIELDS and (v is not None or k == "indent")})
                        check(repr(probe) == expected_probe(new), "settings %s print %s", new, repr(probe))
                        if rng.random() < 0.4:
                            raise Boom
                except Boom:
                    sh.count("left by an exception")
                sh.count("settings blocks")
            shape.append(op)
            look("")
        while blocks:  # so that nothing changes when they are collected
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                blocks.pop()[0].__exit__(None, None, None)
    check(repr(probe) == expected_probe(base), "the settings outlive their blocks: %s", repr(probe))
    sh.nontrivial("settings", tuple(shape))


# --- interrupted and parallel prints

class Mine:
    """An element with a text of its own, which may fail."""

    def __init__(self, text):
        self.text, self.fail, self.hook = text, None, None

    def __repr__(self):
        if self.hook:
            self.hook()
        if self.fail:
            raise self.fail
        return self.text

    def __hash__(self):
        return 7

    def __lt__(self, other):
        return False


class KeyText(str):
    fail = None

    def __repr__(self):
        if KeyText.fail:
            raise KeyText.fail
        return str.__repr__(self)


HOLDERS = {
    "JSObject": lambda m, o: JSObject(a=m, o=o), "JSObject#": lambda m, o: JSObject({0: m, 5: o}), "JSArray": lambda m, o: JSArray([m, o]),
    "JSArray.": lambda m, o: JSArray([o], a=m), "JSArray~": lambda m, o: JSArray({900: m, "x y": o}), "JSMap": lambda m, o: JSMap([(1, m), (2, o)]),
    "JSMap key": lambda m, o: JSMap([(m, o)]), "JSSet": lambda m, o: JSSet([m, o]), "JSError": lambda m, o: JSError("m", cause=JSArray([m, o])),
    "list": lambda m, o: [m, o], "dict": lambda m, o: {1: m, 2: o}, "tuple": lambda m, o: (m, o), "data": lambda m, o: JSErrorData(cause=JSArray([m, o])),
    "key": lambda m, o: JSObject({KeyText("x y"): m, "o": o}), "key map": lambda m, o: JSMap([(KeyText("k"), m), (2, o)]),
}


@fresh
def interrupted(sh, rng):
    m = Mine("<mine>")
    names = [rng.choice(list(HOLDERS)) for _ in range(rng.randrange(1, 5))]
    v = m
    for n in names:
        v = HOLDERS[n](v, rng.randrange(10))
    top = rng.choice(["JSObject", "JSArray", "JSMap", "JSSet", "JSArray~", "JSObject#"])
    v = HOLDERS[top](v, rng.randrange(10))
    names.append(top)
    with js_repr_settings(maxother=HUGE, indent=rng.choice([None, None, 2])):
        before = repr(v)
        check("<mine>" in before, "the element is not shown: %s", before)
        fail = rng.choice([Boom("x"), Boom2("x"), KeyboardInterrupt(), RecursionError(), SystemExit(), MemoryError(), GeneratorExit()])
        keyed = rng.random() < 0.3 and any(n.startswith("key") for n in names)
        for _ in range(rng.randrange(1, 3)):
            try:
                if keyed:
                    KeyText.fail = fail
                else:
                    m.fail = fail
                repr(v)
                raised = False
            except BaseException as e:
                if e is not fail:
                    raise
                raised = True
            finally:
                m.fail = KeyText.fail = None
            if not isinstance(fail, Exception):
                check(raised, "a %s in the text of an element is lost", type(fail).__name__)
        after = text_of(rng, v)
        check(after == before, "after a print ended by %s the text is %s instead of %s", type(fail).__name__, after, before)
    sh.count("interrupted prints")
    sh.nontrivial("interrupted", tuple(names), type(fail).__name__)


@fresh
def parallel(sh, rng):
    n = rng.choice([2, 3, 4])
    m = Mine("<mine>")
    names = [rng.choice(list(HOLDERS)) for _ in range(rng.randrange(0, 4))]
    v = m
    for x in names:
        v = HOLDERS[x](v, rng.randrange(10))
    v = HOLDERS[rng.choice(["JSObject", "JSArray", "JSMap", "JSSet", "JSArray~"])](v, 1)
    if rng.random() < 0.3:
        v = JSArray([v, v])  # the same part twice is not a cycle
        names.append("twice")
    with js_repr_settings(maxother=HUGE):
        want = repr(v)
        check(want.count("<mine>") == (2 if names[-1:] == ["twice"] else 1), "parts are missing: %s", want)
        barrier = threading.Barrier(n)
        texts = [None] * n
        local = threading.local()

        def hook():
            if not getattr(local, "met", False):
                local.met = True
                barrier.wait(60)

        def run(i):
            try:
                texts[i] = repr(v)
            except BaseException as e:
                texts[i] = e
            barrier2.wait(60)

        barrier2 = threading.Barrier(n)
        m.hook = hook
        ts = [threading.Thread(target=run, args=(i,)) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(150)
        m.hook = None
        for t in texts:
            check(t == want, "printed by %d threads at once: %s instead of %s", n, short(t), want)
        check(repr(v) == want, "after printing in threads: %s instead of %s", repr(v), want)
    sh.count("prints in parallel", n)
    sh.nontrivial("parallel", n, tuple(names))
