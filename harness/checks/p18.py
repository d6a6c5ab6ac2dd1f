"""Maps follow same-value-zero keys and insertion order."""
import collections
import copy
import pickle
import types

from harness.core import Violation, check, expect_raises
from harness.svz import JS_KEY, AlwaysEqual, NeverEqual, Refuses, again, describe, fresh, js_key, js_name, many, pool, ref
from v8serialize.jstypes import JSMap, JSObject, JSRegExp, JSSet, same_value_zero

QUICK, THOROUGH = 32000, 900000
RULE = "distinct (operation sequence, kinds of keys at the end) of histories of at least 4 operations"
MIN = {"operations": 35000, "lookups": 400000, "refused operations": 4500, "replacements": 10000, "pairs of keys": 300000, "comparisons": 15000, "comparisons with equal keys": 400,
       "comparisons that hold": 3000, "copies": 1000, "histories in V8": 300, "unhashable keys": 2500, "large histories": 100, "large comparisons": 50, "keys that refuse hashing": 400}
ASSUMPTIONS = ["V8 12.4 as embedded in Node.js 22 stands for JavaScript", "bytes are compared by content, as the library documents"]


class Sub(JSMap):
    pass


class Registered(collections.abc.Mapping):
    """A mapping of its own, registered as a JSMap."""

    def __init__(self, items):
        self.l = list(items)

    def __getitem__(self, k):
        for a, b in self.l:
            if a is k:
                return b
        raise KeyError(k)

    def __iter__(self):
        return iter([k for k, _ in self.l])

    def __len__(self):
        return len(self.l)

    def items(self):
        return list(self.l)


class Stubborn:
    """Cannot be hashed, for a reason of its own."""

    def __init__(self, error):
        self.error = error

    def __hash__(self):
        raise self.error


class KeysOnly:
    def __init__(self, items):
        self.l = items

    def keys(self):
        return [k for k, _ in self.l]

    def __getitem__(self, k):
        return next(v for a, v in reversed(self.l) if a is k)


def compare(sh, m, model, keys, what):
    want = list(model.values())
    check(len(m) == len(want) and bool(m) == bool(want), "%s: %d entries, expected %d", what, len(m), len(want))
    got = list(m.items())
    check(len(got) == len(want) and all(ref(a) == ref(c) and b is d for (a, b), (c, d) in zip(got, want)),
          "%s: items %s, expected %s", what, [describe(k) for k, _ in got], [describe(k) for k, _ in want])
    its = list(m)
    check(len(its) == len(got) and all(a is k for a, (k, _) in zip(its, got)), "%s: iteration", what)
    check(all(a is k for a, k in zip(m.keys(), its)) and all(a is v for a, (_, v) in zip(m.values(), got)), "%s: keys and values", what)
    check(len(m.keys()) == len(m.values()) == len(m.items()) == len(got), "%s: lengths of views", what)
    for k in keys:
        e = model.get(ref(k))
        sh.count("lookups")
        check((k in m) == (e is not None) and (k in m.keys()) == (e is not None), "%s: %s in the map is %s", what, describe(k), k in m)
        v = m.get(k, keys)
        check(v is (keys if e is None else e[1]), "%s: get(%s)", what, describe(k))
        if e is None:
            expect_raises(KeyError, lambda: m[k], f"{what}: [{describe(k)}]")
            check(m.get(k) is None, "%s: get without default", what)
        else:
            check(m[k] is e[1] and (k, e[1]) in m.items(), "%s: [%s]", what, describe(k))


def case(sh, rng):
    rng.choices([history, comparison, pairs], [5, 4, 1])[0](sh, rng)


def pairs(sh, rng):
    ks = pool(rng) + pool(rng)
    for a in ks:
        for b in ks:
            sh.count("pairs of keys")
            want = ref(a) == ref(b)
            x, y = same_value_zero(a), same_value_zero(b)
            check((x == y) is want and (x != y) is not want, "same_value_zero(%s) == same_value_zero(%s) is %s", describe(a), describe(b), x == y)
            check(not want or hash(x) == hash(y), "hashes of %s and %s", describe(a), describe(b))
            check((a in JSMap([(b, 1)])) is want, "%s in a map of %s", describe(a), describe(b))
            check(len(JSMap([(a, 1), (b, 2)])) == (1 if want else 2), "a map of %s and %s", describe(a), describe(b))


def history(sh, rng):
    keys = pool(rng, 0.08)
    sh.count("large histories", len(keys) > 60)
    vals = [object() for _ in range(4)] + [None, 0, keys[0]]
    cls = JSMap if rng.random() < 0.9 else Sub
    model = {}
    ops, js, ids = [], [], {}

    def put(k, v):
        r = ref(k)
        sh.count("replacements" if r in model else "insertions")
        model[r] = (k, v)
        js.append(["set", js_key(k, ids)])

    def some(n):
        return [(rng.choice(keys), rng.choice(vals)) for _ in range(n)]

    def kwargs():
        return {rng.choice(["a", "1", "nan", "self", "init", "m", "other", "b"]): rng.choice(vals) for _ in range(rng.choice([0, 0, 1, 3]))}

    def source(items):
        """An argument for the constructor and update(), and the items it stands for."""
        how = rng.randrange(9)
        if how == 8:
            forms = [list, iter, tuple, lambda x: (y for y in x)]
            return rng.choice([list, iter])([rng.choice(forms)(x) for x in items]), items
        if how == 0:
            return iter(items), items
        if how == 1:
            return [list(x) for x in items], items
        if how == 2:
            return (x for x in items), items
        if how == 3:
            m = JSMap(items)
            return m, list(m.items())
        if how == 4:
            o = KeysOnly(items)
            return o, [(k, o[k]) for k in o.keys()]
        if how == 5:
            return Registered(items), items
        if how == 6:
            try:
                d = dict(items)
            except (TypeError, RuntimeError):
                return list(items), items
            return (d, types.MappingProxyType(d), collections.UserDict(d))[rng.randrange(3)], list(d.items())
        return items, items

    if rng.random() < 0.2:
        m = cls()
    else:
        src, items = source(some(many(rng, keys, 6)))
        kw = kwargs()
        m = cls(src, **kw) if items or rng.random() < 0.7 else cls(**kw)
        for k, v in items + list(kw.items()):
            put(k, v)
    check(type(m) is cls, "type")
    compare(sh, m, model, keys, "new map")
    for _ in range(rng.choice([2, 5, 10, 25])):
        op = rng.choices(["set", "del", "pop", "popdef", "popitem", "setdefault", "update", "clear", "temp", "self", "fail", "copy"],
                         [8, 3, 2, 1, 1, 2, 2, 0.2, 1, 0.3, 0.3, 0.7])[0]
        k, v = rng.choice(keys), rng.choice(vals)
        if rng.random() < 0.3:
            k = again(rng, k)
        r = ref(k)
        e = model.get(r)
        ops.append(op)
        what = f"after {ops} with {describe(k)}"
        sh.count("operations")
        if op == "set":
            m[k] = v
            put(k, v)
        elif op in ("del", "pop", "popdef"):
            fn = {"del": lambda: m.__delitem__(k), "pop": lambda: m.pop(k), "popdef": lambda: m.pop(k, ops)}[op]
            if e is not None:
                x = fn()
                check(op == "del" or x is e[1], "%s: pop gave %s", what, describe(x))
                del model[r]
                js.append(["del", js_key(k, ids)])
            elif op == "popdef":
                check(fn() is ops, "pop default")
            else:
                sh.count("refused operations")
                expect_raises(KeyError, fn, what)
        elif op == "popitem":
            if model:
                a, b = m.popitem()
                x = model.pop(ref(a), None)
                check(x is not None and x[1] is b, "%s: popitem gave (%s, %s)", what, describe(a), describe(b))
                js.append(["del", js_key(a, ids)])
            else:
                sh.count("refused operations")
                expect_raises(KeyError, m.popitem, what)
        elif op == "setdefault":
            x = m.setdefault(k, v)
            if e is None:
                put(k, v)
            check(x is model[r][1], "%s: setdefault gave %s", what, describe(x))
        elif op == "update":
            src, items = source(some(many(rng, keys, 6)))
            kw = kwargs()
            m.update(src, **kw) if items or rng.random() < 0.7 else m.update(**kw)
            for a, b in items + list(kw.items()):
                put(a, b)
        elif op == "clear":
            m.clear()
            model.clear()
            js.append(["clear"])
        elif op == "self":
            m.update(m)
            m.update(m.items())
        elif op == "temp":  # the map keeps its keys alive; others with a reused identity are not in it
            n = len(m)
            t = fresh(rng)
            kind = ref(t)
            if kind in model:
                continue
            m[t] = v
            check(len(m) == n + 1, "%s: a new %s did not add an entry", what, describe(t))
            put(t, v)
            del t
            for _ in range(20):
                check([] not in m and JSObject() not in m and AlwaysEqual() not in m, "%s: a new object is in the map", what)
            a = list(m)[-1]
            check(ref(a) == kind, "%s: the last key", what)
            if rng.random() < 0.5:
                del m[a]
                del model[kind]
                js.append(["del", js_key(a, ids)])
                del a
                for _ in range(20):
                    check([] not in m and {} not in m and bytearray() not in m, "%s: a new object is in the map", what)
            else:
                keys.append(a)
        elif op == "fail":
            items = some(many(rng, keys, 4))

            def failing():
                yield from items
                raise ZeroDivisionError

            before = dict(model)
            expect_raises(ZeroDivisionError, lambda: m.update(failing()), what)
            for a, b in items:  # entries before the failure are in or not, in order
                if same(m, model):
                    break
                put(a, b)
            check(same(m, model), "%s: a failing update left %d entries (%d before)", what, len(m), len(before))
        else:
            copies(sh, rng, m, model, keys, what)
        compare(sh, m, model, keys if len(keys) < 12 or rng.random() < 0.2 else rng.sample(keys, 8), what)
    sh.count("unhashable keys", sum(1 for k in m if isinstance(k, (list, dict, bytearray, JSObject, JSMap, JSSet, Refuses, NeverEqual))))
    if len(ops) >= 4:
        sh.nontrivial(tuple(ops), tuple(r[0] if r[0] == "o" else r for r in model))
    if rng.random() < 0.15 and all(len(x) == 1 or x[1] is not None for x in js):
        v8(sh, m, js, ids)


def same(m, model):
    got = list(m.items())
    return len(got) == len(model) and all(ref(a) == r and b is v for (a, b), (r, (_, v)) in zip(got, model.items()))


def copies(sh, rng, m, model, keys, what):
    """A copy is a map of its own in which its keys are found."""
    how = rng.randrange(3)
    noted = isinstance(m, Sub) and rng.random() < 0.7
    if noted:
        m.note = [5]
    if how == 0:
        c = copy.copy(m)
        check(type(c) is type(m), "%s: a copy is a %s", what, type(c).__name__)
        cm = dict(model)
        compare(sh, c, cm, keys, what + ": copy")
    else:
        try:
            c = copy.deepcopy(m) if how == 1 else pickle.loads(pickle.dumps(m, rng.randint(2, 5)))
        except (TypeError, AttributeError, pickle.PicklingError, RuntimeError):
            return  # some of the keys cannot be copied
        check(type(c) is type(m) and len(c) == len(m), "%s: a copy has %d entries of %d", what, len(c), len(m))
        cm = {ref(k): (k, v) for k, v in c.items()}
        check(len(cm) == len(m), "%s: a copy has merged keys", what)
        for (a, _), (b, _) in zip(m.items(), c.items()):
            check(type(a) is type(b) and (ref(a)[0] == "o" or ref(a) == ref(b)), "%s: key %s was copied to %s", what, describe(a), describe(b))
        compare(sh, c, cm, [k for k, _ in cm.values()], what + ": copy")
        for k in keys:
            if ref(k)[0] == "o" and ref(k) not in cm:
                check(k not in c, "%s: %s is in the copy", what, describe(k))
    check(not noted or c.note == [5] and (c.note is m.note) == (how == 0), "%s: attributes of the copy", what)
    t = [1]
    c[t] = 5
    check(t not in m, "%s: setting an item of a copy set it in the original", what)
    for k in list(c):
        del c[k]
    check(len(c) == 0, "%s: entries of a copy cannot be removed", what)
    compare(sh, m, model, keys, what + ": after changing a copy")
    sh.count("copies")


V8 = """(ops) => {""" + JS_KEY + """
  const m = new Map();
  for (const [op, k] of ops) { if (op === 'set') m.set(key(k), 1); else if (op === 'del') m.delete(key(k)); else m.clear(); }
  return [...m.keys()].map(name);
}"""


def v8(sh, m, js, ids):
    r = sh.node.eval(V8, js)
    want = [js_name(k, ids) for k in m]
    check(r == want, "JavaScript's map has keys %s, ours %s", r, want)
    sh.count("histories in V8")


def in_order(a, b):
    return list(a) == list(b)


def comparison(sh, rng):
    """Equality with maps and other mappings, as documented."""
    ks = [k for k in pool(rng, 0.05) if not isinstance(k, (Refuses, AlwaysEqual, NeverEqual))]
    if rng.random() < 0.15:
        ks.insert(rng.randint(0, min(2, len(ks))), rng.choice([lambda: Stubborn(ValueError()), lambda: Stubborn(RuntimeError()), lambda: Stubborn(KeyError()), lambda: memoryview(bytearray(b"x"))])())
        sh.count("keys that refuse hashing")
    large = len(ks) > 60
    if not large:
        ks = ks[: rng.choice([1, 2, 3, 6])]
    sh.count("large comparisons", large)
    if rng.random() < 0.5:
        ks = [k for k in ks if hashable(k)]
    vals = [0, 1, True, "x", [1], None, JSMap(a=1)]
    dup = not large and rng.random() < 0.35
    if dup:  # keys equal to one another
        makers = [f for f in [lambda: tuple([7]), lambda: frozenset([1]), lambda: JSRegExp("b"), lambda: 1, lambda: True] if rng.random() < 0.5]
        ks = ks[:3] + [f() for f in makers] + [f() for f in makers if rng.random() < 0.8] + [1.0] * rng.randint(0, 1)
        vals = [0, 0, 0, 1]
    items = list(JSMap([(k, rng.choice(vals)) for k in ks]).items())
    m = rng.choice([JSMap, Sub])(items)
    # the other has equal items, in this order or another, or not quite
    other = [(twin(rng, k), v if rng.random() < 0.7 else twin(rng, v)) for k, v in items]
    how = rng.random()
    if dup and how > 0.5:  # as many items, fewer of them with equal keys
        distinct = []
        for k, v in other:
            if not any(k == d for d, _ in distinct):
                distinct.append((k, v))
        other = distinct + [(k, 0) for k in ["more", "new", 77, (5,), "last", 99, None, 2.5]][: len(items) - len(distinct)]
        sh.count("comparisons with equal keys", len(distinct) < len(items))
    elif how < 0.2 and len(other) > 1:
        rng.shuffle(other)
    elif how < 0.3 and other:
        i = rng.randrange(len(other))
        other[i] = (other[i][0], "other")
    elif how < 0.4 and other:
        i = rng.randrange(len(other))
        other[i] = (rng.choice(["new", 77, (5,)]), other[i][1])
    elif how < 0.45 and other:
        other.pop(rng.randrange(len(other)))
    elif how < 0.5:
        other.append(("more", 1))
    for make in (JSMap, Sub, dict, collections.OrderedDict, lambda x: types.MappingProxyType(dict(x)), collections.UserDict, Registered, JSObject, list, "reg"):
        try:
            if make == "reg":
                JSMap.register(VirtualMap)
                o = VirtualMap(JSMap(other).items())
            elif make is Registered:
                o = Registered(other)
            elif make is JSObject:
                if not all(type(k) is str for k, _ in other):
                    continue
                o = JSObject(other)
            else:
                o = make(other)
        except Exception:  # not hashable
            continue
        mine = list(m.items())
        if isinstance(o, (JSMap, VirtualMap)):
            want = mine == list(o.items())
        elif isinstance(o, (list, JSObject)):
            want = False
        elif len(o) != len(mine):
            want = False
        else:
            try:
                d = dict(mine)
                want = d == dict(o)
            except Exception:
                if not isinstance(o, Registered):
                    want = False  # a dictionary cannot have these keys
                else:
                    want = mine == list(o.items())
        sh.count("comparisons")
        sh.count("comparisons that hold", want)
        text = f"{m!r} == {type(o).__name__} {[(describe(k), v) for k, v in other]}"
        check((m == o) is want and (m != o) is not want, "%s is %s", text[:900], m == o)
        if isinstance(o, (Registered, collections.UserDict)) and not isinstance(o, VirtualMap):
            continue  # their own comparison comes first
        check((o == m) is want and (o != m) is not want, "(reversed) %s is %s", text[:900], o == m)
    check(m == m and not m != m and m == copy.copy(m), "reflexive")
    sh.nontrivial("eq", tuple(ref(k)[0] for k, _ in items), round(how, 1))


class VirtualMap(Registered):
    """Becomes a virtual subclass of JSMap."""

    def __eq__(self, o):
        if isinstance(o, JSMap):
            return o.__eq__(self) if not isinstance(o, VirtualMap) else self.l == o.l
        return NotImplemented

    __hash__ = None


def hashable(v):
    try:
        hash(v)
        return True
    except Exception:
        return False


def twin(rng, v):
    """An equal value, perhaps another object."""
    if rng.random() < 0.4:
        return v
    if isinstance(v, float) and v != v:
        return v
    a = again(rng, v)
    if a is not v:
        return a
    try:
        return copy.deepcopy(v)
    except Exception:
        return v
