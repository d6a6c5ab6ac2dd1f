"""Sets follow same-value-zero membership and insertion order."""
import collections
import copy
import pickle

from harness.checks.p18 import Stubborn, twin
from harness.core import Violation, check, expect_raises
from harness.svz import JS_KEY, AlwaysEqual, NeverEqual, Refuses, again, describe, fresh, js_key, js_name, many, pool, ref
from v8serialize.jstypes import JSMap, JSObject, JSRegExp, JSSet

QUICK, THOROUGH = 100000, 2500000
RULE = "distinct (operation sequence, kinds of members at the end) of histories of at least 4 operations, and operand shapes of set algebra"
MIN = {"operations": 30000, "lookups": 300000, "refused operations": 1200, "algebra": 60000, "algebra with regular sets": 6000, "relations": 20000,
       "comparisons": 12000, "comparisons with equal members": 800, "comparisons that hold": 3000, "copies": 1000, "algebra in V8": 400, "histories in V8": 250, "in-place algebra": 15000, "large histories": 100, "large algebra": 50, "large comparisons": 50, "members that refuse hashing": 1000}
ASSUMPTIONS = ["V8 12.4 as embedded in Node.js 22 stands for JavaScript", "bytes are compared by content, as the library documents",
               "subset relations with other set types are not specified"]


class Sub(JSSet):
    pass


class OwnSet(collections.abc.Set):
    """A set of another kind, whose membership is by identity and which cannot say more than that."""

    def __init__(self, it=()):
        self.l = list(it)

    def __contains__(self, x):
        return any(x is y for y in self.l)

    def __iter__(self):
        return iter(self.l)

    def __len__(self):
        return len(self.l)


def text(xs):
    return [describe(x) for x in xs]


def members(xs):
    """Members without repetitions, in order."""
    return list({ref(x): x for x in xs}.values())


def refs(xs):
    return [ref(x) for x in xs]


def compare(sh, s, model, keys, what):
    """model: reference -> member, in insertion order."""
    got = list(s)
    check(refs(got) == list(model), "%s: members %s, expected %s", what, text(got), text(model.values()))
    check(len(s) == len(model) and bool(s) == bool(model), "%s: %d members, expected %d", what, len(s), len(model))
    for x in got:
        check(x in s, "%s: member %s is not in the set", what, describe(x))
    for k in keys:
        sh.count("lookups")
        check((k in s) == (ref(k) in model), "%s: %s in the set is %s", what, describe(k), k in s)


def case(sh, rng):
    rng.choices([history, algebra, comparison], [4, 5, 3])[0](sh, rng)


def model_of(xs):
    d = {}
    for x in xs:
        d.setdefault(ref(x), x)
    return d


def history(sh, rng):
    keys = pool(rng, 0.04)
    sh.count("large histories", len(keys) > 60)
    cls = JSSet if rng.random() < 0.9 else Sub
    xs = [rng.choice(keys) for _ in range(many(rng, keys, 6))]
    how = rng.randrange(6)
    s = cls() if how == 0 else cls([list, tuple, iter, lambda x: (i for i in x), JSSet][how - 1](xs))
    model = model_of(xs if how else [])
    check(type(s) is cls, "type")
    ops, ids = [], {}
    js = [["add", js_key(k, ids)] for k in model.values()]
    compare(sh, s, model, keys, "new set")
    for _ in range(rng.choice([2, 5, 10, 25])):
        op = rng.choices(["add", "discard", "remove", "pop", "clear", "|=", "&=", "-=", "^=", "temp", "fail", "copy", "self"], [8, 2, 2, 1, 0.2, 1, 0.5, 1, 1, 1, 0.3, 0.7, 0.3])[0]
        k = rng.choice(keys)
        if rng.random() < 0.3:
            k = again(rng, k)
        r = ref(k)
        ops.append(op)
        what = f"after {ops} with {describe(k)}"
        sh.count("operations")
        if op == "add":
            s.add(k)
            model.setdefault(r, k)
            js.append(["add", js_key(k, ids)])
        elif op in ("discard", "remove"):
            if r in model:
                check((s.discard if op == "discard" else s.remove)(k) is None, "result")
                del model[r]
                js.append(["delete", js_key(k, ids)])
            elif op == "discard":
                s.discard(k)
            else:
                sh.count("refused operations")
                expect_raises(KeyError, lambda: s.remove(k), what)
        elif op == "pop":
            if model:
                x = s.pop()
                check(model.pop(ref(x), s) is not s, "%s: popped %s", what, describe(x))
                js.append(["delete", js_key(x, ids)])
            else:
                sh.count("refused operations")
                expect_raises(KeyError, s.pop, what)
        elif op == "clear":
            s.clear()
            model.clear()
            js.append(["clear"])
        elif op in ("|=", "&=", "-=", "^="):
            other = [rng.choice(keys) for _ in range(many(rng, keys, 5))]
            if op == "&=" and rng.random() < 0.7:
                other += list(model.values())[: many(rng, keys, 9)]
            arg, other = operand(rng, other)
            before = s
            if op == "|=":
                s |= arg
                for x in other:
                    model.setdefault(ref(x), x)
                    js.append(["add", js_key(x, ids)])
            elif op == "-=":
                s -= arg
                for x in other:
                    model.pop(ref(x), None)
                    js.append(["delete", js_key(x, ids)])
            elif op == "&=":
                s &= arg
                keep = set(refs(other))
                for q in [q for q in model if q not in keep]:
                    js.append(["delete", js_key(model.pop(q), ids)])
            else:
                s ^= arg
                m = model_of(other)
                gone = [q for q in m if q in model]
                for q in gone:
                    js.append(["delete", js_key(model.pop(q), ids)])
                new = {q: x for q, x in m.items() if q not in gone}
                # the order among the added members is that of the operand
                got = [q for q in refs(s) if q in new]
                check(sorted(map(repr, got)) == sorted(map(repr, new)), "%s: ^= added %s", what, text(s))
                for q in got:
                    model[q] = new[q]
                    js.append(["add", js_key(new[q], ids)])
            check(s is before, "%s made another set", op)
            sh.count("in-place algebra")
        elif op == "self":
            before = s
            s |= s
            s &= s
            check(s is before, "|= and &= with itself made another set")
            compare(sh, s, model, keys, what)
            before = t = cls(s)
            t -= t
            check(len(t) == 0 and t is before, "s -= s leaves %s", text(t))
            before = t = cls(s)
            t ^= t
            check(len(t) == 0 and t is before, "s ^= s leaves %s", text(t))
        elif op == "temp":
            n = len(s)
            t = fresh(rng)
            kind = ref(t)
            if kind in model:
                continue
            s.add(t)
            model[kind] = t
            js.append(["add", js_key(t, ids)])
            del t
            check(len(s) == n + 1, "%s: a new object did not add a member", what)
            for _ in range(20):
                check([] not in s and JSObject() not in s and AlwaysEqual() not in s, "%s: a new object is in the set", what)
            if rng.random() < 0.5:
                a = list(s)[-1]
                s.remove(a)
                del model[kind]
                js.append(["delete", js_key(a, ids)])
                del a
                for _ in range(20):
                    check([] not in s and {} not in s and bytearray() not in s, "%s: a new object is in the set", what)
        elif op == "fail":
            items = [rng.choice(keys) for _ in range(many(rng, keys, 4))]

            def failing():
                yield from items
                raise ZeroDivisionError

            expect_raises(ZeroDivisionError, lambda: s.__ior__(failing()), what)
            for x in items:
                if refs(s) == list(model):
                    break
                model.setdefault(ref(x), x)
                js.append(["add", js_key(x, ids)])
        else:
            copies(sh, rng, s, model, keys, what)
        compare(sh, s, model, keys if len(keys) < 12 or rng.random() < 0.2 else rng.sample(keys, 8), what)
    if len(ops) >= 4:
        sh.nontrivial(tuple(ops), tuple(r[0] if r[0] == "o" else r for r in model))
    if rng.random() < 0.15 and all(len(x) == 1 or x[1] is not None for x in js):
        r = sh.node.eval(V8, js)
        want = [js_name(k, ids) for k in s]
        check(r == want, "JavaScript's set has %s, ours %s after %s", r, want, ops)
        sh.count("histories in V8")


V8 = """(ops) => {""" + JS_KEY + """
  const s = new Set();
  for (const [op, k] of ops) if (op === 'clear') s.clear(); else s[op](key(k));
  return [...s].map(name);
}"""


def copies(sh, rng, s, model, keys, what):
    how = rng.randrange(4)
    noted = isinstance(s, Sub) and rng.random() < 0.7
    if noted:
        s.note = [5]
    if how < 2:
        c = copy.copy(s) if how == 0 else type(s)(s)
        compare(sh, c, model, keys, what + ": copy")
    else:
        try:
            c = copy.deepcopy(s) if how == 2 else pickle.loads(pickle.dumps(s, rng.randint(2, 5)))
        except (TypeError, AttributeError, pickle.PicklingError, RuntimeError):
            return
        check(len(c) == len(s), "%s: a copy has %d members of %d", what, len(c), len(s))
        cm = model_of(c)
        check(len(cm) == len(s), "%s: a copy has merged members", what)
        for a, b in zip(s, c):
            check(type(a) is type(b) and (ref(a)[0] == "o" or ref(a) == ref(b)), "%s: %s was copied to %s", what, describe(a), describe(b))
        compare(sh, c, cm, list(cm.values()), what + ": copy")
        for k in keys:
            if ref(k)[0] == "o" and ref(k) not in cm:
                check(k not in c, "%s: %s is in the copy", what, describe(k))
    check(type(c) is type(s), "%s: the copy is a %s", what, type(c).__name__)
    check(not noted or how == 1 or c.note == [5] and (c.note is s.note) == (how == 0), "%s: attributes of the copy", what)
    t = [1]
    c.add(t)
    check(t not in s, "%s: adding to a copy added to the original", what)
    for x in list(c):
        c.remove(x)
    check(len(c) == 0, "%s: members of a copy cannot be removed", what)
    compare(sh, s, model, keys, what + ": after changing a copy")
    sh.count("copies")


def operand(rng, xs):
    """The members in an iterable of a random kind, and what it iterates."""
    how = rng.randrange(10)
    if how < 2:
        try:
            s = (set, frozenset)[how](xs)
            return s, list(s)
        except (TypeError, RuntimeError):
            return list(xs), xs
    if how == 2:
        return iter(xs), xs
    if how == 3:
        return (x for x in xs), xs
    if how == 4:
        s = JSSet(xs)
        return s, list(s)
    if how == 5:
        m = JSMap((x, 1) for x in xs)
        return rng.choice([m, m.keys()]), list(m)
    if how == 6:
        try:
            d = dict.fromkeys(xs)
            return rng.choice([d, d.keys()]), list(d)
        except (TypeError, RuntimeError):
            return tuple(xs), xs
    if how == 7:
        u = list(model_of(xs).values())
        return OwnSet(u), u
    if how == 8:
        s = Sub(xs)
        return s, list(s)
    return list(xs), xs


def algebra(sh, rng):
    keys = pool(rng, 0.02)
    sh.count("large algebra", len(keys) > 60)
    a = [rng.choice(keys) for _ in range(many(rng, keys, 7))]
    s = rng.choice([JSSet, JSSet, JSSet, Sub])(a)
    am = model_of(a)
    b = [again(rng, x) if rng.random() < 0.3 else x for x in (rng.choice(keys) for _ in range(many(rng, keys, 7)))]
    shapes = []
    for op in "|&-^":
        other, b2 = operand(rng, b)
        bm = model_of(b2)
        kind = type(other).__name__
        want = {"|": list(am) + [r for r in bm if r not in am], "&": [r for r in am if r in bm], "-": [r for r in am if r not in bm],
                "^": [r for r in am if r not in bm] + [r for r in bm if r not in am]}[op]
        res = {"|": lambda x, y: x | y, "&": lambda x, y: x & y, "-": lambda x, y: x - y, "^": lambda x, y: x ^ y}[op](s, other)
        what = f"{text(a)} {op} {kind} {text(b2)}"
        judge(sh, res, want, op in "|-", what)
        check(isinstance(res, type(s)) and res is not s, "%s is a %s", what, type(res).__name__)
        check(refs(s) == list(am), "%s changed its operand", what)
        if isinstance(other, (set, frozenset)):
            sh.count("algebra with regular sets")
        # the other way around, unless the other type has its own idea
        other, b2 = operand(rng, b)
        if isinstance(other, (OwnSet, JSSet)) or isinstance(other, collections.abc.KeysView) or type(other) is dict or isinstance(other, JSMap) and op == "|":
            continue
        bm = model_of(b2)
        want = {"|": list(bm) + [r for r in am if r not in bm], "&": [r for r in am if r in bm], "-": [r for r in bm if r not in am],
                "^": [r for r in am if r not in bm] + [r for r in bm if r not in am]}[op]
        res = {"|": lambda x, y: x | y, "&": lambda x, y: x & y, "-": lambda x, y: x - y, "^": lambda x, y: x ^ y}[op](other, s)
        what = f"{type(other).__name__} {text(b2)} {op} {text(a)}"
        judge(sh, res, want, op == "-", what)
        check(isinstance(res, JSSet), "%s is a %s", what, type(res).__name__)
        shapes.append((kind, len(want)))
    other, b2 = operand(rng, b)
    bm = model_of(b2)
    sh.count("relations")
    check(s.isdisjoint(other) is (not set(am) & set(bm)), "%s.isdisjoint(%s)", text(a), text(b2))
    for t, tm in ((JSSet(b), model_of(b)), (Sub(b), model_of(b)), (JSSet(am.values()), am), (JSSet(list(am.values())[1:]), model_of(list(am.values())[1:]))):
        x, y = set(am), set(tm)
        sh.count("relations", 4)
        check((s <= t) is (x <= y) and (s < t) is (x < y) and (s >= t) is (x >= y) and (s > t) is (x > y), "relations of %s and %s", text(s), text(t))
        check((t <= s) is (y <= x) and (t < s) is (y < x), "relations of %s and %s", text(t), text(s))
    for bad in (5, None, 1.5):
        for fn in (lambda: s | bad, lambda: s & bad, lambda: s - bad, lambda: s ^ bad, lambda: bad - s, lambda: bad | s, lambda: s < bad):
            expect_raises(TypeError, fn, "set algebra with " + repr(bad))
    check(refs(s) == list(am), "the set was changed by set algebra")
    sh.nontrivial("algebra", tuple(shapes), len(am), len(set(am) & set(bm)))
    if rng.random() < 0.15:
        v8_algebra(sh, list(am.values()), b)


V8_ALGEBRA = """([a, b]) => {""" + JS_KEY + """
  const s = new Set(a.map(key)), t = new Set(b.map(key));
  return [[...s.union(t)].map(name), [...s.intersection(t)].map(name).sort(), [...s.difference(t)].map(name), [...s.symmetricDifference(t)].map(name).sort(),
          s.isSubsetOf(t), s.isSupersetOf(t), s.isDisjointFrom(t)];
}"""


def v8_algebra(sh, a, b):
    ids = {}
    ja, jb = [js_key(k, ids) for k in a], [js_key(k, ids) for k in b]
    if None in ja or None in jb:
        return
    r = sh.node.eval(V8_ALGEBRA, [ja, jb])
    s, t = JSSet(a), JSSet(b)
    n = lambda xs: [js_name(k, ids) for k in xs]
    want = [n(s | t), sorted(n(s & t)), n(s - t), sorted(n(s ^ t)), s <= t, s >= t, s.isdisjoint(t)]
    check(r == want, "JavaScript's set algebra on %s and %s gives %s, ours %s", text(a), text(b), r, want)
    sh.count("algebra in V8")


def judge(sh, res, want, ordered, what):
    sh.count("algebra")
    got = refs(res)
    ok = got == want if ordered else sorted(map(repr, got)) == sorted(map(repr, want))
    check(ok, "%s gave %s", what, text(res))


def comparison(sh, rng):
    ks = [k for k in pool(rng, 0.03) if not isinstance(k, (Refuses, AlwaysEqual, NeverEqual))]
    if rng.random() < 0.15:
        ks.insert(rng.randint(0, min(2, len(ks))), rng.choice([lambda: Stubborn(ValueError()), lambda: Stubborn(RuntimeError()), lambda: Stubborn(KeyError()), lambda: memoryview(bytearray(b"x"))])())
        sh.count("members that refuse hashing")
    large = len(ks) > 60
    if not large:
        ks = ks[: rng.choice([0, 1, 2, 3, 6])]
    sh.count("large comparisons", large)
    if rng.random() < 0.5:
        ks = [k for k in ks if hashable(k)]
    dup = not large and rng.random() < 0.35
    if dup:  # members equal to one another
        makers = [f for f in [lambda: tuple([7]), lambda: frozenset([1]), lambda: JSRegExp("a"), lambda: 1, lambda: True] if rng.random() < 0.5]
        ks = ks[:3] + [f() for f in makers] + [f() for f in makers if rng.random() < 0.8] + [1.0] * rng.randint(0, 1)
    s = rng.choice([JSSet, Sub])(ks)
    mine = list(s)
    other = [twin(rng, k) for k in mine]
    how = rng.random()
    if dup and how > 0.5:  # as many members, fewer of them equal
        distinct = []
        for k in other:
            if k not in distinct:
                distinct.append(k)
        other = distinct + ["more", "new", 77, (5,), "last", 99, None, 2.5][: len(mine) - len(distinct)]
        sh.count("comparisons with equal members", len(distinct) < len(mine))
    if how < 0.2:
        rng.shuffle(other)
    elif how < 0.3 and other:
        other[rng.randrange(len(other))] = rng.choice(["new", 77, (5,)])
    elif how < 0.4 and other:
        other.pop()
    elif how < 0.5:
        other.append("more")
    for make in (JSSet, Sub, set, frozenset, dict.fromkeys, OwnSet, list, tuple, "virtual"):
        try:
            if make == "virtual":
                JSSet.register(VirtualSet)
                o = VirtualSet(list(JSSet(other)))
            elif make is dict.fromkeys:
                o = dict.fromkeys(other).keys()
            else:
                o = make(other)
        except Exception:  # not hashable
            continue
        if isinstance(o, (JSSet, VirtualSet)):
            want = mine == list(o)
        elif isinstance(o, (list, tuple)) or len(mine) != len(o):
            want = False
        else:
            try:
                p = set(mine)
            except Exception:
                # members in order, which no regular set can have
                want = mine == list(o) if isinstance(o, OwnSet) else False
            else:
                if isinstance(o, OwnSet):
                    continue  # decided by its own comparison
                want = p == o
        sh.count("comparisons")
        sh.count("comparisons that hold", want)
        t = f"{text(mine)} == {type(o).__name__} {text(o)}"
        check((s == o) is want and (s != o) is not want, "%s is %s", t, s == o)
        if isinstance(o, OwnSet):
            continue
        if isinstance(o, collections.abc.KeysView):
            continue
        check((o == s) is want and (o != s) is not want, "(reversed) %s is %s", t, o == s)
    check(s == s and not s != s and s == copy.copy(s), "reflexive")
    sh.nontrivial("eq", tuple(ref(k)[0] for k in mine), round(how, 1))


class VirtualSet(OwnSet):
    """Becomes a virtual subclass of JSSet."""

    def __eq__(self, o):
        if isinstance(o, VirtualSet):
            return self.l == o.l
        return o.__eq__(self) if isinstance(o, JSSet) else NotImplemented

    __hash__ = None


def hashable(v):
    try:
        hash(v)
        return True
    except Exception:
        return False
