"""Dense and sparse array storage are indistinguishable."""
import copy
import itertools
import pickle
import random

from harness.core import Violation, check, expect_raises, short
from v8serialize import dumps
from v8serialize._typing import ElementsView, Order, SparseMutableSequence
from v8serialize.jstypes import JSArray, JSHole
from v8serialize.jstypes.jsarrayproperties import DenseArrayProperties, SparseArrayProperties

QUICK, THOROUGH = 24000, 400000
RULE = "distinct (operation sequence, final occupancy) of histories"
MIN = {"operations": 100000, "states compared": 60000, "refused operations": 15000, "short histories": 8000, "long sparse states": 4000,
       "constructions": 10000, "live view reads": 100000, "comparisons": 50000, "serialized alike": 1000, "large histories": 100, "large comparisons": 30, "large sparse histories": 50, "copies": 2000, "long comparisons": 500, "elements beyond the length": 300, "huge states": 200}
ASSUMPTIONS = ["slices are not supported by either storage (NotImplementedError)"]
MAXLEN = 2**32 - 1
NAN = float("nan")


class Odd:
    """Equal only to others of the same colour."""

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return isinstance(o, Odd) and o.c == self.c

    __hash__ = None

    def __repr__(self):
        return f"Odd({self.c})"


VALUES = [0, 1, True, False, 1.0, 0.0, -0.0, NAN, None, "", "a", Odd(1), Odd(1), Odd(2), [], [], {}, (1,), "JSHole", float("nan")]


def is_list(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def text(xs):
    """The documented text: runs of holes are counted."""
    out = []
    for hole, g in itertools.groupby(xs, lambda v: v is JSHole):
        g = list(g)
        out += [f"<{len(g)} empty items>"] if hole else [repr(v) for v in g]
    return "[ " + ", ".join(out) + " ]"


def compare(sh, a, xs, what, deep=True, probe=()):
    """One storage agrees with the list."""
    n = len(xs)
    check(len(a) == n, "%s: length %d, expected %d", what, len(a), n)
    used = [i for i, v in enumerate(xs) if v is not JSHole]
    check(a.elements_used == len(used), "%s: elements_used %d, expected %d", what, a.elements_used, len(used))
    check(is_list(list(a), xs), "%s: %s, expected %s", what, short(list(a)), short(xs))
    if not deep:
        return
    check(list(a.element_indexes()) == used, "%s: indexes %s, expected %s", what, list(a.element_indexes()), used)
    check(list(a.element_indexes(order=Order.ASCENDING)) == used, "%s: ascending", what)
    check(list(a.element_indexes(order=Order.DESCENDING)) == used[::-1], "%s: descending indexes %s", what, list(a.element_indexes(order=Order.DESCENDING)))
    check(sorted(a.element_indexes(order=Order.UNORDERED)) == used, "%s: unordered indexes", what)
    for i in range(-n, n):
        check(a[i] is xs[i], "%s: [%d] is %s, expected %s", what, i, short(a[i]), short(xs[i]))
    for i in (n, n + 1, -n - 1, -n - 2, 2**32, -(2**32)):
        expect_raises(IndexError, lambda: a[i], f"{what}[{i}] of {n}")
    check(is_list(list(reversed(a)), xs[::-1]), "%s: reversed", what)
    check(str(a) == text(xs), "%s: text %s, expected %s", what, str(a), text(xs))
    check(bool(a) == bool(xs) and a.hole_value is JSHole, "%s: truth", what)
    for v in probe:
        check((v in a) == (v in xs), "%s: %s in it is %s", what, short(v), v in a)
        check(a.count(v) == xs.count(v), "%s: count(%s) is %d, expected %d", what, short(v), a.count(v), xs.count(v))
        outcome(sh, lambda: a.index(v), lambda: xs.index(v), f"{what}.index")


def outcome(sh, f, g, what):
    """Both give the same object, or both raise the same kind of error."""
    def run(fn):
        try:
            return ("ok", fn())
        except (IndexError, ValueError, NotImplementedError, TypeError) as e:
            return (type(e).__name__, None)

    r, w = run(f), run(g)
    if r[0] != "ok":
        sh.count("refused operations")
    check(r[0] == w[0] and (r[1] is w[1] or isinstance(r[1], int) and type(r[1]) is type(w[1]) and r[1] == w[1] or type(r[1]) is list and r[1] == w[1]),
          "%s: %s, expected %s", what, short(r), short(w))
    return r[0] == "ok"


class Raising(Exception):
    pass


def failing(xs):
    yield from xs
    raise Raising


class List(list):
    """A plain list with the sizing operation."""

    def resize(self, n):
        if not 0 <= n <= MAXLEN:
            raise ValueError
        if n < len(self):
            del self[n:]
        else:
            super().extend([JSHole] * (n - len(self)))


OPS = {
    "set": lambda a, i, v, xs: a.__setitem__(i, v),
    "get": lambda a, i, v, xs: a[i],
    "del": lambda a, i, v, xs: a.__delitem__(i),
    "insert": lambda a, i, v, xs: a.insert(i, v),
    "append": lambda a, i, v, xs: a.append(v),
    "pop": lambda a, i, v, xs: a.pop(i),
    "poplast": lambda a, i, v, xs: a.pop(),
    "remove": lambda a, i, v, xs: a.remove(v),
    "extend": lambda a, i, v, xs: a.extend(list(xs)),
    "extenditer": lambda a, i, v, xs: a.extend(iter(xs)),
    "extendself": lambda a, i, v, xs: a.extend(a) if len(a) < 200 else None,
    "iadd": lambda a, i, v, xs: None if a.__iadd__(list(xs)) is a else "another object",
    "reverse": lambda a, i, v, xs: a.reverse(),
    "clear": lambda a, i, v, xs: a.clear(),
    "resize": lambda a, i, v, xs: a.resize(i),
    "index": lambda a, i, v, xs: a.index(v, i),
    "index2": lambda a, i, v, xs: a.index(v, i // 2, i),
    "count": lambda a, i, v, xs: a.count(v),
    "in": lambda a, i, v, xs: int(v in a),
    "fill": lambda a, i, v, xs: [a.__setitem__(j, v) for j in range(min(abs(i), len(a)))] and None,
    "holes": lambda a, i, v, xs: [a.__setitem__(j, JSHole) for j in range(min(abs(i), len(a)))] and None,
    "holesdown": lambda a, i, v, xs: [a.__setitem__(-1 - j, JSHole) for j in range(min(abs(i), len(a)))] and None,
}
WEIGHT = {"set": 8, "append": 4, "insert": 3, "del": 3, "resize": 4, "clear": 0.3, "extendself": 0.5}


def apply(sh, op, args, storages, xs):
    want = List(xs)
    ok = None
    for a in storages:
        m = List(xs)
        ok = outcome(sh, lambda: OPS[op](a, *args), lambda: OPS[op](m, *args), f"{type(a).__name__}.{op}{short(args, 150)} on {short(xs)}")
        want = m
    return ok, list(want)


class Views:
    """Views taken earlier stay live."""

    def __init__(self, rng, a, order):
        self.v, self.order = a.elements(order=order), order
        self.items, self.keys, self.values = self.v.items(), self.v.keys(), self.v.values()

    def compare(self, sh, xs, what):
        v = self.v
        used = [i for i, x in enumerate(xs) if x is not JSHole]
        want = used[::-1] if self.order is Order.DESCENDING else used
        got = list(v)
        check(v.order is self.order and len(v) == len(used) and isinstance(v, ElementsView), "%s: view of %d elements has %d", what, len(used), len(v))
        check((sorted(got) if self.order is Order.UNORDERED else got) == want, "%s: %s view iterates %s, expected %s", what, self.order, got, want)
        check(list(self.keys) == got and len(self.items) == len(used) and is_list(list(self.values), [xs[i] for i in got]), "%s: views of the view", what)
        check([k for k, _ in self.items] == got and is_list([x for _, x in self.items], [xs[i] for i in got]), "%s: items", what)
        n = len(xs)
        for i in list(range(-2, 0)) + list(range(0, min(n, 8))) + [n - 1, n, n + 3]:
            here = 0 <= i < n and xs[i] is not JSHole
            check((i in v) == here and (v.get(i, sh) is (xs[i] if here else sh)), "%s: view[%d] with %d elements", what, i, n)
            if here:
                check(v[i] is xs[i], "view item")
            else:
                expect_raises(KeyError, lambda: v[i], f"{what}: view[{i}]")
        sh.count("live view reads", n + 8)


def random_list(rng, n, holes):
    return [JSHole if rng.random() < holes else rng.choice(VALUES) for _ in range(n)]


def construct(sh, rng, xs):
    """Both storages made in a random one of the ways to make them."""
    sh.count("constructions", 2)
    how = rng.randrange(4)
    mine = [list, tuple, iter, lambda x: (v for v in x)][how](xs)
    d = DenseArrayProperties(mine) if xs or rng.random() < 0.5 else DenseArrayProperties()
    if how == 0:  # the values were copied
        mine[:] = ["alias"]
    e = [(i, v) for i, v in enumerate(xs) if v is not JSHole]
    rng.shuffle(e)
    how = rng.randrange(9)
    n = len(xs)
    given = e
    if rng.random() < 0.1:  # elements after the end are left out, or refused
        given = e + [(n + rng.choice([0, 0, 1, 5]), "beyond")]
        rng.shuffle(given)
    if how < 3:
        s = SparseArrayProperties([list, iter, DenseArrayProperties][how](xs))
    elif 3 <= how <= 5 and given is not e:
        try:
            s = SparseArrayProperties(entries=[list, iter, dict][how - 3](given), length=n)
        except (IndexError, ValueError):
            s = SparseArrayProperties(entries=e, length=n)
        sh.count("elements beyond the length")
    elif how == 3:
        s = SparseArrayProperties(entries=e, length=n)
    elif how == 4:
        s = SparseArrayProperties(entries=iter(e), length=n)
    elif how == 5:
        mine = dict(e)
        s = SparseArrayProperties(entries=mine, length=n)
        mine.clear()
    elif how == 6:
        s = SparseArrayProperties(entries=d.elements(), length=n)
    elif how == 7:  # keys and [] only
        class Pairs:
            def keys(self):
                return [i for i, _ in e]

            def __getitem__(self, k):
                return dict(e)[k]

        s = SparseArrayProperties(entries=Pairs(), length=n)
    else:  # the length follows from the last element
        s = SparseArrayProperties(entries=rng.choice([list, dict, iter])(e))
        s.resize(n)
    return d, s


def case(sh, rng):
    rng.choices([history, long_sparse, refusals, equality], [6, 2, 0.5, 2])[0](sh, rng)


def history(sh, rng):
    large = rng.random() < 0.03
    xs = random_list(rng, rng.choice([0, 1, 2, 3, 5, 8, 20, 60] if not large else [150, 300, 600, 1100, 2200]), rng.choice([0, 0.1, 0.5, 0.9, 1]))
    sh.count("large histories", large)
    storages = construct(sh, rng, xs)
    d, s = storages
    views = []
    ops = []
    probe = rng.sample(VALUES, 3) + [JSHole]
    for a in storages:
        compare(sh, a, xs, "new " + type(a).__name__, probe=probe)
    pool = rng.sample(VALUES, rng.randint(1, 6)) + [JSHole]
    names = list(OPS)
    w = [WEIGHT.get(n, 1) * rng.choice([0.2, 1, 1, 3]) for n in names]
    for step in range(rng.choice([2, 5, 15, 40])):
        op = rng.choices(names, w)[0]
        n = len(xs)
        i = rng.choice([0, 1, -1, n - 1, n, n + 1, -n, -n - 1, n // 2, rng.randint(-n - 2, n + 2), rng.randint(-3, 8)])
        if n >= 150 and rng.random() < 0.6:
            i = rng.randint(-n, n)
        if op == "resize" and rng.random() < 0.6:
            i = rng.randint(0, n + rng.choice([0, 1, 30])) if rng.random() < 0.9 else rng.choice([-1, 2**32, 2**40])
        v = rng.choice(pool)
        ext = [rng.choice(pool) for _ in range(rng.randint(0, 4 if not large else 300))] if n < (300 if not large else 4000) else []
        if op == "clear" and large and rng.random() < 0.9:
            continue
        ops.append(op)
        before = xs
        sh.count("operations", 2)
        _, xs = apply(sh, op, (i, v, ext), storages, xs)
        deep = rng.random() < (0.4 if n < 150 else 0.1)  # reading refreshes caches: it must not matter when
        for a in storages:
            what = f"{type(a).__name__} after {op}({i}, {short(v, 40)}, {short(ext, 60)}) on {short(before, 300)} (history {ops})"
            compare(sh, a, xs, what, deep=deep, probe=probe[:2] if deep else ())
            if rng.random() < 0.15:  # only the sorted indexes
                check(list(a.element_indexes(order=Order.DESCENDING)) == [j for j in range(len(xs) - 1, -1, -1) if xs[j] is not JSHole], "%s: descending", what)
        sh.count("states compared", 2)
        if rng.random() < 0.1 and len(views) < 6:
            for a in storages:
                views.append(Views(rng, a, rng.choice(list(Order))))
        if views and rng.random() < 0.3:
            for x in views:
                x.compare(sh, xs, f"view after {ops}")
    for a in storages:
        compare(sh, a, xs, f"{type(a).__name__} after {ops}", deep=len(xs) < 4000, probe=probe)
        check(isinstance(a, SparseMutableSequence), "not a SparseMutableSequence")
    both_equal(sh, d, s)
    if rng.random() < 0.3:
        copies(sh, rng, storages, xs, f"copies after {ops}")
    fail_midway(sh, rng, storages, xs)
    sh.nontrivial(tuple(ops), "".join("." if v is JSHole else "x" for v in xs))
    if rng.random() < 0.2:
        p = [JSHole if v is JSHole else i for i, v in enumerate(xs)]
        x, y = JSArray(), JSArray()
        x.array, y.array = DenseArrayProperties(p), SparseArrayProperties(p)
        if rng.random() < 0.5:
            x["t"] = y["t"] = 1
        check(bytes(dumps(x)) == bytes(dumps(y)), "serialized differently: %s and %s", bytes(dumps(x)).hex(), bytes(dumps(y)).hex())
        sh.count("serialized alike")


def copies(sh, rng, storages, xs, what):
    """A copy has the same elements, and its own."""
    how = rng.choice([copy.copy, copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x, rng.randint(2, 5)))])
    deep = how is not copy.copy
    if deep:  # values that are the same after copying
        xs = [x if x is JSHole else i for i, x in enumerate(xs)]
        storages = (DenseArrayProperties(xs), SparseArrayProperties(xs))
    read = rng.random() < 0.5
    for a in storages:
        if read:
            list(a.element_indexes())
        c = how(a)
        t = f"{what}: copy of {type(a).__name__}"
        check(type(c) is type(a) and c is not a, "%s is a %s", t, type(c).__name__)
        if deep:
            check(len(c) == len(xs) and all((x is JSHole) == (y is JSHole) and (x is y or x == y) for x, y in zip(c, xs)), "%s: %s", t, short(list(c)))
            ys = list(c)
        else:
            compare(sh, c, xs, t, deep=len(xs) < 300)
            ys = list(xs)
        both_equal(sh, a, c)
        sides = [[a, list(xs)], [c, ys]]
        for _ in range(3):
            rng.shuffle(sides)
            op, i = rng.choice(["set", "set", "append", "del", "insert", "pop", "resize", "clear", "reverse", "iadd"]), rng.randint(0, len(sides[0][1]) + 1)
            _, sides[0][1] = apply(sh, op, (i, rng.choice(["mine", JSHole]), ["x"]), [sides[0][0]], sides[0][1])
            for b, zs in sides:
                compare(sh, b, zs, f"{t}, {op}({i}) on one of them", deep=len(xs) < 50)
        if not deep:  # as it was
            a.clear()
            a.extend(xs)
        sh.count("copies")


def fail_midway(sh, rng, storages, xs):
    ext = random_list(rng, rng.randint(0, 5), 0.3)
    for a in storages:
        expect_raises(Raising, lambda: a.extend(failing(ext)), "extend from a failing iterator")
        compare(sh, a, xs + ext, f"{type(a).__name__} after a failing extend", deep=len(xs) < 100)


def both_equal(sh, a, b, want=True):
    sh.count("comparisons", 4)
    for x, y in ((a, b), (b, a), (a, a), (b, b)):
        w = True if x is y else want
        check((x == y) is w and (x != y) is (not w), "%s == %s is %s", short(x, 200), short(y, 200), x == y)


def equality(sh, rng):
    large = rng.random() < 0.03
    xs = random_list(rng, rng.randint(0, 12) if not large else rng.choice([40, 130, 400, 1500]), rng.choice([0, 0.3, 0.8]))
    sh.count("large comparisons", large)
    a, b = construct(sh, rng, xs), construct(sh, rng, [list(v) if type(v) is list else v for v in xs])
    for x in a:
        for y in b:
            both_equal(sh, x, y)
            check(x != list(xs) and not x == tuple(xs), "equal to a list")
    ys = list(xs)
    how = rng.randrange(6)
    if how == 0:
        ys.append(JSHole)
    elif how == 1:
        ys.insert(rng.randint(0, len(ys)), "new")
    elif not ys:
        return
    elif how == 2:
        i = rng.randrange(len(ys))
        ys[i] = "new" if ys[i] is JSHole else JSHole
    elif how == 3:
        i = rng.choice([rng.randrange(len(ys)), len(ys) - 1, 0])
        ys[i] = "new"
    elif how == 4:
        ys.pop(rng.randrange(len(ys)))
    else:
        ys.reverse()
    if len(ys) == len(xs) and all((p is JSHole) == (q is JSHole) and (p is q or p == q) for p, q in zip(xs, ys)):
        return
    for x in a:
        for y in construct(sh, rng, ys):
            both_equal(sh, x, y, False)
    sh.count("comparisons", 10)
    sh.nontrivial("eq", len(xs), how, "".join("." if v is JSHole else "x" for v in xs))


def refusals(sh, rng):
    e = expect_raises
    n = rng.choice([0, 1, 5])
    for length in (-1, 2**32, 2**40, -(2**32)):
        e(ValueError, lambda: SparseArrayProperties(entries=[], length=length), f"length={length}")
        for a in construct(sh, rng, [1] * n):
            e(ValueError, lambda: a.resize(length), f"resize({length})")
            compare(sh, a, [1] * n, "after a refused resize")
    e(ValueError, lambda: SparseArrayProperties([1] * n, length=n), "values with a length")
    for i in (-1, -(2**32), 2**32 - 1, 2**40):
        e(IndexError, lambda: SparseArrayProperties(entries=[(0, 1), (i, 2)]), f"element {i}")
        e(IndexError, lambda: SparseArrayProperties(entries={i: 2}), f"element {i}")
        if i < 0:
            e(IndexError, lambda: SparseArrayProperties(entries=[(0, 1), (i, 2)], length=5), f"element {i}")
    for a in construct(sh, rng, [1, JSHole, 3]):
        for fn in (lambda: a[0:2], lambda: a.__setitem__(slice(0, 1), [1]), lambda: a.__delitem__(slice(0, 1)), lambda: a[:], lambda: a[::2]):
            e(NotImplementedError, fn, "a slice")
        compare(sh, a, [1, JSHole, 3], "after a refused slice")
    sh.count("refused operations", 30)


def long_sparse(sh, rng):
    """Lengths that cannot be walked: against a dictionary."""
    n = rng.choice([MAXLEN, MAXLEN - 1, MAXLEN - 3, 2**31, 2**20, 2**32 - 50])
    d = {rng.choice([0, 1, n - 1, n - 2, n // 2, rng.randrange(n)]): i for i in range(rng.randint(0, 6))}
    if rng.random() < 0.05:
        top = rng.choice([n, n, 2**20, 5000])
        d |= {rng.randrange(top): i for i in range(rng.choice([20, 60, 120, 350, 800]))}
        sh.count("large sparse histories")
    a = SparseArrayProperties(entries=rng.choice([dict, lambda x: list(x.items())])(d), length=n)
    view = a.elements()
    ops = []
    for step in range(rng.choice([3, 10, 25])):
        i = rng.choice([0, n - 1, n, -1, -n, -n - 1, n - 2, rng.randint(0, n), rng.randint(-n - 1, n + 1)] + list(d)[:3] + (rng.sample(list(d), 5) if len(d) > 10 else []))
        j = n + i if i < 0 else i
        op = rng.choice(["set", "hole", "del", "insert", "append", "pop", "resize", "get", "extend"])
        v = JSHole if rng.random() < 0.2 else step
        ops.append((op, i))
        what = f"{op}({i}, {v}) with length {n} ({ops[-6:]})"
        inside = 0 <= j < n
        if op in ("set", "hole", "get", "del", "pop"):
            fn = {"set": lambda: a.__setitem__(i, v), "hole": lambda: a.__setitem__(i, JSHole), "get": lambda: a[i],
                  "del": lambda: a.__delitem__(i), "pop": lambda: a.pop(i)}[op]
            if not inside:
                expect_raises(IndexError, fn, what)
                sh.count("refused operations")
            else:
                old = d.get(j, JSHole)
                r = fn()
                check(op not in ("get", "pop") or r is old or r == old, "%s gave %s, expected %s", what, short(r), short(old))
                if op == "set" and v is not JSHole:
                    d[j] = v
                elif op in ("set", "hole"):
                    d.pop(j, None)
                elif op != "get":
                    d = {(k if k < j else k - 1): x for k, x in d.items() if k != j}
                    n -= 1
        elif op in ("append", "insert", "extend"):
            fn = {"append": lambda: a.append(v), "insert": lambda: a.insert(i, v), "extend": lambda: a.extend([v, "e"])}[op]
            room = MAXLEN - n
            if room < (2 if op == "extend" else 1):
                expect_raises(IndexError, fn, what)
                sh.count("refused operations")
                if op == "extend" and room == 1:
                    if v is not JSHole:
                        d[n] = v
                    n += 1
            else:
                fn()
                j = n if op != "insert" else max(0, n + i) if i < 0 else min(i, n)
                d = {(k if k < j else k + 1): x for k, x in d.items()}
                if v is not JSHole:
                    d[j] = v
                n += 1
                if op == "extend":
                    d[n] = "e"
                    n += 1
        else:
            k = rng.choice([MAXLEN, n + 1, n - 1, n, rng.randint(n // 2, n), max(d, default=0), max(d, default=0) + 1, MAXLEN - 1] + ([rng.choice(list(d)) + rng.randint(0, 1)] * 3 if len(d) > 10 and rng.random() < 0.5 else []))
            if not 0 <= k <= MAXLEN:
                expect_raises(ValueError, lambda: a.resize(k), what)
            else:
                a.resize(k)
                n = k
                d = {x: y for x, y in d.items() if x < k}
        sh.count("operations")
        sh.count("long sparse states")
        ks = sorted(d)
        check(len(a) == n and a.elements_used == len(d), "%s: length %d used %d, expected %d, %d", what, len(a), a.elements_used, n, len(d))
        if rng.random() < 0.5:
            check(list(a.element_indexes()) == ks, "%s: indexes %s, expected %s", what, list(a.element_indexes()), ks)
            check(list(a.elements(order=Order.DESCENDING).items()) == [(k, d[k]) for k in ks[::-1]], "%s: elements", what)
        check(sorted(view.items()) == [(k, d[k]) for k in ks] if len(view) == len(ks) else False, "%s: live view", what)
        for k in ks:
            check(a[k] == d[k] and a[k - n] == d[k], "%s: [%d]", what, k)
    check(str(a) == sparse_text(d, n), "text %s, expected %s", str(a), sparse_text(d, n))
    b = SparseArrayProperties(entries=d, length=n)
    both_equal(sh, a, b)
    if d and rng.random() < 0.5:
        b[rng.choice([min(d), max(d), rng.choice(list(d))])] = "other"
        sh.count("long comparisons")
    elif n < MAXLEN:
        b.append(JSHole)
    else:
        b.resize(n - 1)
    both_equal(sh, a, b, False)
    sh.nontrivial("long", tuple(ops))


def sparse_text(d, n):
    out, at = [], 0
    for k in sorted(d):
        if k > at:
            out.append(f"<{k - at} empty items>")
        out.append(repr(d[k]))
        at = k + 1
    if at < n:
        out.append(f"<{n - at} empty items>")
    return "[ " + ", ".join(out) + " ]"


SHORT = [("set", 0, "n", ()), ("set", -1, JSHole, ()), ("set", 1, "m", ()), ("set", 1, JSHole, ()), ("del", 0, 0, ()), ("del", -1, 0, ()), ("del", 1, 0, ()),
         ("insert", 0, "i", ()), ("insert", 1, JSHole, ()), ("insert", 9, "j", ()), ("insert", -1, "k", ()), ("append", 0, "p", ()), ("append", 0, JSHole, ()),
         ("resize", 2, 0, ()), ("resize", 4, 0, ()), ("resize", 0, 0, ()), ("reverse", 0, 0, ()), ("extend", 0, 0, (JSHole, "e")),
         ("get", 0, 0, ()), ("remove", 0, JSHole, ()), ("clear", 0, 0, ())]
STARTS = [[], [JSHole], ["a"], ["a", JSHole, "b"], [JSHole, "a", "b", JSHole], [JSHole, JSHole, JSHole]]


def short_histories(part, parts):
    def run(sh):
        """Every history of up to three operations, with the caches read or not in between."""
        n = -1
        for start in STARTS:
            for length in (1, 2, 3):
                for seq in itertools.product(SHORT, repeat=length):
                    n += 1
                    if n % parts != part or (sh.quick and length == 3 and (n // parts) % 5):
                        continue
                    storages = (DenseArrayProperties(start), SparseArrayProperties(start))
                    xs = list(start)
                    for op, *args in seq:
                        _, xs = apply(sh, op, args, storages, xs)
                        if n // parts % 2:
                            for a in storages:
                                list(a.element_indexes())
                    for a in storages:
                        compare(sh, a, xs, f"{type(a).__name__} {start} after {seq}")
                    sh.count("short histories")

    run.__name__ = f"short_histories_{part}"
    return run


def huge(n, holes):
    def run(sh):
        """Far more elements than random histories have."""
        rng = random.Random(n)
        xs = [JSHole if rng.random() < holes else i for i in range(n)]
        storages = DenseArrayProperties(xs), SparseArrayProperties(xs)
        views = [Views(rng, a, o) for a in storages for o in Order]
        history = [("resize", n - 3), ("set", n // 2, "x"), ("set", -2, JSHole), ("resize", n - n // 8), ("insert", n // 3, "y"), ("del", 5), ("reverse",),
                   ("del", n // 2), ("set", n // 5, "z"), ("insert", 1, JSHole), ("resize", n), ("set", n - 1, "end"), ("resize", n // 2 + 7), ("holes", 300),
                   ("reverse",), ("pop", n // 4), ("extend",), ("append", 0, "p"), ("resize", n // 16), ("clear",), ("extend",)]
        ext = [JSHole if rng.random() < holes else "e%d" % i for i in range(n // 4)]
        for k, (op, *args) in enumerate(history):
            args = (args + [0, "v"][len(args):])[:2]
            _, xs = apply(sh, op, (*args, ext), storages, xs)
            for a in storages:
                compare(sh, a, xs, f"{type(a).__name__} of {n} after {history[:k + 1]}", deep=False)
                check(list(a.element_indexes()) == [i for i, v in enumerate(xs) if v is not JSHole], "%s of %d: indexes after %s", type(a).__name__, n, history[:k + 1])
                if k % 5 == n % 5 or k == len(history) - 1:
                    compare(sh, a, xs, f"{type(a).__name__} of {n} after {history[:k + 1]}", probe=("x", "p"))
            sh.count("operations", 2)
            sh.count("huge states", 2)
            if k % 4 == 0:
                for v in views:
                    v.compare(sh, xs, f"view of {n} after {history[:k + 1]}")
            if k % 3 == 0:
                both_equal(sh, *storages)
                last = max((i for i, v in enumerate(xs) if v is not JSHole), default=None)
                for i in (last, next((i for i, v in enumerate(xs) if v is not JSHole), None)) if last is not None else ():
                    other = SparseArrayProperties(xs)
                    other[i] = "other"
                    both_equal(sh, storages[0], other, False)
                    both_equal(sh, storages[1], other, False)

    run.__name__ = f"huge_{n}_{holes}"
    return run


fixed = [short_histories(p, 8) for p in range(8)] + [huge(n, h) for n in (4099, 20001, 66001) for h in (0.3, 0.9)]
