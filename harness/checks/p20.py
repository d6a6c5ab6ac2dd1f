"""Equality of cyclic values terminates and respects structure."""
import sys
import threading
import time

from harness.core import Violation, check
from v8serialize import JSErrorName
from v8serialize.jstypes import JSArray, JSError, JSErrorData, JSHole, JSMap, JSObject, JSSet, JSUndefined

QUICK, THOROUGH = 100000, 3000000
RULE = "distinct (shape of the left graph, kind of change) of comparisons of graphs with at least one cycle"
MIN = {"comparisons": 1000000, "comparisons that hold": 200000, "copies": 10000, "changed copies": 20000, "cycles changed": 3000, "unrolled cycles": 10000,
       "raised in a comparison": 6000, "comparisons while another thread compares": 6000, "comparisons inside comparisons": 4000, "free-running thread comparisons": 25000, "wide containers compared": 700, "huge containers compared": 150}
ASSUMPTIONS = ["an object met again on the path being compared must be paired with the object it was paired with before; sharing outside of cycles is not compared",
               "views and buffers compare by content and are not part of this property"]

KINDS = ["obj", "arr", "map", "set", "err", "data", "list", "dict"]
GUARDED = (JSObject, JSArray, JSMap, JSSet, JSError, JSErrorData)
LIMIT = 4000


class TooMany(Exception):
    pass


# ---- the specification, on the real objects -------------------------------------------------

def spec(x, y, stack, n):
    """Path-wise structural equality."""
    if x is y:
        return True
    n[0] += 1
    if n[0] > LIMIT:
        raise TooMany
    tx, ty = type(x), type(y)
    if tx in (list, dict) and tx is ty:
        if len(x) != len(y):
            return False
        if tx is list:
            return all([spec(a, b, stack, n) for a, b in zip(x, y)])
        return x.keys() == y.keys() and all([spec(x[k], y[k], stack, n) for k in x])
    if tx not in GUARDED and ty not in GUARDED:
        return x == y
    if id(x) in stack or id(y) in stack:
        return stack.get(id(x)) == id(y)
    stack[id(x)], stack[id(y)] = id(y), id(x)
    try:
        return content(x, y, tx, ty, stack, n)
    finally:
        del stack[id(x)], stack[id(y)]


def content(x, y, tx, ty, stack, n):
    if {tx, ty} <= {JSError, JSErrorData}:
        if tx is ty is JSError and x.__traceback__ is not y.__traceback__:
            return False
        return (x.name, x.message, x.stack) == (y.name, y.message, y.stack) and spec(x.cause, y.cause, stack, n)
    if {tx, ty} == {JSMap, dict}:
        if not all(isinstance(k, (str, int)) for m in (x, y) for k in m.keys()):
            return False  # dictionaries here have text keys only
        a, b = dict(x.items()), dict(y.items())
        return a.keys() == b.keys() and all([spec(a[k], b[k], stack, n) for k in a])
    if tx is not ty:
        return False
    if tx is JSMap:
        return len(x) == len(y) and all([spec(a, c, stack, n) and spec(b, d, stack, n) for (a, b), (c, d) in zip(x.items(), y.items())])
    if tx is JSSet:
        return len(x) == len(y) and all([spec(a, b, stack, n) for a, b in zip(x, y)])
    a, b = dict(x.items()), dict(y.items())  # JSObject, JSArray
    return len(x.array) == len(y.array) and a.keys() == b.keys() and all([spec(a[k], b[k], stack, n) for k in a])


def want(x, y):
    return spec(x, y, {}, [0])


# ---- descriptions of graphs ---------------------------------------------------------------

LEAVES = [0, 1, 2, 7, "a", "b", "", None, JSUndefined, True, 0.5, b"x", 10**30, float("nan")]
# Distinct leaves that are not equal to each other in Python
LEAVES = [v for i, v in enumerate(LEAVES) if not any(v == u for u in LEAVES[:i])]


class N:
    def __init__(self, kind):
        self.kind, self.items, self.length, self.meta = kind, [], 0, ["m", "Error", "s"]


def graph(rng, size):
    """A list of nodes; children are ("n", index) or ("l", leaf)."""
    kinds = KINDS if rng.random() < 0.6 else [rng.choice(KINDS[:6])]
    plain = rng.choice([LEAVES, LEAVES[:2], [0]])
    nodes = [N(rng.choice(kinds)) for _ in range(size)]
    back = rng.choice([0.1, 0.4, 0.8])

    def child(i):
        n = nodes[i]
        if rng.random() < 0.3:
            return ("l", rng.choice(plain))
        if rng.random() < back:
            j = rng.randint(0, i)
        else:
            j = rng.randrange(size)
        # lists and dictionaries alone must not form cycles: they only point forward
        if n.kind in ("list", "dict") and nodes[j].kind in ("list", "dict") and j <= i:
            return ("l", rng.choice(plain))
        return ("n", j)

    for i, n in enumerate(nodes):
        k = rng.choice([0, 1, 1, 2, 2, 3]) if i else rng.choice([1, 2, 3])
        if n.kind in ("err", "data"):
            n.items = [(None, child(i))] if k else []
            n.meta = [rng.choice("mn"), rng.choice(["Error", "Error", "Foo"]), rng.choice(["s", None])]
        elif n.kind in ("obj", "dict"):
            keys = rng.sample(["a", "b", "c", 0, 1, 30], k) if n.kind == "obj" else rng.sample(["a", "b", "c"], k)
            n.items = [(q, child(i)) for q in keys]
        elif n.kind == "arr":
            n.items = [(q, child(i)) for q in rng.sample([0, 1, 2, 40, "a", "b"], k)]
            n.length = rng.choice([0, 0, 3, 50])
        elif n.kind == "map":
            for q in rng.sample(["a", "b", 0, 1, 7], k):
                key = ("l", q) if rng.random() < 0.7 else child(i)
                if key[0] == "l" or key in [a for a, _ in n.items]:
                    key = ("l", q)
                n.items.append((key, child(i)))
        else:
            n.items = [(None, child(i)) for _ in range(k)]
    if size > 1:  # make sure that a cycle and most nodes can be reached
        for i in range(size - 1):
            if rng.random() < 0.8 and nodes[i].kind in ("set", "list"):
                nodes[i].items.append((None, ("n", i + 1)))
    return nodes


def build(nodes, wrap=None):
    """The objects; wrap(leaf) may replace leaves."""
    wrap = wrap or (lambda v: v)
    made = [{"obj": JSObject, "arr": JSArray, "map": JSMap, "set": JSSet, "err": JSError, "data": JSErrorData, "list": list, "dict": dict}[n.kind]() for n in nodes]

    def val(c):
        return made[c[1]] if c[0] == "n" else wrap(c[1])

    for n, o in zip(nodes, made):
        if n.kind in ("err", "data"):
            o.message, o.stack = n.meta[0], n.meta[2]
            o.name = JSErrorName(n.meta[1]) if n.meta[1] in JSErrorName.__members__ else n.meta[1]
            o.cause = val(n.items[0][1]) if n.items else None
        elif n.kind == "arr":
            for k, c in n.items:
                o[k] = val(c)
            if n.length > len(o.array):
                o.array.resize(n.length)
        elif n.kind in ("obj", "dict"):
            for k, c in n.items:
                o[k] = val(c)
        elif n.kind == "map":
            for k, c in n.items:
                o[val(k)] = val(c)
        elif n.kind == "set":
            for _, c in n.items:
                o.add(val(c))
        else:
            o.extend(val(c) for _, c in n.items)
    return made


def reachable(nodes):
    seen, todo = {0}, [0]
    while todo:
        for j in targets(nodes[todo.pop()]):
            if j not in seen:
                seen.add(j)
                todo.append(j)
    return sorted(seen)


def targets(n):
    return [c[1] for k, v in n.items for c in (k, v) if isinstance(c, tuple) and c[0] == "n"]


def cyclic(nodes):
    for i in reachable(nodes):
        seen, todo = set(), list(targets(nodes[i]))
        while todo:
            j = todo.pop()
            if j == i:
                return True
            if j not in seen:
                seen.add(j)
                todo += targets(nodes[j])
    return False


def clone(nodes):
    out = []
    for n in nodes:
        m = N(n.kind)
        m.items, m.length, m.meta = list(n.items), n.length, list(n.meta)
        out.append(m)
    return out


def shape(nodes):
    return tuple((n.kind, len(n.items), tuple(targets(n))) for n in nodes)


def change(rng, nodes):
    """(changed copy, what, must be unequal) or None when the change does not apply."""
    new = clone(nodes)
    i = rng.choice(reachable(nodes))
    n = new[i]
    how = rng.choice(["leaf", "drop", "add", "key", "order", "kind", "length", "meta", "edge", "edge", "leaf/edge"])
    if how in ("leaf", "edge", "leaf/edge"):
        spots = [(p, q) for p, it in enumerate(n.items) for q in (0, 1) if isinstance(it[q], tuple) and (it[q][0] == "l") == (how == "leaf")]
        if not spots:
            return None
        p, q = rng.choice(spots)
        it = list(n.items[p])
        if how == "edge":
            j = rng.randrange(len(new))
            if n.kind in ("list", "dict") and new[j].kind in ("list", "dict") and j <= i:
                return None
            if j == it[q][1]:
                return None
            it[q] = ("n", j)
        else:
            it[q] = ("l", rng.choice([v for v in LEAVES + [3, "z"] if it[q][0] == "n" or v is not it[q][1] and not (v == it[q][1])]))
        n.items[p] = tuple(it)
        if n.kind == "set" or (n.kind == "map" and q == 0):
            return new, how, False  # may coincide with another member
        return new, how, how != "edge"
    if how == "drop":
        if not n.items or n.kind in ("set", "map"):
            return None
        k, c = n.items.pop(rng.randrange(len(n.items)))
        return (new, how, n.kind not in ("err", "data") or c != ("l", None)) if n.kind != "arr" else (new, how, True)
    if how == "add":
        if n.kind in ("err", "data"):
            return None
        c = ("l", "new")
        k = {"obj": "new", "arr": rng.choice(["new", max(n.length, 41) + 1]), "map": ("l", "new"), "dict": "new"}.get(n.kind)
        n.items.append((k, c))
        return new, how, True
    if how == "key":
        if n.kind not in ("obj", "arr", "dict") or not n.items:
            return None
        p = rng.randrange(len(n.items))
        n.items[p] = ("other", n.items[p][1])
        return new, how, True
    if how == "order":
        if n.kind not in ("map", "set", "list", "obj") or len(n.items) < 2:
            return None
        n.items[0], n.items[-1] = n.items[-1], n.items[0]
        return new, how, False  # decided by the specification
    if how == "kind":
        if n.kind in ("list", "dict"):
            return None
        group = {"err": ["obj", "map"], "data": ["obj", "map"], "obj": ["arr", "map", "data"], "arr": ["obj", "list"], "map": ["obj", "set"], "set": ["map", "list"]}[n.kind]
        n.kind = rng.choice(group)
        if n.kind == "obj" or n.kind == "arr":
            n.items = [(k if isinstance(k, (str, int)) else "k%d" % p, c) for p, (k, c) in enumerate(n.items)]
            n.items = [("t" + str(k) if n.kind == "obj" else k, c) for k, c in n.items]
        elif n.kind == "map":
            n.items = [(k if isinstance(k, tuple) else ("l", k), c) for k, c in n.items]
        elif n.kind == "list":
            n.items = [(None, c) for _, c in n.items if not (c[0] == "n" and new[c[1]].kind in ("list", "dict"))]
        else:
            n.items = [(None, c) for _, c in n.items][: 1 if n.kind == "data" else None]
        return new, how, True
    if how == "length":
        if n.kind != "arr":
            return None
        top = max([n.length] + [k + 1 for k, _ in n.items if isinstance(k, int)])
        n.length = top + rng.choice([1, 2, 100])
        return new, how, True
    if n.kind not in ("err", "data"):
        return None
    p = rng.randrange(3)
    n.meta[p] = {"m": "n", "n": "", "Error": rng.choice(["TypeError", "Foo", "error", ""]), "Foo": rng.choice(["Error", "Bar"]), "s": "t", None: "s"}[n.meta[p]]
    return new, "meta", True


# ---- monitors -----------------------------------------------------------------------------

def compare(sh, x, y, w, what):
    sh.count("comparisons", 4)
    sh.count("comparisons that hold", 2 if w else 0)
    a, b, c, d = x == y, y == x, x != y, y != x
    check(a is w or a == w and type(a) is bool, "%s: == gave %r, expected %r", what, a, w)
    check(b == w, "%s: reversed == gave %r, expected %r", what, b, w)
    check(c == (not w) and d == (not w), "%s: != gave %r and %r, expected %r", what, c, d, not w)


def case(sh, rng):
    rng.choices([structure, unrolled, pairs, raising, threads, inside, free_threads, wide], [8, 2, 3, 3, 2, 1, 0.25, 0.2])[0](sh, rng)


def usable(rng, sizes=(1, 2, 2, 3, 3, 4, 5, 6, 7)):
    return graph(rng, rng.choice(sizes))


def text(nodes):
    return "; ".join(f"{i}:{n.kind}{n.items}{n.length or ''}" + (str(n.meta) if n.kind in ("err", "data") else "") for i, n in enumerate(nodes))


def structure(sh, rng):
    """Copies are equal; changed copies are not."""
    nodes = usable(rng)
    a, b = build(nodes), build(nodes)
    try:
        if not want(a[0], b[0]):
            raise Violation("the specification does not hold for a copy: %s" % text(nodes))
    except TooMany:
        sh.count("skipped, too large")
        return
    for i in range(len(nodes)):
        check((a[i] == a[i]) is True and (a[i] != a[i]) is False, "reflexive")
    compare(sh, a[0], b[0], True, "copy of %s" % text(nodes))
    sh.count("copies")
    cyc = cyclic(nodes)
    if cyc:
        sh.nontrivial(shape(nodes), "copy")
    for _ in range(4):
        r = change(rng, nodes)
        if r is None:
            continue
        new, how, must = r
        if nodes[0].kind != new[0].kind and {nodes[0].kind, new[0].kind} <= {"list", "dict"}:
            continue
        c = build(new)
        try:
            w = want(a[0], c[0])
        except TooMany:
            continue
        what = f"{how} changed in {text(nodes)} giving {text(new)}"
        check(not must or not w, "specification: %s", what)
        compare(sh, a[0], c[0], w, what)
        sh.count("changed copies")
        sh.count("cycles changed", how == "edge" and not w)
        if cyc:
            sh.nontrivial(shape(nodes), how, w)
    compare(sh, a[0], b[0], True, "copy again")
    sh.sample(text(nodes))


def wide(sh, rng):
    """Containers of many members, a few of them leading back."""
    kind = rng.choice(KINDS[:4] + KINDS[6:])
    n = rng.choice([12, 40, 70, 130, 260, 520, 1050, 1700])
    top, inner = N("obj"), N(kind)
    top.items = [("x", ("n", 1))]
    back = {rng.randrange(n) for _ in range(rng.choice([0, 1, 3]))}
    inner.items = [({"obj": rng.choice([i, "k%d" % i]), "arr": rng.choice([i, i + 1 if i == n - 1 else i, "k%d" % i]), "map": ("l", "k%d" % i if i % 2 else 10 + i),
                     "dict": "k%d" % i}.get(kind), ("n", rng.randrange(2) if kind not in ("list", "dict") else 0) if i in back else ("l", i + 100)) for i in range(n)]
    nodes = [top, inner]
    a, b = build(nodes), build(nodes)
    compare(sh, a[0], b[0], want(a[0], b[0]), f"copy of {kind} of {n}")
    check(a[0] == b[0], "copy of %s of %d is not equal", kind, n)
    for _ in range(3):
        new = clone(nodes)
        items = new[1].items
        at = rng.choice([0, n - 1, n // 2, rng.randrange(n), rng.randrange(n)])
        how = rng.choice(["leaf", "drop", "add", "swap", "edge"])
        if how == "leaf":
            items[at] = (items[at][0], ("l", "new"))
        elif how == "drop":
            items.pop(at)
        elif how == "add":
            items.insert(at, ({"obj": "new", "arr": "new", "map": ("l", "new"), "dict": "new"}.get(kind), ("l", "new")))
        elif how == "edge":
            items[at] = (items[at][0], ("n", 0))
        else:
            j = rng.randrange(n)
            items[at], items[j] = (items[at][0], items[j][1]), (items[j][0], items[at][1])
        c = build(new)
        compare(sh, a[0], c[0], want(a[0], c[0]), f"{kind} of {n} with {how} at {at}")
        sh.count("wide containers compared")
        sh.nontrivial("wide", kind, n, how, at)


def ring(rng, kinds, n, entry=0):
    """A ring of n containers with the given kinds repeated; returns its nodes."""
    out = []
    for i in range(n):
        k = kinds[i % len(kinds)]
        m = N(k)
        nxt = ("n", i + 1 if i + 1 < n else entry)
        m.items = [({"obj": "x", "arr": 0, "map": ("l", "x")}.get(k), nxt)]
        out.append(m)
    return out


def unrolled(sh, rng):
    """Rings are equal only to rings of the same length, entered the same way."""
    kinds = [rng.choice(KINDS[:6]) for _ in range(rng.choice([1, 1, 2, 3]))]
    p = len(kinds)
    sizes = [(p * rng.randint(1, 4), 0) for _ in range(3)]
    sizes = [(n, rng.choice([0, 0, (rng.randrange(n) // p) * p])) for n, _ in sizes]
    rings = [build(ring(rng, kinds, n, e)) for n, e in sizes]
    for i, (n, e) in enumerate(sizes):
        for j, (m, f) in enumerate(sizes):
            w = i == j or (n, e) == (m, f)
            compare(sh, rings[i][0], rings[j][0], w, f"ring of {kinds}, {n} returning to {e}, with {m} returning to {f}")
            sh.count("unrolled cycles", not w)
    # within one ring: every node equals the next node with the same kind
    n, e = sizes[0]
    r = rings[0]
    for i in range(n):
        for j in range(n):
            w = want(r[i], r[j])
            compare(sh, r[i], r[j], w, f"ring of {kinds}, {n} returning to {e}: {i} and {j}")
    # a tail in front of a ring
    tail = build(ring(rng, kinds, n + p, p))
    compare(sh, rings[0][0], tail[0], want(rings[0][0], tail[0]), f"ring of {kinds} {n} returning to {e} and {n + p} returning to {p}")
    sh.nontrivial("ring", tuple(kinds), tuple(sizes))


def pairs(sh, rng):
    """Any two nodes of two unrelated graphs or of one."""
    nodes = usable(rng, (2, 3, 4, 5))
    if rng.random() < 0.5:
        for n in nodes:
            n.items = [(k, ("l", 0) if c[0] == "l" else c) for k, c in n.items]
    a = build(nodes)
    if rng.random() < 0.3:
        for o in a:
            if isinstance(o, JSError) and rng.random() < 0.5:
                try:
                    raise o
                except JSError:
                    pass
    b = build(usable(rng, (2, 3, 4, 5)) if rng.random() < 0.3 else nodes)
    for x in a:
        for y in a + b:
            if plain(x) and plain(y) and cyclic(nodes):
                continue  # two lists in cycles compare without our code
            try:
                w = want(x, y)
            except (TooMany, RecursionError):
                sh.count("skipped, too large")
                continue
            compare(sh, x, y, w, f"nodes of {text(nodes)}: {type(x).__name__} and {type(y).__name__}")
    if cyclic(nodes):
        sh.nontrivial(shape(nodes), "pairs")


def plain(x):
    return type(x) in (list, dict)


class Hook:
    """A leaf whose comparison runs some code."""

    def __init__(self, run, tag):
        self.run, self.tag = run, tag

    def __eq__(self, o):
        if not isinstance(o, Hook):
            return NotImplemented
        self.run[0]()
        return self.tag == o.tag

    __hash__ = None

    def __repr__(self):
        return f"Hook({self.tag!r})"


def hooked(nodes, run):
    return build(nodes, lambda v: Hook(run, v) if not isinstance(v, str) else v)


def hooks_possible(rng):
    for _ in range(20):
        nodes = usable(rng, (2, 3, 4, 5))
        for n in nodes:  # every node gets a leaf of its own last
            k = {"obj": "hook", "arr": "hook", "map": ("l", "hook"), "dict": "hook"}.get(n.kind)
            if n.kind in ("err", "data"):
                if not n.items:
                    n.items = [(None, ("l", 5))]
            else:
                n.items.insert(rng.choice([0, len(n.items)]), (k, ("l", 5)))
        if cyclic(nodes):
            return nodes
    return None


class Stop(BaseException):
    pass


def raising(sh, rng):
    """An exception at any point of a comparison has no effect on later ones."""
    nodes = hooks_possible(rng)
    if nodes is None:
        return
    run = [lambda: None]
    a, b = hooked(nodes, run), hooked(nodes, run)
    r = change(rng, nodes)
    c = hooked(r[0], run) if r else None
    group = [(a[0], b[0]), (b[-1], a[-1]), (a[0], a[-1])] + ([(a[0], c[0]), (c[-1], b[-1])] if c else [])
    group = [(x, y) for x, y in group if not (plain(x) and plain(y))]
    try:
        wanted = [(x, y, want(x, y)) for x, y in group]
    except (TooMany, RecursionError):
        return
    calls = [0]

    def counting():
        calls[0] += 1

    run[0] = counting
    if not group:
        return
    x, y = rng.choice(group)
    x == y
    total = calls[0]
    for at in range(1, min(total, 8) + 1):
        exc = rng.choice([ZeroDivisionError, Stop, RecursionError, KeyError, MemoryError])
        calls[0] = 0

        def failing():
            calls[0] += 1
            if calls[0] == at:
                raise exc("here")

        run[0] = failing
        try:
            x == y
        except exc as e:
            if "here" not in str(e):
                raise
            sh.count("raised in a comparison")
        else:
            raise Violation(f"{exc.__name__} raised by a member disappeared in {text(nodes)}")
        run[0] = lambda: None
        for p, q, w in wanted:
            compare(sh, p, q, w, f"after {exc.__name__} in comparison {at} of {total} of {text(nodes)}")
    sh.nontrivial(shape(nodes), "raise", total)


def inside(sh, rng):
    """Members which compare other cyclic values while they are compared."""
    nodes, other = hooks_possible(rng), usable(rng)
    if nodes is None:
        return
    run = [lambda: None]
    a, b = hooked(nodes, run), hooked(nodes, run)
    c, d = build(other), build(other)
    r = change(rng, other)
    e = build(r[0]) if r else d
    try:
        w, v, u = want(a[0], b[0]), want(c[0], d[0]), want(c[0], e[0])
    except TooMany:
        return

    def nested():
        compare(sh, c[0], d[0], v, "inside another comparison: copy of %s" % text(other))
        compare(sh, c[0], e[0], u, "inside another comparison: change of %s" % text(other))
        sh.count("comparisons inside comparisons")

    run[0] = nested
    check((a[0] == b[0]) is w, "comparison of %s whose members compare others", text(nodes))


def threads(sh, rng):
    """In the middle of a comparison another thread compares the same objects."""
    nodes = hooks_possible(rng)
    if nodes is None:
        return
    run = [lambda: None]
    a, b = hooked(nodes, run), hooked(nodes, run)
    r = change(rng, nodes)
    c = hooked(r[0], run) if r else b
    group = [(x, y) for x in (a[0], b[0], c[0], a[-1], b[-1]) for y in (a[0], b[0], c[0], b[-1], c[-1]) if not (plain(x) and plain(y))]
    group = [group[i] for i in sorted(rng.sample(range(len(group)), min(len(group), 8)))]
    if not group:
        return
    try:
        wanted = [(x, y, want(x, y)) for x, y in group]
    except (TooMany, RecursionError):
        return
    main = threading.get_ident()
    failures, todo = [], [rng.randint(1, 3)]

    def elsewhere():
        if threading.get_ident() != main or not todo[0]:
            return
        todo[0] -= 1

        def work():
            try:
                for x, y, w in wanted:
                    sh.count("comparisons while another thread compares")
                    compare(sh, x, y, w, "in another thread")
            except BaseException as e:
                failures.append(e)

        t = threading.Thread(target=work)
        t.start()
        t.join()

    run[0] = elsewhere
    x, y, w = rng.choice(wanted)
    got = x == y
    check(not failures, "while comparing %s: %s", text(nodes), failures)
    check(got is w, "comparison of %s, while others compared the same in another thread, gave %s", text(nodes), got)
    run[0] = lambda: None
    for x, y, w in wanted:
        compare(sh, x, y, w, "after comparing in two threads")
    sh.nontrivial(shape(nodes), "threads")


def free_threads(sh, rng):
    """Threads compare the same objects, switching very often."""
    nodes = hooks_possible(rng)
    if nodes is None:
        return
    run = [lambda: time.sleep(0)]
    a, b = hooked(nodes, run), hooked(nodes, run)
    r = change(rng, nodes)
    c = hooked(r[0], run) if r else b
    group = [(x, y) for x in (a[0], b[0]) for y in (a[0], b[0], c[0], b[-1]) if not (plain(x) and plain(y))]
    if not group:
        return
    try:
        wanted = [(x, y, want(x, y)) for x, y in group]
    except (TooMany, RecursionError):
        return
    failures = []
    start = threading.Barrier(4)

    def work(seed):
        start.wait()
        for i in range(25):
            x, y, w = wanted[(seed * 7 + i) % len(wanted)]
            try:
                got = x == y
            except BaseException as e:
                got = e
            if got is not w:
                failures.append((i, got, w))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(s,)) for s in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    sh.count("free-running thread comparisons", 100)
    check(not failures, "threads comparing %s: %s", text(nodes), failures[:5])


def deep(sh):
    """Deep values run out of stack or are compared; either way later comparisons are right."""
    for kinds in (["obj"], ["arr"], ["map"], ["set"], ["data"], ["err"], KINDS[:6]):
        def chain(n, end):
            x = end
            for i in range(n):
                k = kinds[i % len(kinds)]
                x = {"obj": lambda: JSObject(x=x), "arr": lambda: JSArray([x]), "map": lambda: JSMap([("x", x)]), "set": lambda: JSSet([x]),
                     "data": lambda: JSErrorData("m", cause=x), "err": lambda: JSError("m", cause=x)}[k]()
            return x

        compare(sh, chain(60, 1), chain(60, 1), True, f"chain of {kinds}")
        compare(sh, chain(60, 1), chain(60, 2), False, f"chain of {kinds} with another end")
        a, b = chain(3000, 1), chain(3000, 1)
        for _ in range(3):
            try:
                check(a == b, "deep chain of %s", kinds)
            except RecursionError:
                sh.count("recursion errors")
        inner = []
        for x in (a, b):
            for _ in range(2950):
                x = next(iter(x.values())) if isinstance(x, (JSObject, JSMap)) else next(iter(x)) if isinstance(x, JSSet) else x.cause
            inner.append(x)
        compare(sh, *inner, True, f"inside of a chain of {kinds} after running out of stack")
        # take the chains apart step by step
        for x in (a, b):
            while isinstance(x, GUARDED):
                n = next(iter(x.values())) if isinstance(x, (JSObject, JSMap)) else next(iter(x)) if isinstance(x, JSSet) else x.cause
                if isinstance(x, (JSError, JSErrorData)):
                    x.cause = None
                else:
                    x.clear()
                x = n


def holes(sh):
    """A hole is not undefined, and a missing property is not one that is undefined."""
    for cls in (JSArray, JSObject):
        a, b = cls(), cls()
        a["self"], b["self"] = a, b
        a[0], b[0] = JSUndefined, JSUndefined
        a[2], b[2] = 1, 1
        compare(sh, a, b, True, "same")
        b[1] = JSUndefined
        compare(sh, a, b, False, "undefined in place of a hole")
        del b[1]
        compare(sh, a, b, True, "deleted again")
        b[3] = None
        compare(sh, a, b, False, "longer")


def huge(n):
    def run(sh):
        """Far more members than random containers have: one difference anywhere is seen, and the order of an object's properties is not."""
        keys = ["k%d" % i for i in range(n)]
        make = {
            "obj": lambda vs, ks=keys: JSObject(zip(ks, vs)), "indexed": lambda vs: JSObject(enumerate(vs)), "arr": lambda vs: JSArray(vs),
            "named arr": lambda vs, ks=keys: _named(ks, vs), "map": lambda vs, ks=keys: JSMap(zip(ks, vs)), "set": lambda vs: JSSet(vs),
            "data": lambda vs: JSErrorData("m", cause=JSArray(vs)), "nested": lambda vs: JSObject(a=JSMap([(JSSet(vs), 1)])),
        }
        vs = list(range(n))
        for kind, f in make.items():
            def cyclic(vs, *a):
                x = f(vs, *a)
                inner = x
                while isinstance(inner, JSErrorData) or kind == "nested" and isinstance(inner, JSObject):
                    inner = inner.cause if isinstance(inner, JSErrorData) else next(iter(inner["a"]))
                if isinstance(inner, JSSet):
                    inner.add(x)
                else:
                    inner["self"] = x
                return x

            for g in (f, cyclic):
                a = g(vs)
                compare(sh, a, g(vs), True, f"copy of a {kind} of {n}")
                for at in (0, n // 2, n - 1):
                    ws = list(vs)
                    ws[at] = "other"
                    compare(sh, a, g(ws), False, f"{kind} of {n} with another member at {at}")
                    ws = list(vs)
                    del ws[at]
                    compare(sh, a, g(ws), False, f"{kind} of {n} without member {at}") if kind in ("set", "indexed", "arr", "data", "nested") else None
                sh.count("huge containers compared", 4)
                if kind in ("obj", "named arr", "map", "set"):
                    b = g(vs[1:] + vs[:1], *([] if kind == "set" else [keys[1:] + keys[:1]]))
                    compare(sh, a, b, kind in ("obj", "named arr"), f"{kind} of {n} in another order")
                    if kind in ("map", "set") and g is f:
                        plain_ = dict(zip(keys, vs)) if kind == "map" else set(vs)
                        compare(sh, b, plain_, True, f"{kind} of {n} and a plain one")
                        (plain_.pop if kind == "map" else plain_.remove)(keys[n // 2] if kind == "map" else n // 2)
                        compare(sh, b, plain_, False, f"{kind} of {n} and a plain one with fewer")

    run.__name__ = f"huge_{n}"
    return run


def _named(ks, vs):
    a = JSArray([0])
    a.update(zip(ks, vs))
    return a


fixed = [deep, holes, huge(5003), huge(20011), huge(66007)]
