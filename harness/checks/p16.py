"""Objects and arrays behave like JavaScript's over any history."""
import copy
import pickle

from harness.checks.p15 import MAX, any_form
from harness.core import Violation, check, expect_raises, short
from v8serialize import dumps, loads
from v8serialize._typing import Order
from v8serialize.jstypes import JSArray, JSHole, JSObject
from v8serialize.jstypes.jsarrayproperties import DenseArrayProperties, SparseArrayProperties

QUICK, THOROUGH = 28000, 400000
RULE = "distinct (operation sequence shape, storage kinds, final keys) of histories of at least 5 operations"
MIN = {"operations": 100000, "states compared": 100000, "switches to sparse": 1000, "sparse states": 30000, "dense states": 30000,
       "refused operations": 10000, "array operations": 20000, "histories in V8": 700, "round trips": 1500, "far indexes": 3000, "large histories": 200, "copies": 1500}
ASSUMPTIONS = ["V8 12.4 as embedded in Node.js 22 stands for JavaScript"]
HOLE = "<hole>"  # in the record for JavaScript
SMALL = 3000  # an array longer than this is not walked element by element


class Plain:
    """The model: integer properties, text properties, and a length."""

    def __init__(self):
        self.ints, self.text, self.length = {}, {}, 0

    def keys(self):
        return sorted(self.ints) + list(self.text)

    def has(self, k):
        return k in self.ints if isinstance(k, int) else k in self.text

    def get(self, k):
        return self.ints[k] if isinstance(k, int) else self.text[k]

    def put(self, k, v):
        if isinstance(k, int):
            self.length = max(self.length, k + 1)
            if v is JSHole:
                self.ints.pop(k, None)
            else:
                self.ints[k] = v
        elif v is JSHole:
            self.text.pop(k, None)
        else:
            self.text[k] = v

    def drop(self, k):
        del (self.ints if isinstance(k, int) else self.text)[k]

    def items(self):
        return [(k, self.get(k)) for k in self.keys()]

    def as_list(self):
        return [self.ints.get(i, JSHole) for i in range(self.length)]

    def set_list(self, xs):
        self.length = len(xs)
        self.ints = {i: x for i, x in enumerate(xs) if x is not JSHole}


def is_same(a, b):
    return a is b or a == b and type(a) is not bool is not type(b) and any(isinstance(a, t) and isinstance(b, t) for t in (int, str))


def same_seq(a, b):
    return len(a) == len(b) and all(map(is_same, a, b))


def same_pairs(a, b):
    return len(a) == len(b) and all(is_same(k, l) and is_same(v, w) for (k, v), (l, w) in zip(a, b))


def compare(sh, o, m, pool, full=True):
    """Everything that can be read from o agrees with the model."""
    sh.count("states compared")
    a = o.array
    sparse = isinstance(a, SparseArrayProperties)
    sh.count("sparse states" if sparse else "dense states")
    want = m.items()
    keys = [k for k, _ in want]
    got = list(o)
    check(same_seq(got, keys), "keys %s, expected %s", short(got), short(keys))
    check(len(o) == len(want) and bool(o) == bool(want), "len %d of %d properties", len(o), len(want))
    check(same_pairs(list(o.items()), want), "items %s, expected %s", short(list(o.items())), short(want))
    check(len(a) == m.length, "array length %d, expected %d", len(a), m.length)
    check(a.elements_used == len(m.ints), "elements_used %d, expected %d", a.elements_used, len(m.ints))
    ik = sorted(m.ints)
    check(list(a.element_indexes()) == ik, "element indexes %s, expected %s", short(list(a.element_indexes())), short(ik))
    check(same_pairs(list(a.elements().items()), [(k, m.ints[k]) for k in ik]), "elements %s", short(list(a.elements().items())))
    p = o.properties
    check(same_pairs(list(p.items()), list(m.text.items())), "properties %s, expected %s", short(list(p.items())), short(list(m.text.items())))
    for k in pool:
        here = m.has(k)
        check((k in o) == here, "%r in the object is %s", k, not here)
        v = o.get(k, pool)
        check(v is pool if not here else is_same(v, m.get(k)), "get(%r) is %s", k, short(v))
        if isinstance(k, int) and k < m.length:
            check(is_same(a[k], m.ints.get(k, JSHole)), "array[%d] is %s", k, short(a[k]))
    if full:
        check(same_seq(list(o.keys()), keys) and same_seq(list(o.values()), [v for _, v in want]), "views")
        check(len(o.keys()) == len(o.items()) == len(o.values()) == len(want), "lengths of views")
        check(list(a.element_indexes(order=Order.DESCENDING)) == ik[::-1], "descending indexes")
        check(sorted(a.element_indexes(order=Order.UNORDERED)) == ik, "unordered indexes")
        if m.length <= SMALL:
            check(same_seq(list(a), m.as_list()), "array %s, expected %s", short(list(a)), short(m.as_list()))


class Steps:
    """A history: every step is applied to the object, the model and recorded for V8."""

    def __init__(self, sh, rng):
        self.sh, self.rng = sh, rng
        self.n = 0
        self.js = []
        self.ops = []
        r = rng.random()
        self.reach = rng.choice([3, 6, 15, 17, 20, 40, 70, 130, 400])
        self.far = r < 0.35
        texts = rng.sample(["a", "b", "c", "k", "", "x y", "-1", "01", "1.5", "4294967295", "length", "__proto__", "ключ", "toString"], rng.randint(1, 5))
        self.texts = texts
        self.cls = rng.choice([JSObject, JSArray])
        if self.cls is JSArray and "length" in texts:
            texts.remove("length")
            texts.append("len")
        if "__proto__" in texts and rng.random() < 0.9:
            texts.remove("__proto__")
            texts.append("proto")
        self.m = Plain()
        # many properties of one kind or another
        self.large = None if rng.random() > 0.04 else rng.choice(["text", "text", "dense", "sparse", "sparse", "mixed"])
        if self.large in ("text", "mixed"):
            self.texts = texts + [rng.choice(["k%d", "-%d", "x %d", "0%d"]) % i for i in range(rng.choice([10, 20, 60, 130, 300, 700, 1500]))]
        if self.large and rng.random() < 0.7:
            self.reach = rng.choice([400, 1000, 3000, 10**5])

    def fill(self):
        """Give the object many properties."""
        rng = self.rng
        if self.large in ("text", "mixed"):
            ks = rng.sample(self.texts, rng.randint(len(self.texts) // 2, len(self.texts)))
            self.assign(ks)
        if self.large in ("dense", "mixed"):
            self.assign(range(self.m.length, self.m.length + rng.choice([60, 150, 300, 700, 1100, 2500])) if self.m.length < SMALL else [])
        elif self.large == "sparse":
            top = rng.choice([2000, 10**5, 2**20, 2**31, MAX + 1])
            self.assign([rng.randrange(top) for _ in range(rng.choice([40, 80, 150, 320, 600, 1200]))])
        self.ops.append(f"fill {self.large}")
        self.sh.count("large histories")

    def assign(self, ks):
        pairs = [(k, self.value()) for k in ks]
        if self.rng.random() < 0.5:
            self.o.update(pairs)
        else:
            for k, v in pairs:
                self.o[k] = v
        for k, v in pairs:
            self.put(k, v)

    def index(self):
        rng = self.rng
        if self.far and rng.random() < 0.15:
            self.sh.count("far indexes")
            return rng.choice([MAX, MAX - 1, 2**31, 2**31 - 1, rng.randint(0, MAX), rng.randint(0, 10**6), rng.randint(0, 5000)])
        if rng.random() < 0.35 and self.m.length < SMALL:
            return min(MAX, max(0, self.m.length + rng.choice([-2, -1, -1, 0, 0, 0, 1, 2, 3, rng.randint(0, 60)])))
        if rng.random() < 0.3 and self.m.ints:
            return rng.choice(list(self.m.ints))
        return rng.randrange(self.reach)

    def key(self):
        rng = self.rng
        return rng.choice(self.texts) if rng.random() < 0.3 else self.index()

    def value(self):
        self.n += 1
        r = self.rng.random()
        return self.n if r < 0.75 else f"v{self.n}" if r < 0.9 else self.rng.choice([None, None, False, True, 0, ""])

    def put(self, k, v):
        self.m.put(k, v)
        if v is JSHole:
            # growing an array by a hole is setting its length
            if isinstance(k, int) and self.cls is JSArray:
                self.js.append(["grow", k + 1])
            self.js.append(["del", k])
        else:
            self.js.append(["set", k, v])

    def create(self):
        rng, cls = self.rng, self.cls
        how = rng.randrange(8)
        pairs = [(self.key(), self.value()) for _ in range(rng.randint(0, 8))]
        given = [(any_form(rng, k), v) for k, v in pairs]
        kw = {rng.choice(self.texts + ["self", "properties"] + [str(self.index())]): self.value() for _ in range(rng.choice([0, 0, 1, 3]))}
        if how == 0:
            o = cls()
            kw = {}
            pairs = []
        elif how == 1 and cls is JSObject:
            o = cls(given, **kw)
        elif how == 2 and cls is JSObject:
            o = cls((x for x in given), **kw)
        elif how in (3, 4):
            d = dict(given)
            o = cls(d, **kw)
            from harness.graph import canonical_key

            pairs = [(canonical_key(k), v) for k, v in d.items()]
        elif how == 5:
            src = rng.choice([JSObject, JSArray])()
            for k, v in pairs:
                src[k] = v
            pairs = list(src.items())
            o = cls(src, **kw)
        elif how == 6:
            o = cls(**kw)
            pairs = []
        elif cls is JSArray:
            xs = [JSHole if rng.random() < 0.3 else self.value() for _ in range(rng.choice([0, 1, 3, 8, 20, 60]))]
            mine = rng.choice([list, tuple, iter, DenseArrayProperties, SparseArrayProperties])(xs)
            o = cls(mine, **kw) if rng.random() < 0.8 else cls((x for x in xs), **kw)
            if isinstance(mine, (list, DenseArrayProperties, SparseArrayProperties)):  # the elements were copied
                mine.append("alias")
                mine[0] = "alias"
                mine.insert(0, "alias")
            pairs = []
            self.js.append(["list", [HOLE if x is JSHole else x for x in xs]])
            self.m.set_list(xs)
        else:
            o = cls({}, **kw)
            pairs = []
        for k, v in pairs:
            self.put(k, v)
        from harness.graph import canonical_key

        for k, v in kw.items():
            self.put(canonical_key(k), v)
        self.ops.append(f"{cls.__name__}{how}")
        self.o = o
        if rng.random() < 0.05:  # the storage is not a matter of behaviour
            if self.m.length <= SMALL:
                o.array = rng.choice([SparseArrayProperties, DenseArrayProperties])(list(o.array))

    def refused(self, types, fn, what):
        self.sh.count("refused operations")
        return expect_raises(types, fn, what)

    def step(self):
        rng, o, m = self.rng, self.o, self.m
        if rng.random() < 0.3:
            return self.array_step()
        op = rng.choices(["set", "del", "pop", "popdef", "get", "in", "setdefault", "update", "updatekw", "hole", "popitem", "clear", "run", "readonly"],
                         [9, 3, 2, 1, 1, 1, 2, 2, 1, 2, 1, 0.15, 0.5, 0.3])[0]
        k = self.key()
        f = any_form(rng, k)
        self.ops.append(op)
        if op == "set":
            v = self.value()
            o[f] = v
            self.put(k, v)
        elif op == "run":  # consecutive elements
            for i in range(rng.choice([2, 5, 20] if not self.large else [2, 20, 100, 400])):
                if isinstance(k, int) and k + i <= MAX:
                    v = self.value()
                    o[k + i] = v
                    self.put(k + i, v)
        elif op == "hole":
            o[f] = JSHole
            self.put(k, JSHole)
        elif op in ("del", "pop", "popdef"):
            fn = {"del": lambda: o.__delitem__(f), "pop": lambda: o.pop(f), "popdef": lambda: o.pop(f, self)}[op]
            if m.has(k):
                r = fn()
                check(op == "del" or is_same(r, m.get(k)), "pop(%r) is %s", f, short(r))
                m.drop(k)
                self.js.append(["del", k])
            elif op == "popdef":
                check(fn() is self, "pop default")
            else:
                e = self.refused(KeyError, fn, f"{op} {f!r}")
                check(str(k) in str(e) or repr(f) in str(e), "the error does not name the key: %s", e)
        elif op == "get":
            if m.has(k):
                check(is_same(o[f], m.get(k)), "[%r] is %s", f, short(o[f]))
            else:
                self.refused(KeyError, lambda: o[f], f"[{f!r}]")
        elif op == "in":
            check((f in o) == m.has(k) and (f in o.keys()) == m.has(k), "in %r", f)
            check(((f, m.get(k) if m.has(k) else 0) in o.items()) == m.has(k), "items in %r", f)
        elif op == "setdefault":
            v = self.value()
            r = o.setdefault(f, v)
            if not m.has(k):
                self.put(k, v)
            check(is_same(r, m.get(k)), "setdefault %r gives %s", f, short(r))
        elif op in ("update", "updatekw"):
            pairs = [(self.key(), self.value()) for _ in range(rng.randint(0, 5))]
            given = [(any_form(rng, x), v) for x, v in pairs]
            if op == "updatekw":
                kw = {str(x): v for x, v in pairs}
                pairs = [(next(p for p, _ in pairs if str(p) == x), v) for x, v in kw.items()]
                o.update(**kw)
            else:
                how = rng.randrange(4)
                if how == 0:
                    src = JSObject()
                    for x, v in pairs:
                        src[x] = v
                    pairs = list(src.items())
                    o.update(src)
                elif how == 1:
                    from harness.graph import canonical_key

                    d = dict(given)
                    pairs = [(canonical_key(x), v) for x, v in d.items()]
                    o.update(d)
                    d.clear()
                else:
                    o.update(given if how == 2 else iter(given))
            for x, v in pairs:
                self.put(x, v)
        elif op == "popitem":
            if m.keys():
                k, v = o.popitem()
                check(m.has(k) and is_same(v, m.get(k)), "popitem gave (%r, %s)", k, short(v))
                m.drop(k)
                self.js.append(["del", k])
            else:
                self.refused(KeyError, o.popitem, "popitem")
        elif op == "clear":
            o.clear()
            for k in m.keys():
                m.drop(k)
                self.js.append(["del", k])
        else:
            for bad in (lambda: o.properties.__setitem__("z", 1), lambda: o.properties.pop("a", 1)):
                self.refused((TypeError, AttributeError), bad, "writing to the view of text properties")

    def array_step(self):
        """An operation on the integer part by its own API."""
        rng, o, m, a = self.rng, self.o, self.m, self.o.array
        sh = self.sh
        big = m.length > SMALL
        op = rng.choices(["append", "set", "sethole", "get", "resize", "del", "insert", "pop", "extend", "iadd", "reverse", "remove", "clear"],
                         [4, 4, 2, 2, 3, 2, 2, 2, 1, 1, 0 if big else 0.7, 0 if big else 1, 0 if big else 0.1])[0]
        sh.count("array operations")
        self.ops.append("." + op)
        n = m.length
        v = JSHole if rng.random() < 0.25 else self.value()
        i = rng.randint(-n - 2, n + 1) if n and rng.random() < 0.3 else min(self.index(), MAX)
        if op == "append":
            if n == 2**32 - 1:
                return self.refused(IndexError, lambda: a.append(v), "append to a full array")
            a.append(v)
            m.put(n, v)
            self.js.append(["push", n, HOLE if v is JSHole else v])
        elif op in ("set", "sethole", "get"):
            if op == "sethole":
                v = JSHole
            j = i if i >= 0 else n + i
            fn = (lambda: a[i]) if op == "get" else (lambda: a.__setitem__(i, v))
            if not 0 <= j < n:
                return self.refused(IndexError, fn, f"array {op} {i} of {n}")
            if op == "get":
                check(is_same(fn(), m.ints.get(j, JSHole)), "array[%d]", i)
            else:
                fn()
                self.put(j, v)
        elif op == "resize":
            k = rng.choice([n, n + 1, max(0, n - 1), n // 2, 0, self.index(), self.index() + 1, -1, 2**32])
            if not 0 <= k < 2**32:
                return self.refused(ValueError, lambda: a.resize(k), f"resize({k})")
            if isinstance(a, DenseArrayProperties) and k > 5000:
                return
            a.resize(k)
            m.length = k
            m.ints = {j: x for j, x in m.ints.items() if j < k}
            self.js.append(["length", k])
        elif op in ("del", "pop"):
            i = i if rng.random() < 0.6 else -1
            fn = (lambda: a.__delitem__(i)) if op == "del" else (lambda: a.pop(i)) if i != -1 or rng.random() < 0.3 else (lambda: a.pop())
            j = i if i >= 0 else n + i
            if not 0 <= j < n:
                return self.refused(IndexError, fn, f"array {op} {i} of {n}")
            want = m.ints.get(j, JSHole)
            r = fn()
            check(op == "del" or is_same(r, want), "array pop(%d) gave %s, expected %s", i, short(r), short(want))
            m.ints = {(x if x < j else x - 1): y for x, y in m.ints.items() if x != j}
            m.length -= 1
            self.js.append(["remove", j, big])
        elif op == "insert":
            if n == 2**32 - 1:
                return self.refused(IndexError, lambda: a.insert(i, v), "insert into a full array")
            a.insert(i, v)
            j = max(0, n + i) if i < 0 else min(i, n)
            m.ints = {(x if x < j else x + 1): y for x, y in m.ints.items()}
            m.length += 1
            if v is not JSHole:
                m.ints[j] = v
            self.js.append(["insert", j, HOLE if v is JSHole else v, big])
        elif op in ("extend", "iadd"):
            xs = [JSHole if rng.random() < 0.2 else self.value() for _ in range(rng.randint(0, 6))]
            if n + len(xs) >= 2**32:
                return
            given = xs if rng.random() < 0.6 else iter(xs)
            if op == "extend":
                a.extend(given)
            else:
                b = a
                b += given
                check(b is a, "+= made another array")
            for d, x in enumerate(xs):
                m.put(n + d, x)
                self.js.append(["push", n + d, HOLE if x is JSHole else x])
        elif op == "reverse":
            a.reverse()
            m.set_list(m.as_list()[::-1])
            self.js.append(["reverse"])
        elif op == "remove":
            xs = m.as_list()
            x = rng.choice(xs) if xs and rng.random() < 0.7 else "absent"
            if x not in xs:
                return self.refused(ValueError, lambda: a.remove(x), "remove")
            a.remove(x)
            j = xs.index(x)
            del xs[j]
            m.set_list(xs)
            self.js.append(["remove", j, False])
        else:
            a.clear()
            m.set_list([])
            self.js.append(["length", 0])


JS = """([isArray, ops]) => {
  const HOLE = "<hole>";
  let o = isArray ? [] : {};
  let length = 0;             // the array part of a plain object has a length on the Python side only
  const own = (k) => Object.prototype.hasOwnProperty.call(o, k);
  const set = (k, v) => { Object.defineProperty(o, k, {value: v, writable: true, enumerable: true, configurable: true});
                          if (typeof k === 'number') length = Math.max(length, k + 1); };
  const move = (a, b) => { if (own(a)) set(b, o[a]); else delete o[b]; };
  const ints = () => Object.keys(o).filter(k => String(k >>> 0) === k && (k >>> 0) !== 4294967295).map(Number);
  for (const op of ops) {
    const [name, x, y, big] = op;
    if (isArray && !(big || op[2] === true)) {
      switch (name) {
        case 'list': x.forEach((v, i) => { o.length = i + 1; if (v !== HOLE) o[i] = v; }); continue;
        case 'grow': if (o.length < x) o.length = x; continue;
        case 'push': if (y === HOLE) o.length++; else if (o.length > 4294967290) o[o.length] = y; else if (o.push(y) !== x + 1) throw Error('push'); continue;
        case 'length': o.length = x; continue;
        case 'remove': if (x === o.length - 1 && o.length < 4294967290) o.pop(); else o.splice(x, 1); continue;
        case 'insert': o.splice(x, 0, y); if (y === HOLE) delete o[x]; continue;
        case 'reverse': o.reverse(); continue;
      }
    }
    switch (name) {
      case 'set': set(x, y); break;
      case 'del': delete o[x]; break;
      case 'list': case 'grow': throw Error('array operation');
      case 'push': if (y !== HOLE) set(x, y); break;
      case 'length': for (const k of ints()) if (k >= x) delete o[k]; if (isArray) o.length = x; length = x; break;
      case 'remove': case 'insert': {
        const d = name === 'remove' ? -1 : 1, n = isArray ? o.length : undefined;
        const moved = ints().filter(k => k >= x).map(k => [k, o[k]]);
        for (const [k] of moved) delete o[k];
        for (const [k, v] of moved) if (d === 1 || k !== x) set(k + d, v);
        if (isArray) o.length = n + d;
        if (d === 1 && y !== HOLE) set(x, y);
        break; }
      case 'reverse': throw Error('needs the length');
      default: throw Error(name);
    }
  }
  return [Object.entries(o), isArray ? o.length : null];
}"""


def case(sh, rng):
    h = Steps(sh, rng)
    h.create()
    if h.large:
        h.fill()
    m = h.m
    pool = (h.texts if len(h.texts) < 50 else rng.sample(h.texts, 50)) + [0, 1, 2, h.reach - 1, h.reach, MAX, "zz", "-1"]
    o = h.o
    compare(sh, o, m, pool)
    kind = type(o.array)
    n = rng.choice([1, 5, 10, 20, 40])
    for _ in range(n):
        try:
            h.step()
        except Violation as e:
            raise Violation(f"{e} (after {h.ops})")
        sh.count("operations")
        if type(o.array) is not kind:
            kind = type(o.array)
            sh.count("switches to sparse")
        if len(m.ints) + len(m.text) < 200 or rng.random() < 0.2:
            near = [m.length - 1, m.length] if 0 < m.length <= MAX else []
            try:
                compare(sh, o, m, pool + near, full=rng.random() < 0.3)
            except Violation as e:
                raise Violation(f"{e} (after {h.ops})")
    compare(sh, o, m, pool)
    if n >= 5:
        sh.nontrivial(tuple(h.ops), kind.__name__, tuple(map(str, m.keys())))
    # a copy made from what can be read is equal; and it survives serialization
    if m.length <= 10**6 and rng.random() < 0.3:
        c = h.cls()
        c.array = SparseArrayProperties(entries=list(o.array.elements().items()), length=m.length)
        c.update(o.properties)
        check(c == o and o == c and not c != o, "not equal to a copy with the same properties (after %s)", h.ops)
    if rng.random() < 0.15:
        r = loads(dumps(o))
        check(type(r) is h.cls, "round trip")
        w = Plain()
        w.ints, w.text = m.ints, m.text
        w.length = m.length if h.cls is JSArray else max(m.ints, default=-1) + 1
        compare(sh, r, w, pool)
        sh.count("round trips")
    if rng.random() < 0.1 and (h.cls is JSArray or ["reverse"] not in h.js) and sane(h.js):
        entries, length = sh.node.eval(JS, [h.cls is JSArray, h.js])
        want = [[str(k), v] for k, v in m.items()]
        check(entries == want, "JavaScript has %s, we have %s after %s", short(entries), short(want), h.js)
        check(length is None or length == m.length, "JavaScript's length is %s, ours %s after %s", length, m.length, h.js)
        sh.count("histories in V8")
    if rng.random() < 0.15:
        try:
            copies(sh, rng, h, pool)
        except Violation as e:
            raise Violation(f"{e} (copied after {h.ops})")


def copies(sh, rng, h, pool):
    """Copies hold the same, and are objects of their own."""
    o, m = h.o, h.m
    o["inner"] = inner = rng.choice([[1], JSObject(a=1), o])
    m.put("inner", inner)
    how = rng.choice(["copy", "deepcopy", "pickle"])
    c = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x, rng.randint(2, 5)))}[how](o)
    check(type(c) is type(o) and c is not o, "%s is a %s", how, type(c).__name__)
    if how != "copy":
        new = c["inner"]
        check(type(new) is type(inner) and new is not inner, "%s has the same inner object", how)
        check(new is c if inner is o else new == inner, "%s has another inner object: %s", how, short(new))
    w = Plain()
    w.ints, w.text, w.length = dict(m.ints), dict(m.text), m.length
    if how != "copy":
        w.put("inner", c["inner"])
    compare(sh, c, w, pool)
    if how != "copy" or inner is not o:
        check(c == o and o == c and not c != o, "%s is not equal to the original", how)
    sides = [(c, w), (o, m)]
    rng.shuffle(sides)
    for h.o, h.m in sides:
        h.ops.append(how)
        for _ in range(rng.randint(1, 8)):
            h.step()
            for x, y in sides:
                compare(sh, x, y, pool, full=False)
    sh.count("copies")


def sane(js):
    """V8 walks sparse arrays with millions of holes on splice."""
    far = False
    for op in js:
        if op[0] in ("set", "grow", "length", "push") and isinstance(op[1], int) and op[1] > 10**5:
            far = True
        if far and op[0] in ("remove", "insert", "reverse") and op[-1] is not True:
            return False
    return True


def switching(sh):
    """Around the switch of storage: every fill of 0..15 and every next index up to 70."""
    for mask in range(0, 1 << 7):
        for step in (1, 2, 5):
            filled = [i * step for i in range(7) if mask >> i & 1]
            for k in (14, 15, 16, 17, 23, 31, 32, 63, 64, 70):
                o = JSArray()
                m = Plain()
                for i in filled + [k]:
                    o[i] = i
                    m.put(i, i)
                for how in range(3):
                    if how == 1:
                        o[k // 2] = "x"
                        m.put(k // 2, "x")
                    elif how == 2:
                        o[k + 40] = JSHole
                        m.put(k + 40, JSHole)
                    compare(sh, o, m, [k, k + 1, k // 2, 0, 99])


fixed = [switching]
