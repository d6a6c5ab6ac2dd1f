"""Generation of value graphs, and their conversion to and from Python values."""
from __future__ import annotations

import collections
import math
import re
import struct
from datetime import datetime, timedelta, timezone
from types import MappingProxyType

from harness.graph import HOLE, NULL, SAFE, UNDEF, Node, children, is_node, same_double, walk
from harness.wire import VIEW_CODE
from v8serialize.constants import ArrayBufferViewTag, JSErrorName, JSRegExpFlag
from v8serialize.jstypes import (
    JSArray, JSArrayBuffer, JSArrayBufferTransfer, JSDataView, JSError, JSErrorData, JSHole, JSMap,
    JSObject, JSPrimitiveObject, JSRegExp, JSSet, JSSharedArrayBuffer, JSTypedArray, JSUndefined,
    create_view,
)
from v8serialize.jstypes._v8 import V8SharedObjectReference, V8SharedValueId

VIEW_TAG = {t.name[1:]: t for t in ArrayBufferViewTag}
VIEW_NAME = {t: n for n, t in VIEW_TAG.items()}
EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
ERROR_NAMES = ["Error", "EvalError", "RangeError", "ReferenceError", "SyntaxError", "TypeError", "URIError"]

TEXTS = ["", "a", "b", "key", "length", "__proto__", "constructor", "toString", "0", "-0", "00", "01", "1",
         "1.5", "1e3", "NaN", "Infinity", "-1", "4294967294", "4294967295", "4294967296", "9007199254740993",
         "é", "ÿ", "Ā", "\u2028", "💩", "\x00", "日本語", "a\x00b", "\ufeff", "\uffff", "ß" * 3, " 1", "1 ", "²", "٣"]
INTS = [0, 1, -1, 2, 63, 64, 127, 128, 255, 256, 2**14 - 1, 2**14, 2**21, 2**28 - 1, 2**28, 2**30 - 1, 2**30,
        -(2**30), -(2**30) - 1, 2**31 - 1, 2**31, -(2**31), -(2**31) - 1, 2**32 - 1, 2**32, 2**32 - 2,
        -(2**32), SAFE, -SAFE, SAFE - 1]
BIGS = [SAFE + 1, -SAFE - 1, SAFE + 2, 2**63 - 1, 2**63, 2**64 - 1, 2**64, -(2**63), -(2**64), 2**65 + 1,
        2**127, -(2**128), 10**40, -(10**100), 2**1024]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, -2.25, 1e-7, 5e-324, 1.7976931348623157e308, math.inf, -math.inf,
          math.nan, 2.0**31, 2.0**32, 2.0**53, -(2.0**53), 1e21, 123456789.0, 4294967295.0, 0.1, 3.0, 255.0]
REGEXPS = ["", "a", "(?:)", "[a-z]+", "^x?$", "\\d{2}", "é", "a|b", "\\/", "(a)(b)", "💩", ".", "\\u0041"]
REGEXP_FLAGS = "dgimsuvy"


class MyInt(int):
    pass


class MyStr(str):
    pass


class MyFloat(float):
    pass


def num(v):
    """Model of a Python number (not bool)."""
    if isinstance(v, float):
        return ("num", float(v), "float")
    if -SAFE <= v <= SAFE:
        return ("num", float(v), "int" if -(2**31) <= v < 2**32 else None)
    return ("big", int(v))


def num_to_python(p):
    if p[0] == "big":
        return p[1]
    if p[2] == "float":
        return p[1]
    return int(p[1])


def svz_key(v):
    """Uniqueness of Map keys and Set members: conservative (numbers by value)."""
    if is_node(v):
        return ("node", id(v))
    if v[0] in ("num", "big"):
        return ("nan",) if v[1] != v[1] else ("n", v[1] + 0)
    return v


class Gen:
    KINDS = dict(obj=5, arr=6, map=4, set=3, date=2, regexp=1.5, error=2, prim=1, buf=2, view=2, sbuf=0.3,
                 tbuf=0.2, shared=0.2)

    def __init__(self, rng, *, budget=25, depth=6, share=0.25, cycles=True, forms=True, kinds=None, without=(),
                 features=True, boxed_keys=False, holes=True, nodejs=False, wire=False, error_cycles=None,
                 big_arrays=True, float16=None, linear=True, stacks=True,
                 sub_ms=None, exceptions=False):
        self.exceptions = exceptions
        self.rng, self.budget, self.depth = rng, budget, depth
        self.share, self.cycles, self.forms = share, cycles, forms
        self.features, self.holes, self.nodejs, self.wire = features, holes, nodejs, wire
        self.error_cycles = features if error_cycles is None else error_cycles
        self.big_arrays = big_arrays
        self.float16 = (features and not nodejs) if float16 is None else float16
        self.linear = linear and not nodejs
        self.stacks = stacks
        self.sub_ms = (not nodejs and not wire) if sub_ms is None else sub_ms
        k = dict(kinds or self.KINDS)
        for w in without:
            k.pop(w, None)
        if nodejs:
            for w in ("sbuf", "tbuf", "shared"):
                k.pop(w, None)
        self.kinds, self.weights = list(k), list(k.values())
        self.done = []  # completed nodes
        self.path = []  # containers being generated
        self.used = 0

    # --- primitives
    def text(self):
        r = self.rng
        x = r.random()
        if x < 0.55:
            return r.choice(TEXTS)
        if x < 0.8:
            return "".join(r.choice("abcxyz019_ -") for _ in range(r.randint(0, 8)))
        lo, hi = r.choice([(0, 0x7F), (0, 0xFF), (0x80, 0xFF), (0, 0x7FF), (0x800, 0xD7FF), (0xE000, 0xFFFF),
                           (0x10000, 0x10FFFF)])
        n = r.choice([1, 2, 3, 5, 20, 63, 64, 127, 128, 130] if x < 0.97 else [300, 5000, 17000])
        return "".join(chr(r.randint(lo, hi)) for _ in range(n))

    def integer(self):
        r = self.rng
        x = r.random()
        if x < 0.4:
            return r.choice(INTS)
        if x < 0.55:
            return r.choice(BIGS)
        if x < 0.8:
            return r.randint(-200, 200)
        bits = r.choice([7, 8, 14, 16, 31, 32, 33, 52, 53, 54, 64, 65, 128, 300])
        v = r.getrandbits(bits)
        return -v if r.random() < 0.4 else v

    def flt(self):
        r = self.rng
        x = r.random()
        if x < 0.5:
            return r.choice(FLOATS)
        if x < 0.7:
            return float(r.randint(-1000, 1000))
        if x < 0.85:
            return r.uniform(-1000, 1000)
        return struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]

    def primitive(self):
        r = self.rng
        x = r.random()
        if x < 0.3:
            return num(self.integer())
        if x < 0.5:
            f = self.flt()
            return num(math.nan if f != f else f)
        if x < 0.75:
            return ("str", self.text())
        if x < 0.87:
            return ("bool", r.random() < 0.5)
        return r.choice([NULL, UNDEF])

    # --- sizes beyond those of ordinary graphs
    SIZES = [100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 30000]
    BULK = SIZES + [65535, 65536, 65537, 100000, 2**20 - 1, 2**20, 2**21, 2**21 + 1]

    def large(self):
        """A graph with something large, deep or numerous in it, among ordinary values."""
        r = self.rng
        what = r.choice(["text", "bigint", "buffer", "list", "sparse", "obj", "map", "set", "refs", "deep", "strings", "regexp",
                         "error", "prim"])
        self.budget = 6
        kinds = dict(zip(self.kinds, self.weights))
        if what in ("obj", "map", "set", "regexp", "error", "prim", "buffer") and {"buffer": "buf"}.get(what, what) not in kinds:
            what = "list"
        if what in ("list", "sparse", "refs", "deep", "strings") and "arr" not in kinds:
            what = "text"
        self.what = what
        big = getattr(self, "large_" + what)()
        if "arr" not in kinds:
            return big
        n = Node("arr", form=self.form(("list", 2), ("jsarray", 1)), props=[])
        vals = [self.value(2) for _ in range(r.randint(0, 2))] + [big] + [self.value(2) for _ in range(r.randint(0, 2))]
        if is_node(big) and not big.imm and r.random() < 0.5:
            vals.append(big)
        n.elems, n.length = dict(enumerate(vals)), len(vals)
        return n

    def pool(self, n):
        """n values: small numbers, text and some objects that occur often."""
        r = self.rng
        some = [self.value(3) for _ in range(r.randint(1, 4))] + [num(0), num(2**31), ("bool", True), ("str", "é"), ("str", "a")]
        return [some[r.randrange(len(some))] if r.random() < 0.3 else num(i if r.random() < 0.9 else i / 2) for i in range(n)]

    def bulk_text(self, sizes):
        r = self.rng
        n = r.choice(sizes)
        lo, hi = r.choice([(32, 0x7E), (32, 0xFF), (0x80, 0xFF), (0x100, 0xD7FF), (0x10000, 0x10FFFF), (32, 0x3000)])
        unit = "".join(chr(r.randint(lo, hi)) for _ in range(97))
        t = unit * (n // 97) + unit[:n % 97]
        if r.random() < 0.3:  # one unusual character somewhere
            i = r.choice([0, n // 2, n - 1])
            t = t[:i] + r.choice("a\0\x80é€💩\uffff") + t[i + 1:]
        return t

    def large_text(self):
        return ("str", self.bulk_text(self.BULK))

    def large_prim(self):
        return self.finish(Node("prim", value=("str", self.bulk_text(self.SIZES)), imm=True, form="prim"))

    def large_regexp(self):
        n = self.g_regexp(0)
        if n.form == "jsregexp":
            n.source = "".join(c if c.isalnum() else "x" for c in self.bulk_text(self.SIZES)) if self.nodejs else self.bulk_text(self.SIZES)
        if self.nodejs:
            n.source = "a" * len(n.source)
        return n

    def large_error(self):
        n = Node("error", form="jserrordata", name="Error", message=self.bulk_text(self.SIZES), cause=None,
                 stack=self.bulk_text(self.SIZES) if self.stacks else None)
        return self.finish(n)

    def large_bigint(self):
        r = self.rng
        bits = r.choice([511, 512, 513, 1015, 1016, 1017, 1024, 4095, 4096, 8191, 8192, 16383, 16384, 65536, 2**17, 2**19, 2**20] + ([] if self.nodejs else [2**21 + 5, 2**22, 2**22 + 2**20, 2**23]))
        v = r.choice([r.getrandbits(bits) | 1 << bits - 1, 1 << bits, (1 << bits) - 1])
        return ("big", -v if r.random() < 0.5 else v)

    def large_buffer(self):
        r = self.rng
        n = r.choice(self.BULK)
        b = Node("buf", data=r.randbytes(n), maxlen=None, imm=False, form=self.form(("jsbuffer", 2), ("bytearray", 1)))
        if b.form == "jsbuffer" and self.features is not None and r.random() < 0.3:
            b.maxlen = n + r.choice([0, 1, 100000])
        self.finish(b)
        if "view" not in self.kinds or r.random() < 0.3:
            return b
        vals = []
        for _ in range(r.randint(1, 3)):
            v = Node("view", buf=b, form="view", track=False)
            v.tag = r.choice([x for x in VIEW_CODE if x != "Float16Array" or self.float16])
            size = VIEW_CODE[v.tag][1]
            items = n // size
            v.off = size * r.choice([0, 1, items // 2, max(0, items - 1), items, min(items, 127), min(items, 128), min(items, 16384)])
            v.track = b.maxlen is not None and r.random() < 0.5
            left = items - v.off // size
            v.blen = size * (left if v.track else r.choice([0, left, left // 2, min(left, 127), min(left, 128), min(left, 16384)]))
            vals.append(self.finish(v))
        if len(vals) == 1 or "arr" not in self.kinds:
            return vals[0]
        return self.finish(Node("arr", form="list", props=[], elems=dict(enumerate(vals)), length=len(vals)))

    def large_list(self):
        vals = self.pool(self.rng.choice(self.SIZES + [65535, 65536, 65537]))
        form = self.form(("list", 2), ("jsarray", 2), ("tuple", 1), ("deque", 1))
        return self.finish(Node("arr", form=form, props=[], elems=dict(enumerate(vals)), length=len(vals), imm=form == "tuple"))

    def large_sparse(self):
        r = self.rng
        if not (self.holes and self.big_arrays):
            return self.large_list()
        length = r.choice([5000, 16383, 16384, 16385, 65536, 2**20, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1])
        k = min(r.choice([20, 127, 128, 129, 1000, 5000]), length)
        idx = sorted({r.randrange(length) for _ in range(k)} | {0, length - 1} if r.random() < 0.5 else set(r.sample(range(length), k)))
        vals = self.pool(len(idx))
        return self.finish(Node("arr", form="jsarray", props=[], elems=dict(zip(idx, vals)), length=length))

    def keys(self, n, ints):
        r = self.rng
        text = [f"k{i}" if i % 7 else f"k{i}é" for i in range(n)]
        if not ints:
            return text
        x = r.random()
        if x < 0.4:
            return list(range(n))
        if x < 0.6:
            return sorted(r.sample(range(2**32 - 1), n))
        return text if x < 0.8 else list(range(n // 2)) + text[n // 2:]

    def large_obj(self):
        n = self.rng.choice(self.SIZES)
        return self.finish(Node("obj", form="jsobject", props=list(zip(self.keys(n, True), self.pool(n)))))

    def large_map(self):
        n = self.rng.choice(self.SIZES)
        ks = [num(k) if isinstance(k, int) else ("str", k) for k in self.keys(n, True)]
        return self.finish(Node("map", form=self.form(("jsmap", 2), ("dict", 2)), items=list(zip(ks, self.pool(n)))))

    def large_set(self):
        n = self.rng.choice(self.SIZES)
        ks = [num(k) if isinstance(k, int) else ("str", k) for k in self.keys(n, True)]
        return self.finish(Node("set", form="jsset", items=ks))

    def large_refs(self):
        """Many objects, referred to again later: ids of every width."""
        r = self.rng
        n = r.choice(self.SIZES[:-1] + [16390, 20000, 65545])
        forms = [f for f in ("arr", "obj", "map", "set", "date") if f in self.kinds]
        objs = []
        for i in range(n):
            k = r.choice(forms)
            if k == "arr":
                o = Node("arr", form="list", props=[], elems={}, length=0)
            elif k == "obj":
                o = Node("obj", form="jsobject", props=[])
            elif k == "map":
                o = Node("map", form="dict", items=[])
            elif k == "set":
                o = Node("set", form="jsset", items=[])
            else:
                o = Node("date", ms=float(i), form="utc", note=i * 1000, extra=0)
            objs.append(o)
        again = [objs[i] for i in (0, 1, 62, 63, 64, 126, 127, 128, n - 1, n - 2, 8190, 8191, 8192, 16380, 16381, 16382, 16383, 16384, 32766, 32767, 32768, 65533, 65534, 65535, 65536, 65537)
                 if i < n] + [r.choice(objs) for _ in range(100)]
        vals = objs + again
        return self.finish(Node("arr", form="list", props=[], elems=dict(enumerate(vals)), length=len(vals)))

    def large_deep(self):
        r = self.rng
        forms = [f for f in ("arr", "obj", "map", "set", "error") if f in self.kinds]
        if r.random() < 0.5:
            forms = [r.choice(forms)]
        cur = self.primitive()
        outer = None
        for _ in range(r.choice([12, 20, 33, 50, 64, 65, 100, 110])):
            k = r.choice(forms)
            if k == "arr":
                cur = Node("arr", form=self.form(("list", 1), ("jsarray", 1), ("tuple", 1)), props=[], elems={0: cur}, length=1)
                cur.imm = cur.form == "tuple"
            elif k == "obj":
                cur = Node("obj", form="jsobject", props=[("a", cur)])
            elif k == "map":
                ok = is_node(cur) and cur.kind not in ("prim", "buf", "regexp", "date") and not cur.imm
                cur = Node("map", form="jsmap", items=[(cur, num(1))] if ok and r.random() < 0.5 else [(num(1), cur)])
            elif k == "set":
                ok = is_node(cur) and not cur.imm
                cur = Node("set", form="jsset", items=[cur if ok else num(1)])
            else:
                cur = Node("error", form="jserrordata", name="Error", message="m", stack=None,
                           cause=None if cur == NULL and not is_node(cur) else cur)
            self.done.append(cur)
        return cur

    def large_strings(self):
        """Many distinct texts and numbers, each more than once."""
        r = self.rng
        n = r.choice(self.SIZES)
        vals = [("str", f"s{i}") if i % 3 else num(i + 0.5) for i in range(n)]
        vals += [vals[r.randrange(n)] for _ in range(200)]
        return self.finish(Node("arr", form="list", props=[], elems=dict(enumerate(vals)), length=len(vals)))

    # --- graphs
    def graph(self):
        return self.value(0)

    def can_share(self, n):
        """n is being generated: a reference to it needs a mutable node in between."""
        i = next((i for i, p in enumerate(self.path) if p is n), None)
        if i is None:
            # n may refer back to an immutable node that is being generated
            open_ = set()
            for p in reversed(self.path):
                if not p.imm:
                    break
                open_.add(id(p))
            todo, seen = [n] if open_ else [], set()
            while todo:
                x = todo.pop()
                if id(x) in open_:
                    return False
                if is_node(x) and x.imm and id(x) not in seen:
                    seen.add(id(x))
                    todo.extend(children(x))
            if not self.error_cycles:
                # n may refer back to a node above an error that is being generated
                last = max((j for j, p in enumerate(self.path) if p.kind == "error"), default=-1)
                if last >= 0:
                    above = {id(p) for p in self.path[:last + 1]}
                    return not any(id(x) in above for x in walk(n))
            return True
        if not self.cycles:
            return False
        seg = self.path[i:]
        if not self.error_cycles and any(p.kind == "error" for p in seg):
            return False
        # an error's message and stack come before its identity: only its cause refers to it
        return any(not p.imm for p in seg)

    def value(self, d, key=False):
        """A model value. key: usable as JSMap key / JSSet member."""
        r = self.rng
        if self.used >= self.budget or d > self.depth or r.random() < (0.45 if d else 0.05):
            if self.done and r.random() < self.share and not key:
                n = self.pick()
                if n is not None:
                    return n
            return self.primitive()
        pool = len(self.done) + len(self.path)
        if pool and r.random() < self.share:
            n = self.pick()
            if n is not None and not (key and n.kind == "prim"):
                return n
        kind = r.choices(self.kinds, self.weights)[0]
        if key and kind == "prim":
            kind = "obj"
        self.used += 1
        return getattr(self, "g_" + kind)(d + 1)

    def pick(self):
        r = self.rng
        for _ in range(3):
            i = r.randrange(len(self.done) + len(self.path))
            n = self.path[i - len(self.done)] if i >= len(self.done) else self.done[i]
            if self.can_share(n):
                return n
        return None

    def finish(self, n):
        self.done.append(n)
        return n

    def form(self, *choices):
        """choices: (form, weight)"""
        if not self.forms:
            return choices[0][0]
        return self.rng.choices([c for c, _ in choices], [w for _, w in choices])[0]

    def key(self):
        r = self.rng
        x = r.random()
        if x < 0.35:
            return r.choice([0, 1, 2, 3, 5, 7, 10, 15, 16, 100, 2**16, 2**31, 2**32 - 2, 63, 64, 127, 128, 16383, 16384])
        from harness.graph import canonical_key

        if x < 0.42:
            return canonical_key(r.choice([2**32 - 1, 2**32, -1, -5, 2**53, 10**12, 2**64, -(10**20), 1.5, -0.5, 0.25]))
        return canonical_key(self.text())

    def pairs(self, d, n, ints=True):
        out = {}
        for _ in range(n):
            k = self.key()
            if isinstance(k, int) and not ints:
                continue
            if k in out or not ints and self.nodejs and k == "length":
                continue
            out[k] = self.value(d)
        ints_ = sorted(k for k in out if isinstance(k, int))
        return [(k, out[k]) for k in ints_] + [(k, v) for k, v in out.items() if isinstance(k, str)]

    def size(self):
        r = self.rng
        x = r.random()
        return 0 if x < 0.12 else r.randint(1, 4) if x < 0.85 else r.randint(5, 12)

    def g_obj(self, d):
        n = Node("obj", form="jsobject", props=[])
        self.path.append(n)
        n.props = self.pairs(d, self.size())
        self.path.pop()
        return self.finish(n)

    def g_arr(self, d):
        r = self.rng
        form = self.form(("jsarray", 5), ("list", 5), ("tuple", 2), ("deque", 0.5), ("userlist", 0.3), ("range", 0.4))
        n = Node("arr", form=form, props=[], elems={}, imm=form in ("tuple", "range"))
        if form == "range":
            lo = r.randint(-5, 5)
            n.elems = {i: num(lo + i) for i in range(r.randint(0, 5))}
            n.length = len(n.elems)
            n.note = lo
            return self.finish(n)
        self.path.append(n)
        x = r.random()
        if form == "jsarray" and self.holes and x < 0.5:
            n.length = r.choice([1, 2, 3, 5, 8, 15, 16, 17, 40, 64, 65, 100, 200, 1000] +
                                ([2**14 - 1, 2**14, 2**16, 2**31, 2**32 - 2, 2**32 - 1] if self.big_arrays else []))
            k = r.choice([0, 1, 2, 3, 5, 9])
            idx = {r.randrange(n.length) if r.random() < 0.7 else r.choice([0, n.length - 1]) for _ in range(k)}
            n.elems = {i: self.value(d) for i in sorted(idx)}
        else:
            c = self.size() if x < 0.97 else r.choice([63, 64, 65, 127, 128, 129, 300])
            n.length = c
            n.elems = {i: (self.value(d) if i < 12 else self.primitive()) for i in range(c)}
        if form == "jsarray" and r.random() < 0.3:
            n.props = self.pairs(d, r.randint(1, 3), ints=False)
        self.path.pop()
        return self.finish(n)

    def hashable(self, d):
        """A key for a dict or a member of a set, with its Python value."""
        r = self.rng
        x = r.random()
        if x < 0.75 or self.used >= self.budget:
            p = self.primitive()
            return p, prim_to_python(p)
        if x < 0.83:
            n = Node("arr", form="tuple", props=[], imm=True)
            n.elems = {i: self.primitive() for i in range(r.randint(0, 3))}
            n.length = len(n.elems)
        elif x < 0.9:
            n = Node("buf", form="bytes", data=bytes(r.randbytes(r.randint(0, 5))), maxlen=None, imm=True)
        elif x < 0.96:
            n = self.g_date(d, finish=False)
        else:
            n = self.g_regexp(d, finish=False)
        n.py = None
        py = to_python(n)
        n.py = py
        self.used += 1
        return n, py

    def g_map(self, d):
        r = self.rng
        form = self.form(("jsmap", 6), ("dict", 5), ("ordereddict", 0.5), ("mappingproxy", 0.5), ("defaultdict", 0.3),
                         ("userdict", 0.3), ("chainmap", 0.2))
        n = Node("map", form=form, items=[], imm=form == "mappingproxy")
        self.path.append(n)
        seen, pyseen = set(), {}
        for _ in range(self.size()):
            if form == "jsmap":
                k = self.value(d, key=True)
                s = svz_key(k)
                if s in seen or self.equal_immutable(k, pyseen):
                    continue
                seen.add(s)
            else:
                k, py = self.hashable(d)
                s = svz_key(k)
                if s in seen or py in pyseen:
                    continue
                pyseen[py] = 1
                seen.add(s)
                if is_node(k):
                    self.finish(k)
            n.items.append((k, self.value(d)))
        self.path.pop()
        return self.finish(n)

    def equal_immutable(self, k, pyseen):
        """Equal hashable values in one JSMap/JSSet are merged (known finding)."""
        if not is_node(k) or k.kind not in ("buf", "regexp", "sbuf", "tbuf", "shared") and k.form != "range" \
                and not (k.form in ("tuple", "frozenset") and not children(k)):
            return False
        if k.kind == "buf":
            s = ("buf", k.data)
        elif k.kind == "regexp":
            s = ("re", k.source)
        elif k.kind == "arr":
            s = "range" if k.form == "range" else ()
        elif k.kind == "set":
            s = frozenset()
        else:
            s = (k.kind, k.id)
        if s in pyseen:
            return True
        pyseen[s] = 1
        return False

    def g_set(self, d):
        form = self.form(("jsset", 6), ("set", 3), ("frozenset", 2), ("dictkeys", 0.5))
        n = Node("set", form=form, items=[], imm=form == "frozenset")
        self.path.append(n)
        seen, pyseen = set(), {}
        for _ in range(self.size()):
            if form == "jsset":
                k = self.value(d, key=True)
                s = svz_key(k)
                if s in seen or self.equal_immutable(k, pyseen):
                    continue
                seen.add(s)
                n.items.append(k)
            else:
                k, py = self.hashable(d)
                s = svz_key(k)
                if s in seen or py in pyseen:
                    continue
                seen.add(s)
                pyseen[py] = k
                if is_node(k):
                    self.finish(k)
        if form != "jsset":
            if form == "dictkeys":
                n.py = dict.fromkeys(pyseen).keys()
            else:
                n.py = set(pyseen) if form == "set" else frozenset(pyseen)
            n.items = [pyseen[x] for x in n.py]
        self.path.pop()
        return self.finish(n)

    def g_date(self, d, finish=True):
        r = self.rng
        x = r.random()
        if x < 0.5:
            ms = r.randint(-10**11, 2 * 10**12)
        elif x < 0.7:
            ms = r.choice([0, 1, -1, 999, 1000, -999, -1000, 1700000000000, -62135596800000 + 86400000, 253402300799999 - 86400000])
        else:
            ms = r.randint(-62135596800000 + 86400000, 253402300799999 - 86400000)
        us = ms * 1000
        if self.sub_ms and abs(ms) < 2**42 and r.random() < 0.4:
            us += r.randint(0, 999)
        n = Node("date", ms=us / 1000, imm=False, form=self.form(("utc", 3), ("naive", 2), ("tz", 2)))
        n.note = us
        n.extra = r.choice([0, 60, -60, 330, 345, 720, -720, 839, -1])
        return self.finish(n) if finish else n

    def g_regexp(self, d, finish=True):
        r = self.rng
        flags = "".join(c for c in REGEXP_FLAGS if r.random() < 0.25)
        if "u" in flags and "v" in flags:
            flags = flags.replace(r.choice("uv"), "")
        if self.linear and r.random() < 0.05:
            flags = "".join(sorted(set(flags) | {"l"}))
        # an empty source is written (?:) by JavaScript
        src = r.choice(REGEXPS[1:] if self.nodejs else REGEXPS) if self.nodejs or r.random() < 0.6 else self.text()
        if self.nodejs and ("u" in flags or "v" in flags) and src == "\\/":
            src = "a"
        form = "jsregexp"
        if self.forms and r.random() < 0.3 and not self.nodejs:
            form = "pattern"
            src = r.choice(["", "a", "[a-z]+", "^x?$", "\\d{2}", "é", "a|b"])
            flags = "".join(c for c in "imsu" if c == "u" or r.random() < 0.3)
            flags = flags.replace("u", "v")  # the documented equivalent of re.UNICODE
        n = Node("regexp", source=src or "(?:)", flags=flags, form=form, imm=True)
        return self.finish(n) if finish else n

    def g_error(self, d):
        r = self.rng
        n = Node("error", form=self.form(("jserrordata", 3), ("jserror", 3)))
        if self.exceptions and r.random() < 0.35:
            return self.finish(self.exception(n))
        n.name = r.choice(ERROR_NAMES)
        n.message = self.text() if r.random() < 0.8 else None
        if n.message is None and n.form == "jserror":
            n.message = ""  # JSError always has a message
        n.stack = self.text() if self.stacks and r.random() < 0.5 else None
        n.cause = None
        if r.random() < 0.5:
            self.path.append(n)
            n.cause = self.value(d)
            if n.cause == NULL and not is_node(n.cause):
                n.cause = None
            self.path.pop()
        return self.finish(n)

    def exception(self, n):
        """A Python exception. What its error says is P23's concern: here it is what from_exception gives."""
        r = self.rng
        e = r.choice([ValueError, KeyError, Exception, RuntimeError, KeyboardInterrupt])(r.choice(["", "m", "é", 3]))
        if r.random() < 0.5:
            try:
                raise e
            except BaseException:
                pass
        if r.random() < 0.3:
            e.__cause__ = OSError("cause")
        n.form, n.extra = "exception", e
        d = JSErrorData.from_exception(e)
        x = n
        while True:
            x.name, x.message, x.stack, x.cause = "Error", d.message, d.stack, None
            if d.cause is None:
                return n
            d = d.cause
            x.cause = Node("error", form="jserrordata")
            x = x.cause

    def g_prim(self, d):
        r = self.rng
        v = r.choice([("bool", True), ("bool", False), ("str", self.text()), ("num", self.flt(), "float"),
                      ("big", self.integer()), ("num", float(r.randint(-1000, 1000)), "float")])
        return self.finish(Node("prim", value=v, imm=True, form="prim"))

    def data(self):
        r = self.rng
        n = r.choice([0, 0, 1, 2, 3, 4, 7, 8, 8, 12, 15, 16, 16, 24, 32, 40, 127, 128, 130] + ([1000, 20000] if r.random() < 0.05 else []))
        return r.randbytes(n)

    def g_buf(self, d):
        r = self.rng
        n = Node("buf", data=self.data(), maxlen=None)
        n.form = self.form(("jsbuffer", 5), ("bytes", 2), ("bytearray", 2), ("memoryview", 1), ("jsbuffer_ro", 0.7),
                           ("jsbuffer_nocopy", 0.7))
        if n.form == "jsbuffer" and self.features is not None and r.random() < 0.3:
            n.maxlen = len(n.data) + r.choice([0, 0, 1, 8, 100])
        # memoryviews of odd lengths are writable, which cannot be hashed
        n.imm = n.form in ("bytes", "jsbuffer_ro") or n.form == "memoryview" and len(n.data) % 2 == 0
        return self.finish(n)

    def g_view(self, d):
        r = self.rng
        bufs = [x for x in self.done if x.kind == "buf" and x.form != "memoryview"]
        if bufs and r.random() < 0.6:
            buf = r.choice(bufs)
        elif self.kinds.count("sbuf") and r.random() < 0.06:
            buf = self.g_sbuf(d)
        else:
            buf = self.g_buf(d)
            while buf.form == "memoryview":
                buf = self.g_buf(d)
        names = [x for x in VIEW_CODE if x != "Float16Array" or self.float16]
        n = Node("view", buf=buf, form="view")
        n.tag = r.choice(names)
        size = VIEW_CODE[n.tag][1]
        n.track = False
        if buf.kind != "buf":
            n.off = size * r.randint(0, 4)
            n.blen = size * r.randint(0, 9)
            return self.finish(n)
        items = len(buf.data) // size
        lo = r.randint(0, items)
        n.off = lo * size
        if buf.maxlen is not None and r.random() < 0.5:
            n.track = True
            n.blen = (items - lo) * size
        else:
            n.blen = r.randint(0, items - lo) * size
        return self.finish(n)

    def g_sbuf(self, d, kind="sbuf"):
        r = self.rng
        return self.finish(Node(kind, id=r.choice([0, 1, 2, 127, 128, 2**31, 2**32 - 1]), imm=True, form=kind))

    def g_tbuf(self, d):
        return self.g_sbuf(d, "tbuf")

    def g_shared(self, d):
        return self.g_sbuf(d, "shared")


def prim_to_python(p):
    t = p[0]
    if t == "str":
        return p[1]
    if t == "num" or t == "big":
        return num_to_python(p)
    if t == "bool":
        return p[1]
    return {"null": None, "undef": JSUndefined, "hole": JSHole}[t]


class Builder:
    """Model -> Python. Mutable containers are created first and filled later."""

    def __init__(self, memo=None):
        self.memo = {}
        self.fill = collections.deque()
        self.keep = []
        self.after = []  # e.g. dict views of a dict that is filled later

    def build(self, v):
        r = self.value(v)
        while self.fill:
            self.fill.popleft()()
        return r

    def value(self, v):
        if not is_node(v):
            return prim_to_python(v)
        if id(v) in self.memo:
            return self.memo[id(v)]
        self.keep.append(v)
        if v.py is not None:
            self.memo[id(v)] = v.py
            return v.py
        r = getattr(self, "b_" + v.kind)(v)
        self.memo[id(v)] = r
        return r

    def later(self, n, obj, fn):
        self.memo[id(n)] = obj
        self.fill.append(fn)
        return obj

    def b_obj(self, n):
        o = JSObject()

        def fill():
            for k, v in n.props:
                o[k] = self.value(v)

        return self.later(n, o, fill)

    def b_arr(self, n):
        f = n.form
        if f == "tuple":
            return tuple(self.value(v) for v in n.elems.values())
        if f == "range":
            return range(n.note, n.note + n.length)
        if f in ("list", "deque", "userlist"):
            o = {"list": list, "deque": collections.deque, "userlist": collections.UserList}[f]()
            return self.later(n, o, lambda: o.extend(self.value(v) for v in n.elems.values()))
        o = JSArray()

        def fill():
            if n.length and n.length - 1 not in n.elems:
                o[n.length - 1] = JSHole
            for i, v in n.elems.items():
                o[i] = self.value(v)
            for k, v in n.props:
                o[k] = self.value(v)

        return self.later(n, o, fill)

    def b_map(self, n):
        f = n.form
        o = {"jsmap": JSMap, "dict": dict, "ordereddict": collections.OrderedDict, "mappingproxy": dict,
             "userdict": collections.UserDict,
             "defaultdict": lambda: collections.defaultdict(int), "chainmap": dict}[f]()

        def fill():
            for k, v in n.items:
                o[self.value(k)] = self.value(v)

        r = o
        if f == "mappingproxy":
            r = MappingProxyType(o)
        elif f == "chainmap":
            r = collections.ChainMap(o)
        self.fill.append(fill)
        self.memo[id(n)] = r
        return r

    def b_set(self, n):
        o = JSSet()

        def fill():
            for v in n.items:
                o.add(self.value(v))

        return self.later(n, o, fill)

    def b_date(self, n):
        d = EPOCH + timedelta(microseconds=n.note) if n.note is not None and n.note != "wire" else EPOCH + timedelta(milliseconds=n.ms)
        if n.form == "naive":
            return d.astimezone().replace(tzinfo=None)
        if n.form == "tz":
            return d.astimezone(timezone(timedelta(minutes=n.extra)))
        return d

    def b_regexp(self, n):
        if n.form == "pattern":
            f = 0
            for c in n.flags:
                f |= {"i": re.I, "m": re.M, "s": re.S, "v": re.U}[c]
            return re.compile(n.source, f)
        flags = JSRegExpFlag.NoFlag
        for c in n.flags:
            flags |= {f.value: f for f in JSRegExpFlag}[FLAG_BIT[c]]
        return JSRegExp(n.source, flags)

    def b_error(self, n):
        if n.form == "exception":
            return n.extra
        cls = JSErrorData if n.form == "jserrordata" else JSError
        o = cls(message=n.message, name=n.name, stack=n.stack)
        if n.cause is not None:
            def fill():
                o.cause = self.value(n.cause)

            return self.later(n, o, fill)
        return o

    def b_prim(self, n):
        from v8serialize.constants import SerializationTag

        v = n.value
        if v[0] == "big":
            return JSPrimitiveObject(v[1], tag=SerializationTag.kBigIntObject)
        return JSPrimitiveObject(prim_to_python(v))

    def b_buf(self, n):
        f = n.form
        if f == "bytes":
            return bytes(n.data)
        if f == "bytearray":
            return bytearray(n.data)
        if f == "memoryview":
            return memoryview(bytearray(n.data) if len(n.data) % 2 else bytes(n.data))
        if f == "jsbuffer_ro":
            return JSArrayBuffer(n.data, readonly=True)
        if f == "jsbuffer_nocopy":
            return JSArrayBuffer(bytearray(n.data), copy_data=False)
        if n.maxlen is None:
            return JSArrayBuffer(n.data)
        return JSArrayBuffer(n.data, max_byte_length=n.maxlen)

    def b_view(self, n):
        return create_view(self.value(n.buf), VIEW_TAG[n.tag], byte_offset=n.off,
                           byte_length=None if n.track else n.blen)

    def b_sbuf(self, n):
        return JSSharedArrayBuffer(n.id)

    def b_tbuf(self, n):
        return JSArrayBufferTransfer(n.id)

    def b_shared(self, n):
        return V8SharedObjectReference(V8SharedValueId(n.id))

    def b_nodebuf(self, n):
        tag = VIEW_TAG["Uint8Array" if n.tag == "FastBuffer" else n.tag]
        return create_view(JSArrayBuffer(n.data), tag)


FLAG_BIT = {"g": 1, "i": 2, "m": 4, "y": 8, "u": 16, "s": 32, "l": 64, "d": 128, "v": 256}
BIT_FLAG = {b: c for c, b in FLAG_BIT.items()}


def to_python(v):
    return Builder().build(v)


def flags_text(flags):
    return "".join(sorted(c for b, c in BIT_FLAG.items() if int(flags) & b))


def date_ms(d):
    """Milliseconds since the epoch as the nearest double."""
    if d.tzinfo is None:
        try:
            d = d.astimezone(timezone.utc)
        except (ValueError, OverflowError):  # the first or last day of Python's range
            near = d.replace(year=min(max(d.year, 2), 9998))
            d = d.replace(tzinfo=timezone(near.astimezone().utcoffset()))
    us = (d - EPOCH) // timedelta(microseconds=1)
    return us / 1000


class Describe:
    """Python (as decoded, or as built) -> model."""

    def __init__(self, nodejs_views=True):
        self.memo = {}
        self.keep = []
        self.todo = []
        self.nodejs_views = nodejs_views

    def run(self, v):
        r = self.value(v)
        while self.todo:
            self.todo.pop()()
        return r

    def value(self, v):
        t = type(v)
        if v is None:
            return NULL
        if v is JSUndefined:
            return UNDEF
        if v is JSHole:
            return HOLE
        if t is bool:
            return ("bool", v)
        if isinstance(v, (int, float)):
            return ("pynum", v)
        if isinstance(v, str):
            return ("str", v)
        if id(v) in self.memo:
            return self.memo[id(v)]
        n = self.node(v)
        n.py = v
        self.keep.append(v)
        return n

    def reg(self, v, n, fn=None):
        self.memo[id(v)] = n
        if fn:
            self.todo.append(fn)
        return n

    def node(self, v):
        if isinstance(v, JSArray):
            n = Node("arr", form="jsarray", length=len(v.array))

            def fill():
                if n.length <= 4096:
                    n.elems = {i: self.value(x) for i, x in enumerate(v.array) if x is not JSHole}
                else:
                    n.elems = {i: self.value(x) for i, x in v.array.elements().items()}
                n.props = [(k, self.value(x)) for k, x in v.properties.items()]

            return self.reg(v, n, fill)
        if isinstance(v, JSObject):
            n = Node("obj", form="jsobject", props=[])

            def fill():
                n.props = [(k, self.value(x)) for k, x in v.items()]

            return self.reg(v, n, fill)
        if isinstance(v, (JSMap, dict, collections.abc.Mapping)):
            n = Node("map", form=type(v).__name__.lower())

            def fill():
                n.items = [(self.value(k), self.value(x)) for k, x in v.items()]

            return self.reg(v, n, fill)
        if isinstance(v, (JSSet, collections.abc.Set)):
            n = Node("set", form=type(v).__name__.lower())

            def fill():
                n.items = [self.value(x) for x in v]

            return self.reg(v, n, fill)
        if isinstance(v, datetime):
            return self.reg(v, Node("date", ms=date_ms(v), form="naive" if v.tzinfo is None else "tz"))
        if isinstance(v, JSRegExp):
            return self.reg(v, Node("regexp", source=v.source, flags=flags_text(v.flags), form="jsregexp"))
        if isinstance(v, re.Pattern):
            fl = "".join(c for c, f in dict(i=re.I, m=re.M, s=re.S, v=re.U).items() if v.flags & f)
            return self.reg(v, Node("regexp", source=v.pattern or "(?:)", flags=fl, form="pattern"))
        if isinstance(v, JSErrorData) or isinstance(v, JSError):
            name = v.name.value if isinstance(v.name, JSErrorName) else v.name
            n = Node("error", name=name, message=v.message, stack=v.stack, cause=None,
                     form="jserror" if isinstance(v, JSError) else "jserrordata")

            def fill():
                n.cause = None if v.cause is None else self.value(v.cause)

            return self.reg(v, n, fill)
        if isinstance(v, JSPrimitiveObject):
            n = Node("prim", form="prim", note="wrapper")
            n.value = self.value(v.value)
            return self.reg(v, n)
        if isinstance(v, JSArrayBuffer):
            return self.reg(v, Node("buf", data=bytes(v.data), form="jsbuffer",
                                    maxlen=v.max_byte_length if v.resizable else None))
        if isinstance(v, (bytes, bytearray, memoryview)):
            return self.reg(v, Node("buf", data=bytes(v), maxlen=None, form=type(v).__name__))
        if isinstance(v, JSSharedArrayBuffer):
            return self.reg(v, Node("sbuf", id=v.buffer_id, form="sbuf"))
        if isinstance(v, JSArrayBufferTransfer):
            return self.reg(v, Node("tbuf", id=v.transfer_id, form="tbuf"))
        if isinstance(v, V8SharedObjectReference):
            return self.reg(v, Node("shared", id=v.shared_value_id, form="shared"))
        if isinstance(v, (JSTypedArray, JSDataView)):
            n = Node("view", tag=VIEW_NAME[v.view_tag], form="view")
            n.buf = self.value(v.backing_buffer)
            size = VIEW_CODE[n.tag][1]
            n.off = v.item_offset * size
            n.track = v.is_length_tracking
            n.blen = v.byte_length if v.item_length is None else v.item_length * size
            return self.reg(v, n)
        if isinstance(v, (list, tuple, range, collections.deque, collections.UserList)):
            n = Node("arr", form=type(v).__name__, length=len(v), props=[])

            def fill():
                n.elems = {i: self.value(x) for i, x in enumerate(v) if x is not JSHole}

            return self.reg(v, n, fill)
        return self.reg(v, Node("host", value=repr(type(v)), form="host"))


def from_python(v):
    return Describe().run(v)


def features_needed(root):
    out = set()
    for n in walk(root):
        if n.kind == "buf" and n.maxlen is not None:
            out.add("ResizableArrayBuffers")
        if n.kind == "view" and n.tag == "Float16Array":
            out.add("Float16Array")
        if n.kind == "regexp" and "v" in n.flags:
            out.add("RegExpUnicodeSets")
    return out


def bits(x):
    return struct.pack(">d", x).hex()


class ToJSON:
    """Model -> the JSON the Node.js side reads."""

    def __init__(self):
        self.ids, self.nodes, self.keep = {}, [], []

    def run(self, root):
        r = self.value(root)
        i = 0
        while i < len(self.keep):
            self.nodes.append(self.node(self.keep[i]))
            i += 1
        return {"root": r, "nodes": self.nodes}

    def value(self, v):
        if is_node(v):
            if id(v) not in self.ids:
                self.ids[id(v)] = len(self.keep)
                self.keep.append(v)
            return ["o", self.ids[id(v)]]
        t = v[0]
        if t == "num":
            return ["n", bits(v[1])]
        if t == "big":
            return ["b", str(v[1]) if abs(v[1]) < 10**4000 else hex(v[1])]
        if t == "str":
            return ["s", v[1]]
        if t == "bool":
            return ["t", v[1]]
        return [t]

    def node(self, n):
        V = self.value
        k = n.kind
        d = {"k": k}
        if k == "obj":
            d["props"] = [[str(p), V(v)] for p, v in n.props]
        elif k == "arr":
            d["length"] = n.length
            d["elems"] = [[i, V(v)] for i, v in n.elems.items()]
            d["props"] = [[p, V(v)] for p, v in n.props]
        elif k == "map":
            d["items"] = [[V(a), V(b)] for a, b in n.items]
        elif k == "set":
            d["items"] = [V(a) for a in n.items]
        elif k == "date":
            d["ms"] = bits(n.ms)
        elif k == "regexp":
            d["source"], d["flags"] = n.source, n.flags
        elif k == "error":
            d.update(name=n.name, message=n.message, stack=n.stack)
            d["cause"] = None if n.cause is None else V(n.cause)
        elif k == "prim":
            d["value"] = V(n.value)
        elif k == "buf":
            d["data"], d["maxlen"] = n.data.hex(), n.maxlen
        elif k == "view":
            d.update(tag=n.tag, off=n.off, blen=n.blen, track=n.track, buf=V(n.buf))
        return d


class FromJSON:
    def run(self, j):
        self.nodes = [Node(d["k"]) for d in j["nodes"]]
        for n in self.nodes:
            n.note = "node"
        for n, d in zip(self.nodes, j["nodes"]):
            self.fill(n, d)
        return self.value(j["root"])

    def value(self, v):
        t = v[0]
        if t == "o":
            return self.nodes[v[1]]
        if t == "n":
            return ("num", struct.unpack(">d", bytes.fromhex(v[1]))[0], None)
        if t == "b":
            return ("big", int(v[1]))
        if t == "s":
            return ("str", v[1])
        if t == "t":
            return ("bool", v[1])
        return (t,)

    def fill(self, n, d):
        from harness.graph import canonical_key

        V = self.value
        k = n.kind
        if k == "obj":
            n.props = [(canonical_key(p), V(v)) for p, v in d["props"]]
        elif k == "arr":
            n.length = d["length"]
            n.elems = {i: V(v) for i, v in d["elems"]}
            n.props = [(p, V(v)) for p, v in d["props"]]
        elif k == "map":
            n.items = [(V(a), V(b)) for a, b in d["items"]]
        elif k == "set":
            n.items = [V(a) for a in d["items"]]
        elif k == "date":
            n.ms = struct.unpack(">d", bytes.fromhex(d["ms"]))[0]
        elif k == "regexp":
            n.source, n.flags = d["source"], d["flags"]
        elif k == "error":
            n.name, n.message, n.stack = d["name"], d["message"], d["stack"]
            n.cause = None if d["cause"] is None else V(d["cause"])
        elif k == "prim":
            n.value = V(d["value"])
        elif k == "buf":
            n.data, n.maxlen = bytes.fromhex(d["data"]), d["maxlen"]
        elif k == "view":
            n.tag, n.off, n.blen, n.track = d["tag"], d["off"], d["blen"], d["track"]
            n.buf = V(d["buf"])
        elif k == "other":
            n.value = d["value"]
