"""A neutral model of JavaScript value graphs, and its comparison.

Primitives are tuples:
  ("undef",) ("null",) ("hole",) ("bool", b) ("num", float, form) ("big", int)
  ("str", s) ("pynum", int|float)   (the last only as an observed Python value)
`form` of a num is None, "int" or "float": the Python type expected or seen.
Everything else is a Node, compared by structure and identity.
"""
from __future__ import annotations

import math

UNDEF, NULL, HOLE = ("undef",), ("null",), ("hole",)
SAFE = 2**53 - 1


class Node:
    __slots__ = ("kind", "imm", "py", "props", "length", "elems", "items", "ms", "source",
                 "flags", "name", "message", "stack", "cause", "value", "data", "maxlen",
                 "id", "tag", "buf", "off", "blen", "track", "form", "extra", "note")

    def __init__(self, kind, **kw):
        self.kind = kind
        self.imm = False
        self.py = None
        self.form = None
        self.note = None
        for k, v in kw.items():
            setattr(self, k, v)

    def __repr__(self):
        return f"<{self.kind}{'/' + self.form if self.form else ''}>"


def is_node(v):
    return type(v) is Node


def js_number_text(x: float) -> str:
    """Number::toString of ECMA-262 (written from the specification)."""
    if x != x:
        return "NaN"
    if x == 0:
        return "0"
    if x < 0:
        return "-" + js_number_text(-x)
    if x == math.inf:
        return "Infinity"
    r = repr(x)
    mant, _, exp = r.partition("e")
    ip, _, fp = mant.partition(".")
    if fp == "0":
        fp = ""
    s = (ip + fp).lstrip("0")
    n = len((ip + fp)) - len(fp) + (int(exp) if exp else 0) - (len(ip + fp) - len((ip + fp).lstrip("0")))
    s = s.rstrip("0")
    k = len(s)
    if k <= n <= 21:
        return s + "0" * (n - k)
    if 0 < n <= 21:
        return s[:n] + "." + s[n:]
    if -6 < n <= 0:
        return "0." + "0" * (-n) + s
    e = n - 1
    sign = "+" if e >= 0 else "-"
    return s[0] + ("." + s[1:] if k > 1 else "") + "e" + sign + str(abs(e))


def canonical_key(k):
    """int for an array index name, else str; k is str, int or float."""
    if isinstance(k, float):
        k = js_number_text(k)
    elif isinstance(k, int):
        k = str(k)
    if k.isascii() and k.isdigit() and (k == "0" or k[0] != "0") and len(k) <= 10:
        i = int(k)
        if i < 2**32 - 1:
            return i
    return k


def order_props(pairs):
    """JavaScript property order of (key, value) pairs in creation order."""
    d = {}
    for k, v in pairs:
        d[canonical_key(k)] = v
    ints = sorted(k for k in d if isinstance(k, int))
    return [(k, d[k]) for k in ints] + [(k, v) for k, v in d.items() if isinstance(k, str)]


def same_double(a, b):
    if a != a:
        return b != b
    if type(a) is int and type(b) is int:
        return a == b
    return a == b and math.copysign(1, a) == math.copysign(1, b)


class Mismatch(Exception):
    pass


class Compare:
    """compare(expected, observed) -> None or a description of the first difference.

    zero_keys: ignore the sign of zero for map keys and set members.
    strict_num: also compare the int/float form of numbers where expected.
    identity: compare identity structure.
    """

    def __init__(self, *, strict_num=True, identity=True, date="exact", null_message=False,
                 unbox=False, resizable=True, extra=None):
        self.strict_num, self.identity, self.date = strict_num, identity, date
        self.null_message, self.unbox, self.resizable = null_message, unbox, resizable
        self.extra = extra
        self.objects = 0
        self.shared = 0

    def compare(self, a, b):
        self.fwd, self.back, self.done, self.keep = {}, {}, set(), []
        self.todo = [(a, b, "$", False)]
        try:
            while self.todo:
                self.step(*self.todo.pop())
        except Mismatch as e:
            return str(e)
        return None

    def fail(self, path, what, a, b):
        raise Mismatch(f"at {path[-300:]}: {what}: expected {str(a)[:200]}, got {str(b)[:200]}")

    def step(self, a, b, path, key):
        if not is_node(a):
            if is_node(b):
                if self.unbox and b.kind == "prim":
                    b = b.value
                else:
                    self.fail(path, "kind", a, b)
            return self.prim(a, b, path, key)
        if a.kind == "prim" and not is_node(b):
            return self.prim(a.value, b, path, key)
        if not is_node(b):
            self.fail(path, "kind", a, b)
        if a.kind != b.kind:
            self.fail(path, "kind", a, b)
        if a.kind == "prim" and b.note == "wrapper" and a.note != "wrapper":
            self.fail(path, "a wrapper object instead of the value in it", a.value, b.value)
        pair = (id(a), id(b))
        if pair in self.done:
            self.shared += 1
            return
        self.done.add(pair)
        self.keep.append((a, b))
        self.objects += 1
        if self.identity:
            if self.fwd.setdefault(id(a), id(b)) != id(b):
                self.fail(path, "one object became several", a, b)
            prev = self.back.setdefault(id(b), a)
            if prev is not a and not (prev.imm and a.imm):
                self.fail(path, "several objects became one", a, b)
        getattr(self, "k_" + a.kind)(a, b, path)

    def prim(self, a, b, path, key):
        ta, tb = a[0], b[0]
        if ta == "pynum":
            x, y = a[1], b[1]
            if tb != ta or self.strict_num and type(x) is not type(y) or not same_double(x, y) and not (key and x == 0 == y):
                self.fail(path, "number", a, b)
            return
        if tb == "pynum":
            v = b[1]
            if ta == "num":
                if type(v) is int:
                    if a[2] == "float" and self.strict_num:
                        self.fail(path, "number type", a, b)
                    try:
                        fv = float(v)
                    except OverflowError:
                        self.fail(path, "number", a, b)
                    if fv != a[1] or int(fv) != v or (a[1] == 0 and math.copysign(1, a[1]) < 0 and not key):
                        self.fail(path, "number", a, b)
                    return
                if a[2] == "int" and self.strict_num and -(2**31) <= a[1] < 2**32:
                    self.fail(path, "number type", a, b)
                if not same_double(a[1], v) and not (key and a[1] == 0 == v):
                    self.fail(path, "number", a, b)
                return
            if ta == "big":
                if type(v) is not int or v != a[1]:
                    self.fail(path, "bigint", a, b)
                return
            self.fail(path, "kind", a, b)
        if ta != tb:
            self.fail(path, "kind", a, b)
        if ta == "num":
            if not same_double(a[1], b[1]) and not (key and a[1] == 0 == b[1]):
                self.fail(path, "number", a, b)
        elif a != b:
            self.fail(path, ta, a, b)

    def push(self, a, b, path, key=False):
        self.todo.append((a, b, path, key))

    def pairs(self, a, b, path):
        if len(a) != len(b):
            self.fail(path, "property count", [k for k, _ in a][:20], [k for k, _ in b][:20])
        for (ka, va), (kb, vb) in zip(a, b):
            if type(ka) is not type(kb) or ka != kb:
                self.fail(path, "property order or name", ka, kb)
            self.push(va, vb, f"{path}[{ka!r}]")

    def k_obj(self, a, b, path):
        self.pairs(a.props, b.props, path)

    def k_arr(self, a, b, path):
        if a.length != b.length:
            self.fail(path, "array length", a.length, b.length)
        if a.elems.keys() != b.elems.keys():
            self.fail(path, "elements present", sorted(a.elems)[:20], sorted(b.elems)[:20])
        if list(b.elems) != sorted(b.elems):
            self.fail(path, "element order", sorted(b.elems)[:20], list(b.elems)[:20])
        for i, v in a.elems.items():
            self.push(v, b.elems[i], f"{path}[{i}]")
        self.pairs(a.props, b.props, path)

    def k_map(self, a, b, path):
        if len(a.items) != len(b.items):
            self.fail(path, "map size", len(a.items), len(b.items))
        for i, ((ka, va), (kb, vb)) in enumerate(zip(a.items, b.items)):
            self.push(va, vb, f"{path}.value({i})")
            self.push(ka, kb, f"{path}.key({i})", True)

    def k_set(self, a, b, path):
        if len(a.items) != len(b.items):
            self.fail(path, "set size", len(a.items), len(b.items))
        for i, (va, vb) in enumerate(zip(a.items, b.items)):
            self.push(va, vb, f"{path}.member({i})", True)

    def k_date(self, a, b, path):
        if self.date == "trunc":
            ma = float(math.trunc(a.ms)) + 0.0
        else:
            ma = a.ms
        if self.date == "us":
            if abs(ma - b.ms) >= 0.0015:  # half a microsecond and the rounding of doubles
                self.fail(path, "date", a.ms, b.ms)
        elif not (ma == b.ms or (ma != ma and b.ms != b.ms)):
            self.fail(path, "date", ma, b.ms)

    def k_regexp(self, a, b, path):
        if (a.source, a.flags) != (b.source, b.flags):
            self.fail(path, "regexp", (a.source, a.flags), (b.source, b.flags))

    def k_error(self, a, b, path):
        na, nb = (n.replace("Uri", "URI") if isinstance(n, str) else n for n in (a.name, b.name))
        ma, mb = a.message, b.message
        if self.null_message and ma is None and mb == "":
            mb = None
        if self.null_message == "both":
            ma, mb = ma or None, mb or None
        sa, sb = a.stack, b.stack
        if sa is None and b.note == "node":
            sb = None
        if (na, ma, sa) != (nb, mb, sb):
            self.fail(path, "error", (na, ma, sa), (nb, mb, sb))
        ca, cb = a.cause, b.cause
        if ca is None or cb is None:
            ca, cb = ca or NULL, cb or NULL
            if b.note == "node":
                if a.cause not in (None, NULL) or b.cause not in (None, UNDEF, NULL):
                    self.fail(path, "error cause", a.cause, b.cause)
                return
        self.push(ca, cb, path + ".cause")

    def k_prim(self, a, b, path):
        self.push(a.value, b.value, path + ".value")

    def k_buf(self, a, b, path):
        if a.data != b.data:
            self.fail(path, "buffer", bytes(a.data).hex(), bytes(b.data).hex())
        if self.resizable and a.maxlen != b.maxlen:
            self.fail(path, "max_byte_length", a.maxlen, b.maxlen)

    def k_sbuf(self, a, b, path):
        if a.id != b.id:
            self.fail(path, "id", a.id, b.id)

    k_tbuf = k_shared = k_sbuf

    def k_view(self, a, b, path):
        if (a.tag, a.off) != (b.tag, b.off):
            self.fail(path, "view", (a.tag, a.off), (b.tag, b.off))
        if b.track is None:  # could not be observed
            if a.blen != b.blen:
                self.fail(path, "view length", a.blen, b.blen)
        elif not self.resizable and a.track:
            if b.blen != a.blen:
                self.fail(path, "view length", a.blen, b.blen)
        elif (a.track, None if a.track else a.blen) != (b.track, None if b.track else b.blen):
            self.fail(path, "view length", (a.blen, a.track), (b.blen, b.track))
        self.push(a.buf, b.buf, path + ".buffer")

    def k_nodebuf(self, a, b, path):
        if (a.tag, a.data) != (b.tag, b.data):
            self.fail(path, "node buffer", (a.tag, a.data), (b.tag, b.data))

    def k_host(self, a, b, path):
        if a.value != b.value:
            self.fail(path, "host object", a.value, b.value)


def children(n):
    k = n.kind
    if k in ("obj",):
        return [v for _, v in n.props]
    if k == "arr":
        return list(n.elems.values()) + [v for _, v in n.props]
    if k == "map":
        return [x for p in n.items for x in p]
    if k == "set":
        return list(n.items)
    if k == "error":
        return [n.cause] if n.cause is not None else []
    if k == "view":
        return [n.buf]
    return []


def walk(root):
    """All nodes reachable from root, each once."""
    seen, todo, out = set(), [root], []
    while todo:
        v = todo.pop()
        if not is_node(v) or id(v) in seen:
            continue
        seen.add(id(v))
        out.append(v)
        todo.extend(reversed(children(v)))
    return out


def shape(root):
    """A hashable summary of the structure (kinds, counts, sharing), for coverage."""
    idx, out, todo = {}, [], [root]
    while todo and len(out) < 400:
        v = todo.pop()
        if not is_node(v):
            out.append(v[0])
            continue
        if id(v) in idx:
            out.append(("r", idx[id(v)]))
            continue
        idx[id(v)] = len(idx)
        c = children(v)
        out.append((v.kind, v.form, len(c)))
        todo.extend(reversed(c))
    return tuple(out)
