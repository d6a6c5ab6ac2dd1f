"""An independent reader and writer of the V8 serialization format.

Written from the format (value-serializer.cc), not from the code under test.
The reader is strict: it accepts only what V8's own writer could produce for
format versions 13 to 15 (options relax single rules).
"""
from __future__ import annotations

import math
import struct

from harness.graph import HOLE, NULL, UNDEF, Node, canonical_key, is_node, js_number_text

REGEXP_BITS = {0: "g", 1: "i", 2: "m", 3: "y", 4: "u", 5: "s", 6: "l", 7: "d", 8: "v"}
REGEXP_CHARS = {c: 1 << b for b, c in REGEXP_BITS.items()}
VIEWS = {  # wire code: (name, item size)
    "b": ("Int8Array", 1), "B": ("Uint8Array", 1), "C": ("Uint8ClampedArray", 1),
    "w": ("Int16Array", 2), "W": ("Uint16Array", 2), "d": ("Int32Array", 4),
    "D": ("Uint32Array", 4), "h": ("Float16Array", 2), "f": ("Float32Array", 4),
    "F": ("Float64Array", 8), "q": ("BigInt64Array", 8), "Q": ("BigUint64Array", 8),
    "?": ("DataView", 1),
}
VIEW_CODE = {n: (c, s) for c, (n, s) in VIEWS.items()}
NODE_VIEWS = ["Int8Array", "Uint8Array", "Uint8ClampedArray", "Int16Array", "Uint16Array",
              "Int32Array", "Uint32Array", "Float32Array", "Float64Array", "DataView",
              "FastBuffer", "BigInt64Array", "BigUint64Array"]
ERRORS = {"E": "EvalError", "R": "RangeError", "F": "ReferenceError", "S": "SyntaxError",
          "T": "TypeError", "U": "URIError"}
ERROR_CODE = {v: k for k, v in ERRORS.items()}
KEY_TAGS = 'IUN"cS'
BUFFERS = ("buf", "sbuf", "tbuf")


class Bad(Exception):
    def __init__(self, msg, pos=None):
        super().__init__(f"byte {pos}: {msg}" if pos is not None else msg)


class Parser:
    """parse() -> root of the model graph; raises Bad."""

    def __init__(self, data, *, versions=(15,), minimal=True, whole=True, nodejs=True,
                 start=0, header=True, padding="align", key_tags=KEY_TAGS, nan_dates=False):
        self.data, self.pos, self.versions = bytes(data), start, versions
        self.minimal, self.whole, self.nodejs, self.header = minimal, whole, nodejs, header
        self.padding, self.key_tags, self.nan_dates = padding, key_tags, nan_dates
        self.objects = []
        self.version = 15
        self.tags = []  # (position, tag) in order read
        self.view_flags = []

    def bad(self, msg):
        raise Bad(msg, self.pos)

    def byte(self):
        if self.pos >= len(self.data):
            self.bad("truncated")
        b = self.data[self.pos]
        self.pos += 1
        return b

    def raw(self, n):
        if self.pos + n > len(self.data):
            self.bad(f"truncated: {n} bytes wanted, {len(self.data) - self.pos} left")
        self.pos += n
        return self.data[self.pos - n:self.pos]

    def varint(self, bits=32):
        shift = v = 0
        while True:
            b = self.byte()
            v |= (b & 0x7F) << shift
            shift += 7
            if not b & 0x80:
                break
            if shift > bits + 6:
                self.bad("varint too long")
        if self.minimal and shift > 7 and b == 0:
            self.bad("varint not minimal")
        if v >= 1 << bits:
            self.bad(f"varint exceeds {bits} bits")
        return v

    def double(self):
        return struct.unpack("<d", self.raw(8))[0]

    def utf8(self):
        b = self.raw(self.varint())
        try:
            return b.decode("utf-8")
        except UnicodeDecodeError as e:
            self.bad(f"not UTF-8: {e}")

    def string(self, tag):
        if tag == "S":
            return self.utf8()
        if tag == '"':
            return self.raw(self.varint()).decode("latin-1")
        if tag == "c":
            n = self.varint()
            if n % 2:
                self.bad("odd two-byte string length")
            if self.padding == "align" and self.pos % 2:
                self.bad("two-byte string not aligned")
            try:
                return self.raw(n).decode("utf-16-le")
            except UnicodeDecodeError as e:
                self.bad(f"not UTF-16: {e}")
        self.bad(f"not a string tag: {tag!r}")

    def bigint(self):
        bits = self.varint()
        n = (bits >> 1) & 0x3FFFFFFF
        v = int.from_bytes(self.raw(n), "little")
        if bits & 1 and v == 0 and self.minimal:
            self.bad("negative zero bigint")
        return -v if bits & 1 else v

    def number(self, tag):
        if tag == "I":
            n = self.varint()
            return ("num", float((n >> 1) ^ -(n & 1)), "int")
        if tag == "U":
            return ("num", float(self.varint()), "int")
        return ("num", self.double(), "float")

    def tag(self):
        pad = 0
        while True:
            b = self.byte()
            if b:
                break
            pad += 1
        c = chr(b)
        if pad and self.padding == "align" and (c != "c" or pad > 1):
            self.bad(f"{pad} padding bytes before {c!r}")
        self._pad = pad
        self.tags.append((self.pos - 1, c))
        return c

    def parse(self):
        if self.header:
            if self.byte() != 0xFF:
                self.bad("no version header")
            self.version = self.varint()
            if self.version not in self.versions:
                self.bad(f"version {self.version}")
        v = self.value()
        if self.whole and self.pos != len(self.data):
            self.bad(f"{len(self.data) - self.pos} bytes left over")
        return v

    def new(self, kind, **kw):
        n = Node(kind, **kw)
        n.note = "wire"
        self.objects.append(n)
        return n

    def value(self, tag=None):
        t = self.tag() if tag is None else tag
        if t == "-":
            return HOLE
        if t == "_":
            return UNDEF
        if t == "0":
            return NULL
        if t in "TF":
            return ("bool", t == "T")
        if t in "IUN":
            return self.number(t)
        if t == "Z":
            return ("big", self.bigint())
        if t in 'S"c':
            return ("str", self.string(t))
        if t == "^":
            i = self.varint()
            if i >= len(self.objects):
                self.bad(f"reference to object {i}, {len(self.objects)} begun")
            n = self.objects[i]
            return self.maybe_view(n) if n.kind in BUFFERS else n
        if t == "o":
            n = self.new("obj")
            n.props = self.props("{")
            return n
        if t == "A":
            n = self.new("arr", elems={}, props=[])
            n.length = self.varint()
            for i in range(n.length):
                v = self.value()
                if v != HOLE or is_node(v):
                    n.elems[i] = v
            pairs = self.props("$")
            if self.varint() != n.length:
                self.bad("dense array length differs at its end")
            self.array_props(n, pairs)
            return n
        if t == "a":
            n = self.new("arr", elems={}, props=[])
            n.length = self.varint()
            pairs = self.props("@")
            if self.varint() != n.length:
                self.bad("sparse array length differs at its end")
            self.array_props(n, pairs)
            return n
        if t == "D":
            n = self.new("date")
            n.ms = self.double()
            if not self.nan_dates and not abs(n.ms) <= 8.64e15:
                self.bad("date out of range")
            return n
        if t in "yx":
            return self.new("prim", value=("bool", t == "y"))
        if t == "n":
            n = self.new("prim")
            n.value = ("num", self.double(), "float")
            return n
        if t == "z":
            n = self.new("prim")
            n.value = ("big", self.bigint())
            return n
        if t == "s":
            n = self.new("prim")
            n.value = ("str", self.string(self.tag()))
            return n
        if t == "R":
            n = self.new("regexp")
            n.source = self.string(self.tag())
            f = self.varint()
            if f >> 9:
                self.bad(f"regexp flags {f}")
            n.flags = "".join(sorted(c for b, c in REGEXP_BITS.items() if f >> b & 1))
            if "u" in n.flags and "v" in n.flags:
                self.bad("regexp flags u and v")
            return n
        if t == ";":
            n = self.new("map", items=[])
            while (k := self.tag()) != ":":
                kv = self.value(k)
                n.items.append((kv, self.value()))
            c = self.varint()
            if c != 2 * len(n.items):
                self.bad(f"map count {c} for {len(n.items)} entries")
            return n
        if t == "'":
            n = self.new("set", items=[])
            while (k := self.tag()) != ",":
                n.items.append(self.value(k))
            c = self.varint()
            if c != len(n.items):
                self.bad(f"set count {c} for {len(n.items)} members")
            return n
        if t in "B~":
            n = self.new("buf", maxlen=None)
            ln = self.varint()
            if t == "~":
                n.maxlen = self.varint()
                if n.maxlen < ln:
                    self.bad("max_byte_length below byte_length")
            n.data = self.raw(ln)
            return self.maybe_view(n)
        if t in "ut":
            n = self.new("sbuf" if t == "u" else "tbuf")
            n.id = self.varint()
            return self.maybe_view(n)
        if t == "p":
            n = self.new("shared")
            n.id = self.varint()
            return n
        if t == "r":
            return self.error()
        if t == "\\" and self.nodejs:
            n = self.new("nodebuf")
            code, ln = self.varint(), self.varint()
            if code >= len(NODE_VIEWS):
                self.bad(f"node view kind {code}")
            n.tag = NODE_VIEWS[code]
            n.data = self.raw(ln)
            if ln % VIEW_CODE.get(n.tag, ("", 1))[1]:
                self.bad("node view length not a multiple of its item size")
            return n
        self.pos -= 1
        self.bad(f"tag {t!r}")

    def props(self, end):
        out = []
        while (k := self.tag()) != end:
            if k not in self.key_tags:
                self.bad(f"property key with tag {k!r}")
            key = self.number(k)[1] if k in "IUN" else self.string(k)
            out.append((canonical_key(float(key) if isinstance(key, float) else key), self.value()))
        c = self.varint()
        if c != len(out):
            self.bad(f"property count {c} for {len(out)} properties")
        d = dict(out)
        if self.minimal and len(d) != len(out):
            self.bad("property written twice")
        ints = sorted(k for k in d if isinstance(k, int))
        return [(k, d[k]) for k in ints] + [(k, v) for k, v in d.items() if isinstance(k, str)]

    def array_props(self, n, pairs):
        for k, v in pairs:
            if isinstance(k, int):
                if k >= n.length:
                    self.bad(f"element {k} of an array of length {n.length}")
                if v == HOLE and not is_node(v):
                    n.elems.pop(k, None)
                else:
                    n.elems[k] = v
            else:
                n.props.append((k, v))
        n.elems = dict(sorted(n.elems.items()))

    def error(self):
        n = self.new("error", name="Error", message=None, stack=None, cause=None)
        c = chr(self.varint())
        if c in ERRORS:
            n.name = ERRORS[c]
            c = chr(self.varint())
        if c == "m":
            n.message = self.string(self.tag())
            c = chr(self.varint())
        if c == "s":
            n.stack = self.string(self.tag())
            c = chr(self.varint())
        if c == "c":
            n.cause = self.value()
            c = chr(self.varint())
        if c == "s" and n.stack is None and not self.minimal:
            n.stack = self.string(self.tag())
            c = chr(self.varint())
        if c != ".":
            self.bad(f"error field {c!r}")
        return n

    def maybe_view(self, buf):
        p = self.pos
        while p < len(self.data) and self.data[p] == 0 and self.padding != "align":
            p += 1
        if p >= len(self.data) or self.data[p] != ord("V"):
            return buf
        self.pos = p + 1
        self.tags.append((p, "V"))
        n = self.new("view", buf=buf)
        c = self.varint()
        if c > 127 or chr(c) not in VIEWS:
            self.bad(f"view kind {c}")
        n.tag, size = VIEWS[chr(c)]
        n.off, n.blen = self.varint(), self.varint()
        f = self.varint() if self.version >= 14 else 0
        if f > 3:
            self.bad(f"view flags {f}")
        n.track = bool(f & 1)
        self.view_flags.append((n, f))
        resizable = buf.kind == "buf" and buf.maxlen is not None
        if buf.kind == "buf":
            if f & 1 and not resizable or bool(f & 2) != resizable and self.version >= 14:
                self.bad(f"view flags {f} over a {'' if resizable else 'non-'}resizable buffer")
            if n.off + (0 if n.track else n.blen) > len(buf.data):
                self.bad("view outside its buffer")
        if n.off % size or not n.track and n.blen % size:
            self.bad("view not aligned")
        return n


class Writer:
    """Writes a model graph in one of the many ways the format allows.

    opt(name) decides each choice: it returns True or False.
    marks: (kind, start, end, extra) of every count, length, version, reference.
    """

    def __init__(self, rng=None, version=15, *, vary=0.0, features=True, box=0.0, text_index=True):
        self.rng, self.version, self.vary, self.box = rng, version, vary, box
        self.text_index = text_index
        self.out = bytearray()
        self.ids = {}
        self.keep = []
        self.marks = []
        self.dense = set()
        self.choices = {}
        self.boxes = {}

    def opt(self, name, p=None):
        r = self.rng is not None and self.rng.random() < (self.vary if p is None else p)
        if r:
            self.choices[name] = self.choices.get(name, 0) + 1
        return r

    def mark(self, kind, start, extra=None):
        self.marks.append((kind, start, len(self.out), extra))

    def varint(self, n, kind=None, extra=None):
        start = len(self.out)
        b = bytearray()
        while n >= 0x80:
            b.append(n & 0x7F | 0x80)
            n >>= 7
        b.append(n)
        if self.vary and len(b) < 4 and self.opt("long varint", self.vary * 0.15):
            b[-1] |= 0x80
            b.append(0)
        self.out += b
        if kind:
            self.mark(kind, start, extra)

    def tag(self, c, pad=True):
        if pad and self.vary and self.opt("padding", self.vary * 0.1):
            self.out += b"\0" * self.rng.randint(1, 3)
        self.out.append(ord(c))

    def header(self):
        self.out.append(0xFF)
        s = len(self.out)
        self.out.append(self.version)
        self.mark("version", s)

    def utf8(self, s):
        b = s.encode()
        self.varint(len(b), "strlen")
        self.out += b

    def string(self, s):
        r = self.rng.random() if self.vary else 1
        if r < self.vary * 0.35 and all(ord(c) < 256 for c in s):
            self.choices["one-byte"] = self.choices.get("one-byte", 0) + 1
            self.tag('"')
            self.varint(len(s), "strlen")
            self.out += s.encode("latin-1")
        elif r < self.vary * 0.7:
            self.choices["two-byte"] = self.choices.get("two-byte", 0) + 1
            b = s.encode("utf-16-le")
            head = Writer()
            head.varint(len(b))
            # V8 aligns; the reader has to accept either
            if (len(self.out) + 1 + len(head.out)) % 2:
                self.out.append(0)
            self.out.append(ord("c"))
            s0 = len(self.out)
            self.out += head.out
            self.mark("strlen", s0)
            self.out += b
        else:
            self.tag("S")
            self.utf8(s)

    def bigint(self, v):
        n = (abs(v).bit_length() + 63) // 64 * 8
        if self.vary and self.opt("short bigint"):
            n = (abs(v).bit_length() + 7) // 8
        self.varint(n << 1 | (v < 0))
        self.out += abs(v).to_bytes(n, "little")

    def number(self, p):
        """Writes the number and returns the primitive a reader should see."""
        x, form = p[1], p[2]
        intish = x == x and abs(x) < 2**32 and x == int(x) and not (x == 0 and math.copysign(1, x) < 0)
        as_int = intish and (form == "int" or self.vary and self.opt("float as int", 0.3 * self.vary))
        if as_int and form == "int" and self.vary and self.opt("int as double", 0.3 * self.vary):
            as_int = False
        if as_int:
            n = int(x)
            if n >= 0 and (n >= 2**31 or not (self.vary and self.opt("int32 for uint32"))):
                self.tag("U")
                self.varint(n)
                return
            if n >= -(2**31):
                self.tag("I")
                self.varint((n << 1) ^ (n >> 31) if n >= 0 else ((-n) << 1) - 1)
                return
        self.tag("N")
        self.out += struct.pack("<d", x)

    def prim(self, p):
        t = p[0]
        if t == "num":
            self.number(p)
        elif t == "str":
            self.string(p[1])
        elif t == "big":
            self.tag("Z")
            self.bigint(p[1])
        else:
            self.tag({"undef": "_", "null": "0", "hole": "-"}.get(t) or ("T" if p[1] else "F"))

    def key(self, k):
        if isinstance(k, int):
            r = self.rng.random() if self.vary else 1
            if r < 0.3 * self.vary and self.text_index:
                self.choices["text index"] = self.choices.get("text index", 0) + 1
                self.string(str(k))
            elif r < 0.5 * self.vary:
                self.choices["double index"] = self.choices.get("double index", 0) + 1
                self.tag("N")
                self.out += struct.pack("<d", k)
            else:
                self.number(("num", float(k), "int"))
        else:
            self.string(k)

    def value(self, v):
        # without recursion limits in mind: callers keep graphs shallow
        if not is_node(v):
            if self.box and v[0] in ("num", "str", "big", "bool") and self.opt("boxed", self.box):
                old = self.boxes.get(repr(v))
                if old is not None and self.opt("boxed again", 0.5):
                    v = old
                else:
                    self.boxes[repr(v)] = v = Node("prim", value=v)
                    self.keep.append(v)
            else:
                return self.prim(v)
        if id(v) in self.ids:
            self.tag("^")
            self.varint(self.ids[id(v)], "ref", len(self.ids))
            if v.kind in BUFFERS:
                self.after_buffer()
            return
        getattr(self, "k_" + v.kind)(v)

    def after_buffer(self):
        pass

    def begin(self, n):
        self.ids[id(n)] = len(self.ids)
        self.keep.append(n)

    def props(self, pairs, end):
        pairs = list(pairs)
        if self.vary and self.opt("shuffled integer keys"):
            ints = [p for p in pairs if isinstance(p[0], int)]
            self.rng.shuffle(ints)
            pairs = ints + [p for p in pairs if not isinstance(p[0], int)]
        for k, v in pairs:
            self.key(k)
            self.value(v)
        self.tag(end)
        self.varint(len(pairs), "count", end)

    def k_obj(self, n):
        self.begin(n)
        self.tag("o")
        self.props(n.props, "{")

    def k_arr(self, n):
        self.begin(n)
        dense = n.length <= 64 and len(n.elems) * 8 >= n.length
        if self.vary and n.length <= 2000 and self.opt("other array storage"):
            dense = not dense
        if dense:
            self.dense.add(id(n))
            self.tag("A")
            self.varint(n.length, "length", "A")
            late = []
            for i in range(n.length):
                if i not in n.elems:
                    self.tag("-")
                elif self.vary and self.opt("late element", 0.1 * self.vary):
                    self.tag("-")
                    late.append((i, n.elems[i]))
                else:
                    self.value(n.elems[i])
            self.props(late + list(n.props), "$")
            self.varint(n.length, "length", "$")
        else:
            self.tag("a")
            self.varint(n.length, "length", "a")
            self.props(list(n.elems.items()) + list(n.props), "@")
            self.varint(n.length, "length", "@")

    def k_date(self, n):
        self.begin(n)
        self.tag("D")
        self.out += struct.pack("<d", n.ms)

    def k_prim(self, n):
        self.begin(n)
        t, v = n.value[0], n.value[1]
        if t == "bool":
            self.tag("y" if v else "x")
        elif t == "num":
            self.tag("n")
            self.out += struct.pack("<d", v)
        elif t == "big":
            self.tag("z")
            self.bigint(v)
        else:
            self.tag("s")
            self.string(v)

    def k_regexp(self, n):
        self.begin(n)
        self.tag("R")
        self.string(n.source)
        self.varint(sum(REGEXP_CHARS[c] for c in n.flags))

    def k_map(self, n):
        self.begin(n)
        self.tag(";")
        for k, v in n.items:
            self.value(k)
            self.value(v)
        self.tag(":")
        self.varint(2 * len(n.items), "count", ":")

    def k_set(self, n):
        self.begin(n)
        self.tag("'")
        for v in n.items:
            self.value(v)
        self.tag(",")
        self.varint(len(n.items), "count", ",")

    def k_error(self, n):
        self.begin(n)
        self.tag("r")
        if n.name in ERROR_CODE:
            self.varint(ord(ERROR_CODE[n.name]))
        if n.message is not None:
            self.varint(ord("m"))
            self.string(n.message)
        late = n.stack is not None and self.vary and self.opt("stack after cause")
        if n.stack is not None and not late:
            self.varint(ord("s"))
            self.string(n.stack)
        if n.cause is not None:
            self.varint(ord("c"))
            self.value(n.cause)
        if late:
            self.varint(ord("s"))
            self.string(n.stack)
        self.varint(ord("."))

    def k_buf(self, n):
        self.begin(n)
        if n.maxlen is None:
            self.tag("B")
            self.varint(len(n.data), "buflen")
        else:
            self.tag("~")
            self.varint(len(n.data), "buflen")
            self.varint(n.maxlen, "maxlen", len(n.data))
        self.out += n.data

    def k_sbuf(self, n):
        self.begin(n)
        self.tag("u" if n.kind == "sbuf" else "t")
        self.varint(n.id)

    k_tbuf = k_sbuf

    def k_shared(self, n):
        self.begin(n)
        self.tag("p")
        self.varint(n.id)

    def k_view(self, n):
        self.value(n.buf)
        self.begin(n)
        self.tag("V")
        self.varint(ord(VIEW_CODE[n.tag][0]))
        self.varint(n.off, "viewoff", n)
        self.varint(0 if n.track else n.blen, "viewlen", n)
        if self.version >= 14:
            res = n.buf.kind == "buf" and n.buf.maxlen is not None
            self.varint((1 if n.track else 0) | (2 if res else 0))

    def k_nodebuf(self, n):
        self.begin(n)
        self.tag("\\")
        self.varint(NODE_VIEWS.index(n.tag))
        self.varint(len(n.data), "buflen")
        self.out += n.data


def write(root, **kw):
    w = Writer(**kw)
    w.header()
    w.value(root)
    return w
