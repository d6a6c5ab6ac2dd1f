"""Typed element access reads and writes the right bytes."""
import math
import random
import struct
from fractions import Fraction

from harness.checks.p21 import KINDS
from harness.core import Violation, check, expect_raises
from v8serialize.jstypes import JSArrayBuffer, JSDataView, create_view
from v8serialize.jstypes.jsbuffers import BackportJSFloat16Array

QUICK, THOROUGH = 44000, 1500000
RULE = "distinct (accessor, byte order, offset, size of the view, class of value) accesses"
MIN = {"reads": 90000, "writes": 18000, "refused offsets": 80000, "refused values": 7000, "refused writes to read-only views": 14000, "accesses in V8": 12000,
       "element reads": 80000, "element writes": 7000, "refused elements": 38000, "large buffers": 200}
ASSUMPTIONS = ["values a type cannot hold are refused, as the library documents, where JavaScript would convert them", "V8 12.4 as embedded in Node.js 22 stands for JavaScript"]

# name: (bytes, kind)
TYPES = {"int8": (1, "i"), "uint8": (1, "u"), "int16": (2, "i"), "uint16": (2, "u"), "int32": (4, "i"), "uint32": (4, "u"), "bigint64": (8, "i"), "biguint64": (8, "u"),
         "float16": (2, "f"), "float32": (4, "f"), "float64": (8, "f")}
ELEMENT = {"Int8Array": "int8", "Uint8Array": "uint8", "Uint8ClampedArray": "uint8", "Int16Array": "int16", "Uint16Array": "uint16", "Int32Array": "int32", "Uint32Array": "uint32",
           "Float16Array": "float16", "Float32Array": "float32", "Float64Array": "float64", "BigInt64Array": "bigint64", "BigUint64Array": "biguint64"}
FLOAT = {2: (5, 10), 4: (8, 23), 8: (11, 52)}


def decode(t, b):
    """The number denoted by little-endian bytes."""
    n, k = TYPES[t]
    v = sum(x << (8 * i) for i, x in enumerate(b))
    if k == "u":
        return v
    if k == "i":
        return v - (1 << 8 * n) if v >> (8 * n - 1) else v
    eb, mb = FLOAT[n]
    sign, exp, man = v >> (eb + mb), v >> mb & ((1 << eb) - 1), v & ((1 << mb) - 1)
    bias = (1 << (eb - 1)) - 1
    if exp == (1 << eb) - 1:
        return math.nan if man else (-math.inf if sign else math.inf)
    m = man if exp == 0 else man | 1 << mb
    e = (1 if exp == 0 else exp) - bias - mb
    return math.copysign(float(Fraction(m) * Fraction(2) ** e), -1 if sign else 1)


def encode(t, v):
    """Little-endian bytes, None when the type cannot hold the value; "nan" for NaN."""
    n, k = TYPES[t]
    if k != "f":
        lo, hi = (0, 1 << 8 * n) if k == "u" else (-(1 << 8 * n - 1), 1 << 8 * n - 1)
        return bytes((v >> 8 * i) & 255 for i in range(n)) if lo <= v < hi else None
    v = float(v)
    if math.isnan(v):
        return "nan"
    eb, mb = FLOAT[n]
    bias = (1 << (eb - 1)) - 1
    sign = math.copysign(1, v) < 0
    bits = None
    if math.isinf(v):
        bits = ((1 << eb) - 1) << mb
    else:
        f = abs(Fraction(v))
        e = 1 - bias
        while f >= Fraction(2) ** (e + 1):
            e += 1
        q = f / Fraction(2) ** (e - mb)  # the mantissa as an integer and a remainder
        m, r = divmod(q, 1)
        m = int(m)
        if r > Fraction(1, 2) or (r == Fraction(1, 2) and m & 1):
            m += 1
        if m == 1 << (mb + 1):
            m, e = m >> 1, e + 1
        if e > bias:
            return "inf"
        bits = m if m < 1 << mb else (e + bias) << mb | (m & ((1 << mb) - 1))
    bits |= sign << (eb + mb)
    return bytes((bits >> 8 * i) & 255 for i in range(n))


def value(rng, t):
    n, k = TYPES[t]
    if k == "f":
        if rng.random() < 0.4:  # values around what the type can hold
            eb, mb = FLOAT[n]
            top = (2 - 2.0 ** -mb) * 2.0 ** ((1 << (eb - 1)) - 1)
            tiny = 2.0 ** (2 - (1 << (eb - 1)) - mb) or 5e-324
            v = rng.choice([top, top * (1 + 2.0 ** -(mb + 3)) if n < 8 else top, top * 1.5 if n < 8 else top, tiny, tiny / 2, tiny * 1.5, tiny * 2.5, 1 + 2.0 ** -(mb + 1), 1 + 2.0 ** -mb,
                            1 + 3 * 2.0 ** -(mb + 1), 1 + 2.0 ** -(mb + 1) + 2.0 ** -52])
            return rng.choice([v, -v])
        return rng.choice([0.0, -0.0, 1.5, -2.5, math.nan, math.inf, -math.inf, 1e300, 5e-324, 65504.0, 65519.9, 65520.0, 0.1, rng.uniform(-1e5, 1e5), rng.gauss(0, 1), 7, -3, True, rng.random() * 1e-7,
                           struct.unpack("<d", rng.randbytes(8))[0], struct.unpack("<f", rng.randbytes(4))[0], struct.unpack("<e", rng.randbytes(2))[0]])
    b = 8 * n
    return rng.choice([0, 1, -1, 2 ** b - 1, 2 ** b, 2 ** (b - 1), 2 ** (b - 1) - 1, -2 ** (b - 1), -2 ** (b - 1) - 1, rng.getrandbits(b), rng.getrandbits(b - 1), -rng.getrandbits(b - 1), 2 ** 70, 255, 128, True])


def same(a, b):
    return type(a) is type(b) and ((a != a and b != b) or (a == b and (not isinstance(a, float) or math.copysign(1, a) == math.copysign(1, b))))


def buffers(rng, data):
    """(buffer, its live bytes, writable)"""
    how = rng.randrange(6)
    if how == 0:
        b = bytearray(data)
        return b, lambda: bytes(b), True
    if how == 1:
        b = JSArrayBuffer(data)
        return b, lambda: bytes(b.data), True
    if how == 2:
        b = JSArrayBuffer(data, max_byte_length=len(data) + 8)
        return b, lambda: bytes(b.data), True
    if how == 3:
        m = bytearray(data)
        b = JSArrayBuffer(memoryview(m), copy_data=False)
        return b, lambda: bytes(m), True
    if how == 4:
        return data, lambda: data, False
    b = JSArrayBuffer(data, readonly=True)
    return b, lambda: bytes(b.data), False


def case(sh, rng):
    rng.choices([data_view, elements, structs, half], [4, 4, 0.5, 0.5])[0](sh, rng)


ERRORS = (ValueError, IndexError, OverflowError, TypeError, struct.error)


def data_view(sh, rng):
    data = rng.randbytes(rng.choice([0, 1, 3, 8, 9, 16, 24, 24, 40, 64] if rng.random() < 0.95 else [130, 260, 1000, 5000, 5000, 70000]))
    sh.count("large buffers", len(data) > 100)
    buf, live, writable = buffers(rng, data)
    n = len(data)
    start = rng.choice([0, 0, rng.randint(0, n), rng.randint(0, n // 2)])
    length = rng.choice([n - start, n - start, rng.randint(0, n - start)])
    ro = True if rng.random() < 0.1 else None
    v = create_view(buf, JSDataView.view_tag, byte_offset=start, byte_length=length, readonly=ro)
    writable = writable and not ro
    model, js = bytearray(data), []
    with v.get_buffer() as d:
        check(len(d) == length, "len() of a data view is %d, expected %d", len(d), length)
        for _ in range(20):
            t = rng.choice(list(TYPES))
            size, kind = TYPES[t]
            off = rng.choice([0, length - size, length - size + 1, length, -1, -size, rng.randint(-2, length + 2), *[rng.randint(0, max(0, length - size)) for _ in range(8)], rng.choice([2**33, 2**70, -2**63])])
            little = rng.choice([None, True, False])
            args = [] if little is None else [little]
            kw = {}
            if size == 1:
                args = []
            elif args and rng.random() < 0.5:
                kw, args = {"little_endian": args[0]}, []
            inside = 0 <= off <= length - size
            at = slice(start + off, start + off + size)
            swap = (lambda b: b) if little else (lambda b: b[::-1])
            text = f"{t} at {off} of {length} ({little})"
            if rng.random() < 0.5:
                get = getattr(d, "get_" + t)
                if not inside:
                    expect_raises((ValueError, IndexError), lambda: get(off, *args, **kw), "reading " + text)
                    sh.count("refused offsets")
                else:
                    got, want = get(off, *args, **kw), decode(t, swap(bytes(model[at])))
                    check(same(got, want), "reading %s of %s gave %r, expected %r", text, bytes(model[at]).hex(), got, want)
                    sh.count("reads")
                    js.append(["get", t, off, bool(little), None])
                    sh.nontrivial("get", t, little, off, length)
            else:
                set_, x = getattr(d, "set_" + t), value(rng, t)
                if rng.random() < 0.05:
                    x = rng.choice(["a", None, [1], b"1"] + ([0.5] if kind != "f" else []))
                    e = None
                else:
                    e = encode(t, x)
                before = live()
                if not inside or not writable or e is None or e == "inf":
                    try:
                        set_(off, x, *args, **kw)
                    except ERRORS as ex:
                        check(inside or isinstance(ex, (ValueError, IndexError)), "writing %r as %s raised %r", x, text, ex)
                        sh.count("refused offsets" if not inside else "refused writes to read-only views" if not writable else "refused values")
                        check(live() == before, "writing %r as %s failed but changed %s to %s", x, text, before.hex(), live().hex())
                        continue
                    check(inside and writable and e == "inf", "writing %r as %s was not refused", x, text)
                    e = encode(t, math.copysign(math.inf, x))
                else:
                    r = set_(off, x, *args, **kw)
                    check(r is None, "writing returned %r", r)
                if e == "nan":
                    check(math.isnan(decode(t, swap(live()[at]))), "writing nan as %s", text)
                    model[at] = live()[at]
                    js = None if js is None else js + [["poke", start + off, live()[at].hex()]]
                else:
                    model[at] = swap(e)
                    js.append(["set", t, off, bool(little), num(x, kind, t)])
                sh.count("writes")
                sh.nontrivial("set", t, little, off, length, cls(x))
            check(live() == bytes(model), "after %s the bytes are %s, expected %s", text, live().hex(), model.hex())
    check(live() == bytes(model), "after closing the view the bytes are %s, expected %s", live().hex(), model.hex())
    expect_raises(ValueError, lambda: d.buffer.tobytes(), "using a closed view")
    if js and rng.random() < 0.5:
        v8(sh, data, start, length, js, bytes(model))


def cls(x):
    return ("nan" if x != x else "inf" if x in (math.inf, -math.inf) else round(math.log2(abs(x)))) if x else repr(x)


def num(x, kind, t):
    if kind == "f":
        return ["d", struct.pack(">d", x).hex()]
    return ["n" if t.startswith("big") else "i", str(int(x))]


V8 = """([data, start, length, ops]) => {
  const b = new ArrayBuffer(data.length / 2), u = new Uint8Array(b);
  u.set(Buffer.from(data, 'hex'));
  const d = new DataView(b, start, length), out = [];
  const name = {int8: 'Int8', uint8: 'Uint8', int16: 'Int16', uint16: 'Uint16', int32: 'Int32', uint32: 'Uint32', bigint64: 'BigInt64', biguint64: 'BigUint64', float16: 'Float16', float32: 'Float32', float64: 'Float64'};
  const num = ([k, s]) => k === 'd' ? Buffer.from(s, 'hex').readDoubleBE(0) : k === 'n' ? BigInt(s) : Number(s);
  for (const [op, t, off, le, v] of ops) {
    if (op === 'poke') { u.set(Buffer.from(off, 'hex'), t); continue; }
    if (op === 'set') { d['set' + name[t]](off, num(v), le); continue; }
    const x = d['get' + name[t]](off, le);
    if (typeof x === 'bigint') out.push(String(x));
    else { const h = Buffer.alloc(8); h.writeDoubleBE(x); out.push(Number.isNaN(x) ? 'nan' : h.toString('hex')); }
  }
  return [out, Buffer.from(b).toString('hex')]; }"""


def v8(sh, data, start, length, js, final):
    out, end = sh.node.eval(V8, [data.hex(), start, length, js])
    check(end == final.hex(), "V8's bytes are %s, expected %s after %s", end, final.hex(), js)
    m = bytearray(data)
    i = 0
    for op, *a in js:
        if op == "poke":
            m[a[0]:a[0] + len(a[1]) // 2] = bytes.fromhex(a[1])
            continue
        t, off, little, x = a
        size, kind = TYPES[t]
        at = slice(start + off, start + off + size)
        if op == "get":
            want = decode(t, bytes(m[at]) if little else bytes(m[at])[::-1])
            w = str(want) if t.startswith("big") else "nan" if want != want else struct.pack(">d", want).hex()
            check(out[i] == w, "V8 reads %s of %s as %s, expected %s", t, bytes(m[at]).hex(), out[i], w)
            i += 1
        else:
            v = struct.unpack(">d", bytes.fromhex(x[1]))[0] if x[0] == "d" else int(x[1])
            e = encode(t, v)
            if e == "inf":
                e = encode(t, math.copysign(math.inf, v))
            m[at] = e if little else e[::-1]
        sh.count("accesses in V8")


def elements(sh, rng):
    """Typed arrays give their elements as items of a memoryview."""
    cls_, name, size = rng.choice(KINDS[:-1])
    t = ELEMENT[name]
    kind = TYPES[t][1]
    data = rng.randbytes(size * (rng.randint(0, 9) if rng.random() < 0.98 else rng.choice([40, 130, 300, 1000])) + rng.choice([0, 0, 3]))
    sh.count("large buffers", len(data) > 100)
    buf, live, writable = buffers(rng, data)
    n = len(data) // size
    first = rng.randint(0, rng.choice([n, n // 2]))
    length = rng.choice([n - first, n - first, rng.randint(0, n - first)])
    ro = True if rng.random() < 0.1 else None
    v = rng.choice([lambda: cls_.from_bytes(buf, byte_offset=first * size, byte_length=length * size, readonly=ro), lambda: cls_(buf, first, length, ro)])()
    writable = writable and not ro
    model = bytearray(data)

    def at(i):
        return slice((first + i) * size, (first + i + 1) * size)

    with v.get_buffer() as mv:
        check(len(mv) == length and mv.itemsize == size, "%s of %d: %d items", name, length, len(mv))

        def all_equal(what):
            got = mv.tolist()
            want = [decode(t, bytes(model[at(i)])) for i in range(length)]
            check(all(same(a, b) for a, b in zip(got, want)) and len(got) == length, "%s: elements of %s %s are %s, expected %s", what, name, model.hex(), got, want)
            check(all(same(mv[i], want[i]) and same(mv[i - length], want[i]) for i in range(length)), "%s: indexing", what)
            check(all(type(x) is cls_.element_type for x in got), "%s: element types", what)
            check(live() == bytes(model), "%s: bytes %s, expected %s", what, live().hex(), model.hex())
            sh.count("element reads", 2 * length)

        all_equal("new")
        for i in (length, length + 1, -length - 1, 2**40):
            expect_raises(IndexError, lambda: mv[i], f"{name} of {length} at {i}")
            sh.count("refused elements")
        for _ in range(8):
            x = value(rng, t)
            i = rng.choice([0, length - 1, length, -length - 1, *[rng.randint(0, length) for _ in range(4)], -1])
            inside = -length <= i < length
            e = encode(t, x)
            before = live()
            what = f"{name}({length})[{i}] = {x!r}"
            if not writable or not inside or e is None or e == "inf":
                try:
                    mv[i] = x
                except ERRORS as ex:
                    check(live() == before, "%s failed but changed the bytes", what)
                    sh.count("refused elements" if not inside else "refused writes to read-only views" if not writable else "refused values")
                    continue
                check(inside and writable and e == "inf", "%s was not refused", what)
                e = encode(t, math.copysign(math.inf, x))
            else:
                mv[i] = x
            a = at(i % length)
            if e == "nan":
                check(math.isnan(decode(t, live()[a])), what)
                model[a] = live()[a]
            else:
                model[a] = e
            sh.count("element writes")
            sh.nontrivial("item", name, i, length, cls(x))
            all_equal(what)
    # other views of the same memory see the writes
    w = create_view(buf, JSDataView.view_tag)
    with w.get_buffer() as d:
        for i in range(length):
            got = getattr(d, "get_" + t)((first + i) * size, *([True] if size > 1 else []))
            check(same(got, decode(t, bytes(model[at(i)]))), "data view over %s: %r", name, got)


def structs(sh, rng):
    """Several values at once."""
    data = rng.randbytes(24)
    for t in (">HIb", "<dh", "3s", "<q", ">2f", ""):
        b = bytearray(data)
        size = struct.calcsize(t)
        with create_view(b, JSDataView.view_tag, byte_offset=2, byte_length=18).get_buffer() as d:
            for off in (0, 3, 18 - size, 18 - size + 1, -1, 19, 2**40):
                if 0 <= off <= 18 - size:
                    vals = struct.unpack(t, bytes(b[2 + off:2 + off + size]))
                    got = d.read(t, off)
                    check(len(got) == len(vals) and all(same(x, y) for x, y in zip(got, vals)), "read(%s, %d) = %s, expected %s", t, off, got, vals)
                    new = struct.unpack(t, rng.randbytes(size))
                    d.write(t, off, *new)
                    want = bytearray(data)
                    want[2 + off:2 + off + size] = struct.pack(t, *new)
                    check(b == want, "write(%s, %d)", t, off)
                    b[:] = data
                    sh.count("reads")
                    sh.count("writes")
                else:
                    expect_raises((ValueError, IndexError), lambda: d.read(t, off), f"read({t}, {off})")
                    expect_raises((ValueError, IndexError), lambda: d.write(t, off, *struct.unpack(t, bytes(size))), f"write({t}, {off})")
                    check(b == data, "refused write")
                    sh.count("refused offsets", 2)


def half(sh, rng):
    """Half-precision views as used for Python versions without them."""
    vals = [value(rng, "float16") for _ in range(5)]
    vals = [v if encode("float16", v) not in ("nan", "inf") else 1.5 for v in vals]
    data = b"".join(encode("float16", v) for v in vals)
    b = bytearray(b"zz" + data + b"yy")
    v = BackportJSFloat16Array(b, 1, 5)
    with v.get_buffer() as mv:
        check(mv.tolist() == [decode("float16", data[2 * i:2 * i + 2]) for i in range(5)], "backport: %s", mv.tolist())
        i, x = rng.randrange(5), rng.choice([0.5, -2.0, 65504.0, 6e-8])
        mv[i] = x
        sh.count("element reads", 5)
    want = bytearray(b"zz" + data + b"yy")
    want[2 + 2 * i:4 + 2 * i] = encode("float16", x)
    check(b == want, "backport: %s, expected %s", b.hex(), want.hex())
    with BackportJSFloat16Array(b, 1, 5).get_buffer(readonly=True) as mv:
        check(mv.readonly, "read-only backport")
        expect_raises(TypeError, lambda: mv.__setitem__(0, 1.0), "read-only backport")
    with BackportJSFloat16Array(bytes(b), 1, 5).get_buffer() as mv:
        check(mv.readonly, "backport of read-only memory")
        expect_raises(TypeError, lambda: mv.__setitem__(0, 1.0), "backport of read-only memory")


def every_half(sh):
    """All half-precision values, and every byte in each integer type."""
    b = bytearray(2)
    with JSDataView(b).get_buffer() as d:
        for i in range(65536):
            b[0], b[1] = i & 255, i >> 8
            w = decode("float16", bytes(b))
            check(same(d.get_float16(0, True), w), "float16 %04x is %r, expected %r", i, d.get_float16(0, True), w)
            b[0], b[1] = b[1], b[0]
            check(same(d.get_float16(0), w), "big-endian float16 %04x", i)
            if w == w:
                d.set_float16(0, w)
                check(b == bytes([i >> 8, i & 255]), "writing float16 %r gave %s", w, b.hex())
    sh.count("reads", 131072)


fixed = [every_half]
