"""Malformed streams: mutations of valid ones and random sequences of format pieces."""
from __future__ import annotations

import struct

from harness.model import Gen
from harness.wire import NODE_VIEWS, VIEW_CODE, Writer

TAGS = b"-_0TFIUNZDyxnzsRBt~up\\rV^oAa;:',{$@?S\"c"
BYTES = TAGS + bytes([0, 1, 2, 3, 4, 127, 128, 254, 255, 0x10, 0x20, 109, 115, 46, 69, 82, 99])


def varint(n):
    out = bytearray()
    while n >= 0x80:
        out.append(n & 0x7F | 0x80)
        n >>= 7
    out.append(n)
    return bytes(out)


NUMBERS = [0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 63, 64, 127, 128, 255, 256, 1000, 2**14 - 1, 2**14, 2**16, 2**20,
           2**24, 2**28, 2**30, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1, 2**32, 2**33, 2**40, 2**53, 2**63, 2**64,
           2**64 - 1, 2**70]


def number(rng):
    x = rng.random()
    if x < 0.5:
        return varint(rng.randint(0, 5))
    if x < 0.9:
        return varint(rng.choice(NUMBERS))
    if x < 0.97:
        return varint(rng.getrandbits(rng.choice([8, 16, 31, 32, 33, 64])))
    return b"\xff" * rng.randint(1, 30) + b"\x7f"


DOUBLES = [0.0, -0.0, 1.0, 1.5, -1.0, float("nan"), float("inf"), -float("inf"), 1e300, 8.64e15, 8.64e15 + 1,
           -8.64e15, 253402300800000.0, -62135596800001.0, 2.0**32, 2.0**32 - 2, 2.0**53, 5e-324, 4294967295.0]


def double(rng):
    return struct.pack("<d", rng.choice(DOUBLES)) if rng.random() < 0.8 else rng.randbytes(8)


TEXT = [b"", b"a", b"0", b"1", b"01", b"-1", b"4294967294", b"4294967295", b"length", b"__proto__", b"1.5", b"\xff",
        b"\xc3\xa9", b"\xed\xa0\x80", b"\xe2\x82", b"=\xd8\xa9\xdc", b"=\xd8", b"\xa9\xdc", b"(", b"[", b"a\0", "²".encode()]


def string(rng):
    b = rng.choice(TEXT) if rng.random() < 0.9 else rng.randbytes(rng.randint(0, 30))
    n = len(b) if rng.random() < 0.9 else rng.choice([0, 1, 3, 2**31, 2**32 - 1, 2**33])
    return rng.choice([b"S", b'"', b"c"]) + varint(n) + b


def piece(rng, depth=0):
    """One random value, mostly well formed."""
    r = rng.random
    x = r()
    if depth > 4 or x < 0.25:
        return rng.choice([b"-", b"_", b"0", b"T", b"F", b"I" + number(rng), b"U" + number(rng), b"N" + double(rng),
                           b"Z" + number(rng) + rng.randbytes(rng.randint(0, 9)), b"Z\x02\x05", string(rng), string(rng)])
    d = depth + 1
    many = lambda f: [f() for _ in range(rng.randint(0, 3))]
    if x < 0.33:
        return b"^" + number(rng)
    if x < 0.43:
        p = many(lambda: key(rng, d) + piece(rng, d))
        return b"o" + b"".join(p) + b"{" + count(rng, len(p))
    if x < 0.5:
        n = rng.randint(0, 3)
        e = [piece(rng, d) for _ in range(n)]
        p = many(lambda: key(rng, d) + piece(rng, d)) if r() < 0.3 else []
        return b"A" + count(rng, n) + b"".join(e) + b"".join(p) + b"$" + count(rng, len(p)) + count(rng, n)
    if x < 0.58:
        n = rng.choice([0, 1, 5, 100, 2**20, 2**31, 2**32 - 1])
        p = many(lambda: key(rng, d) + piece(rng, d))
        return b"a" + count(rng, n) + b"".join(p) + b"@" + count(rng, len(p)) + count(rng, n)
    if x < 0.65:
        p = many(lambda: piece(rng, d) + piece(rng, d))
        return b";" + b"".join(p) + b":" + count(rng, 2 * len(p))
    if x < 0.7:
        p = many(lambda: piece(rng, d))
        return b"'" + b"".join(p) + b"," + count(rng, len(p))
    if x < 0.74:
        return b"D" + double(rng)
    if x < 0.79:
        return rng.choice([b"y", b"x", b"n" + double(rng), b"z" + number(rng) + rng.randbytes(rng.randint(0, 9)), b"s" + string(rng)])
    if x < 0.83:
        return b"R" + string(rng) + number(rng)
    if x < 0.88:
        out = b"r"
        for _ in range(rng.randint(0, 4)):
            out += rng.choice([b"E", b"R", b"F", b"S", b"T", b"U", b"m" + string(rng), b"s" + string(rng), b"c" + piece(rng, d)])
        return out + rng.choice([b".", b".", b".", b"", number(rng)])
    if x < 0.96:
        return buffer(rng) + (view(rng) if r() < 0.7 else b"")
    if x < 0.98:
        n = rng.randint(0, 9)
        return b"\\" + varint(rng.randrange(len(NODE_VIEWS) + 1)) + count(rng, n) + rng.randbytes(n)
    return rng.choice([b"?" + number(rng), b"w" + number(rng), b"m", b"p" + number(rng), b"\xff\x0f", b"V", b"$", b"."])


def key(rng, d):
    x = rng.random()
    if x < 0.6:
        return string(rng)
    if x < 0.9:
        return rng.choice([b"I" + number(rng), b"U" + number(rng), b"N" + double(rng)])
    return piece(rng, d + 2)


def count(rng, n):
    return varint(n) if rng.random() < 0.85 else number(rng)


def buffer(rng):
    n = rng.choice([0, 1, 3, 8, 16])
    x = rng.random()
    if x < 0.5:
        return b"B" + count(rng, n) + rng.randbytes(n)
    if x < 0.8:
        return b"~" + count(rng, n) + count(rng, n + rng.choice([0, 8])) + rng.randbytes(n)
    return rng.choice([b"u", b"t"]) + number(rng)


def view(rng):
    code = rng.choice([c for c, _ in VIEW_CODE.values()]).encode() if rng.random() < 0.9 else number(rng)
    sm = lambda: varint(rng.choice([0, 0, 1, 2, 4, 8, 16])) if rng.random() < 0.8 else number(rng)
    return b"V" + code + sm() + sm() + (varint(rng.randrange(4)) if rng.random() < 0.9 else number(rng))


def header(rng):
    x = rng.random()
    if x < 0.9:
        return bytes([0xFF, rng.choice([13, 14, 15])])
    return rng.choice([b"", b"\xff", b"\xff\x0c", b"\xff\x10", b"\xff\x8f\x00", b"\x0f", b"\xff\xff\x0f", b"\xff\0\0\x0f"])


def grammar(rng):
    return header(rng) + b"".join(piece(rng) for _ in range(rng.choice([1, 1, 1, 2])))


def valid(rng, **kw):
    version = rng.choice([13, 14, 15, 15])
    g = Gen(rng, wire=True, forms=False, features=None if version == 13 else True, float16=True,
            budget=rng.choice([1, 3, 8, 20]), depth=rng.choice([2, 4, 8]), share=rng.choice([0, 0.3]), **kw)
    w = Writer(rng, version, vary=rng.choice([0.0, 0.5]), box=rng.choice([0.0, 0.2]))
    w.header()
    w.value(g.graph())
    return w


def mutate(rng, data, marks, other):
    b = bytearray(data)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        n = len(b)
        op = rng.randrange(11)
        i = rng.randrange(n) if n else 0
        if op == 0 and n:
            b[i] ^= 1 << rng.randrange(8)
        elif op == 1 and n:
            b[i] = rng.choice(BYTES)
        elif op == 2:
            b[i:i] = rng.choice([bytes([rng.choice(BYTES)]), number(rng), b"\0" * rng.randint(1, 5), piece(rng)])
        elif op == 3 and n:
            del b[i:i + rng.choice([1, 1, 2, 4, 9])]
        elif op == 4 and n:
            b[i:i] = b[i:i + rng.randint(1, 12)] * rng.randint(1, 3)
        elif op == 5 and n:
            j = rng.randrange(n)
            b[i], b[j] = b[j], b[i]
        elif op == 6 and other:
            j = rng.randrange(len(other))
            b[i:] = other[j:]
        elif op == 7 and other:
            j = rng.randrange(len(other))
            b[i:i + rng.randint(0, 8)] = other[j:j + rng.randint(1, 20)]
        elif op in (8, 9) and marks:
            kind, s, e, _ = rng.choice(marks)
            if e <= len(b):
                b[s:e] = number(rng)
        elif op == 10:
            del b[i:]
    return bytes(b)
