"""Truncated or inconsistent data is rejected; trailing bytes are ignored."""
import re

from harness import fuzz
from harness.core import Violation, check
from harness.graph import Compare
from harness.model import Gen, from_python, to_python
from harness.util import as_flags, gen_for, observe, pick_features, same, varied
from harness.wire import BUFFERS, Bad, Parser, Writer
from harness.graph import is_node
from v8serialize import DecodeV8SerializeError, dumps, loads

QUICK, THOROUGH = 16000, 150000
RULE = "distinct (kind of damage, tag of the damaged place, error message) triples"
MIN = {"cuts": 50000, "damaged count": 1000, "damaged length": 1000, "damaged ref": 300, "damaged version": 1000,
       "trailing bytes": 1000,
       "error fields accepted": 4000, "error fields refused": 4000}


def rejected(sh, data, what, key):
    try:
        r = loads(data)
    except DecodeV8SerializeError as e:
        sh.nontrivial(*key, e.message[:40])
        return
    except RecursionError:
        return
    raise Violation(f"{what}: returned {r!r:.300} for {data[:300].hex()}")


def cut(sh, data, k):
    part = data[:k]
    sh.count("cuts")
    try:
        r = loads(part)
    except DecodeV8SerializeError as e:
        sh.nontrivial("cut", data[k - 1] if k else None, e.message[:30])
        return
    try:
        p = Parser(part, versions=(13, 14, 15), minimal=False, padding="any", whole=False)
        m = p.parse()
        if part[p.pos:].strip(b"\0"):
            raise Bad("bytes left over", p.pos)
    except Bad as e:
        raise Violation(f"cut at {k} of {len(data)}: returned {r!r:.300} although {e}: {data[:300].hex()}") from None
    # a buffer followed by a view of it: without the view it is a complete value
    check(is_node(m) and m.kind in BUFFERS, "cut at %d of %d: a complete %s: %s", k, len(data), m, data[:300].hex())
    sh.count("cuts between buffer and view")


def case(sh, rng):
    for _ in range(3):
        error_fields(sh, rng)
    version = rng.choice([13, 14, 15, 15])
    g = Gen(rng, wire=True, forms=False, features=None if version == 13 else True, float16=True, error_cycles=True,
            **dict(varied(rng), share=rng.choice([0.1, 0.4])))
    m = g.graph()
    w = Writer(rng, version, vary=rng.choice([0.0, 0.5]), box=rng.choice([0.0, 0.2]))
    w.header()
    w.value(m)
    observe(sh, m, "streams")
    data = bytes(w.out)
    ks = range(len(data)) if len(data) <= 120 else sorted({rng.randrange(len(data)) for _ in range(60)} | {len(data) - 1, len(data) - 2})
    for k in ks:
        cut(sh, data, k)
    for kind, s, e, extra in rng.sample(w.marks, min(len(w.marks), 12)):
        old, _ = read_varint(data, s)
        if kind in ("count", "length"):
            new = other_number(rng, old)
            what = f"{kind} before {extra!r} changed from {old} to {new}"
        elif kind == "ref":
            new = max(extra, rng.choice([0, extra + rng.choice([1, 2, 10, 127]), 2**20, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 2, 2**32 - 1, 2**32, 2**35, 2**64]))
            what = f"reference to object {new} of {extra} begun"
        elif kind == "version":
            new = rng.choice([0, 1, 9, 12, 12, 16, 16, 17, 127, 128, 2**31, 141])
            what = f"version {new}"
        elif kind in ("strlen", "buflen"):
            new = len(data) - e + rng.choice([1, 2, 3, 100, 2**31])
            new += new % 2
            what = f"{kind} {new} beyond the end"
        elif kind == "maxlen":
            if not extra:
                continue
            new = rng.randrange(extra)
            what = f"maximum length {new} below the length {extra}"
        else:
            continue
        damaged = data[:s] + fuzz.varint(new) + data[e:]
        sh.count("damaged " + kind)
        rejected(sh, damaged, what, (kind, extra if isinstance(extra, str) else None, old if kind == "version" else None))
    if rng.random() < 0.5:
        trailing(sh, rng, m, data)


ERROR_FIELDS = re.compile(rb"[EFRSTU]?m?(?:s?c?|c?s?)\.")


def error_fields(sh, rng):
    """Errors with fields in any order and number, some whose text is no text."""
    def value(text):
        t = rng.choice([b'"\x01a', b"S\x02\xc3\xa9", b"\0\0c\x02a\0", b'"\0'])
        bad = rng.choice([b"0", b"_", b"I\2", b"N" + bytes(8), b"o{\0", b"^\0", b"T", b"Z\0", b"-", b"A\0$\0\0", b"B\0", b"s\x01a",
                          b"D" + bytes(8), b'R"\x01a\0'])
        if text:
            return (t, True) if rng.random() < 0.9 else (bad, False)
        return (rng.choice([t, b"I\2"]) if bad == b"s\x01a" else bad), True

    letters = bytearray(rng.choice([b"", b"", rng.choice([b"E", b"F", b"R", b"S", b"T", b"U"])]))
    for c in b"msc":
        if rng.random() < 0.6:
            letters.append(c)
    for _ in range(rng.choice([0, 1, 1, 2])):
        x = rng.random()
        if x < 0.4:
            letters.insert(rng.randint(0, len(letters)), rng.choice(b"mscEFRSTU"))
        elif x < 0.6:
            letters.insert(rng.randint(0, len(letters)), rng.choice([0, 1, 33, ord("M"), ord("x"), ord("r"), 127]))
        else:
            rng.shuffle(letters)
    letters += b"."
    out, ok = bytearray(), bool(ERROR_FIELDS.fullmatch(letters))
    for c in letters:
        out.append(c)
        if c in b"msc":
            # the stack after the cause is text, too
            b, good = value(c != ord("c"))
            ok = ok and good
            out += b
    data = b"\xff\x0f" + rng.choice([b"r%s", b"A\1r%s$\0\1", b'o"\1ar%s{\1', b";I\2r%s:\2"]).replace(b"%s", bytes(out))
    if ok:
        sh.count("error fields accepted")
        loads(data)
        return
    sh.count("error fields refused")
    rejected(sh, data, f"an error with the fields {bytes(letters)!r} (in this order)", ("error", bytes(letters[:3])))


def trailing(sh, rng, m, data):
    junk = rng.choice([b"\1", b"\xff\x0f", b"0", b"{\0", b"$\0\0", bytes([rng.randrange(256)]), rng.randbytes(5), data, b"\0\0", b"^\0", b"V"])
    if is_node(m) and m.kind in BUFFERS and junk.lstrip(b"\0")[:1] in (b"V", b""):
        return
    sh.count("trailing bytes")
    a, b = from_python(loads(data)), from_python(loads(data + junk))
    same(Compare(strict_num=True), a, b, f"trailing bytes {junk.hex()} change the result", data)


def read_varint(data, pos):
    v = shift = 0
    while True:
        b = data[pos]
        v |= (b & 127) << shift
        pos += 1
        shift += 7
        if b < 128:
            return v, pos


def other_number(rng, old):
    x = rng.choice([old + 1, old - 1, old + 2, old * 2, 0, 1, 127, 128, 2**16, 2**31, 2**32 - 1, old + 128, old ^ 64])
    return old + 1 if x == old or x < 0 or x >= 2**32 else x
