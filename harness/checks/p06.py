"""Malformed input fails with the documented error only."""
import io
import resource
import time
import tracemalloc
from datetime import timedelta, timezone
from zoneinfo import ZoneInfo

from harness import fuzz
from harness.core import Violation, check
from v8serialize import DecodeV8SerializeError, Decoder, TagReader, loads
from v8serialize.decode import DefaultDecodeContext, ReadableTagStream

QUICK, THOROUGH = 120000, 1500000
RULE = "distinct (error message, error position class) pairs and distinct result types"
MIN = {"rejected": 5000, "accepted": 2000, "memory measured": 500}
ASSUMPTIONS = ["the interpreter's recursion limit is the default; RecursionError is accepted for deep nesting"]
CPU_S, CPU_PER_KB = 3.0, 0.2
ZONES = [timezone.utc, timezone(timedelta(hours=23, minutes=59)), timezone(-timedelta(hours=23, microseconds=5)), ZoneInfo("America/New_York")]
WAYS = 6 + len(ZONES)


def nested(*, stream):
    """Host objects containing any value, which may refer to the unfinished host object."""
    return DefaultDecodeContext(stream=stream, decode_steps=[TagReader(host_object_deserializer=nested)]).decode_object()


def run(sh, data, how, rng=None):
    """loads() under the monitors."""
    if how == 0:
        call = lambda: loads(src)
        src = data
    elif how == 1:
        src = bytearray(data)
        call = lambda: loads(src)
    elif how == 2:
        src = data
        call = lambda: loads(src, nodejs=False)
    elif how == 3:
        src = data
        call = lambda: Decoder().decodes(src)
    elif how == 4:
        src = data
        call = lambda: Decoder().decode(io.BytesIO(src))
    elif how == 5:
        src = data
        call = lambda: loads(src, host_object_deserializer=nested)
    else:
        src = data
        call = lambda: loads(src, default_timezone=ZONES[how - 6])
    t0 = time.process_time()
    try:
        r = call()
    except DecodeV8SerializeError as e:
        sh.count("rejected")
        check(type(e.position) is int and 0 <= e.position <= len(data), "position %r outside of %d bytes", e.position, len(data))
        check(bytes(e.data) == data, "the error's data is not the input")
        check(isinstance(e.message, str) and e.message, "no message")
        str(e), repr(e)
        sh.nontrivial(e.message[:60], min(e.position, 40))
        ok = False
    except RecursionError:
        sh.count("recursion")
        ok = None
    except MemoryError:
        raise Violation(f"MemoryError for {len(data)} bytes: {data[:300].hex()}") from None
    except Exception as e:
        raise Violation(f"{type(e).__name__}: {e!s:.300} for {data[:400].hex()}") from e
    else:
        sh.count("accepted")
        sh.nontrivial(type(r).__name__)
        ok = True
    cpu = time.process_time() - t0
    check(cpu < CPU_S + CPU_PER_KB * len(data) / 1024, "%.1f s for %d bytes: %s", cpu, len(data), data[:200].hex())
    check(bytes(src) == data, "the input was modified")
    return ok


def measured(sh, data, how=0):
    """Peak allocation while deserializing, against the size of the input."""
    tracemalloc.start()
    try:
        run(sh, data, how)
        peak = tracemalloc.get_traced_memory()[1]
    finally:
        tracemalloc.stop()
    sh.count("memory measured")
    # one byte of input is at most one small container of a few kB
    limit = 3_000_000 + 6000 * len(data)
    check(peak < limit, "%d bytes allocated for %d bytes of input: %s", peak, len(data), data[:200].hex())


def case(sh, rng):
    x = rng.random()
    if x < 0.35:
        data = fuzz.grammar(rng)
        sh.count("grammar")
    elif x < 0.9:
        w = fuzz.valid(rng)
        other = bytes(fuzz.valid(rng).out) if rng.random() < 0.3 else fuzz.grammar(rng)
        data = fuzz.mutate(rng, w.out, w.marks, other)
        sh.count("mutations")
    elif x < 0.97:
        data = fuzz.header(rng) + bytes(rng.choice(fuzz.BYTES) for _ in range(rng.randint(0, 40)))
        sh.count("random tags")
    else:
        data = rng.randbytes(rng.choice([0, 1, 2, 3, 10, 100]))
        sh.count("random bytes")
    if rng.random() < 0.02:
        hosts(sh, rng)
    if x > 0.6 and x < 0.62:
        measured(sh, data, rng.randrange(WAYS))
    else:
        run(sh, data, rng.randrange(WAYS))
    if rng.random() < 0.05:
        stream(sh, rng, data)


def hosts(sh, rng):
    """Host objects within each other and other values, ending in a reference to any of them."""
    n = rng.randint(0, 3)
    data = fuzz.header(rng) + b"A" + bytes([n + 1]) + b"o{\0" * n
    for _ in range(rng.randint(1, 4)):
        data += rng.choice([b"\\", b"\\", b"A\1", b"a\1I\0", b"o\"\1a", b"'", b";0", b"rc"])
    data += b"^" + fuzz.varint(rng.randint(0, n + 5)) + rng.choice([b"", b"$\0\1", b"{\1", b",\1", rng.randbytes(3)])
    sh.count("host objects around references")
    run(sh, data, 5)


METHODS = ["read_tag", "read_varint", "read_zigzag", "read_header", "read_double", "read_string_utf8",
           "read_string_onebyte", "read_string_twobyte", "read_bigint", "read_int32", "read_uint32"]


def stream(sh, rng, data):
    """Low-level reads in any order on any bytes."""
    s = ReadableTagStream(bytes(data), pos=rng.randint(0, len(data)))
    for _ in range(rng.randint(1, 6)):
        name = rng.choice(METHODS)
        m = getattr(s, name)
        kw = {}
        if name in ("read_double", "read_int32", "read_uint32", "read_bigint", "read_string_utf8", "read_string_onebyte", "read_string_twobyte"):
            kw["tag"] = rng.random() < 0.5
        before = s.pos
        try:
            m(**kw)
            check(before <= s.pos <= len(data), "position %d after %s at %d of %d bytes", s.pos, name, before, len(data))
            sh.count("low-level reads")
        except DecodeV8SerializeError as e:
            sh.count("low-level rejected")
            check(0 <= s.pos <= len(data) and 0 <= e.position <= len(data), "position %r/%r outside of %d bytes after %s", s.pos, e.position, len(data), name)
        except Exception as e:
            raise Violation(f"{name}({kw}): {type(e).__name__}: {e} at {before} of {bytes(data[:200]).hex()}") from e


def hostile(sh):
    """Streams designed to use too much time, memory or stack."""
    v = fuzz.varint
    H = b"\xff\x0f"
    big = [2**16, 2**24, 2**31, 2**32 - 1, 2**32, 2**63]
    streams = []
    for n in big:
        streams += [H + b"A" + v(n), H + b"A" + v(n) + b"-" * 10, H + b"a" + v(n) + b"@" + v(0) + v(n), H + b"B" + v(n),
                    H + b"~\0" + v(n), H + b"~" + v(n) + v(n), H + b"S" + v(n), H + b'"' + v(n), H + b"c" + v(n),
                    H + b"Z" + v(n), H + b"z" + v(n), H + b"\\\1" + v(n), H + b"~\0" + v(n) + b"VB\0\0\3",
                    H + b"u\0VB\0" + v(n) + b"\0", H + b"u\0VF" + v(n * 8) + v(n) + b"\0",
                    H + b"a" + v(n) + b"U" + v(max(n - 1, 0)) + b"0@\1" + v(n),
                    H + b"a" + v(n) + b"U\0" + b"0" + b"U" + v(n // 2) + b"0@\2" + v(n),
                    H + b"a" + v(n) + b"U" + v(n // 2) + b"-@\1" + v(n),
                    H + b"oU" + v(n) + b"0{\1", H + b";:" + v(n), H + b"'," + v(n), H + b"^" + v(n), H + b"o{" + v(n)]
    streams += [H + b"A\1" * n for n in (50, 200, 2000, 20000)]
    streams += [H + b"o\"\1a" * n for n in (50, 200, 2000, 20000)]
    streams += [H + b";" * n for n in (50, 2000, 60000)] + [H + b"'" * n for n in (50, 2000, 60000)]
    streams += [H + b"rc" * n for n in (50, 2000, 30000)] + [H + b"\0" * 60000, H + b"\xff" * 60000, H + b"U" + b"\x80" * 60000]
    streams += [H + b"a" + v(2**32 - 1) + b"".join(b"U" + v(2**32 - 2 - i) + b"0" for i in range(2000)) + b"@" + v(2000) + v(2**32 - 1)]
    streams += [H + b"a" + v(2**32 - 1) + b"".join(b"U" + v(i * 7919) + b"0" for i in range(2000)) + b"@" + v(2000) + v(2**32 - 1)]
    streams += [H + b"o" + b"".join(b"U" + v(i * 7919) + b"0" for i in range(2000)) + b"{" + v(2000)]
    streams += [H + b"o" + b"".join(b"U" + v(2**32 - 2 - i * 7919) + b"0" for i in range(2000)) + b"{" + v(2000)]
    streams += [H + b"o" + b"".join(b"U" + v(i) + b"-" for i in range(2000)) + b"{" + v(2000)]
    # quadratic: n references to one array of n sparse elements, n members of one set, n views of one buffer
    n = 3000
    streams += [H + b"'" + b"".join(b"A\0$\0\0" for _ in range(n)) + b"," + v(n)]
    streams += [H + b";" + b"".join(b"U" + v(i) + b"^\0" for i in range(n)) + b":" + v(2 * n)]
    streams += [H + b"A" + v(n) + b"B\0" + b"^\1VB\0\0\0" * (n - 1) + b"$\0" + v(n)]
    streams += [H + b"R" + b'"' + v(20000) + b"(" * 20000 + b"\0", H + b'R"' + v(20) + b"(a*)*" * 4 + b"\0"]
    streams += [H + b"N" + bytes(8), H + b"S" + v(60000) + b"1" * 60000, H + b"o" + b"S" + v(50000) + b"9" * 50000 + b"0{\1"]
    for s in streams:
        measured(sh, s)
        run(sh, s, 2)
        sh.count("hostile streams")


fixed = [hostile]
