"""Dates denote the same instant on both sides."""
import os
import struct
import time
import zoneinfo
from datetime import datetime, timedelta, timezone, tzinfo
from fractions import Fraction

from harness.core import Inconclusive, Violation, check, expect_raises
from v8serialize import Decoder, V8SerializeError, dumps, loads
from v8serialize.decode import DecodeV8SerializeError, ReadableTagStream, TagReader
from v8serialize.encode import EncodeV8SerializeError, WritableTagStream
from v8serialize.jstypes import JSMap, JSObject

QUICK, THOROUGH = 300000, 9000000
RULE = "distinct (direction, zone, era, near a transition or limit, fold) tuples"
MIN = {"aware written": 22000, "naive written": 14000, "read as naive": 13000, "read in a zone": 15000, "near a transition": 9000, "ambiguous local times": 550, "skipped local times": 150,
       "folded": 1500, "refused": 4000, "in V8": 5500, "local times in V8": 140, "written by V8": 6000, "submillisecond": 18000, "zones": 400, "limits": 1100}
ASSUMPTIONS = ["the zoneinfo module is the reference for local times", "V8 12.4 as embedded in Node.js 22 stands for JavaScript",
               "naive times within a day of the limits of the type, which Python cannot convert, are not covered"]
UTC = timezone.utc
EPOCH = datetime(1970, 1, 1, tzinfo=UTC)
US = timedelta(microseconds=1)
LOW, HIGH = (datetime.min.replace(tzinfo=UTC) - EPOCH) // US, (datetime.max.replace(tzinfo=UTC) - EPOCH) // US
DAY = 86400 * 10 ** 6


class Tz(tzinfo):
    """A zone with two offsets that alternate daily, given by its own rules."""

    def __init__(self, a, b):
        self.a, self.b = timedelta(minutes=a), timedelta(minutes=b)

    def utcoffset(self, d):
        return self.a if d.toordinal() % 2 else self.b

    def dst(self, d):
        return timedelta(0)

    def tzname(self, d):
        return "Tz"

    def __repr__(self):
        return f"Tz({self.a}, {self.b})"


class NoOffset(tzinfo):
    """Times in this zone are naive by the definition of the datetime module."""

    def utcoffset(self, d):
        return None

    dst = tzname = utcoffset


class SubDatetime(datetime):
    pass


def setup(sh):
    names = sorted(n for n in zoneinfo.available_timezones() if n not in ("Factory", "localtime") and not n.startswith(("posix", "right")))
    if len(names) < 100:
        raise Inconclusive("no time zone database")
    sh.names = names
    sh.zones = {}
    sh.used = set()
    sh.transitions = {}
    sh.tz = None


def zone(sh, name):
    if name not in sh.zones:
        sh.zones[name] = zoneinfo.ZoneInfo(name)
    if name not in sh.used:
        sh.used.add(name)
    return sh.zones[name]


def local(sh, rng):
    """Switches the local time zone of this process."""
    if sh.tz is None or rng.random() < 0.05:
        sh.tz = rng.choice(sh.names if rng.random() < 0.7 else sorted(STABLE))
        os.environ["TZ"] = sh.tz
        time.tzset()
    return zone(sh, sh.tz)


def offset(z, us):
    return (EPOCH + us * US).astimezone(z).utcoffset()


def transition(sh, rng, z):
    """An instant (µs) at which the offset of the zone changes, if there is one in a random year."""
    year = rng.randrange(1900, 2060) if rng.random() < 0.5 else rng.randrange(1965, 2038)
    key = (str(z), year)
    if key not in sh.transitions:
        if len(sh.transitions) > 3000:
            sh.transitions.clear()
        found = []
        t0 = int((datetime(year, 1, 1, tzinfo=UTC) - EPOCH) // US)
        step = 16 * DAY
        for i in range(23):
            a, b = t0 + i * step, t0 + (i + 1) * step
            oa = offset(z, a)
            if oa != offset(z, b):
                while b - a > 10 ** 6:
                    m = (a + b) // 2 // 10 ** 6 * 10 ** 6
                    if offset(z, m) == oa:
                        a = m
                    else:
                        b = m
                found.append(b)
        sh.transitions[key] = found
    return rng.choice(sh.transitions[key]) if sh.transitions[key] else None


def instant(sh, rng, z=None):
    """Microseconds since the epoch, and what is special about them."""
    x = rng.random()
    kind = "any"
    if x < 0.4 and z is not None and isinstance(z, zoneinfo.ZoneInfo):
        t = transition(sh, rng, z) or transition(sh, rng, z)
        if t is not None:
            sh.count("near a transition")
            us = t + rng.choice([0, -1, 1, -1000, 1000, rng.randrange(-3 * 3600 * 10 ** 6, 3 * 3600 * 10 ** 6), rng.randrange(-DAY, DAY)])
            return fine(rng, us), "transition"
    if x < 0.55:
        us = rng.randrange(-10 ** 15, 4 * 10 ** 15)
    elif x < 0.65:
        us = rng.choice([0, -1, 1, -1000, 999, -999, -1001, 10 ** 6, -10 ** 6, 2 ** 31 * 10 ** 6, -2 ** 31 * 10 ** 6, 2 ** 32 * 10 ** 6, 951782400 * 10 ** 6, -2208988800 * 10 ** 6]) + rng.randrange(-5, 6)
        kind = "landmark"
    elif x < 0.75:
        us = rng.choice([LOW + 4 * DAY, HIGH - 4 * DAY]) + rng.randrange(-DAY // 2, DAY // 2)
        kind = "limit"
    else:
        us = rng.randrange(LOW + 4 * DAY, HIGH - 4 * DAY)
    return fine(rng, us), kind


def fine(rng, us):
    x = rng.random()
    return us // 10 ** 6 * 10 ** 6 if x < 0.2 else us // 1000 * 1000 if x < 0.5 else us


def era(us):
    return us // (25 * 365 * DAY)


def double_of(data):
    """The double of a stream that holds just a date."""
    check(len(data) == 11 and data[2:3] == b"D", "a date was written as %s", data.hex())
    return struct.unpack("<d", data[3:])[0]


def ms_of(us):
    return float(Fraction(us, 1000))


def read_back(us):
    """The microseconds a double holds for an instant."""
    return round(Fraction(ms_of(us)) * 1000)


def written(sh, rng, d, us, what):
    """dumps of d must hold the instant us."""
    x = rng.random()
    if x < 0.8:
        ms = double_of(dumps(d))
    else:
        w = WritableTagStream()
        w.write_header()
        w.write_js_date(d)
        ms = double_of(bytes(w.data))
    check(ms == ms_of(us), "%s %r (fold %d) is written as %r ms, but it is %r ms", what, d, d.fold, ms, us / 1000)
    sh.count("submillisecond", us % 1000 != 0)
    return ms


def in_v8(sh, data, us, what):
    ans = sh.node.eval("(function (a) { const d = require('v8').deserialize(Buffer.from(a, 'hex')); return [d instanceof Date, d.getTime()]; })", bytes(data).hex())
    ms = int(ms_of(us))
    check(ans[0] and (ans[1] == ms or abs(ans[1] - ms_of(us)) < 0.001), "%s is %s in V8, not %d", what, ans[1], ms)
    sh.count("in V8")


def some_tz(sh, rng):
    x = rng.random()
    if x < 0.15:
        return UTC
    if x < 0.3:
        return timezone(timedelta(minutes=rng.randrange(-1439, 1440)))
    if x < 0.4:
        return timezone(timedelta(seconds=rng.randrange(-86399, 86400), microseconds=rng.choice([0, 1, 500000, 999999]))) if rng.random() < 0.9 else timezone(timedelta(microseconds=rng.choice([1, -1])))
    if x < 0.45:
        return Tz(rng.randrange(-700, 700), rng.randrange(-700, 700))
    return zone(sh, rng.choice(sh.names))


def case_aware(sh, rng):
    z = some_tz(sh, rng)
    if isinstance(z, Tz):
        d = datetime(rng.randrange(1900, 2100), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60), rng.randrange(10 ** 6), tzinfo=z)
        us = (d.replace(tzinfo=None) - z.utcoffset(d) - datetime(1970, 1, 1)) // US
        kind = "rule"
    else:
        us, kind = instant(sh, rng, z)
        d = (EPOCH + us * US).astimezone(z)
        if kind == "transition" and rng.random() < 0.5:
            # any wall clock time, also those that do not exist or exist twice
            d = (d.replace(tzinfo=None) + timedelta(seconds=rng.randrange(-7200, 7200))).replace(tzinfo=z, fold=rng.randrange(2))
            us = (d.replace(tzinfo=None) - d.utcoffset() - datetime(1970, 1, 1)) // US
    if rng.random() < 0.1:
        d = SubDatetime(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, d.tzinfo, fold=d.fold)
    written(sh, rng, d, us, "the aware time")
    sh.count("aware written")
    sh.count("folded", d.fold)
    sh.nontrivial("aware", str(z) if isinstance(z, zoneinfo.ZoneInfo) else type(z).__name__, era(us), kind, d.fold)
    if sh.case_id % 4 == 0:
        in_v8(sh, dumps(d), us, repr(d))
    back = loads(dumps(d))
    check(back.tzinfo is None, "%r came back as %r", d, back)


def local_us(d, z):
    """The instant of a naive time by zoneinfo."""
    o = d.replace(tzinfo=z).utcoffset()
    return (d - o - datetime(1970, 1, 1)) // US


def case_naive(sh, rng):
    z = local(sh, rng)
    us, kind = instant(sh, rng, z)
    d = (EPOCH + us * US).astimezone(z).replace(tzinfo=None)
    if kind == "transition" and rng.random() < 0.6:
        d = (d + timedelta(seconds=rng.randrange(-7200, 7200))).replace(fold=rng.randrange(2))
    us = local_us(d, z)
    a, b = local_us(d.replace(fold=0), z), local_us(d.replace(fold=1), z)
    exists = any((EPOCH + t * US).astimezone(z).replace(tzinfo=None, fold=0) == d.replace(fold=0) for t in (a, b))
    if a != b:
        sh.count("ambiguous local times" if exists else "skipped local times")
    if python_differs(d, us):
        sh.count("left out: Python's own conversion differs")
        return
    written(sh, rng, d if rng.random() < 0.95 else d.replace(tzinfo=NoOffset()), us, f"in {sh.tz} the naive time")
    sh.count("naive written")
    sh.nontrivial("naive", sh.tz, era(us), kind, d.fold, exists)
    back = loads(dumps(d))
    check(back.tzinfo is None, "%r came back as %r", d, back)
    if exists and read_back(us) == us:
        check(back == d and back.fold == (d.fold if a != b else 0), "in %s %r (fold %d) came back as %r (fold %d)", sh.tz, d, d.fold, back, back.fold)
    if sh.case_id % 3 == 0 and 1980 <= d.year <= 2020 and d.fold == 0 and d.microsecond % 1000 == 0 and sh.tz in STABLE:
        ans = sh.node.eval("(function (a) { process.env.TZ = a.tz; return new Date(...a.f).getTime(); })",
                           dict(tz=sh.tz, f=[d.year, d.month - 1, d.day, d.hour, d.minute, d.second, d.microsecond // 1000]))
        check(ans * 1000 == us, "in %s %r is %d ms here and %r ms in JavaScript", sh.tz, d, us // 1000, ans)
        sh.count("local times in V8")


# zones whose rules since 1980 no release of the database has revised recently
STABLE = {"America/New_York", "Europe/London", "Europe/Berlin", "Asia/Tokyo", "Australia/Sydney", "America/Los_Angeles", "Asia/Kolkata", "Asia/Kathmandu", "Africa/Johannesburg",
          "Pacific/Auckland", "Europe/Moscow", "America/Sao_Paulo", "America/St_Johns", "Asia/Singapore", "America/Denver", "Europe/Paris", "Australia/Adelaide", "Australia/Lord_Howe"}


def python_differs(d, us):
    """Python's own local time does not agree with zoneinfo (changes of a day, two changes within a day)."""
    try:
        s = d.replace(microsecond=0).timestamp()
    except (OverflowError, ValueError):
        return True
    return round(s) != us // 10 ** 6


def load_date(rng, ms, tz):
    data = b"\xff\x0fD" + struct.pack("<d", ms)
    x = rng.random()
    if tz is None and x < 0.4:
        return loads(data)
    if x < 0.6:
        return loads(data, default_timezone=tz)
    if x < 0.8:
        return Decoder(decode_steps=[TagReader(default_timezone=tz)]).decodes(data)
    s = ReadableTagStream(data[2:])
    r = s.read_js_date(tz=tz, tag=True)
    check(s.pos == 9, "reading a date stopped at %d", s.pos)
    return r.object


def case_read_naive(sh, rng):
    z = local(sh, rng)
    us, kind = instant(sh, rng, z)
    if read_back(us) != us:
        us = us // 1000 * 1000
    try:
        want = (EPOCH + us * US).astimezone(z)
    except OverflowError:
        return
    s, want = want, want.replace(tzinfo=None)
    try:
        lib = datetime.fromtimestamp(us // 10 ** 6)
    except (ValueError, OverflowError):
        return
    if lib.fold != want.fold or lib != want.replace(microsecond=0):
        sh.count("left out: Python's own conversion differs")
        return
    got = load_date(rng, ms_of(us), None)
    check(type(got) is datetime and got.tzinfo is None, "a date was read as %r", got)
    check(got == want and got.fold == want.fold, "in %s the date %r ms was read as %r (fold %d), not %r (fold %d)", sh.tz, us / 1000, got, got.fold, want, want.fold)
    sh.count("read as naive")
    sh.count("folded", got.fold)
    sh.nontrivial("read naive", sh.tz, era(us), kind, got.fold)
    del s


def case_read_zone(sh, rng):
    z = some_tz(sh, rng)
    while isinstance(z, Tz):
        z = some_tz(sh, rng)
    us, kind = instant(sh, rng, z)
    got = load_date(rng, ms_of(us), z)
    us = read_back(us)
    check(type(got) is datetime and got.tzinfo is z, "a date was read as %r in %s", got, z)
    diff = (got - EPOCH) // US - us
    check(diff == 0, "in %s the date %r ms was read as %r (fold %d), %d µs off", z, us / 1000, got, got.fold, diff)
    sh.count("read in a zone")
    sh.count("folded", got.fold)
    sh.nontrivial("read", str(z) if isinstance(z, zoneinfo.ZoneInfo) else "fixed", era(us), kind, got.fold)
    again = dumps(got)
    check(double_of(again) == ms_of(us), "%r ms read in %s and written again is %r", us / 1000, z, double_of(again))


def case_refuse(sh, rng):
    """Instants Python cannot hold."""
    x = rng.random()
    if x < 0.3:
        ms = rng.choice([float("nan"), float("inf"), float("-inf"), 8.64e15, -8.64e15, 1e300, -1e300, 1.7976931348623157e308, 2.0 ** 63, -(2.0 ** 63), 2.0 ** 53])
    elif x < 0.65:
        ms = HIGH / 1000 + rng.choice([1, 1000, 86400000, rng.uniform(1, 1e13), 10 ** rng.uniform(0, 15)])
    else:
        ms = LOW / 1000 - rng.choice([1, 1000, 86400000, rng.uniform(1, 1e13), 10 ** rng.uniform(0, 15)])
    tz = rng.choice([UTC, UTC, None])
    if tz is None:
        if sh.tz is None:
            local(sh, rng)
        if abs(ms - HIGH / 1000) < 2e8 or abs(ms - LOW / 1000) < 2e8:
            tz = UTC
    if rng.random() < 0.5:
        e = expect_raises((DecodeV8SerializeError,), lambda: load_date(rng, ms, tz), f"a date of {ms!r} ms in {tz}")
    else:
        data = b"\xff\x0fo\"\x01aD" + struct.pack("<d", ms) + b"{\x01"
        e = expect_raises((DecodeV8SerializeError,), lambda: loads(data, default_timezone=tz), f"an object with a date of {ms!r} ms in {tz}")
    check(isinstance(e, V8SerializeError), "the refusal is no V8SerializeError")
    sh.count("refused")
    sh.nontrivial("refuse", ms)


def case_limits(sh, rng):
    """The first and last instants, in UTC and where the zone's time still fits."""
    us = rng.choice([LOW, LOW + rng.randrange(2 * DAY), HIGH, HIGH - rng.randrange(2 * DAY)])
    z = rng.choice([UTC, timezone(timedelta(hours=rng.randrange(-23, 24))), zone(sh, rng.choice(sh.names))])
    try:
        d = (EPOCH + us * US).astimezone(z)
    except (OverflowError, ValueError):
        expect_raises((DecodeV8SerializeError,), lambda: load_date(rng, float(us // 1000), z), f"a date of {us // 1000} ms in {z}, which is outside of Python's type")
        sh.count("refused")
        return
    if isinstance(z, zoneinfo.ZoneInfo):
        return
    try:
        data = dumps(d)
    except EncodeV8SerializeError:
        raise Violation(f"{d!r} was refused") from None
    check(double_of(data) == ms_of(us), "%r is written as %r ms, not %r", d, double_of(data), us / 1000)
    ms = -(-us // 1000) if us < 0 else us // 1000
    if LOW <= ms * 1000 <= HIGH:
        try:
            want = (EPOCH + ms * 1000 * US).astimezone(z)
        except (OverflowError, ValueError):
            return
        got = load_date(rng, float(ms), z)
        check(got == want, "%d ms was read as %r, not %r", ms, got, want)
    sh.count("limits")


def case_node(sh, rng):
    n = rng.choice([1, 3])
    z = some_tz(sh, rng)
    while isinstance(z, Tz):
        z = some_tz(sh, rng)
    ms = [instant(sh, rng, z)[0] // 1000 for _ in range(n)]
    data = bytes.fromhex(sh.node.eval("(function (a) { const ds = a.map(x => new Date(x)); return require('v8').serialize({l: ds, m: new Map([[ds[0], ds[0]]])}).toString('hex'); })", ms))
    v = loads(data, default_timezone=z)
    got = list(v["l"].array)
    for g, m in zip(got, ms):
        check(isinstance(g, datetime) and (g - EPOCH) // US == m * 1000 and g.tzinfo is z, "JavaScript's %d ms was read as %r", m, g)
    check(isinstance(v, JSObject) and isinstance(v["m"], JSMap), "the containers of dates changed")
    (k, w), = v["m"].items()
    check(k is w and k is got[0], "one date came back as different objects")
    back = sh.node.eval("(function (a) { const v = require('v8').deserialize(Buffer.from(a, 'hex')); return [v.l.map(d => d.getTime()), [...v.m].flat().every(d => d === v.l[0])]; })", dumps(v).hex())
    check(back == [ms, True], "JavaScript's %s ms came back as %s", ms, back)
    sh.count("written by V8", n)
    sh.nontrivial("node", str(z), era(ms[0] * 1000))


def case(sh, rng):
    x = rng.random()
    if x < 0.3:
        case_aware(sh, rng)
    elif x < 0.5:
        case_naive(sh, rng)
    elif x < 0.68:
        case_read_naive(sh, rng)
    elif x < 0.88:
        case_read_zone(sh, rng)
    elif x < 0.93:
        case_refuse(sh, rng)
    elif x < 0.96:
        case_limits(sh, rng)
    else:
        case_node(sh, rng)


def finish(sh):
    sh.count("zones", len(sh.used))
