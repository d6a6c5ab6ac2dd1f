"""Regular expressions keep source and flags across conversions."""
import dataclasses
import re
import warnings

from harness.core import Violation, check, expect_raises, short
from harness.wire import Parser
from v8serialize import Decoder, JSRegExpV8SerializeError, V8SerializeError, dumps, loads
from v8serialize.decode import DecodeV8SerializeError, ReadableTagStream
from v8serialize.encode import WritableTagStream
from v8serialize.jstypes import JSRegExp
from v8serialize import JSRegExpFlag

QUICK, THOROUGH = 220000, 7000000
RULE = "distinct (kind of case, flags, class of source) triples"
MIN = {"serialized": 15000, "flag sets enumerated": 512, "refused combinations": 128, "serialized by V8": 3000, "read by V8": 6500, "refused streams": 1800, "python patterns": 8500,
       "patterns without equivalent": 1600, "matches compared": 5000, "matches that depend on a flag": 1200, "to python": 10000, "invalid in python": 6000, "linear": 256}
ASSUMPTIONS = ["sources are not translated: a conversion keeps the text and converts the flags", "re.UNICODE becomes the UnicodeSets flag; re.LOCALE and re.DEBUG are not covered",
               "V8 12.4 as embedded in Node.js 22 stands for JavaScript"]

F = JSRegExpFlag
BITS = {"g": 1, "i": 2, "m": 4, "y": 8, "u": 16, "s": 32, "l": 64, "d": 128, "v": 256}
MEMBER = {"g": F.Global, "i": F.IgnoreCase, "m": F.Multiline, "y": F.Sticky, "u": F.Unicode, "s": F.DotAll, "l": F.Linear, "d": F.HasIndices, "v": F.UnicodeSets}
PY = {"i": re.IGNORECASE, "m": re.MULTILINE, "s": re.DOTALL}

SOURCES = ["", "a", "(?:)", "/", "\\/", "a/b", "\n", "\\n", "[/]", "[a-z]+", "(?<n>x)\\k<n>", "ünï", "🎉+", "日本", "\x00", "\u2028", "é" * 50, "x" * 300, "\\u{1F389}", "\\p{L}", "(?i:a)", "a{2,3}?",
           "(?=a)b|c", "\\d\\w\\s\\b", "]", "{", "[[a-z]--[aeiou]]", "\xff", "Ā", " ", "\\", "(", "*", "a**", "(?P<n>a)", "(?i)a", "a{99999999999999}", "[z-a]", "\\x", "(?<!a+)b", "\\1",
           "(?P<n>a)(?P<n>b)", "[\\d-z]", "(?#comment)a", "\\Z", "a++"]


def flags_of(chars):
    f = F.NoFlag
    for c in chars:
        f |= MEMBER[c]
    return f


def text_of(chars):
    return "".join(sorted(chars))


def valid(chars):
    return not {"u", "v"} <= set(chars)


def some_flags(rng, pool="gimyusldv"):
    while True:
        p = rng.choice([0.1, 0.3, 0.6, 0.9])
        s = {c for c in pool if rng.random() < p}
        if valid(s):
            return s


def some_source(rng):
    if rng.random() < 0.7:
        return rng.choice(SOURCES)
    return "".join(rng.choice("ab.^$*+?()[]{}|\\/dwnux0-é🎉\nΩ ") for _ in range(rng.choice([1, 2, 4, 8])))


def kind_of(s):
    return ("empty" if not s else "latin1" if s.isascii() else "wide", "/" in s, "\n" in s, len(s) > 100)


def agree(r, source, chars, what):
    check(type(r) is JSRegExp, "%s: %s is not a JSRegExp", what, short(r))
    check(r.source == (source or "(?:)"), "%s: the source %r became %r", what, source, r.source)
    check(r.flags == flags_of(chars) and isinstance(r.flags, F), "%s: the flags %s became %r", what, text_of(chars), r.flags)
    check(str(r.flags) == text_of(chars), "%s: the flags %s are shown as %s", what, text_of(chars), str(r.flags))
    check(int(r.flags) == sum(BITS[c] for c in chars), "%s: the flags %s have the value %d", what, text_of(chars), int(r.flags))


def case_flags(sh, i):
    """Every one of the 512 sets of flags."""
    chars = {c for j, c in enumerate("gimyusldv") if i >> j & 1}
    f = flags_of(chars)
    sh.count("flag sets enumerated")
    sh.nontrivial("flags", text_of(chars))
    check(str(f) == text_of(chars), "the flags %s are shown as %s", text_of(chars), str(f))
    check(f.canonical == f and (f | 512 | 1 << 20).canonical == f, "the canonical form of %r is %r", f, f.canonical)
    check(set(f) == {MEMBER[c] for c in chars}, "the flags in %s are %s", text_of(chars), list(f))
    js = None
    if "l" not in chars:
        js = sh.node.eval("(function (f) { try { return new RegExp('a', f).flags; } catch (e) { return null; } })", "".join(chars))
        check((js is not None) == valid(chars), "JavaScript: %s gives %s", text_of(chars), js)
    if not valid(chars):
        for make in (lambda: JSRegExp("a", f), lambda: JSRegExp(source="a", flags=f), lambda: JSRegExp("", F(int(f))), lambda: dataclasses.replace(JSRegExp("a"), flags=f)):
            expect_raises((ValueError,), make, f"a regular expression with the flags {text_of(chars)}")
        sh.count("refused combinations")
        stream(sh, "a", f, None)
        py_flags(sh, chars, f)
        return
    r = JSRegExp("a", f)
    agree(r, "a", chars, "construction")
    if js is not None:
        check(js == str(r.flags), "the flags %s are shown as %s, in JavaScript as %s", text_of(chars), str(r.flags), js)
    agree(loads(dumps(r)), "a", chars, "serialization")
    py_flags(sh, chars, f)
    for g in (flags_of(chars - {"i"}), flags_of(chars | {"i"})):
        check((JSRegExp("a", g) == r) == (g == f), "JSRegExps with flags %s and %s compare %s", str(g), str(f), JSRegExp("a", g) == r)


def py_flags(sh, chars, f):
    want = re.NOFLAG
    for c, p in PY.items():
        if c in chars:
            want |= p
    if chars & {"u", "v"}:
        want |= re.UNICODE
    if "l" in chars:
        sh.count("linear")
        check(f.as_python_flags(throw=False) is None, "the linear flag became %s", f.as_python_flags(throw=False))
        e = expect_raises((JSRegExpV8SerializeError,), f.as_python_flags, "the Python flags of a linear regular expression")
        check(isinstance(e, V8SerializeError), "the refusal is no V8SerializeError")
        return
    for got in (f.as_python_flags(), f.as_python_flags(throw=False), f.as_python_flags(throw=True)):
        check(got == want, "the flags %s mean %r in Python, not %r", text_of(chars), want, got)
    back = F.from_python_flags(got)
    check(str(back) == text_of(chars & set(PY) | ({"v"} if chars & {"u", "v"} else set())), "the flags %s went to Python and back as %s", text_of(chars), str(back))


def stream(sh, source, f, rng):
    """A serialized regular expression with any flags bits."""
    w = WritableTagStream()
    w.write_header()
    w.data += b"R"
    w.write_string_utf8(source)
    w.write_varint(int(f))
    both = int(f) & 272 == 272
    for load in (loads, Decoder().decodes):
        try:
            r = load(bytes(w.data))
        except DecodeV8SerializeError:
            check(both or int(f) >= 512, "a regular expression with the flags %s was refused", str(f))
            sh.count("refused streams")
        else:
            check(not both, "a regular expression with the flags %s was read", str(f))
            check(r.source == (source or "(?:)") and r.flags.canonical == F(int(f)).canonical, "a regular expression with flags %d was read as %s", int(f), short(r))


def case_serialize(sh, rng):
    source, chars = some_source(rng), some_flags(rng)
    r = JSRegExp(source, flags_of(chars))
    sh.count("serialized")
    sh.nontrivial("serialize", text_of(chars), kind_of(source))
    x = rng.random()
    if x < 0.5:
        v = [r, r, JSRegExp(source, flags_of(chars))]
        data = dumps(v)
        back = loads(data)
        for b in back.array:
            agree(b, source, chars, "serialization")
        check(back[0] is back[1], "the identity of regular expressions was not kept")
    else:
        w = WritableTagStream()
        w.write_js_regexp(r)
        data = bytes(w.data)
        s = ReadableTagStream(data)
        from v8serialize.decode import DefaultDecodeContext

        from v8serialize import default_decode_steps
        _, b = s.read_js_regexp(DefaultDecodeContext(stream=s, decode_steps=default_decode_steps), tag=True)
        check(s.pos == len(data), "reading a regular expression stopped at %d of %d", s.pos, len(data))
        agree(b, source, chars, "write_js_regexp and read_js_regexp")
        data = dumps(r)
        root = Parser(data).parse()
        check(root.kind == "regexp" and root.source == (source or "(?:)") and root.flags == text_of(chars), "%s was written as a %s", short(r), root.kind)
    if "l" in chars:
        return
    ans = sh.node.eval("(function (a) { const v8 = require('v8'); let want = null, got; try { want = new RegExp(a.source, a.flags); } catch (e) { } "
                       "try { got = v8.deserialize(Buffer.from(a.data, 'hex')); } catch (e) { got = null; } "
                       "if (Array.isArray(got)) got = got[0]; return [want && [want.source, want.flags], got && [got.source, got.flags], got && String(got)]; })",
                       dict(source=r.source, flags=str(r.flags), data=bytes(data).hex()))
    check(ans[0] == ans[1], "%s is read by V8 as %s, not %s", short(r), ans[1], ans[0])
    if ans[0]:
        check(ans[1][1] == str(r.flags), "%s has the flags %s in JavaScript", short(r), ans[1][1])
        sh.count("read by V8")


def case_node(sh, rng):
    source, chars = some_source(rng), some_flags(rng, "gimyusdv")
    ans = sh.node.eval("(function (a) { try { const r = new RegExp(a.source, a.flags); return [require('v8').serialize([r, 'x', r]).toString('hex'), r.source, r.flags]; } catch (e) { return null; } })",
                       dict(source=source, flags=text_of(chars)))
    if ans is None:
        return
    data, src, flags = ans
    back = loads(bytes.fromhex(data))
    agree(back[0], src, set(flags), "a regular expression of JavaScript")
    check(back[0] is back[2], "one regular expression of JavaScript came back as two")
    sh.count("serialized by V8")
    sh.nontrivial("node", flags, kind_of(source))


def case_python(sh, rng):
    """re.Pattern to JSRegExp."""
    chars = {c for c in PY if rng.random() < 0.4}
    py = re.NOFLAG
    for c in chars:
        py |= PY[c]
    asc = rng.random() < 0.25
    isbytes = rng.random() < 0.2
    verbose = rng.random() < 0.2
    if asc:
        py |= re.ASCII
    elif not isbytes and rng.random() < 0.3:
        py |= re.UNICODE
    if verbose:
        py |= re.VERBOSE
    source = some_source(rng)
    if "(?i" in source:
        return
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            p = re.compile(source.encode() if isbytes else source, py)
    except (re.error, OverflowError, ValueError):
        return
    sh.count("python patterns")
    sh.nontrivial("python", text_of(chars), asc, isbytes, verbose, kind_of(source))
    if verbose:
        check(JSRegExp.from_python_pattern(p, throw=False) is None, "%r was converted", p)
        for f in (lambda: JSRegExp.from_python_pattern(p), lambda: JSRegExp.from_python_pattern(p, throw=True), lambda: dumps(p), lambda: dumps([1, p]), lambda: F.from_python_flags(re.RegexFlag(p.flags))):
            expect_raises((JSRegExpV8SerializeError,), f, f"converting {p!r}")
        sh.count("patterns without equivalent")
        return
    want = chars | (set() if asc or isbytes else {"v"})
    for r in (JSRegExp.from_python_pattern(p), JSRegExp.from_python_pattern(p, throw=False), loads(dumps(p)), loads(dumps({"p": [p]}))["p"][0]):
        agree(r, source, want, f"{p!r}")
    check(F.from_python_flags(re.RegexFlag(p.flags)) == flags_of(want), "the flags of %r became %s", p, F.from_python_flags(re.RegexFlag(p.flags)))
    if isbytes:
        return
    q = r.as_python_pattern()
    check(q.pattern == r.source and (q.flags & ~(re.ASCII | re.UNICODE)) == (p.flags & ~(re.ASCII | re.UNICODE)), "%r went to JavaScript and back as %r", p, q)
    check(asc or q.flags & re.UNICODE, "%r lost its unicode flag: %r", p, q)


def case_to_python(sh, rng):
    source, chars = some_source(rng), some_flags(rng)
    r = JSRegExp(source, flags_of(chars))
    sh.count("to python")
    sh.nontrivial("to python", text_of(chars), source if source in SOURCES else kind_of(source))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        py = re.NOFLAG
        for c in chars & set(PY):
            py |= PY[c]
        try:
            want = re.compile(r.source, py)
        except (re.error, OverflowError, ValueError):
            want = None
        if "l" in chars:
            want = None
        got = r.as_python_pattern(throw=False)
        if want is None:
            check(got is None, "%s was converted to %r", short(r), got)
            e = expect_raises((JSRegExpV8SerializeError,), r.as_python_pattern, f"converting {short(r)} to Python")
            check(isinstance(e, V8SerializeError), "the refusal is no V8SerializeError")
            sh.count("invalid in python")
            return
        for g in (got, r.as_python_pattern(), r.as_python_pattern(throw=True)):
            check(g == want, "%s was converted to %r, not %r", short(r), g, want)
    agree(r, source, chars, "conversion to Python")


def case_match(sh, rng):
    """Converted flags have the same effect on expressions both languages understand."""
    asc = rng.random() < 0.3
    letters = list("abKk") + ([] if asc else ["é", "É", "ß", "🎉", "ſ", "s", "K", "Ω", "ω"])
    chars = {c for c in PY if rng.random() < 0.5}
    atoms = letters + [".", ".", "^"] + (["$"] if "m" in chars else [])
    source = "".join(rng.choice(atoms) for _ in range(rng.choice([1, 1, 2, 3])))
    text = "".join(rng.choice(letters + ["\n", "\n"]) for _ in range(rng.choice([1, 3, 6, 12])))
    py = re.NOFLAG
    for c in chars:
        py |= PY[c]
    if rng.random() < 0.5:  # from Python
        p = re.compile(source, py | (re.ASCII if asc else 0))
        data = dumps(p)
    else:
        r = JSRegExp(source, flags_of(chars | (set() if asc else {rng.choice("uv")})))
        p = r.as_python_pattern()
        data = dumps(r)
    want = [m.group() for m in p.finditer(text)]
    got = sh.node.eval("(function (a) { const r = require('v8').deserialize(Buffer.from(a.data, 'hex')); return Array.from(a.text.matchAll(new RegExp(r.source, r.flags + 'g')), m => m[0]); })",
                       dict(data=bytes(data).hex(), text=text))
    check(got == want, "%r (from or to the JavaScript flags %s) matches %r in %r, in JavaScript %r", p, text_of(chars), want, text, got)
    sh.count("matches compared")
    others = [[m.group() for m in re.compile(source, p.flags ^ f).finditer(text)] for f in PY.values()]
    sh.count("matches that depend on a flag", sum(o != want for o in others))
    sh.nontrivial("match", text_of(chars), asc, source)


def case(sh, rng):
    if sh.case_id < 512:
        case_flags(sh, sh.case_id)
        return
    x = rng.random()
    if x < 0.3:
        case_serialize(sh, rng)
    elif x < 0.4:
        case_node(sh, rng)
    elif x < 0.65:
        case_python(sh, rng)
    elif x < 0.85:
        case_to_python(sh, rng)
    elif x < 0.95:
        case_match(sh, rng)
    else:
        chars = {c for c in BITS if rng.random() < 0.5}
        stream(sh, some_source(rng), F(sum(BITS[c] for c in chars) | rng.choice([0, 0, 0, 512, 1 << 30])), rng)
