"""Format features are written exactly when enabled."""
from packaging.version import Version

from harness.core import Violation, check, expect_raises
from harness.graph import Compare, Node, children, is_node, walk
from harness.model import Builder, Gen, VIEW_TAG, from_python, to_python
from harness.util import ALL, FEATURES, as_flags, observe, parse, same, varied
from harness.wire import Parser
from v8serialize import Encoder, SerializationFeature, dumps, loads
from v8serialize.constants import SymbolicVersion
from v8serialize.encode import (
    FeatureNotEnabledEncodeV8SerializeError, UnhandledValueEncodeV8SerializeError, WritableTagStream,
)
from v8serialize.jstypes import JSArrayBuffer, JSRegExp, create_view
from v8serialize.constants import JSRegExpFlag
from v8serialize import IllegalCyclicReferenceV8SerializeError

QUICK, THOROUGH = 80000, 800000
RULE = "distinct (feature set, graph shape, outcome) triples and version strings"
MIN = {"written": 3000, "refused: Float16Array": 100, "refused: circular cause": 50, "circular causes written": 50,
       "resizable buffers as fixed": 300, "resizable buffers as resizable": 300, "versions": 3000}

SINCE = {"RegExpUnicodeSets": (10, 7, 123), "ResizableArrayBuffers": (11, 0, 193), "CircularErrorCause": (12, 1, 109)}
BASE = (10, 0, 29)


def predict(root, feats):
    """The first thing that cannot be written in write order, and what was met."""
    met = dict(circular=0, resizable=0, half=0, tracking=0)
    seen, open_errors = set(), set()
    # explicit stack of iterators: (node, iterator)
    stack = []

    def visit(v):
        if not is_node(v):
            return None
        if id(v) in seen:
            if id(v) in open_errors:
                met["circular"] += 1
                if "CircularErrorCause" not in feats:
                    return "circular", v
            return None
        seen.add(id(v))
        if v.kind == "view":
            if v.tag == "Float16Array":
                met["half"] += 1
                if "Float16Array" not in feats:
                    return "half", v
            met["tracking"] += v.track
        if v.kind == "buf" and v.maxlen is not None:
            met["resizable"] += 1
        if v.kind == "error":
            open_errors.add(id(v))
        stack.append((v, iter(children(v))))
        return None

    problem = visit(root)
    while stack and not problem:
        n, it = stack[-1]
        for c in it:
            depth = len(stack)
            problem = visit(c)
            if problem or len(stack) > depth:
                break
        else:
            stack.pop()
            open_errors.discard(id(n))
    return problem, met


def case(sh, rng):
    x = rng.random()
    if x < 0.2:
        return versions(sh, rng)
    if x < 0.3:
        return low_level(sh, rng)
    feats = {n for n in FEATURES if rng.random() < 0.5}
    kinds = dict(Gen.KINDS)
    for k in ("view", "buf", "error"):
        kinds[k] *= rng.choice([1, 4, 8])
    kw = varied(rng)
    if rng.random() < 0.7:
        kw.update(budget=rng.choice([8, 15, 25]), depth=8, share=rng.choice([0.4, 0.6]))
    half = rng.random() < 0.4
    g = Gen(rng, kinds=kinds, float16=half, error_cycles=rng.random() < 0.5, **kw)
    m = g.graph()
    for n in walk(m):
        if half and n.kind == "view" and n.tag in ("Int16Array", "Uint16Array") and rng.random() < 0.7:
            n.tag = "Float16Array"
    problem, met = predict(m, feats)
    b = Builder()
    py = b.build(m)
    enc = Encoder(features=as_flags(feats))
    sh.nontrivial(sorted(feats), problem and problem[0], sorted(met.items()))
    if problem is None:
        data = enc.encode(py) if rng.random() < 0.5 else dumps(py, features=as_flags(feats))
        observe(sh, m, "written")
        p = Parser(data)
        read = p.parse()
        tags = {t for _, t in p.tags}
        res = "ResizableArrayBuffers" in feats
        check(("~" in tags) == (res and met["resizable"] > 0), "resizable buffer tag: %s with features %s", "~" in tags, feats)
        for v, f in p.view_flags:
            check(res or f == 0, "view flags %s written without ResizableArrayBuffers", f)
            if v.buf.kind == "buf":
                check(bool(f & 2) == (v.buf.maxlen is not None), "view flags %s for a buffer with maximum %s", f, v.buf.maxlen)
        check(sum(f & 1 for _, f in p.view_flags) == (met["tracking"] if res else 0), "length-tracking views written: %s of %s",
              [f for _, f in p.view_flags], met["tracking"])
        sh.count("resizable buffers as " + ("resizable" if res else "fixed"), met["resizable"])
        sh.count("circular causes written", met["circular"])
        sh.count("half-precision arrays written", met["half"])
        same(Compare(date="us", null_message=True, resizable=res), m, read, f"features {sorted(feats)}: the value changed", data)
        return
    kind, node = problem
    if kind == "half":
        e = expect_raises(UnhandledValueEncodeV8SerializeError, lambda: enc.encode(py), "Float16Array without its feature")
        check(e.value is b.memo[id(node)], "the error names %r instead of the view", e.value)
        check("Float16Array" in " ".join([str(e.message), *getattr(e, "__notes__", [])]), "the error does not name the feature: %r", e)
        sh.count("refused: Float16Array")
    else:
        e = expect_raises(IllegalCyclicReferenceV8SerializeError, lambda: enc.encode(py), "circular cause without its feature")
        check(e.obj is b.memo[id(node)], "the error names %s instead of the error object", type(e.obj))
        check("CircularErrorCause" in str(e.message), "the error does not name the feature: %s", e.message)
        sh.count("refused: circular cause")
    # the same value is written with the feature
    data = dumps(py, features=ALL)
    same(Compare(date="us", null_message=True), m, parse(data), "with all features the value changed", data)
    # and the encoder is not affected by the failure
    check(enc.encode([1]) == b"\xff\x0fA\x01U\x01$\x00\x01", "the encoder writes something else after a failure")


def low_level(sh, rng):
    """The stream refuses what its features do not allow, and writes nothing."""
    feats = {n for n in FEATURES if rng.random() < 0.5}
    s = WritableTagStream(features=as_flags(feats))
    s.data.extend(rng.randbytes(rng.randint(0, 3)))
    n = rng.randint(0, 6)
    maxlen = rng.choice([None, 2 * n, 2 * n + 2, 100])
    buf = JSArrayBuffer(bytes(2 * n), max_byte_length=maxlen)
    tag = rng.choice(list(VIEW_TAG))
    view = create_view(buf, VIEW_TAG[tag], byte_length=0 if rng.random() < 0.5 or maxlen is None else None)
    before = bytes(s.data)
    s.write_js_array_buffer(buf)
    res = "ResizableArrayBuffers" in feats and maxlen is not None
    check(s.data[len(before):len(before) + 1] == (b"~" if res else b"B"), "buffer written as %s with %s", bytes(s.data), feats)
    before = bytes(s.data)
    sh.count("low-level")
    if tag == "Float16Array" and "Float16Array" not in feats:
        e = expect_raises(FeatureNotEnabledEncodeV8SerializeError, lambda: s.write_js_array_buffer_view(view), "Float16Array")
        check(e.feature_required == SerializationFeature.Float16Array, "feature_required is %r", e.feature_required)
        check(s.data == before, "something was written for a refused view")
        check(view not in s.objects, "a refused view can be referenced")
        sh.count("refused by the stream")
    else:
        s.write_js_array_buffer_view(view)
        flags = s.data[-1]
        want = 0 if not res else (2 if maxlen is not None else 0) | (1 if view.is_length_tracking else 0)
        check(flags == want, "view flags %s instead of %s", flags, want)


def expected_for(t):
    names = {n for n, v in SINCE.items() if t >= v}
    return names


def versions(sh, rng):
    base = rng.choice([BASE, *SINCE.values(), (rng.randint(8, 14), rng.randint(0, 12), rng.randint(0, 500))])
    t = list(base)
    i = rng.randrange(3)
    t[i] = max(0, t[i] + rng.choice([-1, 0, 0, 0, 1]))
    if rng.random() < 0.4:
        t.append(rng.randint(0, 40))
    elif rng.random() < 0.15 and t[2] == 0:
        t.pop()
    text = ".".join(map(str, t))
    tt = tuple(t)
    suffix = rng.choice(["", "", "-rusty", "-node.33", "-node.5", "-electron.0", "-abc.def"])
    if rng.random() < 0.1:
        text = "v" + text if not suffix else text
    text += suffix
    v = text
    if rng.random() < 0.3 and not suffix:
        v = Version(text)
    sh.count("versions")
    sh.nontrivial("version", text)
    full = tt + (0,) * (3 - len(tt))
    if full < BASE:
        expect_raises(LookupError, lambda: SerializationFeature.supported_by(v8_version=v), f"version {v!r}")
        expect_raises(LookupError, lambda: Encoder(v8_version=v), f"Encoder for version {v!r}")
        expect_raises(LookupError, lambda: dumps(1, v8_version=v), f"dumps for version {v!r}")
        sh.count("versions refused")
        return
    if rng.random() < 0.03:
        v = SymbolicVersion.Unreleased
        names = set(FEATURES)
    else:
        names = expected_for(full)
    want = as_flags(names)
    got = SerializationFeature.supported_by(v8_version=v)
    check(got == want, "features for %r: %r instead of %r", v, got, want)
    extra = {n for n in FEATURES if rng.random() < 0.3}
    both = as_flags(names | extra)
    enc = Encoder(v8_version=v, features=as_flags(extra) if extra or rng.random() < 0.5 else None)
    check(enc.features == both, "Encoder(v8_version=%r, features=%s) enables %r", v, extra, enc.features)
    first = enc.first_v8_version
    if "Float16Array" in names | extra:
        check(first is SymbolicVersion.Unreleased, "first_v8_version %r with Float16Array", first)
    elif names | extra:
        w = max(SINCE[n] for n in names | extra)
        check(first == Version(".".join(map(str, w))), "first_v8_version %r instead of %r", first, w)
    g = Gen(rng, float16="Float16Array" in names | extra, error_cycles="CircularErrorCause" in names | extra,
            budget=6, kinds=dict(buf=3, view=2, error=2, arr=1))
    py = to_python(g.graph())
    a = dumps(py, v8_version=v, features=as_flags(extra))
    check(a == dumps(py, features=both), "dumps(v8_version=%r, features=%s) differs from dumps(features=%r)", v, extra, both)
    check(a == enc.encode(py), "Encoder and dumps differ")


def table(sh):
    for n, t in SINCE.items():
        f = SerializationFeature.for_name(n)
        check(f == FEATURES[n], "for_name(%s)", n)
        check(f.first_v8_version == Version(".".join(map(str, t))), "%s.first_v8_version is %s", n, f.first_v8_version)
    check(SerializationFeature.Float16Array.first_v8_version is SymbolicVersion.Unreleased, "Float16Array is released")
    check(SerializationFeature.MaxCompatibility.first_v8_version == Version("10.0.29"), "base version")
    expect_raises(LookupError, lambda: SerializationFeature.for_name("Nothing"), "unknown name")
    expect_raises(ValueError, lambda: SerializationFeature.supported_by(v8_version="x.y"), "not a version")
    check(SerializationFeature.supported_by(v8_version=SymbolicVersion.Unreleased) == ALL, "all features for unreleased versions")
    check(Encoder().features == SerializationFeature.MaxCompatibility, "features enabled by default")
    for n in SINCE:
        check(Encoder(features=FEATURES[n]).first_v8_version == FEATURES[n].first_v8_version, "first_v8_version for %s", n)
    check(Encoder().first_v8_version == Version("10.0.29"), "first_v8_version by default")


def default_is_compatible(sh):
    """dumps() without options enables nothing."""
    buf = JSArrayBuffer(b"abcd", max_byte_length=8)
    check(dumps(buf) == b"\xff\x0fB\x04abcd", "a resizable buffer is written as such by default")


fixed = [table, default_is_compatible]


def unicode_sets(sh):
    p = Parser(dumps(JSRegExp("a", JSRegExpFlag.UnicodeSets), features=SerializationFeature.MaxCompatibility)).parse()
    return "v" in p.flags


probes = {"unicode-sets-ungated": unicode_sets}
