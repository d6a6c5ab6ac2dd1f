"""Decode steps and options control exactly the types they name."""
import collections
import copy
import functools
import struct
from datetime import datetime, timedelta, timezone

from harness.checks.p05 import with_nodebuf
from harness.checks.p13 import mark, transform
from harness.core import check, expect_raises
from harness.graph import HOLE, NULL, Compare, Node, canonical_key, is_node, order_props, walk
from harness.model import Describe, Gen, prim_to_python, svz_key
from harness.util import nodebufs_as_views, observe, same, varied
from harness.wire import NODE_VIEWS, Parser, Writer
from v8serialize import Decoder, TagReader, default_decode_steps, loads
from v8serialize.constants import SerializationTag as T, TagConstraint
from v8serialize.decode import (
    DecodeV8SerializeError, DefaultDecodeContext, ReadableTagStream, TagReaderRegistry, UnhandledTagDecodeV8SerializeError,
)
from v8serialize.extensions import NodeJsArrayBufferViewHostObjectHandler
from v8serialize.jstypes import JSArray, JSError, JSErrorData, JSHole, JSMap, JSObject, JSSet, JSUndefined

QUICK, THOROUGH = 120000, 1500000
RULE = "distinct (set of options, graph shape) pairs"
MIN = {"option sets": 3000, "typed objects": 10000, "constants mapped": 2000, "step logs": 1500, "unhandled tags": 500,
       "tag overrides": 700, "conflicts": 20, "replaced by a step": 1000}


def case(sh, rng):
    return rng.choices([options, steps, unhandled, refused], [8, 3, 1.5, 0.5])[0](sh, rng)


# ---- representations a user might choose

class Marker:
    """A value that stands for a constant; known to the describer by its text."""

    def __init__(self, text):
        self.text = text


class MyMap(JSMap):
    pass


class DictMap(dict):
    pass


class ListMap(collections.abc.MutableMapping):
    """A mapping by same-value-zero, written independently."""

    def __init__(self):
        self.entries = []

    def at(self, k):
        for i, (x, _) in enumerate(self.entries):
            if x is k or isinstance(k, (int, float)) and isinstance(x, (int, float)) and isinstance(k, bool) == isinstance(x, bool) \
                    and (x == k or x != x and k != k) or isinstance(k, str) and isinstance(x, str) and x == k:
                return i

    def __getitem__(self, k):
        i = self.at(k)
        if i is None:
            raise KeyError(k)
        return self.entries[i][1]

    def __setitem__(self, k, v):
        i = self.at(k)
        if i is None:
            self.entries.append((k, v))
        else:
            self.entries[i] = (k, v)

    def __delitem__(self, k):
        del self.entries[self.at(k)]

    def __iter__(self):
        return (k for k, _ in self.entries)

    def __len__(self):
        return len(self.entries)

    def items(self):
        return list(self.entries)


class MySet(JSSet):
    pass


class ListSet(collections.abc.MutableSet):
    def __init__(self):
        self.m = ListMap()

    def add(self, v):
        self.m[v] = None

    def discard(self, v):
        if self.m.at(v) is not None:
            del self.m[v]

    def __contains__(self, v):
        return self.m.at(v) is not None

    def __iter__(self):
        return iter(self.m)

    def __len__(self):
        return len(self.m)


class MyObject(JSObject):
    pass


class DictObject(dict):
    pass


class MyArray(JSArray):
    pass


class DictArray(dict):
    pass


class MyError:
    def __init__(self, data):
        self.data = data
        self.first = copy.copy(data)


class NodeBuf:
    def __init__(self, tag, data):
        self.tag, self.data = tag, data


class Stamp:
    def __init__(self, ms):
        self.ms = ms


class See(Describe):
    """Describes the representations above."""

    def value(self, v):
        return ("str", v.text) if type(v) is Marker else super().value(v)

    def node(self, v):
        t = type(v)
        if t is DictObject:
            n = Node("obj", form="dict", props=[])

            def fill():
                n.props = order_props((k, self.value(x)) for k, x in v.items())

            return self.reg(v, n, fill)
        if t is DictArray:
            n = Node("arr", form="dict", length=None)

            def fill():
                pairs = order_props((k, x) for k, x in v.items())
                n.elems = {k: self.value(x) for k, x in pairs if isinstance(k, int) and x is not JSHole}
                n.props = [(k, self.value(x)) for k, x in pairs if isinstance(k, str)]

            return self.reg(v, n, fill)
        if t is MyError:
            d = v.data
            n = Node("error", form="my", name=getattr(d.name, "value", d.name), message=d.message, stack=d.stack, cause=None)

            def fill():
                n.cause = None if d.cause is None else self.value(d.cause)

            return self.reg(v, n, fill)
        if t is NodeBuf:
            return self.reg(v, Node("nodebuf", tag=v.tag, data=v.data))
        if t is Stamp:
            return self.reg(v, Node("date", ms=v.ms, form="stamp"))
        return super().node(v)


def see(v):
    return See().run(v)


TEXT_TAGS = TagConstraint(name="text", allowed_tags=frozenset({T.kUtf8String, T.kOneByteString, T.kTwoByteString}))
CONST = {"hole": T.kTheHole, "undef": T.kUndefined, "null": T.kNull, True: T.kTrue, False: T.kFalse}


def const_key(p):
    return p[1] if p[0] == "bool" else p[0]


def const_value(rng, name, i):
    return rng.choice([Marker(f"\0{name}"), f"\0text {name}", 1000 + i, 0.5 + i, None, JSUndefined, "", 0, False, True])


def as_prim(v):
    if type(v) is Marker:
        return ("str", v.text)
    if v is None:
        return NULL
    if v is JSUndefined:
        return ("undef",)
    if type(v) is bool:
        return ("bool", v)
    if type(v) is str:
        return ("str", v)
    return ("num", float(v), "float" if type(v) is float else "int")


def merge_keys(m):
    """Maps and sets whose members became equal by a mapping."""
    for n in walk(m):
        def key(v):
            return svz_key(v.value if is_node(v) and v.kind == "prim" else v)

        if n.kind == "map":
            d = {}
            for k, v in n.items:
                d[key(k)] = (k, v)
            n.items = list(d.values())
        elif n.kind == "set":
            d = {}
            for k in n.items:
                d.setdefault(key(k), k)
            n.items = list(d.values())


def hashable_keys(m):
    for n in walk(m):
        if n.kind == "map":
            ks = [k.value if is_node(k) and k.kind == "prim" else k for k, _ in n.items]
            if any(is_node(k) for k in ks) or len({prim_to_python(k) for k in ks}) != len(ks):
                return False
    return True


def hashable_members(m):
    for n in walk(m):
        if n.kind == "set":
            ks = [k.value if is_node(k) and k.kind == "prim" else k for k in n.items]
            if any(is_node(k) for k in ks) or len({prim_to_python(k) for k in ks}) != len(ks):
                return False
    return True


def node_reader(stream):
    code, n = stream.read_varint(), stream.read_varint()
    return NodeBuf(NODE_VIEWS[code], bytes(stream.read_bytes(n)))


def host_forms(rng):
    def fn(*, stream):
        return node_reader(stream)

    class Obj:
        def deserialize_host_object(self, *, stream):
            return node_reader(stream)

    class Call:
        def __call__(self, *, stream):
            return node_reader(stream)

    return rng.choice([fn, Obj(), Call(), Obj().deserialize_host_object])


def step_forms(rng, step):
    class Obj:
        def decode(self, tag, /, ctx, next):
            return step(tag, ctx=ctx, next=next)

    class Call:
        def __call__(self, tag, /, ctx, next):
            return step(tag, ctx=ctx, next=next)

    def fn(tag, /, ctx, next):
        return step(tag, ctx=ctx, next=next)

    return rng.choice([fn, Obj(), Call(), Obj().decode, functools.partial(fn), lambda tag, ctx, next: step(tag, ctx=ctx, next=next)])


ZONES = [timezone.utc, timezone(timedelta(hours=5, minutes=30)), timezone(timedelta(seconds=-12345))]


def stream_for(rng, nodebufs=True, text_index=True):
    m = Gen(rng, wire=True, forms=False, float16=True, **varied(rng)).graph()
    if nodebufs and rng.random() < 0.3:
        m = with_nodebuf(rng, m)
    w = Writer(rng, version=rng.choice([13, 14, 15]), vary=rng.choice([0.0, 0.3, 0.8]), text_index=text_index)
    if w.version < 14 and any(n.kind == "view" and n.buf.kind == "buf" and n.buf.maxlen is not None for n in walk(m)):
        w.version = 15
    w.header()
    w.value(m)
    return m, bytes(w.out), w


def options(sh, rng):
    text_index = rng.random() < 0.7
    m, data, w = stream_for(rng, text_index=text_index)
    kw, types = {}, {"map": JSMap, "set": JSSet, "obj": JSObject, "arr": JSArray, "error": JSError, "date": datetime}
    want_has_nodebuf = any(n.kind == "nodebuf" for n in walk(m))

    consts = {}
    if rng.random() < 0.6:
        for i, name in enumerate(CONST):
            if rng.random() < 0.5:
                consts[name] = const_value(rng, name, i)
        kw["js_constants"] = {CONST[k]: v for k, v in consts.items()}
    registry = {}
    if rng.random() < 0.3:
        for name in ("text", "big", "date", "obj", True, "null"):
            if rng.random() < 0.4 and (name != "text" or not text_index):
                registry[name] = True
    texts = "text" in registry

    def prim(p):
        k = const_key(p)
        if p[0] in ("undef", "null", "bool"):
            if k in registry:
                return ("str", f"\0registry {k}")
            if k in consts:
                return as_prim(consts[k])
        if p[0] == "str" and texts:
            return ("str", mark(p[1]))
        if p[0] == "big" and "big" in registry:
            return ("str", f"{p[1]}n")
        return p

    mapped = sum(not is_node(v) and (const_key(v) in consts) for n in walk(m) for v in _prims(n))
    sh.count("constants mapped", mapped)
    memo = {}
    want = transform(m, {}, mark if texts else lambda s: s, memo, prim)
    if "hole" in consts:
        for n in walk(m):
            if n.kind == "arr" and id(n) in w.dense and n.length < 5000:
                e = memo[id(n)].elems
                memo[id(n)].elems = {i: e.get(i, as_prim(consts["hole"])) for i in range(n.length)}
            elif n.kind == "arr" and id(n) in w.dense:
                return
    hash_keys, hash_members = hashable_keys(want), hashable_members(want)  # also of what merging drops
    merge_keys(want)

    def choose(opt, kind, choices):
        if rng.random() < 0.5:
            t = rng.choice(choices)
            types[kind] = t
            kw[opt] = t if rng.random() < 0.5 else (lambda: t())

    choose("jsmap_type", "map", [MyMap, ListMap, JSMap] + ([DictMap, dict, collections.OrderedDict] if hash_keys else []))
    choose("jsset_type", "set", [MySet, ListSet, JSSet] + ([set] if hash_members else []))
    choose("js_object_type", "obj", [MyObject, DictObject, JSObject])
    choose("js_array_type", "arr", [MyArray, DictArray, JSArray])
    unordered_sets = types["set"] is set
    if "obj" in registry:
        types["obj"] = DictObject
    if "date" in registry:
        types["date"] = Stamp
    if rng.random() < 0.5:
        b = rng.choice(["my", "data", "default"])
        kw["js_error_builder"] = {"my": lambda d: (lambda e: (e, e.data))(MyError(d)), "data": lambda d: (d, d), "default": JSError.builder}[b]
        types["error"] = {"my": MyError, "data": JSErrorData, "default": JSError}[b]
    tz = None
    if rng.random() < 0.4:
        tz = kw["default_timezone"] = rng.choice(ZONES)
        if "date" not in registry and any(n.kind == "date" and not -6.2e13 < n.ms < 2.533e14 for n in walk(m)):
            return
    # host objects
    how = rng.choice(["default", "nodejs", "custom", "handler", "off", "off custom"])
    if not want_has_nodebuf and rng.random() < 0.5:
        how = "default"
    expect_fail = False
    if how == "nodejs":
        kw["nodejs"] = True
    elif how in ("custom", "off custom"):
        kw["host_object_deserializer"] = host_forms(rng)
        if how == "off custom":
            kw["nodejs"] = False
    elif how == "handler":
        kw["host_object_deserializer"] = NodeJsArrayBufferViewHostObjectHandler()
    elif how == "off":
        kw["nodejs"] = False
        expect_fail = want_has_nodebuf
    if how not in ("custom", "off custom") and not expect_fail:
        nodebufs_as_views(want)
    for n in walk(want):
        if n.kind == "error" and n.message is None and types["error"] is JSError:
            n.message = ""
        if n.kind == "arr" and types["arr"] is DictArray:
            n.length = None
    if texts and any(n.kind in ("error", "regexp") for n in walk(want)):
        return  # what texts inside these become is not specified

    def run():
        if registry or rng.random() < 0.4:
            k = dict(kw)
            nodejs = k.pop("nodejs", None)
            if nodejs is not False and "host_object_deserializer" not in k:
                k["host_object_deserializer"] = NodeJsArrayBufferViewHostObjectHandler()
            if registry or rng.random() < 0.3:
                k["tag_readers"] = make_registry(rng, registry)
                sh.count("tag overrides", len(registry))
            st = [TagReader(**k)]
            if rng.random() < 0.3:
                st = [step_forms(rng, st[0].decode)]
            if rng.random() < 0.3:
                st.append(default_decode_steps[0])
            r = rng.random()
            if r < 0.3:
                return loads(data, decode_steps=rng.choice([iter, list, tuple])(st))
            if r < 0.6:
                s = ReadableTagStream(data)
                s.read_header()
                return DefaultDecodeContext(stream=s, decode_steps=st).decode_object()
            return Decoder(decode_steps=st).decodes(data)
        return loads(data, **kw)

    if expect_fail:
        expect_raises(DecodeV8SerializeError, run, "a host object without a reader")
        sh.count("host objects refused")
        return
    got_py = run()
    got = see(got_py)
    if unordered_sets:
        for n in walk(want) + walk(got):
            if n.kind == "set":
                n.items = sorted(n.items, key=lambda v: repr(svz_key(plain(v))))
    same(Compare(date="us", unbox=True, strict_num=False), want, got, f"options {sorted(kw)} {sorted(map(str, registry))}", data)
    # each object is what the options ask for
    a, b = walk(want), walk(got)
    if len(a) == len(b):
        for x, y in zip(a, b):
            t = types.get(x.kind)
            if t is not None and y.kind == x.kind:
                check(type(y.py) is t, "a %s became a %s, not a %s", x.kind, type(y.py), t)
                sh.count("typed objects")
                if t is datetime:
                    check(y.py.tzinfo is tz, "tzinfo %r, asked for %r", y.py.tzinfo, tz)
                if t is MyError:
                    f = y.py.first
                    check(f.name == y.py.data.name and f.message == y.py.data.message and f.cause is None,
                          "the error builder got %r for %r", f, y.py.data)
    sh.count("option sets")
    sh.nontrivial(sorted(kw), sorted(map(str, registry)), how)
    observe(sh, want)


def plain(v):
    if is_node(v):
        return v.value if v.kind == "prim" else v
    if v[0] == "pynum":
        return ("num", v[1], None)
    return v


def _prims(n):
    if n.kind in ("obj", "arr"):
        yield from (v for _, v in n.props)
    if n.kind == "arr":
        yield from n.elems.values()
    elif n.kind == "map":
        for k, v in n.items:
            yield k
            yield v
    elif n.kind == "set":
        yield from n.items
    elif n.kind == "error" and n.cause is not None:
        yield n.cause


def make_registry(rng, names):
    r = TagReaderRegistry()
    if "text" in names:
        def text(tr, tag, ctx):
            s = ctx.stream
            return mark({T.kUtf8String: s.read_string_utf8, T.kOneByteString: s.read_string_onebyte,
                         T.kTwoByteString: s.read_string_twobyte}[tag]())

        if rng.random() < 0.5:
            r.register(TEXT_TAGS, text)
        else:
            for t in (T.kUtf8String, T.kOneByteString, T.kTwoByteString):
                r.register(t, text)
    if "big" in names:
        r.register(T.kBigInt, lambda tr, tag, ctx: f"{ctx.stream.read_bigint()}n")
    if "date" in names:
        def date(tr, tag, ctx):
            d = Stamp(struct.unpack("<d", bytes(ctx.stream.read_bytes(8)))[0])
            ctx.stream.objects.record_reference(d)
            return d

        r.register(T.kDate, date)
    if "obj" in names:
        def obj(tr, tag, ctx):
            d = DictObject()
            d.update(ctx.stream.read_js_object(ctx, identity=d))
            return d

        r.register(T.kBeginJSObject, obj)
    for name in (True, "null"):
        if name in names:
            r.register(CONST[name], lambda tr, tag, ctx, name=name: Marker(f"\0registry {name}"))
    if rng.random() < 0.3:
        q = TagReaderRegistry()
        q.register_all(r)
        check(dict(q.index) == dict(r.index), "a copied registry has other entries")
        r = q
    elif rng.random() < 0.3:
        r = TagReaderRegistry(r)
    for t in r.index:
        check(r.match(t) is r.index[t], "match")
    return r


def value_tags(data):
    """Tags offered to steps: all but ends, views and the text inside a boxed string."""
    p = Parser(data, versions=(13, 14, 15), minimal=False, padding="any")
    p.parse()
    out, skip = [], False
    for _, t in p.tags:
        if skip:
            skip = False
            continue
        if t in "{$@:,V":
            continue
        skip = t == "s"
        out.append(T(ord(t)))
    return out


def steps(sh, rng):
    text_index = rng.random() < 0.5
    m, data, w = stream_for(rng, nodebufs=False, text_index=text_index)
    want_tags = value_tags(data)
    logs = [[], []]

    def logger(i):
        def step(tag, /, ctx, next):
            logs[i].append(tag)
            return next(tag)
        return step_forms(rng, step)

    st = [logger(0)]
    texts, dates, maps = (rng.random() < 0.4 for _ in range(3))
    if text_index or any(n.kind in ("error", "regexp") for n in walk(m)):
        texts = False

    def text_step(tag, /, ctx, next):
        r = next(tag)
        return mark(r) if type(r) is str and tag in TEXT_TAGS else r

    def date_step(tag, /, ctx, next):
        r = next(tag)
        return "\0date" if isinstance(r, datetime) else r

    def map_step(tag, /, ctx, next):
        if tag is not T.kBeginJSMap:
            return next(tag)
        d = ListMap()
        for k, v in ctx.stream.read_jsmap(ctx, identity=d):
            d[k] = v
        return d

    some = []
    if texts:
        some.append(text_step)
    if dates:
        some.append(date_step)
    if maps:
        some.append(map_step)
    rng.shuffle(some)
    some = [step_forms(rng, s) for s in some]
    some.insert(rng.randint(0, len(some)), logger(1))
    st += some + [rng.choice([TagReader(), default_decode_steps[0], TagReader().decode])]
    table = {id(n): ("str", "\0date") for n in walk(m) if n.kind == "date"} if dates else {}
    want = transform(m, table, mark if texts else lambda s: s)
    if dates and texts:
        # the date text is made by a step, the text step does not see its tag
        for n in walk(want):
            _unmark(n)
        if want == ("str", mark("\0date")):
            want = ("str", "\0date")
    merge_keys(want)
    for n in walk(want):
        if n.kind == "error" and n.message is None:
            n.message = ""
    try:
        dec = Decoder(decode_steps=rng.choice([list, list, tuple, iter])(st))
        if rng.random() < 0.1:
            for log in logs:
                log.clear()
            dec.decodes(data)  # the steps are kept for later calls
            for log in logs:
                log.clear()
        got = see(dec.decodes(data))
    except DecodeV8SerializeError as e:
        if dates or not any(n.kind == "date" for n in walk(m)):
            raise
        check("Date" in e.message, "%s", e)
        return
    same(Compare(date="us", unbox=True, strict_num=False), want, got, "steps in front of the reader", data)
    check(logs[0] == want_tags, "tags offered to the first step: %s instead of %s", logs[0][:40], want_tags[:40])
    if not maps and not texts and not dates:
        check(logs[1] == want_tags, "tags offered to the second step")
    elif maps:
        check(sum(t is T.kBeginJSMap for t in logs[1]) in (0, want_tags.count(T.kBeginJSMap)), "maps offered after the step that reads them")
    if maps:
        for n in walk(got):
            if n.kind == "map":
                check(type(n.py) is ListMap, "a map is %s", type(n.py))
    sh.count("step logs")
    sh.count("step events", len(want_tags))
    sh.count("replaced by a step", len(table) + maps + texts)
    observe(sh, want, "stepped values")


def _unmark(n):
    d = lambda v: ("str", "\0date") if v == ("str", mark("\0date")) else v  # noqa: E731
    if n.kind in ("obj", "arr"):
        n.props = [(k, d(v) if not is_node(v) else v) for k, v in n.props]
    if n.kind == "arr":
        n.elems = {i: v if is_node(v) else d(v) for i, v in n.elems.items()}
    elif n.kind == "map":
        n.items = [(k if is_node(k) else d(k), v if is_node(v) else d(v)) for k, v in n.items]
    elif n.kind == "set":
        n.items = [v if is_node(v) else d(v) for v in n.items]
    elif n.kind == "error" and n.cause is not None and not is_node(n.cause):
        n.cause = d(n.cause)


def unhandled(sh, rng):
    """No step reads some tag."""
    m, data, w = stream_for(rng)
    tags = value_tags(data)
    tag = rng.choice(tags)
    reader = TagReader(host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler())

    def partial(t, /, ctx, next):
        return next(t) if t is tag else reader.decode(t, ctx=ctx, next=next)

    first = rng.random() < 0.2
    if first:
        st = [] if rng.random() < 0.5 else [step_forms(rng, lambda t, ctx, next: next(t))]
        tag = tags[0]
    else:
        st = [step_forms(rng, partial)]
        if rng.random() < 0.3:
            st.append(step_forms(rng, lambda t, ctx, next: next(t)))
    e = expect_raises(DecodeV8SerializeError, lambda: Decoder(decode_steps=st).decodes(data), f"no step for {tag.name}")
    if not isinstance(e, UnhandledTagDecodeV8SerializeError):
        check("Date" in e.message, "no step for %s: %s", tag.name, e)
        return
    check(e.tag is tag, "the error names %r, not %r", e.tag, tag)
    check(tag.name in str(e), "the message does not name the tag: %s", e)
    pos = [p for p, t in positions(data) if T(ord(t)) is tag][0]
    check(e.position == pos + 1 or e.position == pos, "position %d of a tag at %d", e.position, pos)
    check(bytes(e.data) == data, "data of the error")
    sh.count("unhandled tags")
    sh.nontrivial("unhandled", tag.name, first)


def positions(data):
    p = Parser(data, versions=(13, 14, 15), minimal=False, padding="any")
    p.parse()
    out, skip = [], False
    for x in p.tags:
        if skip:
            skip = False
            continue
        skip = x[1] == "s"
        out.append(x)
    return out


def refused(sh, rng):
    """Types that cannot be read: WASM transfers, orphaned views, host objects without reader."""
    m, data, w = stream_for(rng, nodebufs=False)
    bad = rng.choice([b"w\x01", b"m\x01", b"V" + b"B\0\0\0", b"\\\x01\x00"])
    w2 = Writer(rng)
    w2.header()
    n = rng.randint(0, 3)
    w2.begin(Node("arr"))
    w2.tag("A")
    w2.varint(n + 1)
    for i in range(n):
        w2.value(m)
    if bad[:1] == b"V" and n and m_is_buffer(m):
        return
    body = bytes(w2.out) + bad + b"$\0" + bytes([n + 1])
    opts = {"nodejs": False} if bad[:1] == b"\\" else {}
    e = expect_raises(DecodeV8SerializeError, lambda: loads(body, **opts), f"unsupported {bad}")
    if any(x.kind == "date" for x in walk(m)) and "Date" in e.message:
        return
    name = T(bad[0]).name
    check(name[1:].replace("ArrayBufferView", "View") in e.message.replace("ArrayBufferView", "View"), "the error does not name %s: %s", name, e)
    sh.count("refused " + name)


def m_is_buffer(m):
    return is_node(m) and m.kind in ("buf", "sbuf", "tbuf")


OPTION_VALUES = dict(nodejs=[True, False], jsmap_type=[dict], jsset_type=[set], js_object_type=[JSObject], js_array_type=[JSArray],
                     js_constants=[{}, {T.kNull: 1}], host_object_deserializer=[node_reader],
                     js_error_builder=[JSError.builder], default_timezone=[timezone.utc])


def conflicts(sh):
    data = b"\xff\x0f0"
    for steps_ in ([], [TagReader()], (), default_decode_steps):
        for name, vals in OPTION_VALUES.items():
            for v in vals:
                expect_raises(TypeError, lambda: loads(data, decode_steps=steps_, **{name: v}), f"decode_steps and {name}={v!r}")
                sh.count("conflicts")
    for h in (node_reader, NodeJsArrayBufferViewHostObjectHandler()):
        expect_raises(TypeError, lambda: loads(data, nodejs=True, host_object_deserializer=h), "nodejs and a host object reader")
        check(loads(data, nodejs=False, host_object_deserializer=h) is None, "nodejs=False")
        sh.count("conflicts")
    expect_raises(ValueError, lambda: DefaultDecodeContext(), "no data")
    expect_raises(ValueError, lambda: DefaultDecodeContext(data=data, stream=ReadableTagStream(data)), "data and stream")
    for v in ([], iter([]), ()):
        e = expect_raises(UnhandledTagDecodeV8SerializeError, lambda: loads(data, decode_steps=v), "no steps")
        check(e.tag is T.kNull, "tag")
    check(Decoder(decode_steps=None).decodes(data) is None, "None is the default")
    check(Decoder().decodes(data) is None, "default")


def reused(sh):
    """Readers keep no state: options of one do not reach another."""
    data = b"\xff\x0fA\x02_0$\0\x02"
    consts = {T.kUndefined: "u"}
    r1 = TagReader(js_constants=consts)
    consts[T.kNull] = "later"
    r2 = TagReader()
    reg = TagReaderRegistry()
    r3 = TagReader(tag_readers=reg)
    reg.register(T.kNull, lambda *a: "late")
    check(list(Decoder([r1]).decodes(data).array) == ["u", None], "options are taken when the reader is made")
    check(list(Decoder([r2]).decodes(data).array) == [JSUndefined, None], "default reader")
    check(list(Decoder([r3]).decodes(data).array) == [JSUndefined, None], "registry is copied")
    check(consts == {T.kUndefined: "u", T.kNull: "later"}, "the user's mapping is changed")
    check(set(reg.index) == {T.kNull}, "the user's registry is changed")


fixed = [conflicts, reused]
