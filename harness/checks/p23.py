"""Errors and Python exceptions keep name, message, stack and cause."""
import re
import traceback
from types import TracebackType

from harness.core import Violation, check, short
from harness.util import as_flags, pick_features
from v8serialize import Decoder, Encoder, IllegalCyclicReferenceV8SerializeError, JSErrorName, V8SerializeError, dumps, loads
from v8serialize.decode import TagReader
from v8serialize.encode import default_encode_steps
from v8serialize.jstypes import JSArray, JSError, JSErrorData, JSMap, JSObject, JSSet, JSUndefined

QUICK, THOROUGH = 88000, 2500000
RULE = "distinct (kind of case, shape) pairs of error graphs and exceptions"
MIN = {"error graphs": 8000, "errors compared": 15000, "missing messages": 2000, "missing stacks": 4000, "refused cycles": 500, "cyclic graphs": 1300, "acyclic with references": 1000,
       "read by V8": 2500, "written by V8": 2000, "exceptions": 9000, "frames": 100000, "contexts": 1800, "causes": 2400, "sub-exceptions": 4500, "notes": 6500, "tangled exceptions": 3000,
       "exceptions in V8": 750, "frames without information": 2000, "large exceptions": 100}
ASSUMPTIONS = ["an exception's context is described when Python would print it: unless it is suppressed or there is an explicit cause",
               "the text of the exception itself is what traceback.format_exception_only gives", "V8 12.4 as embedded in Node.js 22 stands for JavaScript"]

NAMES = [n.value for n in JSErrorName] + ["URIError"]
JSNAME = {"UriError": "URIError"}
OTHER_NAMES = ["", "Foo", "error", "AggregateError", "ERROR", "TypeError ", "InternalError", "Ünï", "DOMException", "None", "__class__", "Range"]
TEXTS = ["", "a", "boom", "x" * 300, "two\nlines", "ünï ☃ 🎉", "\x00", " padded ", "0", "\u2028", "Error: x\n    at f (a.js:1:2)"]


class Custom(Exception):
    pass


class CustomJSError(JSError):
    pass


class CustomData(JSErrorData):
    pass


# ---- error graphs ------------------------------------------------------------------

class Graph:
    """A random graph of errors and containers, with the values still to be linked."""

    def __init__(self, rng):
        self.rng = rng
        n = rng.choice([1, 1, 2, 3, 5, 8]) if rng.random() < 0.97 else rng.choice([20, 40])
        self.objs = [self.make() for _ in range(n)]
        if not any(is_err(o) for o in self.objs):
            self.objs[rng.randrange(n)] = self.err()
        self.root = self.objs[0]
        back = rng.choice([0.0, 0.0, 0.2, 0.5])
        for i, o in enumerate(self.objs):
            self.link(i, o, back)
        used = {id(self.root)}
        rest = []
        order(self.root, used)
        for o in self.objs:
            if id(o) not in used:
                rest.append(o)
        if rest:
            self.root = JSArray([self.root, *rest])

    def text(self):
        r = self.rng
        return None if r.random() < 0.3 else r.choice(TEXTS)

    def err(self):
        r = self.rng
        cls = r.choice([JSError, JSError, JSErrorData, JSErrorData, CustomJSError, CustomData])
        name = r.choice(NAMES) if r.random() < 0.75 else r.choice(OTHER_NAMES)
        if name in JSErrorName and r.random() < 0.5:
            name = JSErrorName(name)
        if r.random() < 0.7:
            return cls(self.text(), name=name, stack=self.text())
        # the same, set afterwards
        e = cls(self.text(), name=r.choice(NAMES), stack=self.text(), cause=r.choice([None, 1]))
        message, stack = self.text(), self.text()
        e.message, e.name, e.stack, e.cause = message, name, stack, None
        check((e.message or "") == (message or "") and (e.message == message or message is None), "%s.message set to %r is %r", cls.__name__, message, e.message)
        check(e.name is name and e.stack is stack and e.cause is None, "%s set to %r, %r reads %r, %r, %r", cls.__name__, name, stack, e.name, e.stack, e.cause)
        return e

    def make(self):
        r = self.rng
        if r.random() < 0.65:
            return self.err()
        return r.choice([JSObject, JSArray, JSMap, list, dict, JSSet])()

    def value(self, i, back):
        r = self.rng
        x = r.random()
        if x < 0.25:
            return r.choice([None, 0, -1.5, True, "text", "", JSUndefined, 2 ** 70, False, "Ω"])
        if x < 0.25 + back * 0.7:
            return self.objs[r.randrange(i + 1)]
        if i + 1 < len(self.objs):
            return self.objs[r.randrange(i + 1, len(self.objs))]
        return r.choice([None, 7])

    def link(self, i, o, back):
        r = self.rng
        if is_err(o):
            o.cause = self.value(i, back)
            return
        for j in range(r.choice([0, 1, 1, 2, 3])):
            v = self.value(i, back)
            if isinstance(o, (list, JSArray)):
                (o if isinstance(o, list) else o.array).append(v)
            elif isinstance(o, JSSet):
                o.add(v)
            else:
                o[f"k{j}"] = v


def is_err(v):
    return isinstance(v, (JSError, JSErrorData))


def kids(o):
    if is_err(o):
        return [o.cause]
    if isinstance(o, JSArray):
        return list(o.array)
    if isinstance(o, (dict, JSObject, JSMap)):
        return list(o.values())
    if isinstance(o, (list, JSSet)):
        return list(o)
    return []


def order(v, seen):
    for k in kids(v):
        if id(k) not in seen:
            seen.add(id(k))
            order(k, seen)


def self_causing(v, done, opened, stats):
    """The first error met inside its own cause while writing depth first, if any."""
    if not (kids(v) or is_err(v) or isinstance(v, (list, dict, JSObject, JSMap, JSSet))):
        return None
    if id(v) in opened:
        return v
    if id(v) in done:
        stats["references"] = stats.get("references", 0) + 1
        return None
    done.add(id(v))
    causing = is_err(v) and v.cause is not None
    if causing:
        opened.add(id(v))
    for k in kids(v):
        r = self_causing(k, done, opened, stats)
        if r is not None:
            return r
    if causing:
        opened.discard(id(v))
    return None


def cyclic(v, path, done):
    if id(v) in path:
        return True
    if id(v) in done:
        return False
    done.add(id(v))
    path.add(id(v))
    try:
        return any(cyclic(k, path, done) for k in kids(v) if kids(k) or is_err(k))
    finally:
        path.discard(id(v))


def known(name):
    return "UriError" if name == "URIError" else str(name) if name in JSErrorName else "Error"


def compare(sh, a, b, pairs, cls, where="root"):
    """b is what a deserializes to."""
    if is_err(a):
        check(type(b) is cls, "%s: %s came back as %s", where, short(a), type(b).__name__)
        if id(a) in pairs:
            check(pairs[id(a)] is b, "%s: the same error came back as different objects", where)
            return
        pairs[id(a)] = b
        sh.count("errors compared")
        check(b.name == known(a.name) and isinstance(b.name, str), "%s: the name %r came back as %r", where, a.name, b.name)
        message, stack = a.message, a.stack
        if a.message in (None, "") and cls is JSError:
            check(b.message == "", "%s: the message %r came back as %r", where, message, b.message)
        else:
            check(b.message == message and type(b.message) is type(message), "%s: the message %r came back as %r", where, message, b.message)
        check(b.stack == stack and type(b.stack) is type(stack), "%s: the stack %r came back as %r", where, stack, b.stack)
        sh.count("missing messages", message is None)
        sh.count("missing stacks", stack is None)
        compare(sh, a.cause, b.cause, pairs, cls, where + ".cause")
        return
    if isinstance(a, (list, JSArray, dict, JSObject, JSMap, JSSet)):
        want = JSArray if isinstance(a, (list, JSArray)) else JSMap if isinstance(a, (dict, JSMap)) else type(a)
        check(isinstance(b, want), "%s: %s came back as %s", where, type(a).__name__, type(b).__name__)
        if id(a) in pairs:
            check(pairs[id(a)] is b, "%s: the same object came back as different objects", where)
            return
        pairs[id(a)] = b
        x, y = kids(a), kids(b)
        check(len(x) == len(y), "%s: %d values came back as %d", where, len(x), len(y))
        for i, (p, q) in enumerate(zip(x, y)):
            compare(sh, p, q, pairs, cls, f"{where}[{i}]")
        return
    check(type(a) is type(b) and a == b, "%s: %r came back as %r", where, a, b)


DESCRIBE = """
const v8 = require('v8');
function describe(root) {
  const ids = new Map(), nodes = [];
  function ref(v) {
    if (v === null) return ['null'];
    if (v === undefined) return ['undef'];
    if (typeof v === 'bigint') return ['big', v.toString()];
    if (typeof v !== 'object') return [typeof v, v];
    if (ids.has(v)) return ['o', ids.get(v)];
    const i = nodes.length, d = {};
    ids.set(v, i); nodes.push(d);
    if (v instanceof Error) {
      const own = k => { const p = Object.getOwnPropertyDescriptor(v, k); return p === undefined ? undefined : 'value' in p ? p.value : v[k]; };
      d.t = 'err'; d.ctor = Object.getPrototypeOf(v).constructor.name; d.name = v.name;
      const m = own('message'), s = own('stack');
      d.message = m === undefined ? null : m; d.stack = typeof s === 'string' ? s : null;
      d.hasCause = Object.prototype.hasOwnProperty.call(v, 'cause');
      d.cause = d.hasCause ? ref(v.cause) : ['null'];
    } else if (Array.isArray(v)) { d.t = 'arr'; d.items = v.map(ref); }
    else if (v instanceof Map) { d.t = 'map'; d.items = [...v.values()].map(ref); }
    else if (v instanceof Set) { d.t = 'set'; d.items = [...v].map(ref); }
    else { d.t = 'obj'; d.items = Object.values(v).map(ref); }
    return ['o', i];
  }
  return {root: ref(root), nodes};
}
"""
READ = "function (arg) {" + DESCRIBE + "return describe(v8.deserialize(Buffer.from(arg, 'hex'))); }"

WRITE = "function (arg) {" + DESCRIBE + """
const E = {Error, EvalError, RangeError, ReferenceError, SyntaxError, TypeError, URIError};
const made = arg.nodes.map(n => n.t === 'err' ? new E[n.ctor](...(n.message === null ? [] : [n.message])) : n.t === 'arr' ? [] : n.t === 'map' ? new Map() : {});
const val = r => r[0] === 'o' ? made[r[1]] : r[0] === 'undef' ? undefined : r[0] === 'null' ? null : r[1];
arg.nodes.forEach((n, i) => {
  const o = made[i];
  if (n.t === 'err') {
    if (n.name !== null) o.name = n.name;
    if (n.stack === 'delete') delete o.stack; else if (n.stack === 'number') o.stack = 12;
    else if (n.stack !== null) o.stack = n.stack;
    if (n.causeKind === 'plain') o.cause = val(n.cause);
    else if (n.causeKind === 'option') Object.defineProperty(o, 'cause', {value: val(n.cause), configurable: true, writable: true, enumerable: false});
  } else if (n.t === 'arr') n.items.forEach(r => o.push(val(r)));
  else if (n.t === 'map') n.items.forEach((r, j) => o.set(j, val(r)));
  else n.items.forEach((r, j) => { o['k' + j] = val(r); });
});
const data = v8.serialize(made[0]);
return {data: data.toString('hex'), back: describe(v8.deserialize(data))};
}
"""


def against_v8(value, d, cls, where="root"):
    """value (ours) must be what JavaScript describes as d."""
    pairs = {}

    def go(v, r, where):
        k = r[0]
        if k != "o":
            want = {"null": None, "undef": JSUndefined}[k] if k in ("null", "undef") else int(r[1]) if k == "big" else r[1]
            check(v is want or (v == want and (type(v) is bool) == (type(want) is bool)), "%s: %s is %s in JavaScript", where, short(v), short(want))
            return
        n = d["nodes"][r[1]]
        if r[1] in pairs:
            check(pairs[r[1]] is v, "%s: one object in JavaScript is two here", where)
            return
        pairs[r[1]] = v
        if n["t"] == "err":
            check(is_err(v), "%s: %s is an error in JavaScript", where, short(v))
            name = JSNAME.get(known(v.name), known(v.name))
            check(name == n["ctor"], "%s: the error %r is a %s in JavaScript", where, v.name, n["ctor"])
            message = n["message"]
            check(v.message == message or (isinstance(v, JSError) and not v.message and not message), "%s: message %r is %r in JavaScript", where, v.message, message)
            check(v.stack == n["stack"], "%s: stack %r is %r in JavaScript", where, v.stack, n["stack"])
            go(v.cause, n["cause"], where + ".cause")
            return
        types = {"arr": (JSArray, list), "map": (JSMap, dict), "set": JSSet, "obj": JSObject}[n["t"]]
        check(isinstance(v, types), "%s: a %s is %r in JavaScript", where, type(v).__name__, n["t"])
        x = kids(v)
        check(len(x) == len(n["items"]), "%s: %d values are %d in JavaScript", where, len(x), len(n["items"]))
        for i, (p, q) in enumerate(zip(x, n["items"])):
            go(p, q, f"{where}[{i}]")

    go(value, d["root"], where)


def pair_builder(e):
    """A builder whose objects are not themselves errors."""
    data = JSErrorData(e.message, name=e.name, stack=e.stack, cause=e.cause)
    return {"wrapped": data}, data


def case_graph(sh, rng):
    g = Graph(rng)
    sh.count("error graphs")
    feats = pick_features(rng)
    circular = "CircularErrorCause" in feats
    stats = {}
    offender = self_causing(g.root, set(), set(), stats)
    cyc = cyclic(g.root, set(), set())
    enc = Encoder(features=as_flags(feats))
    if offender is not None and not circular:
        try:
            enc.encode(g.root)
        except IllegalCyclicReferenceV8SerializeError as e:
            check(isinstance(e, V8SerializeError), "the refusal of a circular cause is not a V8SerializeError")
            check(e.obj is offender, "the refusal is about %s, not %s", short(e.obj), short(offender))
        else:
            raise Violation(f"a self-referencing cause was accepted without CircularErrorCause: {short(g.root)}")
        sh.count("refused cycles")
        sh.nontrivial("refused", shape(g.root))
        return
    try:
        data = enc.encode(g.root)
    except V8SerializeError as e:
        raise Violation(f"{short(g.root)} was refused with features {sorted(feats)}: {e!r}")
    sh.count("cyclic graphs", cyc)
    sh.count("acyclic with references", bool(stats.get("references")) and not circular)
    sh.nontrivial("graph", shape(g.root))
    x = rng.random()
    if x < 0.45:
        compare(sh, g.root, loads(data), {}, JSError)
    elif x < 0.8:
        compare(sh, g.root, loads(data, js_error_builder=JSErrorData.builder), {}, JSErrorData)
    elif x < 0.9:
        cls = rng.choice([CustomJSError, CustomData])
        back = Decoder(decode_steps=[TagReader(js_error_builder=cls.builder)]).decodes(data)
        if cls is CustomData:
            compare(sh, g.root, back, {}, cls)
        else:
            check(all(type(e) is cls for e in errors(back)), "a builder of a subclass gave other errors")
    elif is_err(g.root):
        back = loads(data, js_error_builder=pair_builder)
        check(type(back) is dict and list(back) == ["wrapped"], "the object of the error builder was not returned: %s", short(back))
        b = back["wrapped"]
        check((b.name, b.message or "", b.stack) == (known(g.root.name), g.root.message or "", g.root.stack), "the builder's error has other fields: %s", short(b))
        check(is_err(g.root.cause) == (type(b.cause) is dict), "the builder's error has another cause")
    if sh.case_id % 3 == 0 and (circular or not cyc):
        against_v8(g.root, sh.node.eval(READ, bytes(data).hex()), None)
        sh.count("read by V8")


def errors(v, seen=None):
    seen = {} if seen is None else seen
    if id(v) in seen:
        return []
    seen[id(v)] = v
    return ([v] if is_err(v) else []) + [e for k in kids(v) for e in errors(k, seen)]


def shape(v, depth=0):
    if depth > 3:
        return "…"
    if is_err(v):
        return (type(v).__name__, known(v.name), v.message is None, v.stack is None, shape(v.cause, depth + 1))
    return (type(v).__name__, *(shape(k, depth + 1) for k in kids(v)))


def case_node(sh, rng):
    n = rng.choice([1, 2, 3, 5])
    nodes = []
    for i in range(n):
        def ref():
            if rng.random() < 0.4:
                return rng.choice([["null"], ["undef"], ["number", 3], ["string", "s"], ["boolean", True]])
            return ["o", rng.randrange(n) if rng.random() < 0.4 else min(n - 1, i + 1)]

        if i == 0 or rng.random() < 0.6:
            nodes.append(dict(t="err", ctor=rng.choice(["Error", "EvalError", "RangeError", "ReferenceError", "SyntaxError", "TypeError", "URIError"]),
                              message=rng.choice([None, *TEXTS]), name=rng.choice([None, None, "TypeError", "Foo", "", "URIError", "UriError"]),
                              stack=rng.choice([None, None, "delete", "number", "trace", ""]), causeKind=rng.choice(["none", "plain", "option"]), cause=ref()))
        else:
            nodes.append(dict(t=rng.choice(["arr", "map", "obj"]), items=[ref() for _ in range(rng.choice([0, 1, 2]))]))
    r = sh.node.eval(WRITE, dict(nodes=nodes))
    data = bytes.fromhex(r["data"])
    against_v8(loads(data), r["back"], JSError)
    against_v8(loads(data, js_error_builder=JSErrorData.builder), r["back"], JSErrorData)
    sh.count("written by V8")
    sh.nontrivial("node", [(m.get("ctor"), m.get("name"), m.get("stack"), m.get("message") is None, m.get("causeKind"), m.get("cause", [0])[0]) for m in nodes])


# ---- Python exceptions -------------------------------------------------------------------

def pad_text(r):
    return r.choice(["", "a", "boom", "two\nlines", "ends\n", "a\n\nb", "ünï 🎉", "x" * 200, "    at f (g.py:1:2)", "0"])


class Unprintable(Exception):
    def __str__(self):
        raise ValueError("no text")


class Strange(Exception):
    def __str__(self):
        return "strange text"


Local = type("Local", (ValueError,), {"__module__": "some.module", "__qualname__": "Outer.<locals>.Local"})


def exception(r):
    x = r.randrange(16)
    t = pad_text(r)
    if x < 4:
        return r.choice([ValueError, TypeError, KeyError, RuntimeError, Exception, BaseException, StopIteration, KeyboardInterrupt, SystemExit])(t)
    if x == 4:
        return r.choice([ValueError, KeyError, Exception, AssertionError, MemoryError])()
    if x == 5:
        return OSError(2, t, "file name")
    if x == 6:
        return r.choice([Custom, Local, Strange])(t)
    if x == 7:
        return Unprintable(t)
    if x == 8:
        return Exception(t, 1, {"k": [2]})
    if x == 9:
        e = SyntaxError(t or "bad", ("file.py", r.choice([1, 7]), r.choice([0, 1, 3]), r.choice(["a b\n", "  x = = 1\n", ""])))
        return e
    if x == 10:
        return r.choice([SyntaxError(t or "no place"), IndentationError("indent", ("f.py", 2, 1, " x")), SyntaxError()])
    if x == 11:
        return UnicodeDecodeError("utf-8", b"ab\xff", 2, 3, "why")
    if x == 12:
        return ZeroDivisionError(t)
    if x == 13:
        return V8SerializeError(t)
    if x == 14:
        return LookupError(t, t)
    return ValueError(r.choice([None, 3, (1, 2), JSUndefined]))


FILES = ["/a/b.py", "<string>", "C:\\x\\y.py", "with space (1).py", "ünï.py", "x"]
FUNCS = ["f", "g", "main", "über", "a_very_long_function_name_" * 3]


def function(r):
    """A function in a file of our own which calls the next one."""
    name, file, pad = r.choice(FUNCS), r.choice(FILES), r.choice([0, 1, 40, 3000])
    ns = {}
    kind = r.randrange(3)
    if kind == 0:
        src = f"def {name}(nxt):\n    nxt()\n"
    elif kind == 1:
        src = f"{name} = lambda nxt: nxt()\n"
    else:
        src = f"class C:\n    def {name}(self, nxt):\n        y = 1\n        return [nxt() for _ in (1,)]\n{name} = C().{name}\n"
    exec(compile("\n" * pad + src, file, "exec"), ns)
    return ns[name]


def through(r, e, depth):
    """Raises e through depth calls, leaving only those frames in its traceback."""
    def last():
        raise e

    call = last
    for _ in range(depth):
        call = (lambda f, nxt: lambda: f(nxt))(function(r), call)
    try:
        call()
    except BaseException as x:
        check(x is e, "another exception was raised: %r", x)
        e.__context__ = None
    tb = e.__traceback__
    skip = r.choice([0, 1, 2])
    while skip and tb is not None:
        tb, skip = tb.tb_next, skip - 1
    if r.random() < 0.02:  # a deep recursion
        for _ in range(r.choice([50, 250, 1100])):
            t = tb if tb is None or r.random() < 0.7 or tb.tb_next is None else tb.tb_next
            tb = t and TracebackType(tb, t.tb_frame, t.tb_lasti, t.tb_lineno)
    e.__traceback__ = tb
    return e


def build(sh, r, depth, budget):
    """A tree of exceptions: no exception is reachable in two ways."""
    budget[0] -= 1
    if r.random() < 0.25 and depth and budget[0] > 0:
        n = r.choice([1, 2, 3]) if r.random() < 0.97 else 25
        subs = [build(sh, r, depth - 1, budget) for _ in range(n)]
        cls = ExceptionGroup if all(isinstance(s, Exception) for s in subs) else BaseExceptionGroup
        e = cls(pad_text(r) or "group", subs)
        sh.count("sub-exceptions", n)
    else:
        e = exception(r)
    if r.random() < 0.6:
        through(r, e, r.choice([0, 1, 2, 5, 30]))
    if r.random() < 0.25:
        for _ in range(r.choice([1, 2])):
            try:
                e.add_note(pad_text(r))
            except AttributeError:
                continue
            sh.count("notes")
    if depth and budget[0] > 0:
        x = r.random()
        if x < 0.3:
            e.__cause__ = build(sh, r, depth - 1, budget)
            sh.count("causes")
            if r.random() < 0.5:
                # as raised inside the handler of its cause, or of another exception
                e.__context__ = e.__cause__ if r.random() < 0.5 else build(sh, r, 0, budget)
        elif x < 0.6:
            e.__context__ = build(sh, r, depth - 1, budget)
            if r.random() < 0.2:
                e.__suppress_context__ = True
            else:
                sh.count("contexts")
    return e


def context_of(e):
    return None if e.__suppress_context__ or e.__cause__ is not None else e.__context__


def frames(e):
    out = []
    tb = e.__traceback__
    while tb is not None:
        c = tb.tb_frame.f_code
        pos = list(c.co_positions())[tb.tb_lasti // 2]
        out.append((c.co_name, c.co_filename, tb.tb_lineno, pos[2]))
        tb = tb.tb_next
    return out[::-1]


def head(e):
    return "".join(traceback.format_exception_only(e))


def described(e, sh=None):
    """The lines that must describe e in its stack, in order, without decoration."""
    out = [ln for ln in head(e).split("\n")]
    for name, file, line, col in frames(e):
        out.append(f"at {name} ({file}:{line}:{'<unknown>' if col is None else col})")
        if sh:
            sh.count("frames")
    for s in getattr(e, "exceptions", ()):
        out += described(s, sh)
    c = context_of(e)
    while c is not None:
        out += ["The above exception occurred while handling another exception:"]
        out += own(c, sh)
        c = context_of(c)
    return out


def own(e, sh=None):
    out = head(e).split("\n")
    for name, file, line, col in frames(e):
        out.append(f"at {name} ({file}:{line}:{'<unknown>' if col is None else col})")
        if sh:
            sh.count("frames")
    for s in getattr(e, "exceptions", ()):
        out += described(s, sh)
    return out


ITEM = re.compile(r"^ *↳ [0-9.]+: ")


def plain(lines):
    out = []
    for ln in lines:
        while True:
            s = ITEM.sub("", ln).strip()
            if s == ln:
                break
            ln = s
        if ln:
            out.append(ln)
    return out


def message_of(e):
    """What a message must say: the type and the text of the exception, without its notes."""
    lines = traceback.format_exception_only(e)
    if isinstance(e, SyntaxError):
        lines = [ln for ln in lines if not ln.startswith("  ")]
    return lines[0].rstrip()


def verify(sh, e, d, where="the exception"):
    """d must describe e."""
    sh.count("exceptions")
    check(d.name == "Error", "%s: an exception became a %s", where, d.name)
    check(d.message == message_of(e), "%s: the message is %r, not %r", where, d.message, message_of(e))
    want, got = plain(described(e, sh)), plain(d.stack.split("\n"))
    if want != got:
        i = next((i for i, (a, b) in enumerate(zip(want, got)) if a != b), min(len(want), len(got)))
        raise Violation(f"{where}: line {i} of the stack is {got[i:i + 1]}, not {want[i:i + 1]}; stack={d.stack!r}")
    c = e.__cause__
    check((c is None) == (d.cause is None), "%s: its cause %s became %s", where, short(c), short(d.cause))
    if c is not None:
        check(is_err(d.cause), "%s: its cause became %s", where, short(d.cause))
        verify(sh, c, d.cause, where + "'s cause")


def shape_of(e, depth=0):
    if e is None or depth > 4:
        return None
    return (type(e).__name__, min(3, len(frames(e))), hasattr(e, "__notes__"), shape_of(e.__cause__, depth + 1), shape_of(context_of(e), depth + 1),
            [shape_of(s, depth + 1) for s in getattr(e, "exceptions", ())])


def case_exception(sh, rng):
    if rng.random() < 0.97:
        e = build(sh, rng, rng.choice([0, 1, 2, 3]), [rng.choice([2, 4, 8])])
    else:
        e = build(sh, rng, 40, [rng.choice([30, 60])])
        sh.count("large exceptions")
    sh.nontrivial("exception", shape_of(e))
    x = rng.random()
    if x < 0.3:
        verify(sh, e, JSErrorData.from_exception(e))
        return
    if x < 0.4:
        tbe = traceback.TracebackException.from_exception(e, compact=rng.random() < 0.5)
        verify(sh, e, CustomData.from_traceback_exception(tbe))
        return
    graph = rng.choice(["plain", "twice", "cause"])
    other = JSErrorData("outer", cause=e)
    data = dumps({"plain": e, "twice": [e, e], "cause": other}[graph])
    back = loads(data, js_error_builder=rng.choice([JSError, JSErrorData]).builder)
    if graph == "twice":
        check(back[0] is back[1], "one exception written twice came back as two errors")
        back = back[0]
    elif graph == "cause":
        back = back.cause
    verify(sh, e, back)
    if sh.case_id % 4 == 0:
        d = sh.node.eval(READ, bytes(data).hex())
        top = {"plain": JSErrorData.from_exception(e), "twice": None, "cause": JSErrorData("outer", cause=JSErrorData.from_exception(e))}[graph]
        if top is not None:
            against_v8(top, d, None)
            sh.count("exceptions in V8")


def case_tangle(sh, rng):
    """Exceptions that share and form cycles of causes, contexts and groups."""
    n = rng.choice([2, 3, 4, 6])
    es = []
    for i in range(n):
        if es and rng.random() < 0.3:
            subs = [rng.choice(es) for _ in range(rng.choice([1, 2, 3]))]
            es.append((ExceptionGroup if all(isinstance(s, Exception) for s in subs) else BaseExceptionGroup)(f"g{i}", subs))
        else:
            es.append(rng.choice([ValueError, KeyError, Custom])(f"e{i}"))
    for e in es:
        if rng.random() < 0.3:
            through(rng, e, rng.choice([0, 1, 2]))
        if rng.random() < 0.55:
            e.__context__ = rng.choice(es)
        if rng.random() < 0.45:
            e.__cause__ = rng.choice(es)
    sh.count("tangled exceptions")
    e = rng.choice(es)
    d = JSErrorData.from_exception(e)
    where, seen, groups = "a tangled exception", {id(e)}, False
    while True:
        check(d.message == message_of(e), "%s: the message is %r, not %r", where, d.message, message_of(e))
        want, got = plain(own_lines(e)), plain(d.stack.split("\n"))
        check(got[:len(want)] == want, "%s: the stack starts with %s, not %s", where, got[:len(want)], want)
        groups = groups or hasattr(e, "exceptions")
        if not groups:
            # contexts one after another until one comes again
            c, met, lines = context_of(e), set(seen), list(want)
            while c is not None and id(c) not in met and not hasattr(c, "exceptions"):
                met.add(id(c))
                lines += plain(["The above exception occurred while handling another exception:", *own_lines(c)])
                c = context_of(c)
            check(got[:len(lines)] == lines, "%s: its contexts are described as %s, not %s", where, got, lines)
        for s in getattr(e, "exceptions", ()):
            for ln in plain(own_lines(s)):
                check(ln in got, "%s: the stack does not mention %r", where, ln)
        c = e.__cause__
        if c is None or id(c) in seen:
            check(d.cause is None, "%s: a cause that comes again was not cut: %s", where, short(d.cause))
            break
        check(is_err(d.cause), "%s: its explicit cause %r became %s", where, c, short(d.cause))
        seen.add(id(c))
        e, d, where = c, d.cause, where + "'s cause"
    data = dumps(es)
    back = loads(data)
    check(len(back) == len(es), "%d exceptions came back as %d", len(es), len(back))
    for a, b in zip(es, back.array):
        check(b.message == message_of(a), "the message %r came back as %r", message_of(a), b.message)
    sh.nontrivial("tangle", [(type(x).__name__, es.index(x.__cause__) if x.__cause__ else None, es.index(x.__context__) if x.__context__ else None) for x in es])


def own_lines(e):
    return head(e).split("\n") + [f"at {n} ({f}:{ln}:{'<unknown>' if c is None else c})" for n, f, ln, c in frames(e)]


def case_frames(sh, rng):
    """Frames that lack information, as other tools than the interpreter make them."""
    pick = lambda *v: rng.choice([None, 0, 1, *v])  # noqa: E731
    fs = []
    for _ in range(rng.choice([0, 1, 2, 5]) if rng.random() < 0.96 else rng.choice([60, 250, 1200])):
        f = traceback.FrameSummary(rng.choice([None, "", *FILES]), pick(12, 100000), rng.choice(["", "<module>", *FUNCS]), lookup_line=False, line="",
                                   end_lineno=pick(13), colno=pick(4, 200), end_colno=pick(9))
        fs.append(f)
    tbe = traceback.TracebackException(ValueError, ValueError("x"), None)
    tbe.stack = traceback.StackSummary.from_list(fs)
    d = JSErrorData.from_traceback_exception(tbe)
    lines = d.stack.split("\n")
    check(lines[0] == "ValueError: x" and len(lines) == len(fs) + 1, "%d frames became %r", len(fs), d.stack)
    for f, ln in zip(reversed(fs), lines[1:]):
        if f.filename is f.lineno is f.colno is None:
            want = rf" *at {re.escape(f.name)} \(.*\)"
        else:
            place = ":".join("<unknown>" if v is None else re.escape(str(v)) for v in (f.filename, f.lineno, f.colno))
            want = rf" *at {re.escape(f.name)} \({place}\)"
        check(re.fullmatch(want, ln), "the frame %r of %s is described as %r", f.name, (f.filename, f.lineno, f.colno), ln)
    sh.count("frames without information", len(fs))


def case(sh, rng):
    x = rng.random()
    if x > 0.95:
        return case_frames(sh, rng)
    if x < 0.4:
        case_graph(sh, rng)
    elif x < 0.5:
        case_node(sh, rng)
    elif x < 0.85:
        case_exception(sh, rng)
    else:
        case_tangle(sh, rng)
