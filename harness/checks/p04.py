"""loads reads what a real V8 writes."""
from harness.core import Violation, check
from harness.graph import Compare, Node, walk
from harness.model import Gen, from_python
from harness.util import observe, same, varied, graph_of
from v8serialize import loads
from v8serialize.decode import Decoder

QUICK, THOROUGH = 50000, 500000
RULE = "distinct graph shapes written by V8 with at least one object"
MIN = {"values": 2000, "javascript expressions": 60}
ASSUMPTIONS = ["V8 12.4 as embedded in Node.js 22 stands for V8"]


def cmp():
    return Compare(strict_num=False, null_message=True, date="us")


def host_views(m):
    """What Node.js makes of views in v8.serialize(): each is a copy of its region."""
    nodes = walk(m)
    new = {}
    for n in nodes:
        if n.kind == "view":
            b = Node("buf", data=bytes(n.buf.data[n.off:n.off + n.blen]), maxlen=None)
            new[id(n)] = (n, b)
    for n, b in new.values():
        n.buf, n.off, n.track = b, 0, False
    return m


def case(sh, rng):
    plain = rng.random() < 0.5
    m = graph_of(sh, Gen(rng, nodejs=True, float16=False, forms=False, **varied(rng)))
    data = sh.node.write(m, plain=plain)
    if not plain:
        m = host_views(m)
    observe(sh, m)
    sh.count("plain V8" if plain else "Node.js v8.serialize")
    out = Decoder().decodes(data) if plain and rng.random() < 0.4 else loads(data)
    c = cmp()
    same(c, m, from_python(out), "loads returns another value than V8 wrote", data)
    sh.count("objects compared with V8", c.objects)


EXPRESSIONS = r"""
new String("héłlo")
new String("abc")
[new String("x"), "x"]
(() => { const s = new String("s"); return [s, s]; })()
Object(12345678901234567890n)
[Object(1n), Object(-1n), Object(0n)]
[new Number(-0), new Number(NaN), new Boolean(false)]
[-0, 0, NaN, Infinity, -Infinity, 5e-324]
[1,,3]
[,]
new Array(5)
Object.assign([1, 2], {x: 1, y: [2]})
(() => { const a = []; a[100] = 1; a.x = 2; return a; })()
(() => { const a = []; a[4294967294] = 1; return a; })()
(() => { const a = []; a[70000] = 1; a[3] = 2; a.length = 80000; return a; })()
(() => { const a = [1, 2, 3]; delete a[1]; return a; })()
(() => { const a = [1.5, 2.5, , 3]; return a; })()
(() => { const a = [1.5, 2.5, -0]; return a; })()
({a: 1, b: {c: [1, 2, {d: null}]}})
({1: "x", 0: "y", z: 1, "-1": 2, "1.5": 3, "4294967295": 4})
({"": 1, " ": 2, "__proto__x": 3})
({get a() { return 1; }, b: 2})
(() => { class P { constructor() { this.x = 1; } get y() { return 2; } } return new P(); })()
Object.create(null, {a: {value: 1, enumerable: true}, b: {value: 2, enumerable: false}})
Object.defineProperty({}, "__proto__", {value: 5, enumerable: true, writable: true, configurable: true})
(() => { const o = {}; o.self = o; return o; })()
(() => { const m = new Map(); m.set(m, m); return m; })()
(() => { const s = new Set(); s.add(s); return s; })()
(() => { const a = []; a.push(a, [a]); return a; })()
(() => { const e = new Error("x"); e.stack = "s"; e.cause = e; return e; })()
(() => { const e = new Error("x", {cause: [1]}); e.stack = "s"; return e; })()
(() => { const e = new TypeError("x"); e.stack = "s"; return [e, e]; })()
(() => { class MyE extends RangeError {} const e = new MyE("m"); e.stack = "s"; return e; })()
(() => { const e = new AggregateError([new Error("i")], "agg"); e.stack = "s"; return e; })()
(() => { const e = new Error("x"); e.name = "SyntaxError"; e.stack = "s"; return e; })()
(() => { const e = new Error("x"); e.name = "Custom"; e.stack = "s"; return e; })()
(() => { const e = new Error("real stack"); return e; })()
(() => { const e = new EvalError(); e.stack = ""; return e; })()
(() => { const e = new URIError("ü"); e.stack = "日本"; return e; })()
(() => { const e = new Error("a"); e.stack = "1"; const f = new Error("b", {cause: e}); f.stack = "2"; return [f, e, f.cause]; })()
(() => { const e = new Error("a", {cause: undefined}); e.stack = "1"; return e; })()
(() => { const e = new Error("a", {cause: null}); e.stack = "1"; return e; })()
(() => { const e = new Error("a", {cause: new ArrayBuffer(3)}); e.stack = "1"; return [e, e.cause]; })()
(() => { const b = new ArrayBuffer(3); const e = new Error("a", {cause: b}); e.stack = "1"; return [b, e, b]; })()
[/a/g, /(?<x>b)\/[\]]/dgimsuy, /[a&&b]/v, new RegExp(""), new RegExp("\n"), new RegExp("/")]
(() => { const r = /x/; return [r, r, new Date(5), r]; })()
[new Date(0), new Date(-1), new Date(1700000000123), new Date(253402300799999)]
new Map([[NaN, 1], [-0, 2], ["a", new Map()], [{}, []], [null, undefined]])
new Set([NaN, 0, "0", null, undefined, true, 2n, 1])
new Map([[1, "a"], ["1", "b"], [2n, "c"], [true, "d"]])
[1n, -1n, 0n, 2n**64n, -(2n**64n), 2n**63n - 1n, 10n**100n, -(2n**127n)]
["a".repeat(127), "a".repeat(128), "é".repeat(64), "ł".repeat(64), "💩".repeat(40)]
["abc".slice(1), ("x" + "y".repeat(50) + "ł"), "\u0000", "\uFEFFx"]
(() => { const b = new ArrayBuffer(16); new Uint8Array(b).fill(7); return [new Uint8Array(b, 4, 8), new DataView(b, 1), b, new Float64Array(b)]; })()
(() => { const b = new ArrayBuffer(8, {maxByteLength: 64}); return [new Uint8Array(b), new Uint16Array(b, 2, 2), b, new DataView(b, 3)]; })()
(() => { const b = new ArrayBuffer(0); return [b, new Uint8Array(b), b]; })()
(() => { const v = new Uint8Array([1, 2, 3]); return [v, v, {v}, new Map([[v, v]])]; })()
[new BigInt64Array([1n, -1n]), new BigUint64Array([2n**64n - 1n]), new Uint8ClampedArray([300]), new Float32Array([1.5])]
Buffer.from("hello")
[Buffer.from("hello"), {}, Buffer.alloc(3).subarray(1), "x"]
(() => { const b = Buffer.from("hello"); const o = {}; return [o, b, b, o]; })()
[new Date(5), [], new Date(5), {}, new Map(), {}]
(() => { const o = {}; return [new Number(1), o, new String("s"), o, /x/, o, new Date(1), o, new Set(), o, new Uint8Array(1), o, new Error(), o]; })()
(() => { const o = {}, u = new Uint8Array(2); return [u, o, u, o, u.buffer, o, u.buffer]; })()
[undefined, null, true, false]
[2147483647, -2147483648, 2147483648, -2147483649, 4294967295, 4294967296, 1073741823, 1073741824, -1073741824, -1073741825]
[9007199254740991, 9007199254740992, -9007199254740991, 1e21, 1e300]
structuredClone({a: [1, {b: 2}]})
JSON.parse('{"a": [1, 2.5, "x", null, true], "b": {"c": {}}}')
Array.from({length: 300}, (_, i) => i % 3 ? i : {i})
(() => { let o = {}; const r = o; for (let i = 0; i < 60; i++) { o.n = {}; o = o.n; } return r; })()
Object.fromEntries(Array.from({length: 200}, (_, i) => ["k" + i, i]))
new Map(Array.from({length: 200}, (_, i) => [i % 2 ? i : "k" + i, [i]]))
(function () { const o = Object.assign([], {a: 1}); o.length = 3; return o; })()
Object.freeze([1, Object.freeze({a: 1})])
Object.seal({a: [1, , 2]})
(() => { const a = new Array(3); a[1] = undefined; return a; })()
(() => { const o = {b: 1, a: 2}; delete o.b; o.b = 3; return o; })()
(() => { class A extends Array {} const a = new A(); a.push(1, 2); return a; })()
(() => { class M extends Map {} return new M([[1, 2]]); })()
"""


def expressions(sh):
    """Expressions whose serialization is read by V8 itself and by loads."""
    from harness.model import FromJSON

    run = """(a) => { const v8 = require('v8'); const v = (0, eval)('(' + a.code + ')');
      if (!a.plain) return v8.serialize(v).toString('hex');
      const s = new v8.Serializer(); s.writeHeader(); s.writeValue(v); return s.releaseBuffer().toString('hex'); }"""
    sh.node.eval("() => { globalThis.require = process.mainModule.require; }")
    for line in EXPRESSIONS.strip().splitlines():
        for plain in (False, True):
            if plain and "structuredClone" in line:
                continue
            data = bytes.fromhex(sh.node.eval(run, dict(code=line, plain=plain)))
            expected = sh.node.read(data, plain=plain)
            for n in walk(expected):
                if n.kind == "view" and not plain:
                    # a view of Node.js's own pool: only the region counts
                    n.buf = Node("buf", data=n.buf.data[n.off:n.off + n.blen], maxlen=None)
                    n.off = 0
            got = from_python(loads(data))
            for n in walk(expected):
                if n.kind == "error" and n.cause is not None and n.cause[:1] == ("undef",) if not isinstance(n, Node) else False:
                    n.cause = None
            same(cmp(), expected, got, f"{line}", data)
            sh.count("javascript expressions")


fixed = [expressions]
