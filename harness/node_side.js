'use strict';
// Requests: 4-byte big-endian length, then JSON. Replies the same way.
const v8 = require('v8');
globalThis.require = require;
const fs = require('fs');

const f64 = new Float64Array(1), u8 = new Uint8Array(f64.buffer);
function bits(x) { f64[0] = x; return Buffer.from(u8).reverse().toString('hex'); }
function unbits(h) { u8.set(Buffer.from(h, 'hex').reverse()); return f64[0]; }

const VIEWS = {Int8Array, Uint8Array, Uint8ClampedArray, Int16Array, Uint16Array, Int32Array, Uint32Array,
  Float32Array, Float64Array, BigInt64Array, BigUint64Array, DataView};
if (typeof Float16Array !== 'undefined') VIEWS.Float16Array = Float16Array;
const ERRORS = {Error, EvalError, RangeError, ReferenceError, SyntaxError, TypeError, URIError};

function build(g) {
  const made = new Array(g.nodes.length);
  function value(v) {
    switch (v[0]) {
      case 'undef': return undefined;
      case 'null': return null;
      case 't': return v[1];
      case 'n': return unbits(v[1]);
      case 'b': return v[1].startsWith('-0x') ? -BigInt(v[1].slice(1)) : BigInt(v[1]);
      case 's': return v[1];
      case 'o': return node(v[1]);
    }
    throw new Error('value ' + JSON.stringify(v));
  }
  // shells first (buffers before views), then contents
  function node(i) {
    if (made[i] !== undefined) return made[i];
    const d = g.nodes[i];
    let o;
    switch (d.k) {
      case 'obj': o = {}; break;
      case 'arr': o = []; break;
      case 'map': o = new Map(); break;
      case 'set': o = new Set(); break;
      case 'date': o = new Date(unbits(d.ms)); break;
      case 'regexp': o = new RegExp(d.source, d.flags); break;
      case 'error': {
        o = new (ERRORS[d.name] || Error)();
        if (d.message !== null) Object.defineProperty(o, 'message', {value: d.message, writable: true, configurable: true});
        delete o.stack;
        Object.defineProperty(o, 'stack', {value: d.stack === null ? undefined : d.stack, writable: true, configurable: true});
        break;
      }
      case 'prim': o = Object(value(d.value)); break;
      case 'buf': {
        const b = Buffer.from(d.data, 'hex');
        o = d.maxlen === null ? new ArrayBuffer(b.length) : new ArrayBuffer(b.length, {maxByteLength: d.maxlen});
        new Uint8Array(o).set(b);
        break;
      }
      case 'view': {
        const C = VIEWS[d.tag], size = C.BYTES_PER_ELEMENT || 1;
        o = d.track ? new C(node(d.buf[1]), d.off) : new C(node(d.buf[1]), d.off, d.blen / size);
        break;
      }
      case 'nodebuf': {
        const b = Buffer.from(d.data, 'hex');
        if (d.tag === 'FastBuffer') { o = Buffer.from(b); break; }
        const ab = new ArrayBuffer(b.length); new Uint8Array(ab).set(b);
        o = new VIEWS[d.tag](ab);
        break;
      }
      default: throw new Error('kind ' + d.k);
    }
    return made[i] = o;
  }
  const root = value(g.root);
  const def = (o, k, v) => Object.defineProperty(o, k, {value: v, writable: true, enumerable: true, configurable: true});
  for (let i = 0; i < g.nodes.length; i++) {
    const d = g.nodes[i], o = node(i);
    switch (d.k) {
      case 'obj': for (const [k, v] of d.props) def(o, k, value(v)); break;
      case 'arr':
        o.length = d.length;
        for (const [k, v] of d.elems) o[k] = value(v);
        for (const [k, v] of d.props) def(o, k, value(v));
        break;
      case 'map': for (const [k, v] of d.items) o.set(value(k), value(v)); break;
      case 'set': for (const v of d.items) o.add(value(v)); break;
      case 'error':
        if (d.cause !== null) Object.defineProperty(o, 'cause', {value: value(d.cause), writable: true, configurable: true});
        break;
    }
  }
  return root;
}

const tag = (o) => Object.prototype.toString.call(o).slice(8, -1);

function describe(root) {
  const ids = new Map(), nodes = [], todo = [];
  function value(v) {
    switch (typeof v) {
      case 'undefined': return ['undef'];
      case 'boolean': return ['t', v];
      case 'number': return ['n', bits(v)];
      case 'bigint': return ['b', v.toString()];
      case 'string': return v.isWellFormed() ? ['s', v] : ['illformed', v];
    }
    if (v === null) return ['null'];
    let i = ids.get(v);
    if (i === undefined) { i = nodes.length; ids.set(v, i); nodes.push(null); todo.push(v); }
    return ['o', i];
  }
  const own = (o, k) => { const d = Object.getOwnPropertyDescriptor(o, k); return d && ('value' in d ? d.value : o[k]); };
  const r = value(root);
  while (todo.length) {
    const o = todo.shift(), i = ids.get(o);
    let d;
    if (Array.isArray(o)) {
      d = {k: 'arr', length: o.length, elems: [], props: []};
      for (const k of Object.keys(o)) {
        const n = Number(k);
        if (String(n >>> 0) === k && n < 4294967295) d.elems.push([n, value(o[k])]);
        else d.props.push([k, value(o[k])]);
      }
    } else if (o instanceof Map) {
      d = {k: 'map', items: [...o].map(([a, b]) => [value(a), value(b)])};
    } else if (o instanceof Set) {
      d = {k: 'set', items: [...o].map(value)};
    } else if (o instanceof Date) {
      d = {k: 'date', ms: bits(o.getTime())};
    } else if (o instanceof RegExp) {
      d = {k: 'regexp', source: o.source, flags: o.flags};
    } else if (tag(o) === 'Error') {
      const m = own(o, 'message'), s = own(o, 'stack');
      d = {k: 'error', name: Object.getPrototypeOf(o).name, message: m === undefined ? null : m,
           stack: typeof s === 'string' ? s : null,
           cause: Object.hasOwn(o, 'cause') ? value(o.cause) : null};
    } else if (o instanceof ArrayBuffer) {
      d = {k: 'buf', data: Buffer.from(new Uint8Array(o)).toString('hex'), maxlen: o.resizable ? o.maxByteLength : null};
    } else if (ArrayBuffer.isView(o)) {
      const C = tag(o);
      d = {k: 'view', tag: C, off: o.byteOffset, blen: o.byteLength, track: false, buf: value(o.buffer)};
      if (o.buffer.resizable) {
        // length tracking shows when the buffer changes size; restore it afterwards
        const before = o.buffer.byteLength, copy = new Uint8Array(o.buffer).slice();
        const size = C === 'DataView' ? 1 : o.BYTES_PER_ELEMENT;
        if (o.buffer.maxByteLength >= before + size) {
          o.buffer.resize(before + size);
          d.track = o.byteLength !== d.blen;
          o.buffer.resize(before);
        } else if (d.blen > size && before >= size) {
          o.buffer.resize(before - size); // a tracking view shrinks, a fixed one stays or is out of bounds
          let len; try { len = o.byteLength; } catch { len = -1; }
          d.track = len === d.blen - size;
          o.buffer.resize(before);
          new Uint8Array(o.buffer).set(copy);
        } else d.track = null;
      }
    } else if (o instanceof Number || o instanceof String || o instanceof Boolean || o instanceof BigInt) {
      d = {k: 'prim', value: value(o.valueOf())};
    } else if (Object.getPrototypeOf(o) === Object.prototype) {
      d = {k: 'obj', props: Object.keys(o).map((k) => [k, value(o[k])])};
    } else {
      d = {k: 'other', value: tag(o)};
    }
    nodes[i] = d;
  }
  return {root: r, nodes};
}

function handle(q) {
  switch (q.op) {
    case 'read': { // bytes -> graph
      const b = Buffer.from(q.data, 'hex');
      let v;
      if (q.plain) { const d = new v8.Deserializer(b); d.readHeader(); v = d.readValue(); } else v = v8.deserialize(b);
      return describe(v);
    }
    case 'write': { // graph -> bytes
      const v = build(q.graph);
      if (!q.plain) return v8.serialize(v).toString('hex');
      const s = new v8.Serializer();
      s.writeHeader();
      s.writeValue(v);
      return s.releaseBuffer().toString('hex');
    }
    case 'echo': return describe(build(q.graph));
    case 'eval': return (0, eval)('(' + q.code + ')')(q.arg);
  }
  throw new Error('op');
}

let buf = Buffer.alloc(0);
function readN(n) {
  const out = Buffer.alloc(n);
  let got = 0;
  while (got < n) {
    let k;
    try { k = fs.readSync(0, out, got, n - got, null); } catch (e) { if (e.code === 'EAGAIN') continue; throw e; }
    if (k === 0) process.exit(0);
    got += k;
  }
  return out;
}
for (;;) {
  const q = JSON.parse(readN(readN(4).readUInt32BE(0)).toString('utf8'));
  let r;
  try { r = {ok: handle(q)}; } catch (e) { r = {stack: String(e && e.stack), error: String(e && e.message), name: String(e && e.name)}; }
  const b = Buffer.from(JSON.stringify(r), 'utf8'), h = Buffer.alloc(4);
  h.writeUInt32BE(b.length, 0);
  let all = Buffer.concat([h, b]), w = 0;
  while (w < all.length) { try { w += fs.writeSync(1, all, w); } catch (e) { if (e.code !== 'EAGAIN') throw e; } }
}
