"""Writes model graphs through the library's low-level writer, as an encode step would."""
from __future__ import annotations

import math
from types import SimpleNamespace

from harness.graph import Node, is_node
from harness.model import Builder, prim_to_python
from v8serialize.constants import SerializationTag
from v8serialize.encode import DefaultEncodeContext, WritableTagStream
from v8serialize.extensions import NodeJsArrayBufferViewHostObjectHandler
from v8serialize.jstypes import JSPrimitiveObject


class ModelStep:
    """An encode step that writes nodes of the model with randomly chosen methods."""

    def __init__(self, rng, sh=None, plain=False):
        self.rng, self.sh, self.plain = rng, sh, plain
        self.seen = {}
        self.keep = []
        self.builder = Builder()

    def count(self, what):
        if self.sh is not None:
            self.sh.count("writer " + what)

    def encode(self, value, /, ctx, next):
        s, r = ctx.stream, self.rng
        if type(value) is tuple:
            return self.prim(s, value)
        assert is_node(value), value
        if id(value) in self.seen:
            self.count("reference")
            if r.random() < 0.5:
                return s.write_object_reference(obj=value)
            return s.write_object_reference(serialized_id=s.objects.get_serialized_id(value))
        if value.kind == "view":
            ctx.encode_object(value.buf)
        self.seen[id(value)] = value
        self.count(value.kind)
        getattr(self, "k_" + value.kind)(s, value, ctx)

    def prim(self, s, p):
        t, r = p[0], self.rng
        if t == "str":
            return self.text(s, p[1])
        if t == "num":
            x, form = p[1], p[2]
            whole = abs(x) < 2**32 and x == int(x) and not (x == 0 and math.copysign(1, x) < 0)
            if form == "float" or not whole:
                return s.write_double(int(x) if whole and r.random() < 0.3 else x)
            if x >= 2**31 or x >= 0 and r.random() < 0.5:
                return s.write_uint32(int(x))
            if x >= -(2**31):
                return s.write_int32(int(x))
            return s.write_double(int(x))
        if t == "big":
            return s.write_bigint(p[1])
        tag = {"undef": SerializationTag.kUndefined, "null": SerializationTag.kNull,
               "hole": SerializationTag.kTheHole}.get(t)
        if tag is None:
            tag = SerializationTag.kTrue if p[1] else SerializationTag.kFalse
        s.write_constant(tag)

    def text(self, s, v):
        x = self.rng.random()
        if x < 0.35 and all(ord(c) < 256 for c in v):
            self.count("one-byte")
            return s.write_string_onebyte(v)
        if x < 0.75:
            self.count("two-byte at odd position" if s.pos & 1 else "two-byte at even position")
            return s.write_string_twobyte(v)
        return s.write_string_utf8(v)

    def pairs(self, props):
        out = []
        for k, v in props:
            if isinstance(k, int):
                x = self.rng.random()
                k = ("str", str(k)) if x < 0.2 else ("num", float(k), "float" if x < 0.3 else "int")
            else:
                k = ("str", k)
            out.append((k, v))
        return iter(out) if self.rng.random() < 0.5 else out

    def k_obj(self, s, n, ctx):
        s.write_js_object(self.pairs(n.props), ctx, identity=n)

    def k_arr(self, s, n, ctx):
        if n.length <= 300 and self.rng.random() < 0.7:
            items = [n.elems.get(i, ("hole",)) for i in range(n.length)]
            late = []
            for i in range(n.length):
                if i in n.elems and self.rng.random() < 0.05:
                    items[i] = ("hole",)
                    late.append((i, n.elems[i]))
            props = late + n.props
            if props or self.rng.random() < 0.5:
                return s.write_js_array_dense(items, ctx, properties=self.pairs(props), identity=n)
            return s.write_js_array_dense(items, ctx, identity=n)
        s.write_js_array_sparse(self.pairs(list(n.elems.items()) + n.props), ctx, length=n.length, identity=n)

    def k_map(self, s, n, ctx):
        s.write_jsmap(iter(n.items), ctx, identity=n)

    def k_set(self, s, n, ctx):
        s.write_jsset(iter(n.items), ctx, identity=n)

    def k_date(self, s, n, ctx):
        s.write_js_date(self.builder.b_date(n), identity=n)

    def k_regexp(self, s, n, ctx):
        from harness.model import FLAG_BIT
        from v8serialize.jstypes import JSRegExp
        from v8serialize.constants import JSRegExpFlag

        f = JSRegExpFlag(0)
        for c in n.flags:
            f |= JSRegExpFlag(FLAG_BIT[c])
        s.write_js_regexp(JSRegExp(n.source, f), identity=n)

    def k_error(self, s, n, ctx):
        s.write_js_error(SimpleNamespace(name=n.name, message=n.message, stack=n.stack, cause=n.cause), ctx, identity=n)

    def k_prim(self, s, n, ctx):
        v = prim_to_python(n.value)
        tag = None
        if n.value[0] == "num":
            tag = SerializationTag.kNumberObject
        elif n.value[0] == "big":
            tag = SerializationTag.kBigIntObject
        s.write_js_primitive_object(JSPrimitiveObject(v, tag), identity=n)

    def k_buf(self, s, n, ctx):
        from v8serialize.jstypes import JSArrayBuffer

        s.write_js_array_buffer(JSArrayBuffer(n.data, max_byte_length=n.maxlen), identity=n)

    def k_sbuf(self, s, n, ctx):
        s.write_js_array_buffer(self.builder.value(n), identity=n)

    k_tbuf = k_sbuf

    def k_shared(self, s, n, ctx):
        s.write_v8_shared_object_reference(self.builder.value(n), identity=n)

    def k_view(self, s, n, ctx):
        n2 = Node("buf", data=n.buf.data, maxlen=n.buf.maxlen, form="jsbuffer") if n.buf.kind == "buf" else n.buf
        v = Node("view", buf=n2, tag=n.tag, off=n.off, blen=n.blen, track=n.track, form="view")
        self.keep += [n2, v]
        s.write_js_array_buffer_view(Builder().build(v), identity=n)

    def k_nodebuf(self, s, n, ctx):
        from v8serialize.constants import ArrayBufferViewTag
        from v8serialize.jstypes import JSArrayBuffer, create_view

        tag = ArrayBufferViewTag["k" + ("Uint8Array" if n.tag == "FastBuffer" else n.tag)]
        s.write_host_object(create_view(JSArrayBuffer(n.data), tag), serializer=NodeJsArrayBufferViewHostObjectHandler(), identity=n)


def write(m, rng, features, sh=None):
    stream = WritableTagStream(features=features)
    stream.write_header()
    step = ModelStep(rng, sh)
    ctx = DefaultEncodeContext([step], stream=stream)
    ctx.encode_object(m)
    return bytes(stream.data)
