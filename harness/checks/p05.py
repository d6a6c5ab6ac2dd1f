"""Output is always a well-formed stream."""
from harness import lowlevel
from harness.core import Violation, check
from harness.graph import Compare, Node, children, is_node, walk
from harness.model import Gen, from_python, to_python
from harness.nodeoracle import NodeRefused
from harness.util import ALL, as_flags, gen_for, nodebufs_as_views, observe, parse, pick_features, same, varied, graph_of
from v8serialize import Encoder, dumps, loads
from v8serialize.encode import TagWriter, serialize_object_references
from v8serialize.extensions import serialize_js_array_buffer_views_as_nodejs_host_object

QUICK, THOROUGH = 40000, 400000
RULE = "distinct (graph shape, how written) pairs"
MIN = {"dumps": 3000, "low-level programs": 3000, "writer two-byte at odd position": 1000,
       "writer two-byte at even position": 1000, "writer reference": 500, "nodejs extension": 500}


def case(sh, rng):
    x = rng.random()
    if x < 0.45:
        return with_dumps(sh, rng)
    if x < 0.85:
        return programs(sh, rng)
    return nodejs(sh, rng)


def with_dumps(sh, rng):
    feats = pick_features(rng)
    m = graph_of(sh, gen_for(rng, feats, **varied(rng)))
    observe(sh, m)
    sh.count("dumps")
    data = dumps(to_python(m), features=as_flags(feats))
    check(type(data) is bytes, "dumps returned %s", type(data))
    read = parse(data)
    same(Compare(date="trunc" if False else "us", null_message=True, resizable="ResizableArrayBuffers" in feats), m, read,
         "an independent reader sees another value", data)


def programs(sh, rng):
    """Random legal sequences of calls of the low-level writer."""
    feats = pick_features(rng)
    m = graph_of(sh, Gen(rng, wire=True, forms=False, float16="Float16Array" in feats, error_cycles="CircularErrorCause" in feats,
                         **varied(rng)))
    if rng.random() < 0.2:
        m = with_nodebuf(rng, m)
    observe(sh, m)
    sh.count("low-level programs")
    data = lowlevel.write(m, rng, as_flags(feats), sh)
    res = "ResizableArrayBuffers" in feats
    read = parse(data)
    same(Compare(strict_num=False, resizable=res, date="us"), m, read, "an independent reader sees another value than written", data)
    has_nodebuf = any(n.kind == "nodebuf" for n in walk(m))
    if rng.random() < 0.3:
        nodebufs_as_views(m)
        same(Compare(strict_num=False, null_message=True, resizable=res, date="us"), m, from_python(loads(data)),
             "loads sees another value than written", data)
    if rng.random() < 0.2 and "Float16Array" not in feats and not has_nodebuf and not any(n.kind in ("sbuf", "tbuf", "shared") for n in walk(m)):
        for n in walk(m):  # Node.js here validates sources
            if n.kind == "regexp" or n.kind == "date" or n.kind == "error" and n.cause is None:
                break
            if n.kind in ("arr", "obj") and any(k == "length" for k, _ in n.props):
                break
            if n.kind == "arr" and n.length > 10**6:
                break
        else:
            try:
                got = sh.node.read(data)
            except NodeRefused as e:
                raise Violation(f"V8 refuses the data: {e.args[0]}: {data[:300].hex()}") from None
            same(Compare(strict_num=False, resizable=res), m, got, "V8 sees another value than written", data)
            sh.count("programs read by V8")


def with_nodebuf(rng, m):
    from harness.wire import NODE_VIEWS, VIEW_CODE

    vals = [m]
    for _ in range(rng.randint(1, 3)):
        t = rng.choice([v for v in NODE_VIEWS if v != "FastBuffer"])
        nb = Node("nodebuf", tag=t, data=rng.randbytes(VIEW_CODE[t][1] * rng.randint(0, 5)))
        vals.insert(rng.randint(0, len(vals)), nb)
        if rng.random() < 0.5:
            vals.append(nb)
    if rng.random() < 0.5:
        vals.append(m)
    return Node("arr", form="list", props=[], length=len(vals), elems=dict(enumerate(vals)))


def nodejs(sh, rng):
    """The Node.js extension step in front of the default steps."""
    feats = pick_features(rng)
    m = graph_of(sh, gen_for(rng, feats, **varied(rng)))
    observe(sh, m)
    enc = Encoder(encode_steps=[serialize_object_references, serialize_js_array_buffer_views_as_nodejs_host_object, TagWriter()], features=as_flags(feats))
    data = enc.encode(to_python(m))
    sh.count("nodejs extension")
    read = parse(data, nodejs=True)
    res = "ResizableArrayBuffers" in feats
    same(Views(null_message=True, resizable=res, date="us"), m, read, "an independent reader sees another value", data)


class Views(Compare):
    """A view may be written as a copy of its region."""

    def step(self, a, b, path, key):
        if is_node(a) and is_node(b) and a.kind == "view" and b.kind == "nodebuf":
            self.objects += 1
            if a.buf.kind != "buf":
                self.fail(path, "a shared buffer was copied", a, b)
            d = a.buf.data[a.off:a.off + a.blen]
            if b.tag != a.tag or bytes(b.data) != bytes(d):
                self.fail(path, "view", (a.tag, bytes(d).hex()), (b.tag, bytes(b.data).hex()))
            if self.fwd.setdefault(id(a), id(b)) != id(b):
                self.fail(path, "one view became several", a, b)
            return
        super().step(a, b, path, key)
