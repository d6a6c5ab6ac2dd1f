"""A real V8 reads what dumps writes."""
from harness.core import Violation, check
from harness.graph import Compare, is_node, walk
from harness.model import num, to_python
from harness.nodeoracle import NodeRefused
from harness.util import as_flags, gen_for, observe, pick_features, same, varied, graph_of
from v8serialize import dumps, loads

QUICK, THOROUGH = 50000, 500000
RULE = "distinct graph shapes read back by V8 with at least one object"
MIN = {"values": 2000}
ASSUMPTIONS = ["V8 12.4 as embedded in Node.js 22 stands for V8", "no network: other V8 versions are not present"]


def case(sh, rng):
    feats = pick_features(rng)
    kw = varied(rng)
    m = graph_of(sh, gen_for(rng, feats, nodejs=True, sub_ms=True, **kw))
    nodes = observe(sh, m)
    py = to_python(m)
    if rng.random() < 0.2 and feats >= {"RegExpUnicodeSets", "ResizableArrayBuffers", "CircularErrorCause"} \
            and "Float16Array" not in feats:
        data = dumps(py, v8_version="12.4.254")
    else:
        data = dumps(py, features=as_flags(feats))
    compare(sh, m, data, feats, "V8 reads another value")
    if rng.random() < 0.15:
        # what V8 reads from a value that went through loads is the same, too
        data2 = dumps(loads(data), features=as_flags(feats))
        c = Compare(date="trunc", null_message="both", unbox=True, strict_num=False,
                    resizable="ResizableArrayBuffers" in feats)
        same(c, small_bigints_as_numbers(m), sh.node.read(data2), "V8 reads another value after loads and dumps", data2)
        sh.count("second generation")


def small_bigints_as_numbers(m):
    """Python has one integer type: loads makes no difference between 1 and 1n."""
    def prim(v):
        return num(v[1]) if not is_node(v) and v[0] == "big" else v

    for n in walk(m):
        if n.kind in ("obj", "arr"):
            n.props = [(k, prim(v)) for k, v in n.props]
        if n.kind == "arr":
            n.elems = {k: prim(v) for k, v in n.elems.items()}
        elif n.kind == "map":
            n.items = [(prim(k), prim(v)) for k, v in n.items]
        elif n.kind == "set":
            n.items = [prim(v) for v in n.items]
        elif n.kind == "error" and n.cause is not None:
            n.cause = prim(n.cause)
        elif n.kind == "prim":
            n.value = prim(n.value)
    return prim(m)


def compare(sh, m, data, feats, what):
    try:
        got = sh.node.read(data)
    except NodeRefused as e:
        raise Violation(f"V8 refuses the data: {e.args[0]}: {bytes(data[:300]).hex()}") from None
    c = Compare(date="trunc", resizable="ResizableArrayBuffers" in feats)
    same(c, m, got, what, data)
    sh.count("objects compared with V8", c.objects)
