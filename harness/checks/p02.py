"""Identity, sharing and cycles survive dumps and loads."""
from harness.core import check, short
from harness.graph import Compare, Node, is_node, walk
from harness.model import Gen, from_python, to_python
from harness.util import ALL, as_flags, gen_for, observe, parse, pick_features, same, graph_of
from v8serialize import dumps, loads

QUICK, THOROUGH = 60000, 600000
RULE = "distinct graph shapes with at least one object reachable by two paths"
MIN = {"values": 2000, "graphs with sharing": 1500, "position pairs": 300, "Python exceptions": 500}


def cmp_for(feats):
    return Compare(identity=True, null_message=True, date="us", resizable="ResizableArrayBuffers" in feats)


def case(sh, rng):
    if rng.random() < 0.4:
        return positions(sh, rng)
    feats = pick_features(rng)
    g = gen_for(rng, feats, budget=rng.choice([3, 6, 12, 25, 50]), depth=rng.choice([2, 4, 8]),
                share=rng.choice([0.3, 0.5, 0.7]), cycles=rng.random() < 0.8, exceptions=True)
    m = graph_of(sh, g)
    check_graph(sh, m, feats)


def check_graph(sh, m, feats):
    nodes = observe(sh, m)
    py = to_python(m)
    # the built Python value has the identity structure of the model: harness self-check
    c = cmp_for(feats)
    data = dumps(py, features=as_flags(feats))
    out = loads(data)
    same(c, m, from_python(out), "identity or value changed by dumps and loads", data)
    sh.count("objects compared", c.objects)
    sh.count("Python exceptions", sum(n.form == "exception" for n in nodes))
    sh.count("shared visits", c.shared)
    if c.shared:
        sh.count("graphs with sharing")
    # the numbering of references agrees with an independent reader
    same(cmp_for(feats), m, parse(data), "back-references resolve to other objects for an independent reader", data)


def one(g, kind):
    return getattr(g, "g_" + kind)(g.depth)


def positions(sh, rng):
    """object kind x position x position, after objects of every other kind."""
    feats = set(pick_features(rng))
    g = gen_for(rng, feats, budget=60, depth=3, share=0.0, exceptions=True)
    before = [one(g, k) for k in rng.sample(g.kinds, rng.randint(0, len(g.kinds)))]
    x = one(g, rng.choice(g.kinds))
    holders = []
    for _ in range(2):
        holders.append(hold(g, rng, x, feats))
    vals = before + holders + ([x] if rng.random() < 0.5 else [])
    if rng.random() < 0.3:
        rng.shuffle(vals)
    m = Node("arr", form=rng.choice(["list", "jsarray"]), props=[], length=len(vals), elems=dict(enumerate(vals)))
    if rng.random() < 0.5 and x.kind in ("arr", "map", "set", "obj", "error") and not x.imm:
        close_cycle(x, m, rng, feats)
    sh.count("position pairs")
    sh.count("position " + "/".join(sorted({h.note for h in holders})))
    check_graph(sh, m, feats)


def hold(g, rng, x, feats):
    p = rng.choice(["element", "value", "map value", "map key", "member", "cause", "view", "tuple", "extra"])
    if p == "view" and x.kind not in ("buf", "sbuf", "tbuf"):
        p = "element"
    if p == "view" and x.form == "memoryview":
        p = "member"
    if p in ("map key", "member") and x.kind == "prim":
        p = "value"  # decoded as primitives: identity is not kept
    if p == "element":
        n = Node("arr", form="jsarray", props=[], length=3, elems={1: x})
    elif p == "tuple":
        n = Node("arr", form="tuple", props=[], length=1, elems={0: x}, imm=True)
    elif p == "extra":
        n = Node("arr", form="jsarray", props=[("k", x)], length=0, elems={})
    elif p == "value":
        n = Node("obj", form="jsobject", props=[(7, x), ("k", x)])
    elif p == "map value":
        n = Node("map", form="jsmap", items=[(("str", "k"), x)])
    elif p == "map key":
        n = Node("map", form="jsmap", items=[(x, ("null",))])
    elif p == "member":
        n = Node("set", form="jsset", items=[x])
    elif p == "cause":
        n = Node("error", form="jserror", name="Error", message="m", stack=None, cause=x)
    else:
        n = Node("view", form="view", buf=x, tag="Uint8Array", off=0, track=False,
                 blen=len(x.data) if x.kind == "buf" else 5)
    n.note = p
    return n


def close_cycle(x, m, rng, feats):
    if x.kind == "arr" and x.form in ("list", "jsarray", "deque", "userlist"):
        x.elems[x.length] = m
        x.length += 1
        if x.length > 2**32 - 1:
            del x.elems[x.length - 1]
            x.length -= 1
    elif x.kind == "obj":
        x.props = [p for p in x.props if p[0] != "cycle"] + [("cycle", m)]
    elif x.kind == "map" and x.form == "jsmap":
        x.items.append((m, m))
    elif x.kind == "set" and x.form == "jsset":
        x.items.append(m)
    elif x.kind == "error" and x.form != "exception" and "CircularErrorCause" in feats:
        x.cause = m
