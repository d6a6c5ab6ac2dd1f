from __future__ import annotations

import collections
import sys

from harness.core import Violation, check
from harness.graph import HOLE, Compare, Node, is_node, shape, walk
from harness.model import Gen, from_python, to_python
from harness.wire import Bad, Parser
from v8serialize import SerializationFeature

FEATURES = {f.name: f for f in (
    SerializationFeature.RegExpUnicodeSets, SerializationFeature.ResizableArrayBuffers,
    SerializationFeature.CircularErrorCause, SerializationFeature.Float16Array)}
ALL = SerializationFeature.MaxCompatibility
for _f in FEATURES.values():
    ALL |= _f


def pick_features(rng):
    x = rng.random()
    if x < 0.5:
        return set(FEATURES)
    if x < 0.7:
        return set()
    return {n for n in FEATURES if rng.random() < 0.5}


def as_flags(names):
    f = SerializationFeature.MaxCompatibility
    for n in names:
        f |= FEATURES[n]
    return f


def gen_for(rng, feats, **kw):
    """A generator of graphs that can be written with these features."""
    kw.setdefault("float16", "Float16Array" in feats)
    kw.setdefault("error_cycles", "CircularErrorCause" in feats)
    return Gen(rng, **kw)


def varied(rng):
    """Generator parameters for diversity."""
    return dict(budget=rng.choice([1, 2, 4, 8, 15, 25, 40]), depth=rng.choice([1, 2, 4, 6, 10]),
                share=rng.choice([0.0, 0.1, 0.3, 0.6]))


def graph_of(sh, g, p=0.01):
    """A graph of g; one in 1/p has something large, deep or numerous in it."""
    if g.rng.random() >= p:
        return g.graph()
    sys.setrecursionlimit(6000)  # the nesting is limited by the interpreter, not by the format
    m = g.large()
    sh.count("large graphs")
    sh.count("large " + g.what)
    return m


def observe(sh, m, tally="values"):
    """Counts what a graph contains for the evidence."""
    nodes = walk(m)
    indeg = collections.Counter()
    from harness.graph import children

    for n in nodes:
        sh.count("kind " + n.kind)
        for c in children(n):
            if is_node(c):
                indeg[id(c)] += 1
    sh.count("shared objects", sum(1 for v in indeg.values() if v > 1))
    sh.count(tally)
    if nodes:
        sh.nontrivial(shape(m))
    return nodes


def parse(data, **kw):
    try:
        return Parser(data, **kw).parse()
    except Bad as e:
        raise Violation(f"not a well-formed stream: {e}: {bytes(data[:200]).hex()}") from e


def same(cmp, expected, observed, what, data=None):
    d = cmp.compare(expected, observed)
    if d:
        raise Violation(f"{what}: {d}" + (f"; data={bytes(data[:300]).hex()}" if data is not None else ""))


def nodebufs_as_views(m):
    """What a Node.js buffer is for loads(): a view over a buffer of its own."""
    for n in walk(m):
        if n.kind == "nodebuf":
            n.kind = "view"
            n.buf = Node("buf", data=bytes(n.data), maxlen=None)
            n.tag = "Uint8Array" if n.tag == "FastBuffer" else n.tag
            n.off, n.blen, n.track = 0, len(n.buf.data), False
    return m
