"""Every valid encoding of a value deserializes to that value."""
from harness.core import check
from harness.graph import Compare, Node
from harness.model import Gen, from_python
from harness.util import observe, parse, same, varied, graph_of
from harness.wire import Writer
from v8serialize import Decoder, loads

QUICK, THOROUGH = 50000, 500000
RULE = "distinct (graph shape, set of encoding choices) pairs"
MIN = {"values": 5000, "choice one-byte": 500, "choice two-byte": 500, "choice boxed": 200, "choice boxed again": 50,
       "choice other array storage": 200, "choice stack after cause": 20, "choice padding": 500,
       "version 13": 1000, "version 14": 1000}


def generate(sh, rng, **kw):
    version = rng.choice([13, 14, 15])
    g = Gen(rng, wire=True, forms=False, features=None if version == 13 else True, float16=True, error_cycles=True,
            **dict(varied(rng), **kw))
    m = graph_of(sh, g)
    w = Writer(rng, version, vary=rng.choice([0.0, 0.3, 0.6, 0.9]), box=rng.choice([0.0, 0.0, 0.3]))
    w.header()
    w.value(m)
    return m, w


def case(sh, rng):
    m, w = generate(sh, rng)
    observe(sh, m)
    data = bytes(w.out)
    for k, v in w.choices.items():
        sh.count("choice " + k, v)
    sh.count(f"version {w.version}")
    sh.nontrivial(w.version, tuple(sorted(w.choices)))
    read = parse(data, versions=(13, 14, 15), minimal=False, padding="any")
    # the independent reader agrees with the model the data was written from
    same(Compare(strict_num=False, unbox=True), m, read, "harness: independent reader and writer disagree", data)
    out = loads(data) if rng.random() < 0.7 else Decoder().decodes(data)
    got = from_python(out)
    same(Compare(strict_num=True, null_message=True, date="us"), read, got, "loads differs from the independent reader", data)
    sh.count("choices", sum(w.choices.values()))


def fixed_streams(sh):
    """Hand-written encodings with a known value."""
    from v8serialize.jstypes import JSArray, JSHole, JSMap, JSObject, JSUndefined

    cases = [
        ("ff0d 4e 0000000000001440", 5.0), ("ff0e 49 0a", 5), ("ff0f 55 05", 5), ("ff0f 0000 49 0a", 5),
        ("ff0f 55 8500", 5), ("ff0f 53 02 c3a9", "é"), ("ff0f 22 01 e9", "é"), ("ff0f 63 02 e900", "é"),
        ("ff0f 00 63 02 e900", "é"), ("ff0f 63 04 3dd8a9dc", "💩"), ("ff0f 5a 00", 0), ("ff0f 5a 10 0500000000000000", 5),
        ("ff0f 5a 02 05", 5), ("ff0f 5a 03 05", -5), ("ff0f 79", True), ("ff0f 78", False), ("ff0f 6e 0000000000001440", 5.0),
        ("ff0f 7a 02 05", 5), ("ff0f 73 22 01 e9", "é"), ("ff0f 73 53 02 c3a9", "é"), ("ff0f 73 63 02 e900", "é"),
        ("ff0f 5f", JSUndefined), ("ff0f 30", None), ("ff0f 54", True), ("ff0f 46", False),
        ("ff0f 41 02 5502 2d 24 00 02", JSArray([2, JSHole])), ("ff0f 41 02 2d 2d 5501 5407 24 00 02".replace("5407 24 00", "54 24 01"), JSArray([JSHole, True])),
        ("ff0f 61 02 5500 5502 40 01 02", JSArray([2, JSHole])), ("ff0f 61 02 220130 5502 40 01 02", JSArray([2, JSHole])),
        ("ff0f 61 02 4e0000000000000000 5502 40 01 02", JSArray([2, JSHole])),
        ("ff0f 6f 4e000000000000f83f 54 7b 01", JSObject({"1.5": True})), ("ff0f 6f 4902 54 7b 01", JSObject({1: True})),
        ("ff0f 6f 490b 54 7b 01", JSObject({"-6": True})), ("ff0f 6f 5302 3031 54 7b 01", JSObject({"01": True})),
        ("ff0f 3b 5501 54 3a 02", JSMap([(1, True)])),
    ]
    for h, expected in cases:
        data = bytes.fromhex(h)
        got = loads(data)
        m, g = from_python(expected), from_python(got)
        same(Compare(strict_num=True), g, m, f"{h}: {got!r} instead of {expected!r}", data)
        check(type(got) is type(expected), "%s: %s instead of %s", h, type(got), type(expected))
        sh.count("hand-written streams")


fixed = [fixed_streams]
