"""Writes /verif/MANIFEST.json from the check modules present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "P01": "round-trip monitor: neutral value model vs dumps/loads on generated graphs",
 "P02": "identity-structure monitor over generated cyclic graphs",
 "P03": "differential monitor: a real V8 (Node.js) reads the output and reports what it saw",
 "P04": "differential monitor: a real V8 (Node.js) writes, loads() is compared with what it wrote",
 "P05": "independent strict stream parser as oracle over library output and low-level call sequences",
 "P06": "fault injection with an exception, time, memory and input-mutation monitor",
 "P07": "truncation and corruption injection at every recorded field with a rejection monitor",
 "P08": "independent grammar-driven writer and reader as oracle for alternative encodings",
 "P09": "container and aliasing monitor with later mutation of inputs and results",
 "P10": "independent stream parser checks feature constructs per feature set; version table oracle",
 "P11": "fault injection of unserializable values with error and after-effect monitors",
 "P12": "history and thread stress with result and purity monitors",
 "P13": "trace monitor over encode-step calls against a specification of the call order",
 "P14": "differential monitor of decode options and steps against a model transformation",
 "P15": "key-normalisation monitor against ECMA-262 number-to-string and index rules",
 "P16": "model-based history monitor (reference ordinary-object/array model)",
 "P17": "lock-step differential monitor of both storages and a reference list",
 "P18": "model-based history monitor (reference same-value-zero map)",
 "P19": "model-based history monitor (reference same-value-zero set)",
 "P20": "equality monitor against bisimulation on the neutral model; threads and faults",
 "P21": "model-based history monitor (reference ArrayBuffer model, cross-checked with Node.js)",
 "P22": "element-access monitor against struct/Node.js byte oracles",
 "P23": "round-trip and description monitor for errors and exceptions",
 "P24": "flag and source monitor against JavaScript and re semantics",
 "P25": "instant monitor against exact integer arithmetic and a real V8",
 "P26": "printing monitor: termination, bounds, evaluation, settings stack",
 "P27": "differential monitor of the Node.js extension format with a real Node.js and an independent parser",
 "P28": "lock-step monitor of low-level writer, reader and positions",
 "P29": "reference-model comparison of equality and hashes",
 "P30": "isomorphism monitor over copies and pickles, with mutation of every object of one side",
 "P31": "fault workload (bad data, unwritable values, missing features and keys) with an online monitor of every error's fields, text and copies, and a process pool",
 "P32": "reference-count, weak-reference, buffer-export and allocation monitors around succeeding and failing public calls and collection histories",
 "P33": "the other checks' monitors run in processes with randomly chosen interpreter configurations; a failure counts when the ordinary configuration does not show it",
 "P34": "scaling monitors: executed library lines (sys.monitoring), traced memory peaks and CPU time at growing sizes of randomly composed values, streams and histories",
}
NOTE = ("Randomised and boundary workloads run against the real code from /repo/src; the oracle is independent of the "
        "code under test. Assures the property on the executions observed (counts in the evidence), not for all inputs. "
        "Trusts the oracle in /verif/harness{extra}.")
EXTRA = {p: " and the V8 of the installed Node.js" for p in ("P03", "P04", "P21", "P22", "P24", "P25", "P27", "P15")}
LEVEL = {"P07": "fault_enumeration"}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, "harness", "checks", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd=f"./check.sh {p} quick", thorough_cmd=f"./check.sh {p} thorough",
                           technique=T[p], level=LEVEL.get(p, "exploration"),
                           level_note=NOTE.format(extra=EXTRA.get(p, ""))))
    else:
        na.append(dict(property=p, reason="its check is not built yet"))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import v8serialize'", checks=checks, not_applicable=na),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
