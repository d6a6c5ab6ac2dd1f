"""Shard runner, verdicts, counters and evidence.

A check module defines:
  QUICK, THOROUGH   number of cases per tier (all shards together)
  RULE              what makes an evaluation non-trivial
  case(sh, rng)     runs one case; raises Violation (any other exception that
                    escapes is a violation too, except Inconclusive)
optional:
  setup(sh)         once per worker
  fixed             list of functions(sh), deterministic cases run once
  probes            {known finding key: function(sh) -> True if it still fails}
  MIN               {counter: minimum} over the whole run, else inconclusive
"""
from __future__ import annotations

import hashlib
import importlib
import json
import os
import random
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "v8serialize")
NPROC = int(os.environ.get("VERIF_NPROC", "8"))
RECURSION = sys.getrecursionlimit()
CASE_CPU_S = 40.0  # a case takes milliseconds; CPU time, not wall time
TIERS = {"quick": dict(wall=150, hard=400), "thorough": dict(wall=600, hard=820)}


class Violation(AssertionError):
    pass


class Inconclusive(Exception):
    pass


class CaseHang(BaseException):
    pass


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def expect_raises(types, fn, what):
    """fn() must raise one of types; returns the exception."""
    try:
        r = fn()
    except types as e:
        return e
    raise Violation(f"{what}: expected {types}, got {short(r)}")


def short(v, n=400):
    try:
        r = repr(v)
    except RecursionError:
        r = f"<unprintable {type(v).__name__}>"
    except Exception as e:  # repr of values under test may be broken
        r = f"<{type(v).__name__}, repr failed with {type(e).__name__}>"
    return r if len(r) <= n else r[:n] + f"...({len(r)})"


class Shard:
    def __init__(self, prop, tier, seed, index, total):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.index, self.total = index, total
        self.counters = {}
        self.seen = set()
        self.samples = []
        self.evaluations = 0
        self.quick = tier == "quick"
        self._node = None
        self.case_id = None

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def nontrivial(self, *key):
        h = hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=8)
        self.seen.add(h.hexdigest())

    def sample(self, text):
        if len(self.samples) < 4:
            self.samples.append(str(text)[:300])

    @property
    def node(self):
        if self._node is None:
            from harness.nodeoracle import Node

            self._node = Node()
        return self._node

    def close(self):
        if self._node is not None:
            self._node.close()


def _on_alarm(signum, frame):
    raise CaseHang()


class LineCoverage:
    """Counts distinct executed lines of the library with sys.monitoring."""

    def __init__(self):
        self.lines = set()
        mon = getattr(sys, "monitoring", None)
        self.on = mon is not None
        if not self.on:
            return
        self.mon = mon
        try:
            mon.use_tool_id(mon.COVERAGE_ID, "verif")
        except ValueError:
            self.on = False
            return
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, self._line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)

    def _line(self, code, line):
        if code.co_filename.startswith(SRC):
            self.lines.add((code.co_filename[len(SRC) + 1 :], line))
        return self.mon.DISABLE


def run_case(sh, fn, case_id):
    """None, or a dict describing the violation."""
    sh.case_id = case_id
    sh.evaluations += 1
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        fn()
        return None
    except Inconclusive:
        raise
    except CaseHang:
        return dict(case=case_id, what=f"no result within {CASE_CPU_S} s of CPU time",
                    trace=traceback.format_exc()[-3000:])
    except Violation as e:
        return dict(case=case_id, what=str(e)[:2000], trace=traceback.format_exc()[-4000:])
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        return dict(case=case_id, what=f"unexpected {type(e).__name__}: {short(str(e))}",
                    trace=traceback.format_exc()[-4000:])
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if sys.getrecursionlimit() != RECURSION:
            sys.setrecursionlimit(RECURSION)


def case_rng(seed, prop, i):
    return random.Random(f"{seed}/{prop}/{i}")


def load(prop):
    return importlib.import_module(f"harness.checks.{prop.lower()}")


def worker(prop, tier, seed, index, total, out):
    sys.set_int_max_str_digits(0)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, resource.RLIM_INFINITY))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    cov = LineCoverage()
    mod = load(prop)
    sh = Shard(prop, tier, seed, index, total)
    if hasattr(mod, "setup"):
        mod.setup(sh)
    n = mod.QUICK if tier == "quick" else mod.THOROUGH
    n = max(1, int(n * float(os.environ.get("VERIF_SCALE", "1"))))
    deadline = time.monotonic() + TIERS[tier]["wall"]
    violations, inconclusive, done = [], None, 0
    try:
        for j, fn in enumerate(getattr(mod, "fixed", [])):
            if j % total == index:
                v = run_case(sh, lambda: fn(sh), f"fixed:{fn.__name__}")
                if v:
                    violations.append(v)
        for i in range(index, n, total):
            if len(violations) >= 3 or time.monotonic() > deadline:
                break
            v = run_case(sh, lambda: mod.case(sh, case_rng(seed, prop, i)), i)
            done += 1
            if v:
                violations.append(v)
        if hasattr(mod, "finish") and not violations:
            v = run_case(sh, lambda: mod.finish(sh), "finish")
            if v:
                violations.append(v)
    except Inconclusive as e:
        inconclusive = str(e)
    sh.close()
    with open(out, "w") as f:
        json.dump(dict(counters=sh.counters, seen=sorted(sh.seen), samples=sh.samples,
                       evaluations=sh.evaluations, done=done, planned=len(range(index, n, total)),
                       violations=violations, inconclusive=inconclusive,
                       lines=sorted(cov.lines)), f)


def known_findings(prop):
    path = os.path.join(VERIF, "known-findings.jsonl")
    out = []
    with open(path) as f:
        for line in f:
            if line.strip():
                d = json.loads(line)
                if d["property"] == prop and d.get("status") == "known":
                    out.append(d)
    return out


def python_cmd():
    return [sys.executable, os.path.join(VERIF, "harness", "main.py")]


def run(prop, tier, seed):
    t0 = time.monotonic()
    mod = load(prop)
    tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    procs = []
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    try:
        for i in range(NPROC):
            out = os.path.join(tmp, f"{i}.json")
            err = open(os.path.join(tmp, f"{i}.err"), "wb")
            procs.append((subprocess.Popen(
                python_cmd() + [prop, "--tier", tier, "--seed", str(seed), "--worker", f"{i}/{NPROC}", "--out", out],
                stdout=err, stderr=err, env=env, start_new_session=True), out, err.name))
        hard = t0 + TIERS[tier]["hard"]
        results, problems = [], []
        for p, out, err in procs:
            try:
                rc = p.wait(timeout=max(1, hard - time.monotonic()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = "timeout"
            if os.path.exists(out):
                results.append(json.load(open(out)))
            else:
                problems.append(f"worker ended with {rc}: " + open(err, errors="replace").read()[-1500:])
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    counters, seen, samples, lines, violations = {}, set(), [], set(), []
    evaluations = done = planned = 0
    for r in results:
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        seen.update(r["seen"])
        samples += r["samples"][:2]
        lines.update(map(tuple, r["lines"]))
        violations += r["violations"]
        evaluations += r["evaluations"]
        done += r["done"]
        planned += r["planned"]
        if r["inconclusive"]:
            problems.append(r["inconclusive"])
    known_lines = []
    sh = Shard(prop, tier, seed, 0, 1)
    for k in known_findings(prop):
        probe = getattr(mod, "probes", {}).get(k["key"])
        still = False
        if probe is not None:
            try:
                still = bool(probe(sh))
            except Exception as e:
                print(f"note: probe {k['key']} raised {e!r}", file=sys.stderr)
        if still:
            known_lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
    sh.close()
    mins = getattr(mod, "MIN", {})
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    for k, m in mins.items():
        if scale >= 1 and counters.get(k, 0) < m:
            problems.append(f"monitor reached too rarely: {k}={counters.get(k, 0)} < {m}")
    if not problems and done < planned * 0.05:
        problems.append(f"only {done} of {planned} cases ran before the deadline")
    vout = []
    rdir = os.path.join(VERIF, "evidence", "replay")
    if violations:
        os.makedirs(rdir, exist_ok=True)
    for i, v in enumerate(violations[:5]):
        path = os.path.join(rdir, f"{prop}-{i}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, **v), f, indent=1)
        vout.append(dict(path=path, **v))
    ev = dict(
        property=prop, tier=tier, seed=int(seed), level=getattr(mod, "LEVEL", "exploration"),
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=len(seen), rule=mod.RULE,
            samples=samples[:8] or ["none"], cases_planned=planned, cases_run=done,
            monitor_counts=dict(sorted(counters.items())), library_lines_executed=len(lines),
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", ["python 3.12 of the sandbox; no network"]),
        wall_s=round(time.monotonic() - t0, 2),
        violations=len(violations),
        known_findings=known_lines,
        inconclusive=problems,
    )
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for line in known_lines:
        print(line)
    print(f"{prop} {tier}: {evaluations} evaluations, {len(seen)} distinct non-trivial, "
          f"{len(lines)} library lines, {ev['wall_s']} s")
    if vout:
        for v in vout:
            print(f"--- {v['case']}: {v['what']}\n{v['trace']}")
        print(f"VIOLATION property={prop} replay={vout[0]['path']}")
        return 1
    if problems:
        for p in problems:
            print("INCONCLUSIVE:", p)
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    prop = d["property"]
    mod = load(prop)
    sh = Shard(prop, d["tier"], d["seed"], 0, 1)
    if hasattr(mod, "setup"):
        mod.setup(sh)
    if isinstance(d["case"], str) and d["case"].startswith("fixed:"):
        fn = next(f for f in mod.fixed if f.__name__ == d["case"][6:])
        v = run_case(sh, lambda: fn(sh), d["case"])
    else:
        v = run_case(sh, lambda: mod.case(sh, case_rng(d["seed"], prop, d["case"])), d["case"])
    sh.close()
    if v:
        print(v["what"])
        print(v["trace"])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("did not reproduce")
    return 0
