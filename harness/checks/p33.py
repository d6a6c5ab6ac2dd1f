"""The guarantees hold however the interpreter is started and set up."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import zipfile

from harness import core
from harness.core import Inconclusive, Violation

CHECKS = {  # cases in one process
    "P01": 30, "P02": 30, "P05": 30, "P06": 60, "P07": 40, "P08": 40, "P09": 30, "P10": 30, "P11": 40, "P12": 20, "P13": 30, "P14": 30, "P15": 60, "P16": 15, "P17": 20, "P18": 30, "P19": 30, "P20": 20, "P21": 30,
    "P22": 40, "P23": 30, "P24": 60, "P25": 40, "P26": 20, "P27": 40, "P28": 30, "P29": 40, "P30": 30, "P31": 20,
}
QUICK, THOROUGH = 330, 6000
RULE = "distinct (configuration, check whose monitors judged the run) pairs"
MIN = {"processes": 150, "cases judged": 4000, "optimized": 40, "warnings are errors": 20, "hash seeds": 60, "other threads, tasks and interpreters": 20, "imported first": 15}
ASSUMPTIONS = ["a case that fails in the ordinary configuration as well is left to the property it belongs to", "the monitors are those of the other checks", "library lines are executed in processes of their own and not counted"]

CONFIGS = {
    "-O": dict(flags=["-O"]),
    "-OO": dict(flags=["-OO"]),
    "-X dev": dict(flags=["-X", "dev"]),
    "-W error": dict(flags=["-W", "error"]),
    "-E -P -s": dict(flags=["-P", "-s", "-q", "-u"]),
    "hash seed": dict(),
    "C locale": dict(flags=["-X", "utf8=0"], env=dict(LC_ALL="C", PYTHONCOERCECLOCALE="0", LANG="C")),
    "utf8": dict(flags=["-X", "utf8=1"], env=dict(LC_ALL="POSIX")),
    "thread": dict(how=["thread"]),
    "task": dict(how=["task"]),
    "generator": dict(how=["generator"]),
    "context": dict(how=["context"]),
    "interpreter": dict(how=["interpreter"]),
    "gc off": dict(how=["gc off"]),
    "gc always": dict(how=["gc always"]),
    "profiled": dict(how=["profiled"]),
    "traced": dict(how=["traced"]),
    "switching": dict(how=["switching"]),
    "zip": dict(),
    "imported first": dict(),
    "malloc": dict(env=dict(PYTHONMALLOC="debug")),
    "no bytecode cache": dict(flags=["-X", "pycache_prefix=/nonexistent"]),
}
WEIGHTS = {"-O": 4, "-OO": 2, "-W error": 3, "hash seed": 3, "thread": 2, "imported first": 3}


def modules():
    """The modules of the library."""
    out = []
    for d, _, fs in os.walk(core.SRC):
        for f in fs:
            if f.endswith(".py"):
                out.append(os.path.relpath(os.path.join(d, f), os.path.dirname(core.SRC))[:-3].replace(os.sep, ".").removesuffix(".__init__"))
    return sorted(out)


def setup(sh):
    sh.tmp = tempfile.mkdtemp(prefix="verif-P33-lib-")
    sh.zip = os.path.join(sh.tmp, "lib.zip")
    src = os.path.dirname(core.SRC)
    with zipfile.ZipFile(sh.zip, "w") as z:
        for d, _, fs in os.walk(core.SRC):
            for f in fs:
                if not f.endswith(".pyc"):
                    z.write(os.path.join(d, f), os.path.relpath(os.path.join(d, f), src))
    sh.modules = modules()


def finish(sh):
    shutil.rmtree(sh.tmp)


def launch(job, flags, env):
    core_env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "VERIF_REPO", "TMPDIR")}
    core_env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    core_env.update(env)
    cmd = [sys.executable, *flags, os.path.join(core.VERIF, "harness", "configured.py"), json.dumps(job)]
    try:
        r = subprocess.run(cmd, env=core_env, capture_output=True, text=True, errors="replace", timeout=200, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return dict(timeout=True)
    try:
        return dict(json.loads(r.stdout.strip().splitlines()[-1]), err=r.stderr)
    except (ValueError, IndexError):
        return dict(broken=f"exit {r.returncode}: {r.stdout[-300:]} {r.stderr[-2500:]}")


def case(sh, rng):
    name = rng.choices(list(CONFIGS), [WEIGHTS.get(c, 1) for c in CONFIGS])[0]
    names = [name]
    if rng.random() < 0.15:
        names.append(rng.choice([n for n in ("-O", "hash seed", "thread", "gc always", "-X dev") if n != name]))
    check = rng.choice(list(CHECKS))
    if name == "-W error" and check == "P24":
        check = "P01"  # re warns about some patterns
    if name == "C locale" and check == "P23":
        check = "P31"  # Python itself cannot look for files with such names
    count = CHECKS[check]
    if name in ("traced", "profiled", "gc always", "malloc"):
        count //= 4
    job = dict(check=check, seed=f"{sh.seed}/{rng.getrandbits(32)}", first=1000 + rng.randrange(500), count=count, how=[], modules=[], src=os.path.dirname(core.SRC))
    plain = dict(job)
    flags, env = [], dict(PYTHONHASHSEED=str(rng.randrange(2 ** 32)) if rng.random() < 0.7 else "0")
    for n in names:
        c = CONFIGS[n]
        flags += c.get("flags", [])
        env.update(c.get("env", {}))
        job["how"] = job["how"] + c.get("how", [])
        if n == "zip":
            job["src"] = sh.zip
        elif n == "imported first":
            job["modules"] = rng.sample(sh.modules, rng.choice([1, 1, 3]))
        elif n == "hash seed":
            env["PYTHONHASHSEED"] = str(rng.randrange(2 ** 32))
    what = f"{check} with {names} {job['modules']} {env}"
    r = launch(job, flags, env)
    sh.count("processes")
    sh.count("optimized", r.get("optimize", 0) > 0)
    sh.count("warnings are errors", name == "-W error")
    sh.count("hash seeds", env["PYTHONHASHSEED"] != "0")
    sh.count("other threads, tasks and interpreters", name in ("thread", "task", "interpreter", "context"))
    sh.count("imported first", name == "imported first")
    sh.count("cases judged", r.get("done", 0))
    sh.count("observations of the monitors", r.get("counters", 0))
    if r.get("timeout"):
        sh.count("timeouts")
        return
    if "broken" in r or r["problems"]:
        p = launch(plain, [], {})
        if p.get("problems") or p.get("broken") or p.get("timeout"):
            sh.count("failing in the ordinary configuration too")
            return
        again = launch(job, flags, env)
        if not (again.get("problems") or again.get("broken")):
            sh.count("not reproduced")
            return
        raise Violation(f"{what}: " + (r.get("broken") or f"case {r['problems'][0][0]}: {r['problems'][0][1]}\n{r['problems'][0][2]}"))
    sh.nontrivial(name, check)
