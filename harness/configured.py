"""Runs cases of another check in this interpreter, which may be configured in any way.

usage: configured.py '{"check": "P05", "seed": "1/x", "first": 0, "count": 20, "how": ["thread"], "modules": [...]}'
Prints one line of JSON.
"""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    job = json.loads(sys.argv[1])
    import resource

    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))
    sys.path[:0] = [HERE, job["src"]]
    for m in job.get("modules", []):
        __import__(m)
    import v8serialize

    if not v8serialize.__file__.startswith(job["src"]):
        raise SystemExit(f"v8serialize comes from {v8serialize.__file__}")
    how = set(job["how"])
    if "interpreter" in how:
        return interpreter(job)
    print(json.dumps(run(job)))


def interpreter(job):
    import _xxsubinterpreters as xx

    i = xx.create(isolated=False)
    job = dict(job, how=[h for h in job["how"] if h != "interpreter"], modules=[])
    read, write = os.pipe()
    xx.run_string(i, f"""
import sys, json, os
sys.path[:] = {sys.path!r}
from harness import configured
out = json.dumps(configured.run(json.loads({json.dumps(json.dumps(job))})))
with open({write}, "w") as f:
    f.write(out[:60000])
""")
    sys.stdout.write(os.read(read, 65536).decode() + "\n")
    sys.stdout.flush()
    os._exit(0)  # modules of other interpreters are not unloaded


def run(job):
    import gc
    import threading

    from harness import core

    if hasattr(sys, "set_int_max_str_digits"):
        sys.set_int_max_str_digits(0)
    mod = core.load(job["check"])
    sh = core.Shard(job["check"], "quick", job["seed"], 0, 1)
    how = set(job["how"])
    done, problems = [0], []

    def cases():
        if hasattr(mod, "setup"):
            mod.setup(sh)
        if "gc off" in how:
            gc.disable()
        if "gc always" in how:
            gc.set_threshold(1)
        if "profiled" in how:
            sys.setprofile(lambda *a: None)
        if "traced" in how:
            trace = lambda *a: trace
            sys.settrace(trace)
        if "switching" in how:
            sys.setswitchinterval(1e-6)
        for i in range(job["first"], job["first"] + job["count"]):
            sh.case_id = i
            try:
                mod.case(sh, core.case_rng(job["seed"], job["check"], i))
            except core.Inconclusive:
                pass
            except (Exception, SystemExit) as e:
                import traceback

                problems.append([i, f"{type(e).__name__}: {core.short(str(e), 1000)}", traceback.format_exc()[-2500:]])
                break
            finally:
                if sys.getrecursionlimit() != core.RECURSION and "thread" not in how:
                    sys.setrecursionlimit(core.RECURSION)
            done[0] += 1
        sys.setprofile(None)
        sys.settrace(None)

    def call():
        if "task" in how:
            import asyncio

            async def task():
                cases()

            async def group():
                await asyncio.gather(asyncio.create_task(task()))

            asyncio.run(group())
        elif "generator" in how:
            def g():
                cases()
                yield

            list(g())
        elif "context" in how:
            import contextvars

            contextvars.Context().run(cases)
        else:
            cases()

    if "thread" in how:
        threading.stack_size(64 << 20)
        t = threading.Thread(target=call)
        t.start()
        t.join()
    else:
        call()
    sh.close()
    return dict(done=done[0], problems=problems, counters=sum(sh.counters.values()), optimize=sys.flags.optimize, seen=len(sh.seen))


if __name__ == "__main__":
    main()
