import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--worker")
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    from harness import core

    src = os.path.join(core.REPO, "src")
    sys.path.insert(0, src)
    import v8serialize

    if not os.path.abspath(v8serialize.__file__).startswith(src):
        print("v8serialize was not imported from", src, file=sys.stderr)
        return 2
    if a.replay:
        return core.replay(a.replay)
    if a.worker:
        i, n = a.worker.split("/")
        core.worker(a.property, a.tier, a.seed, int(i), int(n), a.out)
        return 0
    return core.run(a.property, a.tier, a.seed)


if __name__ == "__main__":
    sys.exit(main())
