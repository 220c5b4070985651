import argparse
import importlib
import os
import sys


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED") or "1")
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true", help="import everything and run one simulation of each property twice")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--nproc", type=int)
    ap.add_argument("--digests", action="store_true", help="print index and digest of every run")
    ap.add_argument("--one", type=int, help="run one index in this process and print its trace")
    a = ap.parse_args(argv)
    from . import seams
    seams.boot(os.environ.get("DST_REPO_SRC", "/repo/src"))
    from . import runner
    from . import props as P
    from . import ops
    ops.preload()
    if a.replay:
        import json
        with seams.REAL["open"](a.replay) as f:
            pid = json.load(f)["property"]
        return runner.replay({pid: P.load(pid)}, a.replay)
    if a.selftest:
        import glob
        here = os.path.dirname(os.path.abspath(__file__))
        for f in sorted(glob.glob(os.path.join(here, "props", "c[0-9]*.py"))):
            prop = P.load(os.path.basename(f)[:-3].upper())
            plan = runner.make_plan(prop, 1, 0, "quick")
            one, two = runner.run_once(prop, plan), runner.run_once(prop, plan)
            if one[0] != "ok" or two[0] != "ok" or one[1]["digest"] != two[1]["digest"]:
                print("selftest: %s: %s" % (prop.ID, str([one, two])[:2000]))
                return 2
        print("selftest passed")
        return 0
    prop = P.load(a.prop)
    try:
        seed = int(a.seed)
    except ValueError:
        seed = int.from_bytes(a.seed.encode()[:6], "big")
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    if a.one is not None:
        plan = runner.make_plan(prop, seed, a.one, tier)
        import json
        print(json.dumps(plan, indent=None)[:6000])
        res = runner.execute(prop, plan)
        for line in res["trace"]:
            print("  " + line)
        print(res["violation"], res["digest"], res["counters"], res["faults"])
        return 0
    if a.digests:
        rows = runner.batch(prop, seed, tier, a.runs or 40, a.nproc or 8, 3600)
        for i, st, res, t in rows:
            print(i, st, res["digest"] if st == "ok" else str(res)[-300:], (res.get("violation") if st == "ok" else ""))
        return 0
    try:
        return runner.check(prop, seed, tier, nproc=a.nproc, runs=a.runs)
    except runner.HarnessError as err:
        print("harness error: %s" % err)
        return 2


if __name__ == "__main__":
    rc = 3
    try:
        rc = main()
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else 3
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
