"""Seeds, isolation, parallel batches, minimisation, replay files and evidence."""
import hashlib
import json
import os
import pickle
import random
import resource
import select
import signal
import struct
import subprocess
import sys
import time as _time
from collections import Counter
from . import seams

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 25           # CPU seconds of one run before it is suspected of not terminating
WALL_LIMIT = 240         # wall seconds before a run is given up (harness error, never a verdict)
_real_mono = seams.REAL["monotonic"]


class HarnessError(Exception):
    pass


def rng_for(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return seams.REAL["Random"](int.from_bytes(h[:16], "big"))


# ------------------------------------------------------------------ one run

def execute(prop, plan):
    """Run one plan in this process. Returns a JSON-able result."""
    w = seams.World(plan["seed"])
    seams.set_world(w)
    random.seed(plan.get("appseed", 1))
    out = {"nontrivial": False, "key": "", "sample": None}
    try:
        r = prop.run(plan, w)
        out.update(r or {})
    except Exception as err:
        # A step without a fault in it that the scenario cannot go on without. If the library itself
        # raised, that is an answer; anything else is an error of the harness.
        if not from_library(err):
            raise
        w.violate("honest-step-failed", "a step without a fault raised %s: %s" % (type(err).__name__, str(err)[:200]))
    finally:
        if w.disk is not None:
            w.disk.close()
        seams.set_world(None)
    out["violation"] = w.violation
    out["digest"] = w.digest()
    out["counters"] = dict(w.counters)
    out["faults"] = dict(w.faults)
    out["simtime"] = w.clock.now - w.clock.start
    out["trace"] = w.trace[-400:]
    return out


def from_library(err):
    files = []
    tb = err.__traceback__
    while tb is not None:
        files.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    if isinstance(err, (HarnessError, seams.SimHang)):
        return False
    mine, lib = os.path.join(HERE, "dst") + os.sep, repo_prefix()
    while files and not files[-1].startswith((mine, lib)):
        files.pop()                               # frames of other packages, called from one or the other
    return bool(files) and files[-1].startswith(lib)


def isolated(prop, plan, cpu=CPU_LIMIT, budget=None, wall=None):
    """Run one plan in a forked child. Returns (status, result): status ok | error | hang | stall."""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            signal.signal(signal.SIGXCPU, signal.SIG_DFL)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            try:
                if budget:
                    from .trace import Tracer, StepBudget, Budget
                    tr = Tracer(repo_prefix())
                    tr.start(StepBudget(budget))
                    try:
                        res = execute(prop, plan)
                    except Budget as err:
                        res = {"violation": {"kind": "no-termination", "detail": str(err)}, "digest": "hang",
                               "counters": {}, "faults": {}, "simtime": 0, "trace": [], "nontrivial": False,
                               "key": "", "sample": None}
                else:
                    res = execute(prop, plan)
                msg = json.dumps(["ok", res])
            except BaseException:
                import traceback
                msg = json.dumps(["error", traceback.format_exc()])
            data = msg.encode("utf-8", "backslashreplace")
            data = struct.pack("!I", len(data)) + data
            while data:
                n = os.write(wfd, data)
                data = data[n:]
            code = 0
        finally:
            os._exit(code)
    os.close(wfd)
    buf = b""
    end = _real_mono() + (wall or WALL_LIMIT)
    timed_out = False
    while True:
        left = end - _real_mono()
        if left <= 0:
            timed_out = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            timed_out = True
            break
        c = os.read(r, 1 << 16)
        if not c:
            break
        buf += c
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, st, ru = os.wait4(pid, 0)
    if timed_out:
        return "stall", {"cpu": ru.ru_utime + ru.ru_stime}
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        if sig in (signal.SIGXCPU, signal.SIGKILL) and ru.ru_utime + ru.ru_stime >= cpu - 1:
            return "hang", {"cpu": ru.ru_utime + ru.ru_stime}
        return "error", "child killed by signal %d" % sig
    if len(buf) < 4:
        return "error", "child exited without a result (status %r)" % st
    kind, res = json.loads(buf[4:].decode("utf-8"))
    return kind, res


def repo_prefix():
    import jwkest
    return os.path.dirname(os.path.abspath(jwkest.__file__)) + os.sep


def run_once(prop, plan):
    """isolated() plus the two-step decision about non-termination."""
    status, res = isolated(prop, plan)
    if status == "hang":
        # decide by counting steps of the library, then (loops below it) by CPU time once more
        s2, r2 = isolated(prop, plan, cpu=CPU_LIMIT * 6, budget=prop.STEP_BUDGET)
        if s2 == "ok":
            return s2, r2
        if s2 == "hang":
            return "ok", {"violation": {"kind": "no-termination",
                                        "detail": "used more than %d s of CPU, twice" % CPU_LIMIT},
                          "digest": "hang", "counters": {}, "faults": {}, "simtime": 0, "trace": [],
                          "nontrivial": False, "key": "", "sample": None}
        return "error", "hang: %r %r" % (s2, r2)
    return status, res


# ------------------------------------------------------------------ batches

def make_plan(prop, seed, index, tier):
    rng = rng_for(seed, prop.ID, index)
    plan = prop.gen(rng, index, tier)
    plan["prop"] = prop.ID
    plan["seed"] = "%s/%s/%s" % (seed, prop.ID, index)
    plan.setdefault("appseed", rng.randrange(1 << 30))
    return plan


def worker(prop, seed, tier, indexes, fd, deadline):
    out = os.fdopen(fd, "wb")
    for i in indexes:
        if _real_mono() > deadline:
            pickle.dump((i, "timeout", None, 0), out)
            break
        t = _real_mono()
        plan = make_plan(prop, seed, i, tier)
        status, res = run_once(prop, plan)
        if status == "ok" and not res["violation"]:
            res.pop("trace", None)
        pickle.dump((i, status, res, _real_mono() - t), out)
        if status != "ok" or res["violation"]:
            break
    out.close()


def batch(prop, seed, tier, runs, nproc, wall):
    """Run indexes 0..runs-1. Every index is a pure function of (seed, index), whatever nproc is."""
    deadline = _real_mono() + wall
    files, pids = [], []
    import tempfile
    tmpd = tempfile.mkdtemp(prefix="dst-batch-")
    for k in range(nproc):
        name = os.path.join(tmpd, str(k))
        pid = os.fork()
        if pid == 0:
            code = 4
            try:
                fd = os.open(name, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                worker(prop, seed, tier, range(k, runs, nproc), fd, deadline)
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(code)
        pids.append(pid)
        files.append(name)
    bad = []
    for pid in pids:
        _, st = os.waitpid(pid, 0)
        if st:
            bad.append(st)
    rows = []
    for name in files:
        try:
            with seams.REAL["open"](name, "rb") as f:
                while True:
                    try:
                        rows.append(pickle.load(f))
                    except EOFError:
                        break
        except FileNotFoundError:
            pass
    import shutil
    shutil.rmtree(tmpd, ignore_errors=True)
    if bad:
        raise HarnessError("worker ended with status %r" % bad)
    rows.sort(key=lambda r: r[0])
    return rows


# ------------------------------------------------------------------ minimisation

def get_path(plan, path):
    o = plan
    for p in path:
        o = o[p]
    return o


def with_path(plan, path, value):
    new = json.loads(json.dumps(plan))
    o = new
    for p in path[:-1]:
        o = o[p]
    o[path[-1]] = value
    return new


def minimise(prop, plan, kind, seconds=60, max_runs=250):
    end = _real_mono() + seconds
    tried = [0]

    def fails(p):
        if _real_mono() > end or tried[0] >= max_runs:
            return False
        tried[0] += 1
        status, res = isolated(prop, p, cpu=10, wall=60)
        return status == "ok" and res["violation"] and res["violation"]["kind"] == kind

    best = plan
    progress = True
    while progress and _real_mono() < end and tried[0] < max_runs:
        progress = False
        for path in prop.shrinkable(best):
            try:
                lst = get_path(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            n = max(1, len(lst) // 2)
            while n >= 1 and lst:
                i, cut = 0, False
                while i < len(lst):
                    cand = lst[:i] + lst[i + n:]
                    p = with_path(best, path, cand)
                    if fails(p):
                        best, lst, cut, progress = p, cand, True, True
                    else:
                        i += n
                if not cut or n == 1:
                    n //= 2
        for p in prop.simplify(best):
            if fails(p):
                best, progress = p, True
                break
    return best, tried[0]


# ------------------------------------------------------------------ replay

def save_replay(prop, plan, res, extra):
    d = os.path.join(HERE, "out", "replays")
    os.makedirs(d, exist_ok=True)
    name = os.path.join(d, "%s-%s.json" % (prop.ID, hashlib.sha256(json.dumps(plan, sort_keys=True).encode())
                                           .hexdigest()[:12]))
    doc = {"property": prop.ID, "violation": res["violation"], "digest": res["digest"], "plan": plan,
           "schedule_and_fault_trace": res["trace"]}
    doc.update(extra)
    with seams.REAL["open"](name, "w") as f:
        json.dump(doc, f, indent=1)
    return name


def replay(props, path):
    with seams.REAL["open"](path) as f:
        doc = json.load(f)
    prop = props[doc["property"]]
    status, res = run_once(prop, doc["plan"])
    if status != "ok":
        print("replay error: %s" % (res,))
        return 3
    for line in res["trace"]:
        print("  " + line)
    v = res["violation"]
    if v and v["kind"] == doc["violation"]["kind"] and res["digest"] == doc["digest"]:
        print("reproduced exactly: %s: %s" % (v["kind"], v["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop.ID, path))
        return 1
    if v:
        print("differs: %s (digest %s, recorded %s)" % (v, res["digest"], doc["digest"]))
        print("VIOLATION property=%s replay=%s" % (prop.ID, path))
        return 1
    print("not reproduced: the property held on this run")
    return 0


def reproduces(path):
    """Replay in a fresh interpreter."""
    p = subprocess.run([os.path.join(HERE, "check"), "--replay", path], capture_output=True, text=True, timeout=600)
    return p.returncode == 1 and "reproduced exactly" in p.stdout, p.returncode == 1, p.stdout + p.stderr


# ------------------------------------------------------------------ a check

def load_known(prop_id):
    """known_findings.txt: lines 'finding: property=<id> kind=<kind> match=<text> <what fails>'."""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    try:
        with seams.REAL["open"](path) as f:
            for line in f:
                if line.startswith("finding: property=%s " % prop_id):
                    parts = line[len("finding: "):].strip().split(" ", 3)
                    out.append((parts[1].split("=", 1)[1], parts[2].split("=", 1)[1], parts[3]))
    except FileNotFoundError:
        pass
    return out


def check(prop, seed, tier, nproc=None, runs=None):
    t0 = _real_mono()
    nproc = nproc or min(8, os.cpu_count() or 1)
    runs = runs or prop.RUNS[tier]
    wall = 600 if tier == "quick" else 3 * 3600
    rows = batch(prop, seed, tier, runs, nproc, wall)
    errors = [r for r in rows if r[1] not in ("ok", "timeout")]
    viols = [r for r in rows if r[1] == "ok" and r[2]["violation"]]
    known = load_known(prop.ID)
    wall_s = _real_mono() - t0
    ev = evidence(prop, seed, tier, rows, wall_s, nproc)
    fresh = []
    for r in viols:
        v = r[2]["violation"]
        hit = [k for k in known if k[0] == v["kind"] and k[1] in v["detail"]]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop.ID, hit[0][2]))
        else:
            fresh.append(r)
    if fresh:
        ev["violations"] = len(fresh)
        write_evidence(prop, ev)
        inexact = None
        for i, _, res, _ in fresh[:4]:
            plan = make_plan(prop, seed, i, tier)
            kind = res["violation"]["kind"]
            print("run %d: %s: %s" % (i, kind, res["violation"]["detail"]))
            if kind == "no-termination":
                small, tried = plan, 0
            else:
                small, tried = minimise(prop, plan, kind)
            st, sres = run_once(prop, small)
            if st != "ok" or not sres["violation"]:
                small, sres = plan, res
            for cand, cres in ((small, sres), (plan, res)):
                path = save_replay(prop, cand, cres, {"verif_seed": seed, "run": i, "tier": tier, "minimise_runs": tried})
                exact, again, txt = reproduces(path)
                if exact:
                    print("minimised to %s (%d trial runs): %s" % (prop.size(cand), tried, cres["violation"]["detail"]))
                    print("VIOLATION property=%s replay=%s" % (prop.ID, path))
                    return 1
                if again and not inexact:
                    inexact = path
                elif path != inexact:
                    os.unlink(path)
                if cand is plan:
                    break
            print(txt[-1500:])
        if inexact:
            # the code under test is itself not repeatable (it uses something no seam controls)
            print("note: the replay violates the property again, but not step for step the same way")
            print("VIOLATION property=%s replay=%s" % (prop.ID, inexact))
            return 1
        print("the violation did not replay in a fresh process")
        return 3
    write_evidence(prop, ev)
    if errors:
        for i, status, res, _ in errors[:5]:
            print("run %d: %s: %s" % (i, status, str(res)[-3000:]))
        print("harness error in %d runs" % len(errors))
        return 2
    bad = prop.coverage_ok(ev["coverage"])
    if bad:
        # reach is reported, not enforced: a change of the library may legitimately move it
        print("note: low reach: %s" % bad)
    c = ev["coverage"]
    print("%s %s: held in %d simulated runs (%d distinct non-trivial), %.1f s wall, %.0f s simulated" %
          (prop.ID, tier, c["evaluations"], c["distinct_nontrivial"], wall_s, c["simulated_seconds"]))
    return 0


def evidence(prop, seed, tier, rows, wall_s, nproc):
    ok = [r for r in rows if r[1] == "ok"]
    faults, counters = Counter(), Counter()
    keys = set()
    inter = set()
    samples = []
    sim = 0.0
    for i, _, res, _ in ok:
        faults.update(res["faults"])
        counters.update(res["counters"])
        sim += res["simtime"]
        if res["nontrivial"]:
            keys.add(res["key"])
        inter.update(res.get("interleavings") or [])
        if res.get("sample") and len(samples) < 3 and res["nontrivial"]:
            samples.append({"run": i, "case": res["sample"]})
    cov = {
        "evaluations": len(ok),
        "distinct_nontrivial": len(keys),
        "rule": prop.RULE,
        "samples": samples or [{"run": r[0], "case": "trivial"} for r in ok[:1]],
        "simulated_runs_per_hour": int(len(ok) / max(wall_s, 1e-6) * 3600),
        "simulated_seconds": round(sim, 3),
        "faults_fired": dict(sorted(faults.items())),
        "probes": dict(sorted(counters.items())),
        "seed_rule": "one seed per run, derived from (VERIF_SEED, property, run index)",
        "real_components": prop.REAL_PARTS,
        "stub_components": prop.STUBS,
        "worker_processes": nproc,
    }
    if inter:
        cov["distinct_states"] = {"measure": prop.STATE_MEASURE, "count": len(inter)}
    return {"property": prop.ID, "tier": tier, "seed": int(seed), "level": prop.LEVEL, "coverage": cov,
            "assumptions": prop.ASSUMPTIONS, "wall_s": round(wall_s, 2), "violations": 0}


def write_evidence(prop, ev):
    d = os.environ.get("DST_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with seams.REAL["open"](os.path.join(d, prop.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")


class Property(object):
    ID = None
    LEVEL = "exploration"
    RUNS = {"quick": 100, "thorough": 1000}
    RULE = ""
    STATE_MEASURE = "distinct non-trivial plans by rule"
    STEP_BUDGET = 40000000
    REAL_PARTS = ["jwkest (all modules used)", "Cryptodome", "json", "base64"]
    STUBS = ["OS random source", "clock"]
    ASSUMPTIONS = ["Cryptodome's primitives are correct", "sampling: a clean batch is evidence, not proof"]

    def gen(self, rng, index, tier):
        raise NotImplementedError

    def run(self, plan, world):
        raise NotImplementedError

    def shrinkable(self, plan):
        return [[k] for k in ("ops", "deliveries", "switches", "msgs", "keys") if isinstance(plan.get(k), list)]

    def simplify(self, plan):
        return []

    def size(self, plan):
        return ", ".join("%d %s" % (len(get_path(plan, p)), p[-1]) for p in self.shrinkable(plan)
                         if isinstance(get_path(plan, p), list))

    def coverage_ok(self, cov):
        return None
