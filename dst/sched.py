"""Cooperative scheduler: real threads, exactly one of which runs at any time.

Every switch is decided by the plan: a list of [thread, site_frac, occ_frac, to].  A first pass runs each thread
alone to learn the sites it visits (and its sequential result); the second pass switches at the resolved points.
"""
import _thread
import hashlib
from . import seams
from .trace import INSTRUCTION, SiteCounter, Tracer, CAP, describe
from .keys import cut


class Deadlock(BaseException):
    pass


class Abort(BaseException):
    pass


class _T(object):
    def __init__(self, idx, fn):
        self.idx, self.fn = idx, fn
        self.gate = seams.REAL["allocate_lock"]()
        self.gate.acquire()
        self.done = False
        self.blocked = None
        self.result = None
        self.counts = {}
        self.points = {}
        self.hits = 0


class Sched(object):
    def __init__(self, world, tracer):
        self.world, self.tracer = world, tracer
        self.threads = []
        self.cur = None
        self.by_ident = {}
        self.main = seams.REAL["allocate_lock"]()
        self.main.acquire()
        self.switches = []
        self.deadlock = None
        self.aborting = False

    def managed(self):
        return _thread.get_ident() in self.by_ident

    def others_runnable(self):
        return any(t for t in self.threads if not t.done and t is not self.cur and t.blocked is None)

    # ---- running
    def run(self, fns, points, first=0):
        """points: {thread index: {(code, where): [(occurrence, to), ...]}}"""
        self.threads = [_T(i, f) for i, f in enumerate(fns)]
        for t in self.threads:
            t.points = points.get(t.idx, {})
        seams.CUR.sched = self
        self.tracer.start(self._event, set(c for p in points.values() for c, _ in p))
        try:
            for t in self.threads:
                _thread.start_new_thread(self._body, (t,))
            self._resume(self.threads[first % len(self.threads)])
            self.main.acquire()
        finally:
            self.tracer.stop()
            seams.CUR.sched = None
        if self.deadlock:
            raise Deadlock(self.deadlock)
        return [t.result for t in self.threads]

    def _body(self, t):
        t.gate.acquire()
        self.by_ident[_thread.get_ident()] = t
        try:
            t.result = t.fn()
        except Abort:
            t.result = ("abort",)
        except BaseException as err:       # results are returned by fn; this is the harness' own failure
            t.result = ("crash", err)
        t.done = True
        del self.by_ident[_thread.get_ident()]
        nxt = self._next(t)
        if nxt is None:
            if any(not x.done for x in self.threads):
                self._dead()
            self.main.release()
        else:
            self._resume(nxt)

    def _resume(self, t):
        self.cur = t
        t.gate.release()

    def _next(self, t):
        n = len(self.threads)
        for i in range(1, n + 1):
            c = self.threads[(t.idx + i) % n]
            if not c.done and c.blocked is None:
                return c
        return None

    def _switch(self, t, to, where):
        self.switches.append((t.idx, where, to.idx))
        self.world.fault("thread_switch")
        self._resume(to)
        t.gate.acquire()
        if self.aborting:
            raise Abort()

    def _event(self, code, where):
        t = self.by_ident.get(_thread.get_ident())
        if t is None or not t.points:
            return
        k = (code, where)
        pts = t.points.get(k)
        if pts is None:
            return
        n = t.counts.get(k, 0) + 1
        t.counts[k] = n
        for occ, to in pts:
            if occ == n:
                dest = self.threads[to % len(self.threads)]
                if dest is t or dest.done or dest.blocked is not None:
                    dest = self._next(t)
                    if dest is None or dest is t:
                        return
                self._switch(t, dest, describe(k))
                return

    # ---- locks
    def block(self, lock):
        t = self.by_ident[_thread.get_ident()]
        t.blocked = lock
        nxt = self._next(t)
        if nxt is None:
            self._dead()
            self.aborting = True
            self.main.release()
            t.gate.acquire()                 # parked for good; the run's process ends soon
        self._switch(t, nxt, "blocked")

    def released(self, lock):
        for t in self.threads:
            if t.blocked is lock:
                t.blocked = None

    def _dead(self):
        self.deadlock = "threads %s wait for locks nobody will release" % [t.idx for t in self.threads if not t.done]


def interleaving_hash(switches):
    return hashlib.sha256(repr(switches).encode()).hexdigest()[:16]


def resolve_points(plan_points, counters, nthreads):
    """plan_points: [[thread, site_frac, occ_frac, to], ...] -> {thread: {site: [(occ, to)]}}"""
    out = {}
    for th, sf, of, to in plan_points:
        if th >= nthreads:
            continue
        r = counters[th].resolve(sf, of)
        if r is None:
            continue
        site, occ = r
        out.setdefault(th, {}).setdefault(site, []).append((occ, to))
    return out


def count_sites(tracer, fn, deep=True):
    """deep: inside the arithmetic too."""
    c = SiteCounter(tracer.event == INSTRUCTION)
    tracer.start(c, None if deep else tracer.outer)
    try:
        return fn(), c
    finally:
        tracer.stop()


_tracers = {}


def tracer(mode):
    from .runner import repo_prefix
    if mode not in _tracers:
        _tracers[mode] = Tracer(repo_prefix(), mode)
    return _tracers[mode]


def learn(build, mode="line", deep=True):
    """build() -> thread functions over fresh shared objects, each returning its result.

    Runs them one after the other. Returns (results, the sites each visited)."""
    tr = tracer(mode)
    seq, counters = [], []
    for fn in build():
        r, c = count_sites(tr, fn, deep)
        seq.append(r)
        counters.append(c)
    return seq, counters


def concurrent(w, fns, counters, switches, mode="line", first=0):
    """Run them as threads, switching where the plan says. Raises Deadlock."""
    s = Sched(w, tracer(mode))
    w.sched_last = s
    conc = s.run(fns, resolve_points(switches, counters, len(fns)), first)
    for r in conc:
        if isinstance(r, tuple) and r and r[0] == "crash":
            raise r[1]
    for sw in s.switches:
        w.log("switch", *sw)
    w.probe("switches", len(s.switches))
    return conc


def interleaved(w, build, switches, mode="line", first=0, deep=True):
    """Both, on fresh objects each. Returns (sequential results, concurrent results)."""
    seq, counters = learn(build, mode, deep)
    return seq, concurrent(w, build(), counters, switches, mode, first)


def gen_switches(rng, nthreads, n):
    return [[rng.randrange(nthreads), cut(rng.random(), 5), cut(rng.random(), 4), rng.randrange(nthreads)]
            for _ in range(n)]


__all__ = ["Sched", "Deadlock", "resolve_points", "count_sites", "interleaving_hash", "CAP", "interleaved",
           "gen_switches", "tracer", "learn", "concurrent"]
