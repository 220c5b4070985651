"""Points inside the library where the simulator may switch threads or strike with an exception.

sys.monitoring delivers LINE or INSTRUCTION events for the code objects of /repo/src/jwkest only.  A *site* is
(code object, line or offset).  Points are named by site and occurrence, so that a plan addresses rare sites in
the outer layers as readily as hot loops in the arithmetic.
"""
import dis
import gc
import sys
import types
import _thread

mon = sys.monitoring
TOOL = 3
INSTRUCTION = mon.events.INSTRUCTION
CAP = 40               # occurrences of one site that are counted per thread


def code_objects(prefix):
    seen = {}
    stack = []
    for o in gc.get_objects():
        c = getattr(o, "__code__", None) if isinstance(o, types.FunctionType) else None
        if c is not None and c.co_filename.startswith(prefix):
            stack.append(c)
    while stack:
        c = stack.pop()
        if id(c) in seen:
            continue
        seen[id(c)] = c
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                stack.append(k)
    return sorted(seen.values(), key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))


ARITHMETIC = ("elliptic.py", "aes_gcm.py", "curves.py")


class Tracer(object):
    """mode: "line" or "instr".  on_site(key) is called for each counted event of the current thread."""

    def __init__(self, prefix, mode="line"):
        self.prefix = prefix
        self.event = mon.events.INSTRUCTION if mode == "instr" else mon.events.LINE
        self.codes = code_objects(prefix)
        self.outer = set(c for c in self.codes if not c.co_filename.endswith(ARITHMETIC))
        self.handler = None
        self.budget = None          # total events before Budget is raised
        self.total = 0
        self.active = False
        self.suspended = 0

    def start(self, handler, only=None):
        """only: watch just these code objects (the handler cares for no others)."""
        self.handler = handler
        self.watched = self.codes if only is None else [c for c in self.codes if c in only]
        try:
            mon.use_tool_id(TOOL, "dst")
        except ValueError:
            pass
        mon.register_callback(TOOL, self.event, self._cb)
        for c in self.watched:
            mon.set_local_events(TOOL, c, self.event)
        mon.restart_events()
        self.active = True

    def stop(self):
        self.active = False
        self.handler = None
        for c in self.watched:
            mon.set_local_events(TOOL, c, 0)
        mon.register_callback(TOOL, self.event, None)
        try:
            mon.free_tool_id(TOOL)
        except ValueError:
            pass

    def _cb(self, code, where):
        h = self.handler
        if h is not None:
            return h(code, where)


class Budget(BaseException):
    pass


class StepBudget(object):
    """Decides "does not terminate" by counting executed lines of the library, not by any clock."""

    def __init__(self, limit):
        self.limit, self.n = limit, 0

    def __call__(self, code, where):
        self.n += 1
        if self.n > self.limit:
            raise Budget("more than %d lines executed, now in %s" % (self.limit, code.co_qualname))


UNSTABLE = {dis.opmap[n] for n in ("PUSH_EXC_INFO",)}
MUTATORS = {"append", "extend", "update", "pop", "popitem", "clear", "insert", "remove", "setdefault", "add", "discard", "__setattr__",
            "setattr", "sort"}
_stores = {}


def stores(code):
    """The lines and the instruction offsets at which code writes to something others may see."""
    got = _stores.get(code)
    if got is None:
        lines, offs, line, mutating = set(), set(), None, False
        for i in dis.get_instructions(code):
            if i.positions and i.positions.lineno != line:
                line, mutating = i.positions.lineno, False
            if i.opname in ("STORE_ATTR", "STORE_SUBSCR", "STORE_GLOBAL", "DELETE_ATTR", "DELETE_SUBSCR", "STORE_SLICE"):
                lines.add(line)
                offs.add(i.offset)
            elif i.argval in MUTATORS and i.opname.startswith("LOAD_"):
                mutating = True
            elif mutating and i.opname.startswith("CALL"):
                lines.add(line)
                offs.add(i.offset)
        got = _stores[code] = (lines, offs)
    return got


class SiteCounter(object):
    """First pass: which sites a piece of work visits, in order of first visit.

    A site reached straight from a write to an attribute, an element or a container is hot: what was written is not
    yet used there."""

    def __init__(self, instr=False):
        self.order = []
        self.count = {}
        self.groups = None
        self.kind = int(instr)
        self.hot = {}
        self.hot_order = []
        self.wrote = False

    def __call__(self, code, where):
        k = (code, where)
        if self.wrote:
            occ = self.count.get(k, 0) + 1
            at = self.hot.get(k)
            if at is None:
                self.hot[k] = [occ]
                self.hot_order.append(k)
            elif len(at) < CAP and occ <= CAP and at[-1] != occ:
                at.append(occ)
        self.wrote = where in stores(code)[self.kind]
        n = self.count.get(k)
        if n is None:
            self.count[k] = 1
            self.order.append(k)
        elif n < CAP:
            self.count[k] = n + 1

    def resolve(self, site_frac, occ_frac):
        """Lowest quarter of site_frac: every hot site has the same share.  The rest, lower half: every function visited
        has the same share, and every site the same share of its function's.  Upper half: every site has the same share."""
        if not self.order:
            return None
        if site_frac < .25 and self.hot_order:
            k = self.hot_order[min(len(self.hot_order) - 1, int(site_frac * 4 * len(self.hot_order)))]
            at = self.hot[k]
            return k, at[min(len(at) - 1, int(occ_frac * len(at)))]
        site_frac = (site_frac - .25) / .75 if site_frac >= .25 else site_frac * 4
        if site_frac >= .5:
            k = self.order[min(len(self.order) - 1, int((site_frac - .5) * 2 * len(self.order)))]
            return k, 1 + min(self.count[k] - 1, int(occ_frac * self.count[k]))
        site_frac *= 2
        if self.groups is None:
            by_code = {}
            for k in self.order:
                by_code.setdefault(k[0], []).append(k)
            self.groups = list(by_code.values())
        groups = self.groups
        f = site_frac * len(groups)
        g = groups[min(len(groups) - 1, int(f))]
        k = g[min(len(g) - 1, int((f - int(f)) * len(g)))]
        return k, 1 + min(self.count[k] - 1, int(occ_frac * self.count[k]))


class Striker(object):
    """Second pass: raise exc at the given occurrence of the given site, or as soon after as the interpreter can stand it.

    Nothing is raised at the entry of an exception handler, before the interpreter has noted what it handles: no signal is
    taken and nothing allocated there, and an exception from the monitor would unbalance the frame's stack (and leak it)."""

    def __init__(self, site, occurrence, exc):
        self.site, self.left, self.exc = site, occurrence, exc
        self.fired = None
        self.due = False

    def __call__(self, code, where):
        if self.left and (code, where) == self.site:
            self.left -= 1
            if not self.left:
                self.due = True
        if self.due and code.co_code[sys._getframe(2).f_lasti] not in UNSTABLE:
            self.due = False
            self.fired = "%s:%s" % (code.co_qualname, where)
            raise self.exc


def describe(site):
    return "%s+%s" % (site[0].co_qualname, site[1])


ident = _thread.get_ident
