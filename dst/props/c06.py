"""C06: loading a key set is all or nothing."""
import json
from .. import keys as K
from .. import netops as N
from .. import ops as O
from .. import sched as S
from .. import work as W
from ..net import Net
from ..runner import Property
from ..seams import entropy_op, SimHang
from ..trace import Striker, describe
from ..keys import cut

# entries no key can be made of
BAD = [{}, {"kid": "x"}, {"kty": "EC", "crv": "P-999", "x": "AA", "y": "AA"}, {"kty": "EC", "crv": "P-256", "x": "", "y": "AA"},
       {"kty": "EC", "crv": "P-256", "y": "AAAA"}, {"kty": "RSA", "n": "A", "e": "AQAB"}, {"kty": "oct", "k": "A"},
       {"kty": "oct", "k": "**"}, {"kty": "RSA", "x5c": ["AAAA"]}, {"kty": "RSA", "n": 5, "e": 3}, None, 7, "text", [],
       {"kty": "RSA", "n": "AA", "e": "AA"},
       # a certificate that is not the one its thumbprint names; private members that are not the key's
       {"kty": "RSA", "x5c": ["".join(K.POOL["rsa"][K.RSA1024[0]]["cert"].split("-----")[2].split())], "x5t": "AAAA"},
       dict(K.jwk({"t": "RSA", "i": K.RSA1024[0], "priv": True}), d="AQAB"),
       dict(K.jwk({"t": "RSA", "i": K.RSA1024[0], "priv": True}), p="AQAB")]


def entry(spec):
    if spec["t"] == "OKP":  # a type the library does not know, held as it came
        return {"kty": "OKP", "crv": "Ed25519", "x": spec["x"], "kid": spec["kid"]}
    d = K.jwk(spec)
    if spec.get("x5c"):
        d = {"kty": "RSA", "x5c": ["".join(K.POOL["rsa"][spec["i"]]["cert"].split("-----")[2].split())]}
        if spec.get("kid"):
            d["kid"] = spec["kid"]
    return d


class C06(Property):
    ID = "C06"
    RUNS = {"quick": 6000, "thorough": 60000}
    RULE = ("scenario (bad entry, truncation, network fault, memory shortage or interruption at a point, threads) with its "
            "parameters; non-trivial when a load failed or a thread switch happened, and a load succeeded")
    STATE_MEASURE = "distinct (scenario, entry point, kinds of keys, fault kind and position or interleaving) tuples"
    REAL_PARTS = ["jwkest", "Cryptodome", "requests", "urllib3", "http.client", "json"]
    STUBS = ["OS random source", "clock", "network", "thread scheduler"]
    ASSUMPTIONS = ["a memory shortage or interruption strikes between lines or bytecodes of the library's own code",
                   "struck after the last key was added, the load may count as done although it raises"]

    def gen_keys(self, rng, n):
        out = []
        for i in range(n):
            t = rng.choice(["oct", "oct", "oct", "EC", "EC", "RSA"])
            s = {"t": t, "kid": rng.choice(["", "k%d" % rng.randrange(4), "same"]), "priv": rng.random() < .4,
                 "use": rng.choice(["", "", "sig", "enc"])}
            if t == "RSA":
                s["i"] = rng.choice(K.RSA1024)
                s["x5c"] = rng.random() < .5
                if s["x5c"]:
                    s["use"] = ""
            elif t == "EC":
                s.update(crv=rng.choice(K.CURVES), cls=rng.choice(["normal", "xzero", "yzero"]))
                s["i"] = rng.randrange(len(K.POOL["ec"][s["crv"]][s["cls"]]))
            else:
                s["k"] = K.rand_oct(rng, rng.choice([1, 16, 32]))
                s["priv"] = True
            out.append(s)
        return out

    def gen(self, rng, index, tier):
        sc = rng.choice(["bad"] * 3 + ["cut"] * 2 + ["net"] * 2 + ["strike"] * 4 + ["threads"] * 4)
        plan = {"scenario": sc, "before": self.gen_keys(rng, rng.choice([0, 1, 2])), "keys": self.gen_keys(rng, rng.randrange(1, 6)),
                "via": rng.choice(["dict", "jwks", "jwks", "url"])}
        n = len(plan["keys"])
        if sc == "bad":
            plan["bad"] = [[rng.randrange(n + 1), rng.randrange(len(BAD))] for _ in range(3)]
            plan["add"] = rng.randrange(len(BAD))
        elif sc == "cut":
            plan["via"] = "jwks"
            plan["at"] = [cut(rng.random(), 5) for _ in range(5)]
        elif sc == "net":
            plan["via"] = "url"
            plan["faults"] = [N.gen_fault(rng) for _ in range(4)]
            plan["framing"] = rng.choice(["length", "chunked", "close", "length-keepalive"])
            plan["timeout"] = rng.choice([None, 3])
            if rng.random() < .25:
                plan["stall"] = cut(rng.random() * .9, 3)
        elif sc == "strike":
            plan["points"] = [[cut(rng.random(), 4), cut(rng.random(), 4), rng.choice(["KeyboardInterrupt", "MemoryError"])]
                              for _ in range(4)]
            plan["mode"] = rng.choice(["line", "line", "instr"])
        else:
            roles = [{"r": "load"}]
            for _ in range(rng.choice([1, 1, 2])):
                roles.append({"r": rng.choice(["load2", "iter", "dump", "kids", "by_kid", "getitem", "len", "as_dict", "list",
                                               "types"]), "kty": rng.choice(["RSA", "EC", "oct"]),
                              "kid": "k%d" % rng.randrange(4), "n": rng.choice([1, 2, 3])})
            plan.update(roles=roles, other=self.gen_keys(rng, rng.randrange(1, 4)), mode=rng.choice(["line", "instr", "instr"]),
                        rounds=W.gen_rounds(rng, S, len(roles), 8, 60, 6), first=rng.randrange(len(roles)))
            plan["via"] = rng.choice(["dict", "jwks"])
        if sc != "threads" and rng.random() < .2:
            plan["keys"].insert(rng.randrange(n + 1), {"t": "OKP", "x": rng.choice(["AAAA", "AQAB"]), "kid": rng.choice(["", "k1", "same"])})
        if rng.random() < .15:  # the same key twice in the answer, or already there
            plan["keys"].insert(rng.randrange(n + 1), dict(rng.choice(plan["keys"] + plan["before"])))
        if rng.random() < .15:
            rng.choice(plan["keys"])["kid"] = rng.choice(["schl\u00fcssel", "\u9375", "k 1/&?#", "\U0001f511"])
        return plan

    def shrinkable(self, plan):
        return [[k] for k in ("rounds", "faults", "points", "bad", "at", "keys", "before") if k in plan]

    # ----------------------------------------------------------------
    def want(self, specs):
        return [("OKP/" + s["x"] if s["t"] == "OKP" else K.material(s), s.get("kid", "")) for s in specs]

    def have(self, keys):
        out = []
        for k in keys:
            kid = k.kid if isinstance(k.kid, str) else k.kid.decode()
            x = k.extra_args.get("x") if k.kty == "OKP" else None
            out.append(("OKP/" + (x if isinstance(x, str) else x.decode()) if x else O.key_material(k), kid))
        return out

    def load(self, w, ks, plan, entries, text=None):
        via = plan["via"]
        if via == "dict":
            return ks.load_dict({"keys": entries})
        if via == "jwks":
            return ks.load_jwks(json.dumps({"keys": entries}) if text is None else text)
        kw = {"timeout": plan["timeout"]} if plan.get("timeout") else {}
        self.body = json.dumps({"keys": entries}).encode()
        return ks.load_from_url(N.JWKS, **kw)

    def run(self, plan, w):
        from jwkest.jwk import KEYS
        net = w.net = Net(w)
        srv = N.KeyServer(net, {"keys": []})
        self.body = b""
        inner = srv.handle

        def handle(host, method, path, hdrs):
            if path == "/jwks" and not (srv.fault and srv.fault["kind"] == "loop"):
                if srv.fault and srv.fault["kind"] in N.BAD_ANSWER:
                    w.fault("server_" + srv.fault["kind"])
                return N.answer(srv.fault, self.body, "application/json", srv.framing, srv.encoding)
            return inner(host, method, path, hdrs)
        for h in net.hosts.values():
            h.handler = handle
        self.srv = srv
        ks = KEYS()
        if plan["before"]:
            ks.load_dict({"keys": [entry(s) for s in plan["before"]]})
        self.base = self.have(ks.keys())
        if self.base != self.want(plan["before"]):
            w.violate("wrong-set", "loading %r gave %r" % (self.want(plan["before"]), self.base))
            return {}
        good = [entry(s) for s in plan["keys"]]
        self.full = self.base + self.want(plan["keys"])
        self.failed = 0
        extra = getattr(self, "do_" + plan["scenario"])(plan, w, ks, good) or []
        if not w.violation and plan["scenario"] != "threads":
            srv.fault, net.plans[:] = None, []
            ok, err = O.call(self.load, w, ks, plan, good)
            have = self.have(ks.keys())
            w.log("retry", ok, len(have))
            if not ok:
                w.violate("retry-failed", "a good key set no longer loads after a failed one: %r" % (err,))
            elif have != self.full:
                w.violate("retry-differs", "after a failed and a successful load the set holds %r, not %r" % (have, self.full))
        return {"nontrivial": bool(self.failed), "key": json.dumps([plan["scenario"], plan["via"], extra, plan["keys"]]),
                "interleavings": [json.dumps([plan["scenario"], plan["via"], [s["t"] for s in plan["keys"]], x]) for x in
                                  (extra[1] if plan["scenario"] == "threads" and extra else [extra])],
                "sample": [plan["scenario"], plan["via"], extra]}

    def attempt(self, w, ks, plan, fn, what, must_fail, may_commit=False, full=None):
        """Run one load and compare the set with what it may hold."""
        full = self.full if full is None else full
        objs = list(ks.keys())
        try:
            ok, err = O.call(fn)
        except KeyboardInterrupt as e:
            ok, err = False, e
        except SimHang as e:
            w.violate("hang", what)
            return False
        now = list(ks.keys())
        w.log("attempt", what, ok, O.brief(err), len(objs), "->", len(now))
        if ok and (must_fail() if callable(must_fail) else must_fail):
            w.violate("bad-set-accepted", "%s: no error; the set holds %r" % (what, self.have(now)))
        elif ok:
            if self.have(now) != full:
                w.violate("wrong-set", "%s: the set holds %r, not %r" % (what, self.have(now), full))
        elif not (len(now) == len(objs) and all(a is b for a, b in zip(now, objs))):
            try:
                have = self.have(now)
            except Exception as e:
                have = repr(e)
            if not (may_commit and have == full):
                w.violate("half-loaded", "%s raised %r and left %r, before it was %r" % (what, err, have, self.base))
        if not ok:
            self.failed += 1
        return ok

    def do_bad(self, plan, w, ks, good):
        for pos, kind in plan["bad"]:
            entries = list(good)
            entries.insert(min(pos, len(entries)), BAD[kind])
            w.fault("bad_entry")
            self.attempt(w, ks, plan, lambda: self.load(w, ks, plan, entries), "bad entry %r at %d" % (BAD[kind], pos), True)
            if w.violation:
                return
        b = BAD[plan["add"]]
        if isinstance(b, dict):
            self.attempt(w, ks, plan, lambda: ks.add(b), "add(%r)" % (b,), True)
        return [plan["bad"]]

    def do_cut(self, plan, w, ks, good):
        text = json.dumps({"keys": good})
        for f in plan["at"]:
            n = int(f * len(text))
            w.fault("truncated_text")
            self.attempt(w, ks, plan, lambda: self.load(w, ks, plan, None, text[:n]), "first %d of %d characters" % (n, len(text)),
                         True)
            if w.violation:
                return
        return [[int(f * 50) for f in plan["at"]]]

    def do_net(self, plan, w, ks, good):
        self.srv.framing = plan["framing"]
        if plan.get("stall") is not None and plan["timeout"]:
            self.srv.fault = None
            t0 = self.srv.tries()
            self.srv.net.plans[:] = [{"at": "read", "kind": "stall", "where": "body", "frac": plan["stall"]}]
            self.attempt(w, ks, plan, lambda: self.load(w, ks, plan, good), "stalled server",
                         lambda: self.srv.tries() == t0 + 1)
        for f in plan["faults"]:
            if w.violation:
                return
            self.srv.begin({"fault": f, "framing": plan["framing"], "redirect": 0})
            bad = self.srv.spoiled
            before = self.full
            ok = self.attempt(w, ks, plan, lambda: self.load(w, ks, plan, good), "network fault %s" % json.dumps(f), bad)
            if ok:
                self.full = before + self.want(plan["keys"])
        return [[f["kind"] for f in plan["faults"]], plan["framing"], plan.get("stall") is not None]

    def do_strike(self, plan, w, ks, good):
        from jwkest.jwk import KEYS
        tr = S.tracer(plan["mode"])
        scratch = KEYS()
        scratch.load_dict({"keys": [entry(s) for s in plan["before"]]})
        _, cnt = S.count_sites(tr, lambda: self.load(w, scratch, plan, good))
        sites = []
        for sf, of, exc in plan["points"]:
            r = cnt.resolve(sf, of)
            if r is None:
                continue
            st = Striker(r[0], r[1], {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[exc]("struck"))

            def fn():
                tr.start(st)
                try:
                    return self.load(w, ks, plan, good)
                finally:
                    tr.stop()
            n = len(ks.keys())
            ok = self.attempt(w, ks, plan, fn, "%s at %s #%d" % (exc, describe(r[0]), r[1]), False, may_commit=True)
            if w.violation:
                return
            if st.fired:
                w.fault("interrupt" if exc == "KeyboardInterrupt" else "memory_error")
            sites.append(describe(r[0]))
            if len(ks.keys()) != n:
                self.full = self.full + self.want(plan["keys"])
        return sites

    def do_threads(self, plan, w, ks, good):
        from jwkest.jwk import KEYS
        other = [entry(s) for s in plan["other"]]
        base = self.base
        new, new2 = self.want(plan["keys"]), self.want(plan["other"])
        sets = []

        def build():
            s = KEYS()
            s.load_dict({"keys": [entry(x) for x in plan["before"]]})
            sets.append(s)
            fns = []
            for r in plan["roles"]:
                fns.append(lambda r=r: [self.role(w, s, plan, r, good, other) for _ in range(r.get("n", 1))])
            return fns
        seq, counters = S.learn(build, plan["mode"])
        schedules = []
        for switches in plan["rounds"]:
            try:
                conc = S.concurrent(w, build(), counters, switches, plan["mode"], plan["first"])
            except S.Deadlock as err:
                w.violate("deadlock", str(err))
                break
            self.failed += len(w.sched_last.switches)
            schedules.append(S.interleaving_hash(w.sched_last.switches))
            self.judge_threads(w, plan, conc, sets[-1], base, new, new2)
            if w.violation:
                break
        return [[r["r"] for r in plan["roles"]], schedules]

    def judge_threads(self, w, plan, conc, held, base, new, new2):
        final = self.have(held.keys())
        # a linear order of whole loads: base, then the loads in either order
        n2 = sum(r["n"] for r in plan["roles"] if r["r"] == "load2")
        finals = [base + sum(([new, new2][i] for i in order), []) for order in perms([0] + [1] * n2)]
        if any(ok is False and plan["roles"][i]["r"].startswith("load") for i, res in enumerate(conc) for ok, _ in res):
            return w.violate("load-failed", "%r" % (conc,))
        if final not in finals:
            return w.violate("lost-or-mixed", "after whole loads of %r and %r x%d over %r the set holds %r" % (
                new, new2, n2, base, final))
        states = [base] + [base + sum(([new, new2][i] for i in order[:k]), [])
                           for order in perms([0] + [1] * n2) for k in range(1, n2 + 2)]
        for r, res in zip(plan["roles"], conc):
            for ok, got in res:
                w.log("thread", r["r"], ok, O.brief(got))
                if r["r"].startswith("load"):
                    continue
                if not ok:
                    w.violate("reader-raised", "%s raised %r while another thread loaded keys" % (r["r"], got))
                elif not any(got == view(r, st) for st in states):
                    w.violate("partial-view", "%s saw %r, a part of a load" % (r["r"], got))

    def role(self, w, s, plan, r, good, other):
        k = r["r"]
        if k == "load":
            return O.call(self.load, w, s, plan, good)
        if k == "load2":
            return O.call(self.load, w, s, plan, other)

        def read():
            if k == "iter":
                return self.have([x for x in s])
            if k == "list":
                return self.have(list(s.keys()))
            if k == "dump":
                return [(dump_material(d), d.get("kid", "")) for d in json.loads(s.dump_jwks())["keys"]]
            if k == "kids":
                return [x if isinstance(x, str) else x.decode() for x in s.kids()]
            if k == "by_kid":
                return self.have(s.by_kid(r["kid"]))
            if k == "getitem":
                return self.have(s[r["kty"]])
            if k == "len":
                return len(s)
            if k == "types":
                return sorted(s.key_types())
            return dict((t, self.have(v)) for t, v in s.as_dict().items())
        return O.call(read)


def view(r, st):
    """What a reader of role r sees in state st."""
    k = r["r"]
    if k in ("iter", "list", "dump"):
        return list(st)
    if k == "kids":
        return [kid for _, kid in st if kid]
    if k == "by_kid":
        return [x for x in st if x[1] == r["kid"]]
    if k == "getitem":
        return [x for x in st if x[0].split("/")[0].lower() == r["kty"].lower()]
    if k == "len":
        return len(st)
    if k == "types":
        return sorted(set(x[0].split("/")[0] for x in st))
    out = {}
    for x in st:
        out.setdefault(x[0].split("/")[0], []).append(x)
    return out


def dump_material(d):
    if d["kty"] == "oct":
        return "oct/" + K.unb64u(d["k"]).hex()
    if d["kty"] == "EC":
        return "EC/%s/%x" % (d["crv"], int.from_bytes(K.unb64u(d["x"]), "big"))
    n = int.from_bytes(K.unb64u(d["n"]), "big")
    for i, k in enumerate(K.POOL["rsa"]):
        if int(k["n"], 16) == n:
            return "RSA/%d" % i
    return "RSA/n=%x" % n


def perms(items):
    if len(items) <= 1:
        return [list(items)]
    out = []
    for i, x in enumerate(items):
        for p in perms(items[:i] + items[i + 1:]):
            if [x] + p not in out:
                out.append([x] + p)
    return out


PROP = C06()
