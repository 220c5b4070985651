"""C10: a shared verifier, decrypter, signer or encrypter never mixes up messages."""
import json
from .. import keys as K
from .. import ops as O
from .. import sched as S
from .. import work as W
from ..runner import Property
from ..seams import entropy_op


class C10(Property):
    ID = "C10"
    RUNS = {"quick": 1900, "thorough": 40000}
    RULE = "at least one thread switch inside a call on the shared object; calls and sequence of switch sites"
    STATE_MEASURE = "distinct sequences of (thread, switch site, next thread)"
    REAL_PARTS = ["jwkest", "Cryptodome", "json", "threading"]
    STUBS = ["OS random source", "clock", "thread scheduler (cooperative, seeded)"]
    ASSUMPTIONS = ["threads switch between lines or bytecodes of the library's own code, not inside C functions",
                   "a call may be refused because another is under way; it may not succeed with anything else's result",
                   "one object plays one role: a verifier is not also a signer"]

    def gen(self, rng, index, tier):
        role = rng.choice(["verifier"] * 5 + ["decrypter"] * 3 + ["signer"] * 2 + ["encrypter"] * 2)
        t = rng.choice(["oct", "oct", "RSA", "EC"])
        n = rng.randrange(2, 5)
        ring = []
        crv = rng.choice(["P-256"] * 4 + ["P-384", "P-521"])
        kids = rng.choice(["unique", "unique", "unique", "none", "same", "mixed"])
        while len(ring) < n:
            s = W.gen_ring(rng, 1, types=(t,))[0]
            if t == "EC":
                if s["crv"] != crv:
                    continue
            s["kid"] = {"unique": "k%d" % len(ring), "none": "", "same": "k0",
                        "mixed": rng.choice(["", "k%d" % len(ring)])}[kids]
            if K.material(s) not in [K.material(x) for x in ring]:
                ring.append(s)
        signing = role in ("verifier", "signer")
        alg, enc = (W.sig_alg(rng, ring[0]), None) if signing else W.enc_alg(rng, ring[0], .04)
        if alg == "PS512":
            alg = "PS256"
        if t == "RSA" and alg == "RSA-OAEP-256":
            enc = K.ENC_CBC[0]
        nthreads = rng.choice([2, 2, 2, 3, 3])
        threads = [[self.gen_call(rng, role, ring, alg, enc, ti, j) for j in range(rng.choice([1, 1, 1, 2]))]
                   for ti in range(nthreads)]
        mode = rng.choice(["line", "line", "line", "instr"])
        ms = sum(W.cost(ring[c["k"]], dict(c, enc=c.get("enc") or enc)) for th in threads for c in th) * (2 if mode == "instr" else 1)
        return {"role": role, "ring": ring, "alg": alg, "enc": enc, "threads": threads,
                "config": {"alg": rng.random() < .5 if signing else not signing and role == "encrypter" or rng.random() < .3,
                           "jwk": role == "verifier" and rng.random() < .12, "preset": rng.random() < .2,
                           "typ": rng.random() < .3},
                "text": "shared %d" % rng.randrange(10 ** 6), "mode": mode,
                "first": rng.randrange(nthreads), "deep": ms < 100 and rng.random() < .05,
                "rounds": W.gen_rounds(rng, S, nthreads, ms)}

    def gen_call(self, rng, role, ring, alg, enc, ti, j):
        k = rng.randrange(len(ring))
        c = {"k": k, "text": "text %d/%d/%d" % (ti, j, rng.randrange(10 ** 6)), "n": rng.randrange(1 << 16),
             "keys": rng.choice(["all", "all", "one", "one", "wrong", "set"])}
        if role == "verifier":
            c["alg"] = alg if rng.random() < .85 else W.sig_alg(rng, ring[k])
            if c["alg"] == "PS512":
                c["alg"] = "PS384"
            c["form"] = rng.choice(["compact", "compact", "verbose", "verbose", "flat", "general", "is_jws"])
            c["damage"] = rng.choice([None] * 6 + W.DAMAGE + ["claims", "claims", "claims", "none", "none", "splice", "splice"])
            c["claims"] = rng.randrange(len(ring))
            c["allow_none"] = rng.random() < .3
            c["sigalg"] = rng.choice([None, None, None, "right", "wrong"])
        elif role == "decrypter":
            c["alg"], c["enc"] = (alg, enc) if rng.random() < .7 else W.enc_alg(rng, ring[k])
            if c["alg"] == "RSA-OAEP-256":
                c["enc"] = K.ENC_CBC[0]
            c["damage"] = rng.choice([None] * 6 + W.JDAMAGE + ["splice"])
            c["expect"] = rng.choice([None, None, "right", "wrong"])
        elif role == "signer":
            c["form"] = rng.choice(["compact", "compact", "compact", "flat", "general"])
            c["extra"] = rng.choice([{}, {"x-a": "v%d" % ti}, {"x-%d" % ti: ti, "cty": "text"}, {"typ": "T%d" % ti}])
        else:
            c["cek"] = rng.random() < .2
        return c

    def shrinkable(self, plan):
        return [["rounds"]] + [["rounds", i] for i in range(len(plan["rounds"]))] + [["threads", i] for i in range(len(plan["threads"]))]

    def run(self, plan, w):
        from jwkest import jwk as J
        ring, role = plan["ring"], plan["role"]
        with entropy_op(w, "ring"):
            self.keys = [K.make(s) for s in ring]
            self.strange = [K.make(W.other_signer(s, plan["alg"] if plan["alg"] in K.SIG_ALGS else "")) for s in ring]
        for s, k in zip(self.strange, ring):
            s.kid = k["kid"]
        self.set = J.KEYS()
        for k in self.keys:
            self.set.append(k)
        flat = [(t, j) for t, calls in enumerate(plan["threads"]) for j in range(len(calls))]
        inputs = {}
        for t, j in flat:
            inputs[t, j] = self.prepare(w, plan, plan["threads"][t][j], "in%d/%d" % (t, j))
        for n, (t, j) in enumerate(flat):
            c = plan["threads"][t][j]
            if c.get("damage") == "splice":
                # a message put together from two that are in flight at the same time
                a, b = inputs[t, j].split("."), inputs[flat[(n + 1) % len(flat)]].split(".")
                if len(a) == len(b):
                    for i in ([2], [1], [1, 2])[c["n"] % 3] if role == "verifier" else ([1], [3, 4], [2])[c["n"] % 3]:
                        a[i] = b[i]
                    inputs[t, j] = ".".join(a)
        if role == "verifier":
            for t, j in flat:
                c = plan["threads"][t][j]
                if c["form"] in ("flat", "general"):
                    inputs[t, j] = W.as_json(inputs[t, j], c["form"] == "flat")
        preset = inputs[flat[0]] if plan["config"]["preset"] and role == "decrypter" else None

        def fresh():
            return self.make(plan, preset)
        alone = {}
        for t, j in flat:
            with entropy_op(w, "alone%d/%d" % (t, j)):
                alone[t, j] = O.call(self.do, plan, fresh(), plan["threads"][t][j], inputs[t, j])

        def build(obj, name):
            fns = []
            for t, calls in enumerate(plan["threads"]):
                def fn(t=t, calls=calls):
                    out = []
                    for j, c in enumerate(calls):
                        with entropy_op(w, "%s/%d/%d" % (name, t, j)):
                            out.append(O.call(self.do, plan, obj, c, inputs[t, j]))
                    return out
                fns.append(fn)
            return fns
        _, counters = S.learn(lambda: build(fresh(), "learn"), plan["mode"], plan["deep"])
        schedules, ok_seen = [], 0
        for r, switches in enumerate(plan["rounds"]):
            try:
                conc = S.concurrent(w, build(fresh(), "r%d" % r), counters, switches, plan["mode"], plan["first"])
            except S.Deadlock as err:
                w.violate("deadlock", str(err))
                return {}
            sw = w.sched_last.switches
            schedules.append(S.interleaving_hash(sw))
            w.probe("schedules")
            for t, j in flat:
                c, (ok, got), ref = plan["threads"][t][j], conc[t][j], alone[t, j]
                w.log("result", t, j, ref[0], ok, O.brief(got) if not ok else "")
                if not ok:
                    if ref[0]:
                        w.probe("refused_under_contention")
                    continue
                ok_seen += 1
                bad = self.judge(plan, c, got, ref, preset)
                if bad and ref[0] and self.judge(plan, c, ref[1], ref, preset):
                    w.probe("wrong_alone")
                    continue
                if bad:
                    w.violate(bad[0], "%s, thread %d: %s" % (role, t, bad[1]))
                    return {}
        if ok_seen:
            w.probe("rounds_with_success")
        return {"nontrivial": len(sw) > 0 and ok_seen > 0, "key": json.dumps([role, plan["alg"], plan["enc"], schedules]),
                "interleavings": schedules,
                "sample": [role, plan["alg"], [[c.get("damage") for c in t] for t in plan["threads"]]] + [[a, str(b), c] for a, b, c in sw][:6]}

    def prepare(self, w, plan, c, label):
        spec = plan["ring"][c["k"]]
        if plan["role"] == "verifier":
            with entropy_op(w, label):
                if c["damage"] == "none":
                    return K.b64u(json.dumps({"alg": "none"}).encode()) + "." + K.b64u(c["text"].encode()) + "."
                if c["damage"] == "claims":
                    # signed by one key of the ring in the name of another
                    spec = dict(spec, kid=plan["ring"][c["claims"]]["kid"])
                return W.sig_token(spec, c["alg"], c["text"].encode(), None, c["damage"], c["n"], W.other_signer(spec, c["alg"]))
        if plan["role"] == "decrypter":
            to = spec
            if c["damage"] == "other_key":
                to = W.other_signer(spec, "")
                to["kid"] = spec["kid"]
            return W.enc_token(w, label, to, c["alg"], c["enc"], c["text"].encode(), c["damage"], c["n"])
        return None

    def make(self, plan, preset):
        from jwkest.jws import JWS
        from jwkest.jwe import JWE, factory
        role, cfg = plan["role"], plan["config"]
        if role == "verifier":
            kw = {"alg": plan["alg"]} if cfg["alg"] else {}
            if cfg["jwk"] and kw:
                kw["jwk"] = self.keys[0]
            return JWS(**kw)
        if role == "signer":
            kw = {"typ": "JOSE"} if cfg["typ"] else {}
            return JWS(plan["text"], alg=plan["alg"], **kw)
        if role == "encrypter":
            kw = {"typ": "JOSE"} if cfg["typ"] else {}
            return JWE(plan["text"], alg=plan["alg"], enc=plan["enc"], **kw)
        if preset:
            ok, obj = O.call(factory, preset)
            if ok and obj is not None:
                return obj
        return JWE(**({"alg": plan["alg"], "enc": plan["enc"]} if cfg["alg"] else {}))

    def arg(self, plan, c):
        i = c["k"]
        return {"all": self.keys, "one": [self.keys[i]], "wrong": [self.strange[i]], "set": self.set}[c["keys"]]

    def do(self, plan, obj, c, inp):
        role, keys = plan["role"], self.arg(plan, c)
        if role == "verifier":
            if plan["config"]["jwk"] and c["n"] % 3 == 0:
                keys = None
            kw = {"allow_none": c["allow_none"]}
            if c["sigalg"]:
                kw["sigalg"] = c["alg"] if c["sigalg"] == "right" else "XX256"
            f = c["form"]
            if f == "is_jws":
                return obj.is_jws(inp)
            if f == "compact":
                return obj.verify_compact(inp, keys, **kw)
            if f == "verbose":
                r = obj.verify_compact_verbose(inp, keys, **kw)
                return r["msg"], O.key_material(r["key"]) if "key" in r else None
            return obj.verify_json(inp, keys, **kw)
        if role == "decrypter":
            kw = {}
            if c["expect"]:
                kw["alg"] = c["alg"] if c["expect"] == "right" else "XX"
            if plan["config"]["preset"] and c["n"] % 2:
                return obj.decrypt(None, keys, **kw)
            return obj.decrypt(inp, keys, **kw)
        if role == "signer":
            if c["keys"] in ("all", "set"):
                keys = [self.keys[c["k"]]]
            if c["form"] == "compact":
                return obj.sign_compact(keys, protected=dict(c["extra"]))
            d = json.loads(obj.sign_json(keys, flatten=c["form"] == "flat", headers=[(dict(c["extra"], alg=plan["alg"]), {"u": c["n"]})]))
            s = d if c["form"] == "flat" else d["signatures"][0]
            if s["header"] != {"u": c["n"]} or (c["form"] == "general" and len(d["signatures"]) != 1):
                return "mixed: %r" % (d,)
            return ".".join([s["protected"], d["payload"], s["signature"]])
        kw = {}
        if c["keys"] in ("all", "set"):
            keys = [self.keys[c["k"]]]
        if c["cek"]:
            kw["cek"] = self.cek(plan, c)
        return obj.encrypt(keys, **kw)

    def cek(self, plan, c):
        import hashlib
        return hashlib.sha512(c["text"].encode()).digest()[:K.CEKLEN[plan["enc"]]]

    def judge(self, plan, c, got, ref, preset):
        role = plan["role"]
        spec = plan["ring"][c["k"]]
        if c["keys"] == "wrong" and role in ("signer", "encrypter"):
            spec = dict(W.other_signer(spec, plan["alg"] if role == "signer" else ""), kid=spec["kid"])
        if not ref[0]:
            return ("accepted-under-contention", "a call that is refused alone (%s, damage %s) gave %s" % (
                O.brief(ref[1]), c.get("damage"), O.brief(got)))
        if role in ("verifier", "decrypter"):
            if not O.same(got, ref[1]):
                return ("mixed-up", "gave %s, alone it gives %s" % (O.brief(got), O.brief(ref[1])))
            return None
        if role == "signer":
            extra = dict(c["extra"])
            if plan["config"]["typ"] and c["form"] == "compact":
                extra["typ"] = "JOSE"
            bad = W.check_signed(spec, plan["alg"], got, plan["text"].encode(), extra)
            if not bad and W.read_signed(got)[0] != W.read_signed(ref[1])[0]:
                bad = "header %r, alone %r" % (W.read_signed(got)[0], W.read_signed(ref[1])[0])
            return ("mixed-up", bad) if bad else None
        pt = plan["text"].encode()
        h = [dict((k, v) for k, v in json.loads(K.unb64u(x.split(".")[0])).items() if k not in ("epk", "apu", "apv"))
             for x in (got, ref[1])]
        bad = None
        if c["cek"] and not plan["alg"].startswith("ECDH"):
            p = got.split(".")
            o, r = O.call(O.content_decrypt, plan["enc"], self.cek(plan, c), K.unb64u(p[2]), p[0].encode(),
                          K.unb64u(p[3]), K.unb64u(p[4]))
            if not o or r != pt:
                bad = "the token does not open with the key given for it: %r" % (r,)
        else:
            bad = W.check_encrypted(spec, plan["alg"], plan["enc"], got, pt)
        if not bad and h[0] != h[1]:
            bad = "header %r, alone %r" % tuple(h)
        return ("mixed-up", bad) if bad else None


PROP = C10()
