"""C04: secrets come fresh from the operating system's entropy."""
import json
import os
import pickle
import random
import struct
from .. import keys as K
from .. import ops as O
from .. import sched as S
from .. import seams
from .. import work as W
from ..runner import Property
from ..work import run_script
from ..seams import entropy_op
from ..keys import cut

CURVE_ALG = {"P-256": "ES256", "P-384": "ES384", "P-521": "ES512"}


class Subject(object):
    """One kind of operation that must draw secrets. do() returns its product; secrets() takes it apart."""

    def __init__(self, spec, key=None, obj=None):
        self.s = spec
        self.key = key or (K.make(spec["key"]) if "key" in spec else None)
        self.obj = obj

    def do(self, tag=""):
        from jwkest.jws import JWS
        from jwkest.jwe import JWE
        from jwkest.jwk import ECKey
        from jwkest.ecc import NISTEllipticCurve
        s = self.s
        if s["op"] == "sign":
            return (self.obj or JWS("m" + tag, alg=s["alg"])).sign_compact([self.key])
        if s["op"] == "enc":
            return (self.obj or JWE("m" + tag, alg=s["alg"], enc=s["enc"])).encrypt([self.key])
        if s["op"] == "keygen":
            k = (self.obj or ECKey()).load_key(NISTEllipticCurve.by_name(s["crv"]))
            return k.get_key(private=True)
        ok, out, err, _ = run_script("gen_symkey.py", ["-n", str(s["n"])] + (["--kid", "k"] if s.get("kid") else []))
        if not ok:
            raise err if isinstance(err, Exception) else RuntimeError("gen_symkey: %r" % (err,))
        return out

    def fresh_obj(self):
        from jwkest.jws import JWS
        from jwkest.jwe import JWE
        from jwkest.jwk import ECKey
        s = self.s
        if s["op"] == "sign":
            return JWS("m", alg=s["alg"])
        if s["op"] == "enc":
            return JWE("m", alg=s["alg"], enc=s["enc"])
        if s["op"] == "keygen":
            return ECKey()
        return None

    def secrets(self, product):
        """{name: (value bytes, bits that must vary)}"""
        s = self.s
        if s["op"] == "keygen":
            w = K.CBYTES[s["crv"]]
            return {"private key": (K.i2b(product, w), K.CBITS[s["crv"]])}
        if s["op"] == "symkey":
            k = K.unb64u(json.loads(product)["keys"][0]["k"])
            return {"symmetric key": (k, 0)}
        if s["op"] == "sign":
            if s["alg"] not in K.ES:
                return {}
            crv = K.ES[s["alg"]]
            n, wd = K.ORDER[crv], K.CBYTES[crv]
            si, sig = product.rsplit(".", 1)
            sig = K.unb64u(sig)
            r, t = int.from_bytes(sig[:wd], "big"), int.from_bytes(sig[wd:], "big")
            h = int.from_bytes(O.HLIB[s["alg"][2:]](si.encode()).digest(), "big")
            k = pow(t, -1, n) * (h + r * K.ec_entry(s["key"])[0]) % n
            return {"nonce": (K.i2b(k, wd), K.CBITS[crv])}
        o = O.ref_open(s["key"], product)
        out = {"iv": (o.iv, 8 * len(o.iv)), "content key": (o.cek, 8 * len(o.cek))}
        if s["key"]["t"] == "EC":
            e = o.header["epk"]
            out["ephemeral key"] = (K.unb64u(e["x"]) + K.unb64u(e["y"]), 0)
            if s["alg"] != "ECDH-ES":
                out["content key"] = (o.cek, 8 * len(o.cek))
        return out

    def need(self):
        """Bytes of entropy the operation cannot do without."""
        s = self.s
        if s["op"] == "keygen":
            return K.CBITS[s["crv"]] // 8
        if s["op"] == "symkey":
            return s["n"] * 5 // 8
        if s["op"] == "sign":
            return K.CBITS[K.ES[s["alg"]]] // 8 if s["alg"] in K.ES else 0
        iv = 12 if s["enc"].endswith("GCM") else 16
        if s["key"]["t"] == "EC":
            cek = 0 if s["alg"] == "ECDH-ES" else K.CEKLEN[s["enc"]]
            return iv + cek + K.CBITS[s["key"]["crv"]] // 8
        return iv + K.CEKLEN[s["enc"]]


class C04(Property):
    ID = "C04"
    RUNS = {"quick": 1600, "thorough": 24000}
    RULE = ("scenario (fork, failure, reuse, threads, statistics) on one operation kind (algorithm, encryption, curve, "
            "key); non-trivial when secrets were produced and compared or a draw was made to fail")
    STATE_MEASURE = "distinct (scenario, operation kind, fault position or interleaving) tuples"
    ASSUMPTIONS = ["the simulated random source is itself uniform; bias finer than one stuck bit in 48 samples, or half "
                   "a value repeated, is not seen", "signing salts and encryption paddings are only covered by the failure clause"]
    STUBS = ["OS random source", "clock"]

    def gen_subject(self, rng, heavy=False):
        r = rng.random()
        if r < .3:
            alg = rng.choice(["ES256"] * 3 + ["ES384", "ES512"])
            return {"op": "sign", "alg": alg, "key": K.sig_key(rng, alg)}
        if r < .75:
            alg = rng.choice(list(K.JWE_ALGS))
            key = K.enc_key(rng, alg)
            key["form"] = "obj"
            enc = rng.choice(K.ENC_GCM if heavy or rng.random() < .2 else K.ENC_CBC)
            return {"op": "enc", "alg": alg, "enc": enc, "key": key}
        if r < .92:
            return {"op": "keygen", "crv": rng.choice(["P-256"] * 2 + ["P-384", "P-521"])}
        return {"op": "symkey", "n": rng.choice([16, 32, 48, 64]), "kid": rng.random() < .5}

    def gen(self, rng, index, tier):
        sc = rng.choice(["fork"] * 4 + ["fail"] * 4 + ["reuse"] * 3 + ["threads"] * 3 + ["stats"])
        plan = {"scenario": sc, "app": rng.randrange(1 << 20)}
        if sc == "stats":
            s = self.gen_subject(rng)
            if s["op"] == "enc" and s["enc"].endswith("GCM") and rng.random() < .9:
                s["enc"] = rng.choice(K.ENC_CBC)
            plan["subject"] = s
        elif sc == "fail":
            if rng.random() < .2:
                alg = rng.choice(["PS256", "PS384", "RS256", "RS512"])
                plan["subject"] = {"op": "sign", "alg": alg, "key": K.sig_key(rng, alg)}
            else:
                plan["subject"] = self.gen_subject(rng)
            plan["at"] = [0.0, 0.999] + [cut(rng.random(), 4) for _ in range(3)]
            plan["exc"] = rng.choice(["OSError", "NotImplementedError"])
            plan["once"] = rng.random() < .5
        elif sc == "threads":
            s = self.gen_subject(rng)
            while s["op"] == "symkey" or (s["op"] == "enc" and s["enc"].endswith("GCM")):
                s = self.gen_subject(rng)
            n = rng.choice([2, 2, 3])
            ms = n * (30 if s["op"] == "keygen" else W.cost(s["key"], s))
            plan.update(subject=s, n=n, shared_obj=rng.random() < .6, mode=rng.choice(["line", "line", "instr"]),
                        rounds=W.gen_rounds(rng, S, n, ms, 240, 16), first=rng.randrange(n))
        elif sc == "reuse":
            plan.update(subject=self.gen_subject(rng), n=rng.choice([2, 3]))
            plan["between"] = [rng.choice([None, "receive", "receive", "rsa", "damaged"]) for _ in range(plan["n"])]
        else:
            plan.update(subject=self.gen_subject(rng), warm=rng.choice([0, 1, 3]))
        return plan

    def shrinkable(self, plan):
        return [p for p in (["rounds"], ["at"]) if p[0] in plan] + [["rounds", i] for i in range(len(plan.get("rounds", [])))]

    # ---------------------------------------------------------------- checks
    def distinct(self, w, subj, products, what):
        """No secret of one product may occur in another; and none may be made of two equal halves."""
        seen = {}
        for i, p in enumerate(products):
            for name, (v, bits) in subj.secrets(p).items():
                if name == "symmetric key" and len(v) != subj.s["n"]:
                    return w.violate("short-secret", "symmetric key has %d characters, not %d" % (len(v), subj.s["n"]))
                if (name, v) in seen:
                    return w.violate("repeated-secret", "%s: %s of %s occurs twice" % (what, name, json.dumps(subj.s)))
                seen[(name, v)] = i
                half = len(v) // 2
                if half >= 8 and v[:half] == v[half:2 * half]:
                    return w.violate("short-secret", "%s of %s is one half written twice" % (name, json.dumps(subj.s)))
                if bits and half >= 6:
                    for old, j in list(seen.items()):
                        if j != i and old[0] == name and (old[1][:6] == v[:6] or old[1][-6:] == v[-6:]) and \
                                not (name == "private key" and subj.s.get("crv") == "P-521"):
                            return w.violate("related-secrets", "%s: two values of %s agree in six bytes" % (what, name))

    def account(self, w, subj, eo, what):
        got = sum(len(d) for d in eo.draws)
        if got < subj.need():
            w.violate("too-little-entropy", "%s: %s drew %d bytes of entropy, it needs %d" % (
                what, json.dumps(subj.s), got, subj.need()))

    def run(self, plan, w):
        random.seed(plan["app"])
        subj = Subject(plan["subject"])
        r = getattr(self, "do_" + plan["scenario"])(plan, w, subj) or {}
        s = plan["subject"]
        tag = [plan["scenario"], s["op"], s.get("alg"), s.get("enc"), s.get("crv") or s.get("key", {}).get("crv")]
        w.log("done", *tag)
        return {"nontrivial": True, "key": json.dumps(tag + r.get("extra", [json.dumps(s)])),
                "interleavings": [json.dumps(tag + [x]) for x in r.get("extra", [])] or [json.dumps(tag)], "sample": tag}

    def do_fork(self, plan, w, subj):
        """Two processes grown from the same state, with the same application seed, and different entropy."""
        for i in range(plan["warm"]):
            with entropy_op(w, "warm%d" % i):
                subj.do()
        products = []
        for name in ("a", "b"):
            ok, p, drawn = self.in_fork(w, subj, name)
            if not ok:
                return w.violate("operation-raised", "%s raised %s" % (json.dumps(plan["subject"]), p))
            if drawn < subj.need():
                return w.violate("too-little-entropy", "%s drew %d bytes of entropy, it needs %d" % (
                    json.dumps(plan["subject"]), drawn, subj.need()))
            products.append(p)
        w.fault("fork")
        with entropy_op(w, "parent") as eo:
            products.append(subj.do())
        self.account(w, subj, eo, "after fork")
        self.distinct(w, subj, products, "processes forked from one state")
        return {"extra": [plan["warm"]]}

    def in_fork(self, w, subj, label):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                with entropy_op(w, label) as eo:
                    ok, p = O.call(subj.do)
                data = pickle.dumps((ok, p if ok else repr(p), sum(len(d) for d in eo.draws)))
                while data:
                    data = data[os.write(wr, data):]
            finally:
                os._exit(0)
        os.close(wr)
        buf = b""
        while True:
            c = os.read(r, 1 << 16)
            if not c:
                break
            buf += c
        os.close(r)
        os.waitpid(pid, 0)
        return pickle.loads(buf)

    def do_fail(self, plan, w, subj):
        exc = {"OSError": OSError, "NotImplementedError": NotImplementedError}[plan["exc"]]
        with entropy_op(w, "dry") as eo:
            subj.do()
        n = len(eo.draws)
        self.account(w, subj, eo, "plain")
        for i, f in enumerate(plan["at"]):
            if not n:
                break
            at = min(n - 1, int(f * n))
            obj = subj.fresh_obj()
            s2 = Subject(plan["subject"], key=subj.key, obj=obj)
            with entropy_op(w, "dry", fail_at=at, fail_exc=exc, once=plan.get("once", False)) as eo:
                ok, p = O.call(s2.do)
            w.log("fail at", at, "of", n, ok, O.brief(p))
            if ok:
                return w.violate("secret-without-entropy", "%s gave a result although draw %d of %d failed" % (
                    json.dumps(plan["subject"]), at + 1, n))
        return {"extra": [[int(f * n) for f in plan["at"]]]}

    def do_reuse(self, plan, w, subj):
        obj = subj.fresh_obj()
        s2 = Subject(plan["subject"], key=subj.key, obj=obj)
        products, received = [], []
        for i in range(plan["n"]):
            kind = plan.get("between", [None] * plan["n"])[i]
            if kind and subj.s["op"] in ("sign", "enc"):
                # the same object first handles a message someone else made
                key = subj.key
                peer = dict(plan["subject"])
                if kind == "rsa" and peer["op"] == "enc":
                    peer.update(alg="RSA1_5", key={"t": "RSA", "i": K.RSA1024[0], "form": "obj"})
                    key = K.make(peer["key"])
                with entropy_op(w, "peer%d" % i):
                    token = Subject(peer, key=key).do(" from a peer")
                received.append((Subject(peer), token))
                if kind == "damaged":
                    token = token[:-6] + ("A" if token[-6] != "A" else "B") + token[-5:]
                with entropy_op(w, "receive%d" % i):
                    ok, got = O.call(obj.verify_compact if subj.s["op"] == "sign" else obj.decrypt, token, [key])
                w.log("receive", kind, ok)
            random.seed(plan["app"])
            with entropy_op(w, "use%d" % i) as eo:
                products.append(s2.do())
            self.account(w, subj, eo, "use %d of one object" % (i + 1))
        taken = set()
        for peer, token in received:
            taken |= set((n, v) for n, (v, _) in peer.secrets(token).items())
        for p in products:
            for n, (v, _) in subj.secrets(p).items():
                if (n, v) in taken:
                    return w.violate("repeated-secret", "%s of a received message used again for %s" % (n, json.dumps(subj.s)))
        self.distinct(w, subj, products, "one object used again")
        return {"extra": [plan["n"], plan.get("between")]}

    def do_threads(self, plan, w, subj):
        draws, calls = [], []

        def build():
            obj = subj.fresh_obj() if plan["shared_obj"] else None
            if plan["subject"]["op"] == "keygen":
                obj = None
            fns = []
            for i in range(plan["n"]):
                def fn(i=i):
                    s2 = Subject(plan["subject"], key=subj.key, obj=obj)
                    calls.append(i)
                    with entropy_op(w, "t%d/%d" % (i, len(calls))) as eo:
                        r = O.call(s2.do)
                    if r[0]:
                        draws.append(sum(len(d) for d in eo.draws))
                    return r
                fns.append(fn)
            return fns
        seq, counters = S.learn(build, plan["mode"])
        schedules = []
        for switches in plan["rounds"]:
            del draws[:]
            conc = S.concurrent(w, build(), counters, switches, plan["mode"], plan["first"])
            schedules.append(S.interleaving_hash(w.sched_last.switches))
            good = [r[1] for r in conc if r[0]]
            if len(good) < len(conc) and not plan["shared_obj"]:
                w.violate("operation-raised", "%r" % [r[1] for r in conc if not r[0]])
            for d in draws:
                if d < subj.need():
                    w.violate("too-little-entropy", "a thread drew %d bytes for %s" % (d, json.dumps(plan["subject"])))
            try:
                self.distinct(w, subj, good, "threads")
            except ValueError as err:
                # a damaged token is another property's business
                w.probe("unopened")
            if w.violation:
                break
        return {"extra": schedules}

    def do_stats(self, plan, w, subj):
        products = []
        for i in range(48):
            with entropy_op(w, "s%d" % i) as eo:
                products.append(subj.do())
            self.account(w, subj, eo, "plain")
            if w.violation:
                return
        self.distinct(w, subj, products, "48 operations")
        if w.violation:
            return
        acc = {}
        for p in products:
            for name, (v, bits) in subj.secrets(p).items():
                x = int.from_bytes(v, "big")
                a = acc.setdefault(name, [0, 0, bits, 8 * len(v)])
                a[0] |= x
                a[1] |= ~x
        for name, (ones, zeros, bits, width) in acc.items():
            for b in range(bits):
                if not ones >> b & 1 or not zeros >> b & 1:
                    return w.violate("stuck-bit", "bit %d of the %s of %s never changed in 48 operations" % (
                        b, name, json.dumps(plan["subject"])))
        if plan["subject"]["op"] == "symkey":
            chars = set()
            for p in products:
                chars |= set(subj.secrets(p)["symmetric key"][0])
            if len(chars) < 20:
                return w.violate("stuck-bit", "symmetric keys use only %d characters" % len(chars))


PROP = C04()
