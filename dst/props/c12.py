"""C12: failed operations leave no trace on later ones."""
import json
from .. import keys as K
from .. import netops as N
from .. import ops as O
from .. import sched as S
from .. import work as W
from ..keys import cut
from ..net import Net
from ..runner import Property
from ..seams import entropy_op, SimHang
from ..trace import Striker, describe

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


class C12(Property):
    ID = "C12"
    RUNS = {"quick": 1600, "thorough": 50000}
    RULE = "history in which an operation failed or was struck and a later one on the same object succeeded"
    STATE_MEASURE = "distinct (role, operation, fault with its site, next operation, outcome) tuples"
    REAL_PARTS = ["jwkest", "Cryptodome", "json", "requests, urllib3, http.client (key server histories)"]
    STUBS = ["OS random source", "clock", "sockets, name lookup and TLS", "key server"]
    ASSUMPTIONS = ["an exception from outside strikes between lines or bytecodes of the library's own code, and the operation "
                   "then counts as done or not done, whichever explains everything later",
                   "what an operation that succeeded leaves behind (such as the algorithm a verifier settled on) is not a subject"]

    def gen(self, rng, index, tier):
        role = rng.choice(["jws"] * 5 + ["jwe"] * 4 + ["keys"] * 2 + ["jku"] * 2)
        t = rng.choice(["oct", "RSA", "EC"])
        ring = []
        kids = rng.choice(["unique", "unique", "none", "mixed"])
        crv = rng.choice(["P-256"] * 5 + ["P-384"])
        while len(ring) < 3:
            s = W.gen_ring(rng, 1, types=(t,))[0]
            if t == "EC" and s["crv"] != crv:
                continue
            s["kid"] = {"unique": "k%d" % len(ring), "none": "", "mixed": rng.choice(["", "k%d" % len(ring)])}[kids]
            if K.material(s) not in [K.material(x) for x in ring]:
                ring.append(s)
        plan = {"role": role, "ring": ring, "mode": rng.choice(["line", "line", "line", "instr"])}
        cfg = {"text": "original %d" % rng.randrange(10 ** 6)}
        if role == "jws":
            cfg["alg"] = W.sig_alg(rng, ring[0]) if rng.random() < .75 else None
            if cfg["alg"] == "PS512":
                cfg["alg"] = "PS256"
            if cfg["alg"] is None:       # a signer that takes the algorithm from the one key it is given
                for r in ring:
                    r["alg"] = rng.choice(["", W.sig_alg(rng, r).replace("PS512", "PS256")])
            cfg["jwk"] = cfg["alg"] is not None and rng.random() < .15
            cfg["kid"] = ring[0]["kid"] if cfg["alg"] and rng.random() < .15 else ""
        elif role == "jwe":
            cfg["alg"], cfg["enc"] = W.enc_alg(rng, ring[0], .02)
            if cfg["alg"] == "RSA-OAEP-256":
                cfg["enc"] = K.ENC_CBC[0]
            cfg["configured"] = rng.random() < .8
        elif role == "jku":
            cfg["alg"] = W.sig_alg(rng, ring[0])
            if cfg["alg"] == "PS512":
                cfg["alg"] = "PS256"
            plan["keys"], plan["first"], plan["cert"] = [dict(s) for s in ring[:2]], [0, 1], K.RSA1024[0]
        elif role == "keys" and rng.random() < .6:
            plan["keys"], plan["first"], plan["cert"] = [dict(s) for s in ring[:2]], [0, 1], K.RSA1024[0]
        plan["cfg"] = cfg
        plan["steps"] = [self.gen_step(rng, plan, j) for j in range(rng.randrange(4, 10))]
        return plan

    def gen_step(self, rng, plan, j):
        role, ring, cfg = plan["role"], plan["ring"], plan["cfg"]
        k = rng.randrange(len(ring))
        st = {"id": j, "k": k, "n": rng.randrange(1 << 16), "text": "text %d" % rng.randrange(10 ** 6),
              "keys": rng.choice(["all", "all", "all", "one", "one", "wrong", "strangers"]),
              "fault": rng.choice(["none"] * 5 + ["entropy", "strike", "strike", "strike"]),
              "at": [cut(rng.random(), 5), cut(rng.random(), 4)], "exc": rng.choice(list(EXC)), "draw": rng.choice([0, 0, 1, 2, 3])}
        if role in ("jws", "jku"):
            st["op"] = rng.choice(["verify", "verify", "verify", "sign", "sign", "sign_json", "is_jws"]) \
                if role == "jws" and cfg["alg"] else rng.choice(["verify", "verify", "verify", "is_jws", "sign", "sign", "sign", "sign_json"])
            if role == "jku":
                st["op"] = "verify"
                st.update(framing=rng.choice(["length", "chunked", "close", "length-keepalive"]), encoding=None, redirect=0, hopcode=0, timeout=None)
                st["net"] = N.gen_fault(rng) if rng.random() < .4 else None
            if st["op"] in ("verify", "is_jws"):
                st["alg"] = cfg["alg"] if cfg["alg"] and rng.random() < .85 else W.sig_alg(rng, ring[k])
                if st["alg"] == "PS512":
                    st["alg"] = "PS384"
                st["form"] = rng.choice(["compact", "compact", "verbose", "flat", "general"])
                st["damage"] = rng.choice([None] * 5 + W.DAMAGE + ["none", "garbage"] + ["garbage"] * (14 if st["op"] == "is_jws" else 0))
                st["sigalg"] = rng.choice([None, None, None, "right", "wrong"])
                st["allow_none"] = rng.random() < .3
                st["named"] = rng.random() < .7
            else:
                st["extra"] = rng.choice([{}, {}, {"x-a": "v%d" % j}, {"typ": "T"}, {"kid": rng.choice(["no-such", "k0", "k1"])}])
        elif role == "jwe":
            st["op"] = rng.choice(["decrypt", "decrypt", "encrypt", "encrypt"]) if cfg["configured"] else "decrypt"
            st["alg"], st["enc"] = (cfg["alg"], cfg["enc"]) if rng.random() < .8 else W.enc_alg(rng, ring[k])
            if st["alg"] == "RSA-OAEP-256":
                st["enc"] = K.ENC_CBC[0]
            st["damage"] = rng.choice([None] * 4 + W.JDAMAGE + ["garbage"])
            st["cek"] = rng.random() < .12 and not st["alg"].startswith("ECDH")
            st["expect"] = rng.choice([None, None, "right", "wrong"])
        else:
            st["op"] = rng.choice(["load", "load", "load_dict", "add", "wrap_add", "append", "read", "read"])
            st["bad"] = rng.choice([None, None, "entry", "text", "nokty", "json"])
            if "keys" in plan and rng.random() < .6:
                st.update(op="fetch", framing=rng.choice(["length", "chunked", "close", "length-keepalive"]), encoding=None, redirect=rng.choice([0, 0, 1]),
                          net=N.gen_fault(rng) if rng.random() < .5 else None)
        return st

    def shrinkable(self, plan):
        return [["steps"]]

    # ---------------------------------------------------------------- objects and operations
    def make(self, plan):
        from jwkest.jws import JWS
        from jwkest.jwe import JWE
        from jwkest import jwk as J
        cfg, role = plan["cfg"], plan["role"]
        if role == "keys":
            return J.KEYS()
        if role == "jku":
            return JWS(alg=cfg["alg"], jku=N.JWKS)
        if role == "jwe":
            return JWE(cfg["text"], alg=cfg["alg"], enc=cfg["enc"]) if cfg["configured"] else JWE(cfg["text"])
        kw = {"alg": cfg["alg"]} if cfg["alg"] else {}
        if cfg["jwk"]:
            kw["jwk"] = self.keys[0]
        if cfg["kid"]:
            kw["kid"] = cfg["kid"]
        return JWS(cfg["text"], **kw)

    def prepare(self, w, plan, st):
        spec = plan["ring"][st["k"]]
        label = "in%d" % st["id"]
        if st["op"] in ("verify", "is_jws"):
            if st["damage"] == "garbage":
                other = plan["ring"][(st["k"] + 1) % len(plan["ring"])].get("kid") or "nobody"
                t = ["", ".", "a.b.c", "..", "eyJhbGciOiJIUzI1NiJ9.e30", "eyJhbGciOjF9.e30.AA", "e30.e30.AA", "\u00e9.a.b"] + [
                    # somebody's key id in a header that is no good otherwise
                    K.b64u(json.dumps(h).encode()) + ".e30.AA" for h in (
                        {"kid": other}, {"kid": other, "alg": "XX"}, {"kid": other, "alg": "RSA1_5", "enc": "A128GCM"}, {"kid": other, "typ": "T"})]
                t = t[st["n"] % 12]
                return t if st["form"] in ("compact", "verbose") else ["{}", "[]", "{", '{"payload": "e30"}',
                                                                       '{"payload": "e30", "signatures": []}'][st["n"] % 5]
            with entropy_op(w, label):
                if st["damage"] == "none":
                    t = K.b64u(json.dumps({"alg": "none"}).encode()) + "." + K.b64u(st["text"].encode()) + "."
                else:
                    t = W.sig_token(dict(spec, kid=spec["kid"] if st["named"] else ""), st["alg"], st["text"].encode(), None,
                                    st["damage"], st["n"], W.other_signer(spec, st["alg"]))
            return W.as_json(t, st["form"] == "flat") if st["form"] in ("flat", "general") and st["op"] == "verify" else t
        if st["op"] == "decrypt":
            if st["damage"] == "garbage":
                return ["", ".", "a.b.c.d.e", "....", "e30.a.b.c.d", "eyJhbGciOiJFQ0RILUVTIn0.a.a.a.a"][st["n"] % 6]
            to = spec
            if st["damage"] == "other_key":
                to = dict(W.other_signer(spec, ""), kid=spec["kid"])
            return W.enc_token(w, label, to, st["alg"], st["enc"], st["text"].encode(), st["damage"], st["n"])
        return None

    def arg(self, plan, st):
        return {"all": list(self.keys), "one": [self.keys[st["k"]]], "wrong": [self.strange[st["k"]]],
                "strangers": list(self.others)}[st["keys"]]

    def do(self, plan, obj, st, inp):
        op, role = st["op"], plan["role"]
        if role == "keys":
            return self.do_keys(plan, obj, st)
        keys = self.arg(plan, st)
        if op == "is_jws":
            if not obj.is_jws(inp):
                raise ValueError("not one")
            return True
        if op == "verify":
            if role == "jku" or (plan["cfg"]["jwk"] and st["n"] % 2):
                keys = None
            kw = {"allow_none": st["allow_none"]}
            if st["sigalg"]:
                kw["sigalg"] = st["alg"] if st["sigalg"] == "right" else "XX256"
            if st["form"] == "compact":
                return obj.verify_compact(inp, keys, **kw)
            if st["form"] == "verbose":
                r = obj.verify_compact_verbose(inp, keys, **kw)
                return [r["msg"], O.key_material(r["key"]) if "key" in r else None]
            return obj.verify_json(inp, keys, **kw)
        if op == "sign":
            return obj.sign_compact(keys, protected=dict(st["extra"]))
        if op == "sign_json":
            return obj.sign_json(keys, flatten=bool(st["n"] & 1), headers=[(dict(st["extra"], alg=plan["cfg"]["alg"]) if plan["cfg"]["alg"] else dict(st["extra"]), None)])
        kw = {}
        if op == "decrypt":
            if st["expect"]:
                kw["alg"] = st["alg"] if st["expect"] == "right" else "XX"
            return obj.decrypt(inp, keys, **kw)
        if st["cek"]:
            kw["cek"] = b"K" * K.CEKLEN[plan["cfg"]["enc"]]
        return obj.encrypt(keys, **kw)

    def do_keys(self, plan, ks, st):
        from jwkest.ecc import NISTEllipticCurve
        op, bad, n = st["op"], st["bad"], st["n"]
        specs = [plan["ring"][(st["k"] + i) % 3] for i in range(1 + n % 3)]
        docs = [K.jwk(s) for s in specs]
        if bad == "entry":
            docs.insert(n % (len(docs) + 1), [{"kty": "EC", "crv": "P-999", "x": "AA", "y": "AA"}, {"kty": "RSA", "n": "!", "e": "AQAB"},
                                              {"kty": "oct", "k": 5}, {"kty": "RSA", "x5c": ["AAAA"]}][n % 4])
        elif bad == "nokty":
            docs.insert(n % (len(docs) + 1), {"k": "AAAA"})
        if op in ("load", "load_dict"):
            d = {"keys": docs}
            if bad == "json":
                d = {"keyz": docs}
            if op == "load_dict":
                ks.load_dict(d)
            else:
                t = json.dumps(d)
                ks.load_jwks(t[:n % len(t)] if bad == "text" else t)
            return len(ks)
        if op == "fetch":
            ks.load_from_url(N.JWKS, timeout=5)
            return len(ks)
        if op == "add":
            ks.add(docs[n % len(docs)])
            return len(ks)
        if op == "append":
            ks.append(self.keys[st["k"]])
            return len(ks)
        if op == "wrap_add":
            x = object() if bad else [O.rsa_obj(K.RSA1024[0]), "secret", NISTEllipticCurve.by_name("P-256")][n % 3]
            ks.wrap_add(x, kid="w%d" % (n % 3))
            return len(ks)
        return [ks.kids(), len(ks), sorted(ks.key_types()), [O.key_material(k) for k in ks.keys() if n % 3 or k.kid[:1] != "w"],
                len(ks.by_kid("k0")), sorted((t, len(v)) for t, v in ks.as_dict().items())]

    def value(self, plan, st, got):
        """What of an outcome must not depend on failed operations."""
        op = st["op"]
        if op in ("sign", "encrypt"):
            h = json.loads(K.unb64u(got.split(".")[0]))
            h = dict((k, v) for k, v in h.items() if k not in ("epk", "apu", "apv"))
            if op == "sign":
                return [h, W.read_signed(got)[1].decode("latin-1")]
            spec = self.named(plan, st, h)
            if st["cek"]:
                p = got.split(".")
                return [h, O.call(O.content_decrypt, plan["cfg"]["enc"], b"K" * K.CEKLEN[plan["cfg"]["enc"]], K.unb64u(p[2]),
                                  p[0].encode(), K.unb64u(p[3]), K.unb64u(p[4]))[0], len(p[1]) > 0]
            opened = [O.call(O.ref_open, s, got) for s in spec]
            return [h, [(o, r.pt.decode() if o else "") for o, r in opened]]
        if op == "sign_json":
            d = json.loads(got)
            s = d if "signature" in d else d["signatures"][0]
            return [json.loads(K.unb64u(s["protected"])), d["payload"], len(d.get("signatures", [0]))]
        if isinstance(got, bytes):
            return got.decode("latin-1")
        return got

    def named(self, plan, st, h):
        pool = {"all": plan["ring"], "one": [plan["ring"][st["k"]]], "wrong": [self.strange_specs[st["k"]]],
                "strangers": self.other_specs}[st["keys"]]
        return pool

    # ---------------------------------------------------------------- the run
    def run(self, plan, w):
        role, ring = plan["role"], plan["ring"]
        salg = plan["cfg"].get("alg") or ""
        self.strange_specs = [dict(W.other_signer(s, salg if salg in K.SIG_ALGS else ""), kid=s["kid"], form="obj") for s in ring]
        self.other_specs = [{"t": "oct", "k": "0102", "kid": ""}] if ring[0]["t"] != "oct" else \
            [{"t": "RSA", "i": K.RSA1024[0], "kid": ""}]
        if role == "jws" and not salg:       # a key that names an algorithm it is no key for
            self.other_specs[0]["alg"] = {"oct": "HS256", "RSA": "RS256", "EC": "ES256"}[ring[0]["t"]]
        with entropy_op(w, "ring"):
            self.keys = [K.make(s) for s in ring]
            self.strange = [K.make(s) for s in self.strange_specs]
            self.others = [K.make(s) for s in self.other_specs]
        srv = None
        if "keys" in plan:
            w.net = Net(w)
            srv = N.KeyServer(w.net, plan)
            srv.current, srv.cert = [0, 1], plan["cert"]
        before = [W.state(k) for k in self.keys + self.strange + self.others]
        inputs, pristine = {}, {}
        for st in plan["steps"]:
            inputs[st["id"]] = self.prepare(w, plan, st)

        def plain(obj, st):
            if srv:
                srv.begin(dict(st, fault=None))
            with entropy_op(w, "op%d" % st["id"]):
                ok, got = O.call(self.do, plan, obj, st, inputs[st["id"]])
                return ok, self.value(plan, st, got) if ok else type(got).__name__

        def rebuild(history):
            o = self.make(plan)
            for h in history:
                plain(o, h)
            return o
        settled = role != "keys"
        for st in plan["steps"]:
            pristine[st["id"]] = plain(self.make(plan), st)
        subject = self.make(plan)
        cands = [([], self.make(plan))]            # histories that explain everything so far
        tr = S.tracer(plan["mode"])
        failed = later = 0
        cover, last = [], None
        for st in plan["steps"]:
            i = st["id"]
            f = st["fault"]
            strike = None
            if f == "strike":
                if srv:
                    srv.begin(dict(st, fault=None))
                with entropy_op(w, "op%d" % i):
                    try:
                        _, cnt = S.count_sites(tr, lambda: O.call(self.do, plan, self.make(plan), st, inputs[i]), False)
                    except SimHang:
                        cnt = S.SiteCounter(plan.get("mode") == "instr")
                r = cnt.resolve(*st["at"])
                if r:
                    strike = Striker(r[0], r[1], EXC[st["exc"]]("struck"))
            netfault = bool(srv and st.get("net"))
            if srv:
                srv.begin(dict(st, fault=st.get("net")))
            with entropy_op(w, "op%d" % i, fail_at=st["draw"] if f == "entropy" else None, once=bool(st["n"] & 2)) as eo:
                try:
                    if strike:
                        tr.start(strike)
                        try:
                            ok, got = O.call(self.do, plan, subject, st, inputs[i])
                        finally:
                            tr.stop()
                    else:
                        ok, got = O.call(self.do, plan, subject, st, inputs[i])
                except (KeyboardInterrupt, SimHang) as err:
                    ok, got = False, err
            struck = bool(strike and strike.fired)
            if struck and ok and got is False:
                ok, got = False, ValueError("the answer no stands for the failure")
            if struck:
                w.fault("interrupt" if st["exc"] == "KeyboardInterrupt" else "memory_error")
            if ok:
                ok2, got = O.call(self.value, plan, st, got)
                if not ok2:
                    return w.violate("broken-result", "%s gave something unreadable: %r" % (st["op"], got))
            else:
                got = type(got).__name__
            w.log("step", i, st["op"], f, describe(strike.site) if struck else "", ok, O.brief(json.dumps(got, default=repr)))
            keep = []
            disturbed = struck or eo.failed or (netfault and not ok)
            why = None
            for hist, twin in cands:
                if disturbed and not ok:
                    # it failed because of the fault: not done - or, if struck from outside, perhaps done
                    keep.append((hist, twin))
                    if struck and st["op"] != "read":
                        h2 = hist + [st]
                        o = rebuild(hist)
                        if plain(o, st)[0]:
                            keep.append((h2, o))
                    continue
                ok2, got2 = plain(twin, st)
                if ok2 != ok or (ok and not O.same(norm(got), norm(got2))):
                    why = "gave %s, without the failed ones it gives %s" % (
                        O.brief(json.dumps([ok, got], default=repr)), O.brief(json.dumps([ok2, got2], default=repr)))
                    continue
                if ok:
                    keep.append((hist + [st], twin))
                else:
                    keep.append((hist, rebuild(hist)))
            if not keep:
                return w.violate("failed-operation-left-a-trace", "%s: %s after %s %s" % (role, st["op"], last, why))
            cands = keep
            if len(cands) > 16:                    # too many explanations to follow: judge no further
                break
            # a signature object takes message, key identifier and, if it has none, algorithm from what it accepted
            moved = any(c[0] in ("verify", "is_jws") and (c[2] or c[1] not in ("", "none", "entropy")) for c in cover)
            if not disturbed and settled and (st["op"] in ("decrypt", "encrypt") or not moved or
                                              st["op"] == "verify" and plan["cfg"]["alg"]):
                p = pristine[i]
                if p[0] != ok or (ok and not O.same(norm(got), norm(p[1]))):
                    return w.violate("failed-operation-left-a-trace", "%s: %s after %s gave %s, at first it gave %s" % (
                        role, st["op"], last, O.brief(json.dumps([ok, got], default=repr)), O.brief(json.dumps(p, default=repr))))
            if not ok:
                failed += 1
                last = "a failed %s (%s)" % (st["op"], describe(strike.site) if struck else "entropy" if eo.failed else
                                             "network" if netfault else st.get("damage") or st.get("bad") or st["keys"])
            elif failed:
                later += 1
            cover.append([st["op"], f if f != "strike" else describe(strike.site) if struck else "", ok])
        after = [W.state(k) for k in self.keys + self.strange + self.others]
        for a, b in zip(before, after):
            if W.changed(a, b):
                return w.violate("failed-operation-left-a-trace", "a key changed: %s" % W.changed(a, b))
        pairs = [json.dumps([role, a, b]) for a, b in zip(cover, cover[1:]) if not a[2]]
        return {"nontrivial": bool(failed and later), "key": json.dumps([role, cover]), "interleavings": pairs,
                "sample": [role] + cover[:5]}


def norm(v):
    return json.loads(json.dumps(v, default=repr))


PROP = C12()
