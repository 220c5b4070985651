"""C09: shared keys give every thread the result it would get alone."""
import json
from .. import keys as K
from .. import ops as O
from .. import sched as S
from .. import work as W
from ..runner import Property
from ..seams import entropy_op

READS = ["serialize", "private", "to_dict", "str", "thumb", "thumb512", "hash", "eq", "get_key", "encryption_key",
         "dump_jwks", "by_kid", "by_kty", "kids", "as_dict", "key_types", "iter", "repr"]


class C09(Property):
    ID = "C09"
    RUNS = {"quick": 1700, "thorough": 30000}
    RULE = "at least one thread switch inside the library; interleaving (threads, operations, sequence of switch sites)"
    STATE_MEASURE = "distinct sequences of (thread, switch site, next thread)"
    REAL_PARTS = ["jwkest", "Cryptodome", "json", "threading"]
    STUBS = ["OS random source", "clock", "thread scheduler (cooperative, seeded)"]
    ASSUMPTIONS = ["threads switch between lines or bytecodes of the library's own code, not inside C functions",
                   "a key's lazily computed hash is not part of its value"]

    def gen(self, rng, index, tier):
        hashing = rng.random() < .08
        ring = W.gen_ring(rng, rng.randrange(2, 6), kids=not hashing)
        n = rng.choice([2, 2, 2, 3, 3, 4])
        shape = rng.choice(["mixed", "mixed", "sign", "verify", "decrypt", "encrypt", "reads"] + ["twin"] * 10)
        threads = []
        for t in range(n):
            ops = []
            for j in range(rng.choice([1, 1, 2, 3])):
                if hashing:
                    ops.append({"op": rng.choice(["hash", "hash", "thumb", "add_kid"]), "k": rng.randrange(len(ring))})
                    continue
                ops.append(self.gen_op(rng, ring, "mixed" if shape == "twin" else shape))
            threads.append(ops)
        if shape == "twin" and not hashing:
            # two threads at the same point of the same code, each with its own input
            n = rng.choice([2, 2, 2, 3])
            t = rng.choice(["RSA", "EC", "EC", "oct"])
            ring = W.gen_ring(rng, 2, types=(t,)) + W.gen_ring(rng, 1)
            ring[2]["kid"] = "k2"
            if rng.random() < .7 and t == "EC":
                ring[1]["crv"], ring[1]["cls"], ring[1]["i"] = ring[0]["crv"], "normal", 3
            if len(set(K.material(s) for s in ring)) < 3:
                ring = ring[:1]
            a = self.gen_op(rng, ring, rng.choice(["sign", "verify", "verify", "decrypt", "encrypt", "reads"]))
            threads = []
            for j in range(n):
                o = dict(a, k=rng.randrange(len(ring[:2])))
                if "text" in a:
                    o["text"] += "/%d" % j
                if "damage" in a:
                    o["damage"] = a["damage"] if rng.random() < .15 else None
                if "alg" in a and o["op"] != "factory":
                    s0, s1 = ring[a["k"]], ring[o["k"]]
                    if s0["t"] != s1["t"] or s0.get("crv") != s1.get("crv") or o["alg"] in ("PS512", "RSA-OAEP-256"):
                        o["k"] = a["k"]
                threads.append([o])
        mode = rng.choice(["line", "line", "line", "instr"])

        def total():
            return sum(1 if o["op"] in READS else W.cost(ring[o["k"]], o) for t in threads for o in t)
        deep = rng.random() < .08
        if total() > 100:
            mode, deep = "line", deep and rng.random() < .2
        if total() > 40:
            threads = [t[:1] for t in threads]
        return {"ring": ring, "threads": threads, "mode": mode, "first": rng.randrange(n), "deep": deep,
                "rounds": W.gen_rounds(rng, S, n, total() * (2 if mode == "instr" else 1))}

    def gen_op(self, rng, ring, shape):
        k = rng.randrange(len(ring))
        kinds = {"mixed": ["sign", "verify", "verify", "encrypt", "decrypt", "read", "read", "verify_json", "load", "keypair",
                           "sign_json", "factory", "left_hash"],
                 "sign": ["sign", "sign", "sign_json"], "verify": ["verify", "verify", "verify_json", "factory"],
                 "decrypt": ["decrypt"], "encrypt": ["encrypt"], "reads": ["read", "read", "read", "load"]}[shape]
        op = rng.choice(kinds)
        if op == "read":
            return {"op": rng.choice(READS), "k": k, "o": rng.randrange(len(ring))}
        o = {"op": op, "k": k, "text": "text %d" % rng.randrange(10 ** 6), "keys": rng.choice(["one", "list", "KEYS"])}
        if op in ("sign", "sign_json", "verify", "verify_json"):
            o["alg"] = W.sig_alg(rng, ring[k])
            o["damage"] = rng.choice([None, None, None] + W.DAMAGE)
            o["n"] = rng.randrange(1 << 16)
            o["extra"] = rng.choice([None, None, {"typ": "JWT"}, {"x-a": "v%d" % rng.randrange(99)}])
        elif op in ("encrypt", "decrypt"):
            o["alg"], o["enc"] = W.enc_alg(rng, ring[k], .07)
            o["damage"] = rng.choice([None, None, None] + W.JDAMAGE)
            o["n"] = rng.randrange(1 << 16)
        elif op == "keypair":
            o["crv"] = rng.choice(["P-256", "P-256", "P-384"])
        elif op in ("factory", "left_hash"):
            o["alg"] = rng.choice(["HS256", "HS384", "HS512"])
        return o

    def shrinkable(self, plan):
        return [["rounds"]] + [["rounds", i] for i in range(len(plan["rounds"]))] + [["threads", i] for i in range(len(plan["threads"]))]

    def run(self, plan, w):
        from jwkest import jwk as J
        ring = plan["ring"]
        inputs = {}
        for t, ops in enumerate(plan["threads"]):
            for j, o in enumerate(ops):
                inputs[t, j] = self.prepare(w, ring, o, "in%d/%d" % (t, j))

        def ringset():
            with entropy_op(w, "ring"):
                keys = [K.make(s) for s in ring]
            ks = J.KEYS()
            for k in keys:
                ks.append(k)
            return keys, ks

        def build(keys, ks, name):
            fns = []
            for t, ops in enumerate(plan["threads"]):
                def fn(t=t, ops=ops):
                    out = []
                    for j, o in enumerate(ops):
                        with entropy_op(w, "%s/%d/%d" % (name, t, j)):
                            out.append(O.call(self.do, ring, keys, ks, o, inputs[t, j]))
                    return out
                fns.append(fn)
            return fns
        keys0, ks0 = ringset()
        keys, ks = ringset()
        before = [W.state(k) for k in keys]
        seq, counters = S.learn(lambda: build(keys0, ks0, "alone"), plan["mode"], plan["deep"])
        hashed = any(o["op"] in ("hash", "add_kid") for ops in plan["threads"] for o in ops)
        schedules = []
        for r, switches in enumerate(plan["rounds"]):
            if hashed:
                keys, ks = ringset()
            try:
                conc = S.concurrent(w, build(keys, ks, "r%d" % r), counters, switches, plan["mode"], plan["first"])
            except S.Deadlock as err:
                w.violate("deadlock", str(err))
                return {}
            sw = w.sched_last.switches
            schedules.append(S.interleaving_hash(sw))
            w.probe("schedules")
            for t, ops in enumerate(plan["threads"]):
                for j, o in enumerate(ops):
                    a, b = seq[t][j], conc[t][j]
                    w.log("result", t, j, o["op"], a[0], b[0], O.brief(b[1]) if not b[0] else "")
                    bad = self.judge(ring, o, b, a)
                    if bad and self.judge(ring, o, a, a):
                        w.probe("wrong_alone")         # fails without any interleaving: not this property's business
                        continue
                    if bad:
                        w.violate("wrong-under-interleaving", "thread %d: %s of %s: %s" % (
                            t, o["op"], K.material(ring[o["k"]])[:40], bad))
                        return {}
            for i, k in enumerate(keys):
                d = [a for a in W.changed(before[i], W.state(k)) if not (a == "kid" and hashed and not ring[i]["kid"])]
                if d and d == W.changed(before[i], W.state(keys0[i])):
                    w.probe("modified_alone")
                elif d:
                    w.violate("key-modified", "%s of key %s changed" % (d, K.material(ring[i])[:40]))
                    return {}
            if [id(k) for k in ks.keys()] != [id(k) for k in keys]:
                w.violate("key-modified", "the key set changed")
                return {}
        return {"nontrivial": len(sw) > 0, "key": json.dumps([schedules, [[o["op"] for o in t] for t in plan["threads"]]]),
                "interleavings": schedules,
                "sample": [[o["op"] for o in t] for t in plan["threads"]] + [[a, str(b), c] for a, b, c in sw][:6]}

    def prepare(self, w, ring, o, label):
        spec = ring[o["k"]]
        if o["op"] in ("verify", "verify_json"):
            with entropy_op(w, label):
                t = W.sig_token(spec, o["alg"], o["text"].encode(), o["extra"], o["damage"], o["n"],
                                W.other_signer(spec, o["alg"]))
            return t if o["op"] == "verify" else W.as_json(t, o["n"] % 2)
        if o["op"] == "factory":
            with entropy_op(w, label):
                return O.ref_sign_compact({"t": "oct", "k": "00"}, o["alg"], o["text"].encode(), {})
        if o["op"] == "decrypt":
            to = spec
            if o["damage"] == "other_key":
                to = W.other_signer(spec, "")
                to["kid"] = spec["kid"]
            return W.enc_token(w, label, to, o["alg"], o["enc"], o["text"].encode(), o["damage"], o["n"])
        return None

    def do(self, ring, keys, ks, o, inp):
        from jwkest import jws as S_, jwk as J
        from jwkest.jwe import JWE
        from jwkest.ecc import NISTEllipticCurve
        op, key = o["op"], keys[o["k"]]
        kid = ring[o["k"]].get("kid")
        arg = {"one": [key], "list": keys, "KEYS": ks}[o.get("keys", "one")]
        if op in ("sign", "sign_json"):
            s = S_.JWS(o["text"], alg=o["alg"], kid=kid)
            if op == "sign":
                return s.sign_compact(arg, protected=dict(o["extra"]) if o["extra"] else None)
            return s.sign_json(arg, flatten=bool(o["n"] % 2), headers=[(dict(o["extra"] or {}, alg=o["alg"], kid=kid), None)])
        if op == "verify":
            return S_.JWS().verify_compact(inp, arg)
        if op == "verify_json":
            return S_.JWS().verify_json(inp, arg)
        if op == "encrypt":
            return JWE(o["text"], alg=o["alg"], enc=o["enc"], kid=kid).encrypt(arg)
        if op == "decrypt":
            if o["keys"] == "one" or o["alg"].startswith("ECDH"):
                arg = [key]
            return JWE(kid=kid).decrypt(inp, arg)
        if op == "keypair":
            d, (x, y) = NISTEllipticCurve.by_name(o["crv"]).key_pair()
            return d, x, y
        if op == "load":
            doc = json.dumps({"keys": [K.jwk(s) for s in ring if s["t"] != "RSA"]})
            return [O.key_material(k) + k.kid for k in J.KEYS().load_jwks(doc)]
        if op == "factory":
            j = S_.factory(inp)
            return j.jwt.headers["alg"], j.jwt.payload()
        if op == "left_hash":
            return S_.left_hash(o["text"], o["alg"])
        if op == "serialize":
            return key.serialize()
        if op == "private":
            return key.serialize(private=True)
        if op == "to_dict":
            return key.to_dict()
        if op == "str":
            return sorted(str(key))
        if op == "thumb":
            return key.thumbprint("SHA-256")
        if op == "thumb512":
            return key.thumbprint("SHA-512", ["kty", "kid"])
        if op == "hash":
            return hash(key), key.kid
        if op == "add_kid":
            key.add_kid()
            return key.kid
        if op == "eq":
            return [key == k for k in keys]
        if op == "get_key":
            v = key.get_key(private=True)
            return W.rsanums(v) if hasattr(v, "n") else v
        if op == "encryption_key":
            v = key.encryption_key(alg="A128KW")
            return W.rsanums(v) if hasattr(v, "n") else v
        if op == "dump_jwks":
            return [sorted(d.items()) for d in json.loads(ks.dump_jwks())["keys"]]
        if op == "repr":
            return len(repr(ks))
        if op == "by_kid":
            return [[i for i, x in enumerate(keys) if x is k] for k in ks.by_kid(kid)], len(ks.by_kid("nope"))
        if op == "by_kty":
            return [[i for i, x in enumerate(keys) for k in ks[t] if k is x] for t in ("rsa", "EC", "oct")]
        if op == "kids":
            return ks.kids()
        if op == "as_dict":
            return sorted((t, [i for k in v for i, x in enumerate(keys) if x is k]) for t, v in ks.as_dict().items())
        if op == "key_types":
            return sorted(ks.key_types())
        if op == "iter":
            return [[i for i, x in enumerate(keys) if x is k] for k in ks], len(ks)
        raise AssertionError(op)

    def judge(self, ring, o, res, alone):
        op, (ok, got) = o["op"], res
        spec = ring[o["k"]]
        if op in ("verify", "verify_json"):
            if o["damage"]:
                return "accepted a %s-damaged message as %s" % (o["damage"], O.brief(got)) if ok else None
            return None if ok and got == o["text"] else "gave %s" % O.brief(got)
        if op == "decrypt":
            if o["damage"]:
                return "decrypted a %s-damaged message to %s" % (o["damage"], O.brief(got)) if ok else None
            return None if ok and got == o["text"].encode() else "gave %r" % (got,)
        if op in ("sign", "sign_json", "encrypt", "keypair") and not ok:
            return "raised %r" % (got,)
        if op == "sign":
            return W.check_signed(spec, o["alg"], got, o["text"].encode(), o["extra"])
        if op == "sign_json":
            d = json.loads(got)
            s = d if "signature" in d else d["signatures"][0]
            if "signatures" in d and len(d["signatures"]) != 1:
                return "%d signatures" % len(d["signatures"])
            return W.check_signed(spec, o["alg"], ".".join([s["protected"], d["payload"], s["signature"]]), o["text"].encode(),
                                  o["extra"])
        if op == "encrypt":
            return W.check_encrypted(spec, o["alg"], o["enc"], got, o["text"].encode())
        if op == "keypair":
            from Cryptodome.PublicKey import ECC
            p = ECC.construct(curve=o["crv"], d=got[0]).pointQ
            return None if (int(p.x), int(p.y)) == tuple(got[1:]) else "the point does not belong to d"
        if ok != alone[0]:
            return "%s, alone it %s" % ("raised %r" % (got,) if not ok else "returned", "returned" if alone[0] else "raised")
        if ok and got != alone[1]:
            return "gave %s, alone %s" % (O.brief(got), O.brief(alone[1]))
        return None


PROP = C09()
