"""C11: key rollover never locks out a holder of the right key."""
import hashlib
import json
from .. import keys as K
from .. import ops as O
from .. import work as W
from ..runner import Property
from ..seams import entropy_op
from ..keys import cut

NOISE = ["RSA", "RSA", "EC", "EC", "EC", "oct", "oct", "OKP", "rsatiny", "hollow"]


class C11(Property):
    ID = "C11"
    RUNS = {"quick": 3000, "thorough": 40000}
    RULE = ("history of rotations, key set changes and deliveries in which a message is accepted with another key in front "
            "of the right one, and one crossed a rotation in flight")
    STATE_MEASURE = "distinct (algorithm, types, curves and sizes of the usable keys in order, position of the right one) tuples"
    REAL_PARTS = ["jwkest", "Cryptodome", "json"]
    STUBS = ["OS random source", "clock", "network (delay, reordering, duplication, loss of messages and key announcements)"]
    ASSUMPTIONS = ["the receiver's copy of the key has the identifier the message names, and its use and alg members allow "
                   "the algorithm"]

    def gen_key(self, rng, n, t=None):
        t = t or rng.choice(NOISE)
        s = {"t": t, "kid": rng.choice(["", "", "k%d" % n, "same", "same"]), "priv": rng.random() < .75, "form": "obj"}
        if t == "RSA":
            s["i"] = rng.randrange(K.N_RSA)
        elif t == "EC":
            s.update(crv=rng.choice(["P-256", "P-256", "P-384", "P-521"]), cls=rng.choice(["normal"] * 3 + ["xzero", "yzero"]))
            s["i"] = rng.randrange(len(K.POOL["ec"][s["crv"]][s["cls"]]))
            s["form"] = rng.choice(["obj", "jwks", "keyrep", "ints"])
        elif t == "hollow":
            s["h"] = rng.randrange(len(HOLLOW))
        elif t == "oct":
            s["k"] = K.rand_oct(rng, rng.choice([1, 8, 16, 24, 32, 48, 64, 100, 200]))
        return s

    def gen(self, rng, index, tier):
        keys = []
        crowd = rng.random() < .15            # a key set much bigger than anybody has tried
        ct = rng.choice(["RSA", "EC", "oct"])
        for j in range(rng.randrange(14, 28) if crowd else rng.randrange(3, 9)):
            s = self.gen_key(rng, j, ct if crowd and rng.random() < .8 else None)
            s["use"] = rng.choice(["", "", "", "sig", "enc"])
            keys.append(s)
        # the keys the sender rotates through; each message is in an algorithm of its key
        senders = []
        fixed = rng.choice([None, None, "RS256", "ES256", "HS256", "PS256"])    # one algorithm for ever, or any
        for j in range(rng.randrange(2, 5)):
            t = K.SIG_ALGS[fixed] if fixed else ct if crowd else rng.choice(["RSA", "EC", "oct"])
            s = self.gen_key(rng, 20 + j, t)
            if fixed == "ES256":
                s.update(crv="P-256", cls="normal", i=rng.randrange(len(K.POOL["ec"]["P-256"]["normal"])))
            s["priv"] = True
            s["use"] = ""
            senders.append(s)
        seen, out = set(), []
        for s in senders:
            if K.material(s) not in seen:
                seen.add(K.material(s))
                out.append(s)
        senders = out
        noise = [s for s in keys if s["t"] in ("OKP", "rsatiny", "hollow") or K.material(s) not in seen]
        steps = []
        m = 0
        for j in range(rng.randrange(30, 70)):
            op = rng.choice(["send", "send", "send", "deliver", "deliver", "deliver", "deliver", "deliver", "rotate", "announce",
                             "announce", "noise", "noise", rng.choice(["drop", "shuffle", "shuffle", "restart"])])
            st = {"id": j, "op": op, "n": rng.randrange(1 << 16)}
            if op == "send":
                st["kind"] = "sig" if fixed or rng.random() < .6 else "enc"
                st["alg"] = rng.randrange(1 << 16)
                st["kid"] = rng.random() < .6
                st["lost"] = rng.random() < .05
            elif op == "deliver":
                st["which"] = cut(rng.random(), 3)
                st["keep"] = rng.random() < .4            # stays in flight: delivered again later
                st["how"] = rng.choice(["compact", "compact", "verbose", "json", "factory", "general"])
                st["life"] = rng.choice(["fresh", "fresh", "kept"])
                st["set"] = rng.choice(["list", "KEYS"])
            elif op == "noise":
                st["key"] = rng.randrange(max(1, len(noise)))
                st["crafted"] = rng.random() < .25        # a key made for a message in flight
            steps.append(st)
        return {"senders": senders, "noise": noise, "fixed": fixed, "steps": steps, "crowd": crowd, "start": rng.random() < .8}

    def shrinkable(self, plan):
        return [["steps"]]

    def lib_key(self, spec):
        from jwkest import jwk as J
        if spec["t"] == "OKP":
            return J.keyrep({"kty": "OKP", "crv": "Ed25519", "x": "11qYAYKxCrfVS_7TyWQHOg7hcvPapiMlrwIaaPcHURo", "kid": spec["kid"]})
        if spec["t"] == "hollow":         # an entry of a key set that lists a key without (all of) its material
            return J.keyrep(dict(HOLLOW[spec["h"] % len(HOLLOW)], kid=spec["kid"]))
        if spec["t"] == "ecinf":
            return J.keyrep({"kty": "EC", "crv": spec["crv"], "x": spec["x"], "y": spec["y"], "kid": spec["kid"]})
        if spec["t"] == "rsatiny":
            # a 512 bit key nobody should use, but which may sit in a key set
            return J.RSAKey(n=TINY, e="AQAB", kid=spec["kid"])
        if not spec["priv"] and spec["t"] == "oct":
            spec = dict(spec, priv=True)
        return K.make(spec)

    def run(self, plan, w):
        from jwkest import jwk as J
        senders, noise, fixed = plan["senders"], plan["noise"], plan["fixed"]
        cur = 0
        held, objs = [], {}          # the receiver's key set: specs in order, and its key objects

        def hold(spec, at):
            k = json.dumps(spec, sort_keys=True)
            if k in [json.dumps(s, sort_keys=True) for s in held]:
                return
            if k not in objs:
                with entropy_op(w, "key"):
                    objs[k] = self.lib_key(spec)
            held.insert(at % (len(held) + 1), spec)
        if plan["start"]:
            hold(senders[0], 0)
        if plan["crowd"]:
            for j, s in enumerate(noise):
                hold(s, j * 7)
        flight, kept = [], {}
        crossed = behind = accepted = 0
        cover, rotations = [], 0
        for st in plan["steps"]:
            op, n = st["op"], st["n"]
            if n % 8 == 7:
                w.clock.jump([-86400, -5, 5, 86400 * 400][n // 8 % 4])
            w.clock.advance([0, 0, 1, 3600, 86400][n // 32 % 5])
            if op == "rotate":
                cur = (cur + 1) % len(senders)
                rotations += 1
                w.log("rotate", cur)
            elif op == "announce":
                hold(senders[n % len(senders)] if n % 3 else senders[cur], n // 3)
                w.log("announce", n)
            elif op == "noise" and st.get("crafted") and [m for m in flight if m[1][:2] == "ES"]:
                mine = [m for m in flight if m[1][:2] == "ES"]
                m = mine[n // 3 % len(mine)]
                hold(infinite(m[1], m[3], m[6]), n)
                w.fault("crafted_key")
                w.log("crafted", n)
            elif op == "noise" and noise:
                hold(noise[st["key"] % len(noise)], n)
                w.log("noise", st["key"])
            elif op == "drop" and held:
                held.pop(n % len(held))
                w.log("drop", n)
            elif op == "shuffle" and held:
                k = n % len(held)
                held[:] = held[k:] + held[:k] if n & 256 else held[::-1]
                w.fault("key_order_changed")
            elif op == "restart":
                objs.clear()
                for s in held:
                    with entropy_op(w, "key"):
                        objs[json.dumps(s, sort_keys=True)] = self.lib_key(s)
                kept.clear()
                w.fault("restart")
            elif op == "send":
                spec = senders[cur]
                text = "m%d" % st["id"]
                named = dict(spec, kid=spec["kid"] if st["kid"] else "")
                with entropy_op(w, "send%d" % st["id"]):
                    rng = seeded(st["alg"])
                    if st["kind"] == "sig":
                        alg, enc = fixed or W.sig_alg(rng, spec), None
                        tok = W.sig_token(named, alg, text.encode())
                    else:
                        if spec["t"] == "oct":
                            spec = dict(spec)
                        alg, enc = W.enc_alg(rng, spec, .02)
                        tok = W.enc_token(w, "send%d" % st["id"], named, alg, enc, text.encode())
                if st["lost"]:
                    w.fault("message_lost")
                    continue
                flight.append((st["kind"], alg, enc, spec, named["kid"], text, tok, rotations))
                w.log("send", st["id"], alg, enc, K.material(spec)[:30], named["kid"])
            elif op == "deliver" and flight:
                i = min(len(flight) - 1, int(st["which"] * len(flight)))
                kind, alg, enc, spec, kid, text, tok, born = flight[i] if st["keep"] else flight.pop(i)
                if i:
                    w.fault("message_reordered")
                if st["keep"]:
                    w.fault("message_duplicated")
                if born != rotations:
                    w.fault("message_delayed_past_rotation")
                usable = [s for s in held if s["t"] == spec["t"] or spec["t"] in ODD.get(s["t"], ())]
                usable = [s for s in usable if (not kid or s["kid"] == kid) and s.get("use", "") in ("", kind)]
                if kind == "sig":
                    usable = [s for s in held if (s["t"] == spec["t"] or spec["t"] in ODD.get(s["t"], ())) and
                              (not kid or s["kid"] == kid)]
                pos = [j for j, s in enumerate(usable) if s["t"] not in ODD and K.material(s) == K.material(spec) and s["priv"]]
                arg = [objs[json.dumps(s, sort_keys=True)] for s in held]
                if st["set"] == "KEYS":
                    ks = J.KEYS()
                    for k in arg:
                        ks.append(k)
                    arg = ks
                if not held:
                    continue
                with entropy_op(w, "deliver%d" % st["id"]):
                    ok, got = O.call(self.receive, plan, st, kind, alg, tok, arg, kept)
                w.log("deliver", st["id"], alg, st["how"], ok, len(pos), O.brief(got))
                want = text if kind == "sig" else text.encode()
                if st["how"] == "verbose" and kind == "sig" and ok:
                    got = got["msg"]
                if ok and got != want:
                    return w.violate("wrong-result", "%s gave %r, not %r" % (alg, got, want))
                if pos and not ok:
                    return w.violate("locked-out", "%s%s message refused (%s, %s) although the receiver holds %s, behind %s: %r" % (
                        alg, "/" + enc if enc else "", st["how"], st["life"], brief(spec), [brief(s) for s in usable[:pos[0]]], got))
                if ok and not pos:
                    return w.violate("accepted-without-key", "%s message accepted, the receiver holds %s" % (
                        alg, [brief(s) for s in usable]))
                if ok:
                    accepted += 1
                    behind += pos[0] > 0
                    crossed += born != rotations
                    cover.append([alg, enc, [brief(s) for s in usable], pos[0]])
        return {"nontrivial": bool(behind and crossed), "key": json.dumps(cover), "interleavings": [json.dumps(c) for c in cover],
                "sample": cover[:4]}

    def receive(self, plan, st, kind, alg, tok, arg, kept):
        from jwkest import jws as S_, jwe as E_
        if kind == "sig":
            v = S_.JWS(alg=alg) if plan["fixed"] else S_.JWS()
            if st["life"] == "kept" and plan["fixed"]:
                v = kept.setdefault("v", v)
            if st["how"] in ("json", "general"):
                return v.verify_json(W.as_json(tok, st["how"] == "json"), arg)
            if st["how"] == "verbose":
                return v.verify_compact_verbose(tok, arg)
            if st["how"] == "factory":
                v = S_.factory(tok)
            return v.verify_compact(tok, arg)
        v = E_.JWE()
        if st["life"] == "kept":
            v = kept.setdefault("d", v)
        if st["how"] == "factory":
            return E_.factory(tok).decrypt(keys=arg)
        return v.decrypt(tok, arg)


def seeded(n):
    from .. import seams
    return seams.REAL["Random"](n)


def infinite(alg, spec, token):
    """A key of the curve for which the check of this signature ends at the point at infinity: -(h / r) * G."""
    from Cryptodome.PublicKey import ECC
    h, p, sig = token.split(".")
    size, n = K.CBITS[spec["crv"]], K.CBYTES[spec["crv"]]
    N = K.ORDER[spec["crv"]]
    r = int.from_bytes(K.unb64u(sig)[:n], "big")
    digest = hashlib.new("sha" + alg[2:], (h + "." + p).encode()).digest()
    e = int.from_bytes(digest, "big")
    e >>= max(0, e.bit_length() - size)
    q = ECC.construct(curve=spec["crv"], d=-e * pow(r, -1, N) % N).pointQ
    x, y = int(q.x), int(q.y)
    return {"t": "ecinf", "crv": spec["crv"], "x": K.b64u(x.to_bytes(n, "big")), "y": K.b64u(y.to_bytes(n, "big")),
            "kid": spec["kid"], "priv": False, "use": ""}


def brief(s):
    return "%s%s%s" % (s["t"], "/" + s["crv"] if "crv" in s else "/%d" % K.POOL["rsa"][s["i"]]["bits"] if s["t"] == "RSA" else
                       "/%d" % (len(s["k"]) // 2) if "k" in s else "", "" if s.get("priv", True) else "/pub")


# members of the set that no message was made with, and the kinds of key they pass for
ODD = {"rsatiny": ["RSA"], "ecinf": ["EC"], "hollow": ["RSA", "EC", "oct"]}
HOLLOW = [{"kty": "oct"}, {"kty": "oct", "k": ""}, {"kty": "RSA"}, {"kty": "RSA", "n": "AQAB"}, {"kty": "RSA", "e": "AQAB"},
          {"kty": "EC"}, {"kty": "EC", "crv": "P-256", "x": "AA", "y": "AQ"}, {"kty": "EC", "crv": "P-384", "x": "AQ", "y": "AA"},
          {"kty": "EC", "crv": "P-521", "x": "Ag", "y": "Aw"}]
TINY = K.b64u(K.i2b(0xc5a3d3d95d2e7f3c1d3c8b5e5a4e0f49 * (1 << 384) | 0x1b7d3f5a9c2e4d6f8091a2b3c4d5e6f7 * (1 << 200) | 0x9f3b7d5c1e2f | 1))
PROP = C11()
