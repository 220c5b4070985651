"""C05: keys named by URL always follow the key server."""
import json
from .. import keys as K
from .. import ops as O
from .. import urlthreads as T
from .. import netops as N
from ..net import Net
from ..runner import Property
from ..seams import entropy_op, SimHang

SIGN = {"RSA": ["RS256", "PS256", "RS512"], "oct": ["HS256", "HS384"]}


def sign_alg(spec, n):
    if spec["t"] == "EC":
        return [a for a, c in K.ES.items() if c == spec["crv"]][0]
    return SIGN[spec["t"]][n % len(SIGN[spec["t"]])]


ENC = {"RSA": ["RSA-OAEP", "RSA1_5"], "EC": ["ECDH-ES", "ECDH-ES+A128KW"], "oct": ["A128KW", "A256KW"]}


class C05(Property):
    ID = "C05"
    RUNS = {"quick": 3000, "thorough": 40000}
    RULE = ("a run in which a fault struck a key download, a later call succeeded, and the server rotated its keys: "
            "sequence of (call kind, fault, framing, redirect, expected outcome); or threads that download at once, one of them to fail: calls and schedule")
    STATE_MEASURE = "distinct (call kind, object life, fault with hop, framing, encoding, redirect, outcome) tuples"
    REAL_PARTS = ["jwkest", "Cryptodome", "requests", "urllib3", "http.client", "json", "zlib"]
    STUBS = ["OS random source", "clock", "sockets, name lookup and TLS", "key server"]
    ASSUMPTIONS = ["the key server's TLS certificate decides whom one talks to (see C07)",
                   "a complete answer is one whose HTTP framing, coding and syntax are complete"]

    KINDS = ["verify_jku"] * 5 + ["verify_x5u"] * 3 + ["enc_jku"] * 3 + ["enc_x5u", "load_new", "load_new", "load_more",
                                                                       "load_fn", "cert", "cert", "json_jku"]

    def gen(self, rng, index, tier):
        if rng.random() < .06:
            return {"threads": T.gen(rng, 0.15)}
        keys, n = [], rng.randrange(4, 7)
        while len(keys) < n:
            t = rng.choice(["RSA", "RSA", "EC", "EC", "oct"])
            s = {"t": t, "kid": rng.choice(["", "k%d" % len(keys), "same", "same"]), "form": "obj"}
            if t == "RSA":
                s["i"] = rng.choice(K.RSA1024 + K.RSA1536)
            elif t == "EC":
                s.update(crv=rng.choice(["P-256", "P-256", "P-384"]), cls=rng.choice(["normal", "xzero", "yzero"]))
                s["i"] = rng.randrange(len(K.POOL["ec"][s["crv"]][s["cls"]]))
            else:
                s["k"] = K.rand_oct(rng, 16)
            if K.material(s) not in [K.material(x) for x in keys]:
                keys.append(s)

        def some():
            k = [i for i in range(n) if rng.random() < .6]
            rng.shuffle(k)
            return k
        steps = []
        for j in range(rng.randrange(8, 14)):
            if rng.random() < .3:
                steps.append({"id": j, "op": "rotate", "set": some(), "cert": rng.choice(K.RSA1024 + K.RSA1536)})
                continue
            s = {"id": j, "op": rng.choice(self.KINDS), "key": rng.randrange(n), "alg": rng.randrange(6),
                 "life": rng.choice(["fresh", "kept", "kept"]), "framing": rng.choice(["length", "chunked", "close", "length-keepalive"]),
                 "encoding": rng.choice([None, None, None, "gzip", "deflate"]),
                 "redirect": rng.choice([0, 0, 0, 1, 2, 3, 4])and 1, "hopcode": rng.randrange(5),
                 "fault": N.gen_fault(rng) if rng.random() < .45 else None, "timeout": rng.choice([None, 2, 5]),
                 "cacheable": rng.random() < .3, "later": rng.choice([0, 0, 0, 1, 60, 4000, 90000, -7200])}
            steps.append(s)
        return {"keys": keys, "first": some(), "cert": rng.choice(K.RSA1024 + K.RSA1536), "steps": steps}

    def shrinkable(self, plan):
        return T.shrinkable(plan["threads"]) if "threads" in plan else [["steps"]]

    def run(self, plan, w):
        from jwkest.jws import JWS
        from jwkest.jwe import JWE
        from jwkest import jwk as J
        net = w.net = Net(w)
        if "threads" in plan:
            problems, cover, schedules, nontrivial = T.run(plan["threads"], w, net)
            T.outcome(problems, w, ("wrong-keys", "accepted-stale", "hidden-fault", "refused-valid"))
            return T.result(cover, schedules, nontrivial)
        srv = N.KeyServer(net, plan)
        srv.current, srv.cert = list(plan["first"]), plan["cert"]
        keys = plan["keys"]
        toks = {}
        kept, more, more_model, spec2key = {}, J.KEYS(), [], {}
        rotated = struck = recovered = 0
        cover = []

        def token(spec, alg, text):
            hdr = {"kid": spec["kid"]} if spec.get("kid") else {}
            return O.ref_sign_compact(spec, alg, text.encode(), hdr)

        for st in plan["steps"]:
            op = st["op"]
            if op == "rotate":
                srv.current, srv.cert = list(st["set"]), st["cert"]
                rotated += 1
                w.log("rotate", st["set"], st["cert"])
                continue
            srv.begin(st)
            if st["later"] < 0:
                w.clock.jump(st["later"])
            w.clock.advance(st["later"])
            f = st["fault"]
            spoiled = None
            w.log("call", st["id"], op, st["life"], json.dumps(f), st["framing"], st["encoding"], st["redirect"])
            spec = keys[st["key"]]
            verdict = None
            with entropy_op(w, "step%d" % st["id"]):
                try:
                    if op in ("verify_jku", "json_jku", "verify_x5u"):
                        if op == "verify_x5u":
                            ci = plan["steps"][st["alg"] % len(plan["steps"])].get("cert", srv.cert)
                            ci = srv.cert if st["key"] % 2 else ci
                            sspec, alg, url = {"t": "RSA", "i": ci}, SIGN["RSA"][st["alg"] % 3], {"x5u": N.CERT}
                        else:
                            sspec, alg, url = spec, sign_alg(spec, st["alg"]), {"jku": N.JWKS}
                        with entropy_op(w, "tok%d" % st["id"]):
                            tok = token(sspec, alg, "text %d" % st["id"])
                        k = (op, alg)
                        v = kept.get(k) if st["life"] == "kept" else None
                        if v is None:
                            v = JWS(alg=alg, **url)
                            if st["life"] == "kept":
                                kept[k] = v
                        if op == "json_jku":
                            h, b, s = tok.split(".")
                            ok, got = O.call(v.verify_json, json.dumps({"payload": b, "protected": h, "signature": s}))
                        else:
                            ok, got = O.call(v.verify_compact, tok)
                        spoiled = srv.spoiled()
                        want = [K.material(sspec) in ([K.material(keys[i]) for i in cur] if op != "verify_x5u" else
                                                      ["RSA/%d" % cert]) for cur, cert in srv.delivered]
                        if ok and (spoiled or True not in want):
                            verdict = ("accepted-stale", "accepted a message signed by %s although %s" % (
                                K.material(sspec), "no complete answer arrived" if spoiled else "the server holds only %r" % (
                                    srv.delivered,)))
                        elif ok and got != "text %d" % st["id"]:
                            verdict = ("wrong-payload", "%r" % (got,))
                        elif not ok and spoiled is False and False not in want:
                            verdict = ("refused-current", "refused a message signed by %s, which the server holds: %r" % (
                                K.material(sspec), got))
                    elif op in ("enc_jku", "enc_x5u"):
                        if op == "enc_x5u":
                            alg, url, want = ENC["RSA"][st["alg"] % 2], {"x5u": N.CERT}, None
                        else:
                            alg, url = ENC[spec["t"]][st["alg"] % 2], {"jku": N.JWKS}
                        enc = K.ENC_CBC[st["alg"] % 2] if alg != "RSA1_5" else K.ENC_CBC[0]
                        k = (op, alg, enc)
                        text = "secret %d" % st["id"]
                        v = kept.get(k) if st["life"] == "kept" else None
                        if v is None:
                            v = JWE(text, alg=alg, enc=enc, **url)
                            if st["life"] == "kept":
                                kept[k] = v
                        v.msg = text
                        ok, got = O.call(v.encrypt)
                        spoiled = srv.spoiled()
                        holders = []
                        for cur, cert in srv.delivered:
                            holders.append([keys[i] for i in cur if keys[i]["t"] == K.JWE_ALGS[alg]] if op == "enc_jku"
                                           else [{"t": "RSA", "i": cert}])
                        if ok:
                            opened = False
                            for hs in holders:
                                for h in hs:
                                    o, r = O.call(O.ref_open, h, got)
                                    opened = opened or (o and r.pt == text.encode())
                            if spoiled or not opened:
                                verdict = ("encrypted-to-stale", "encrypted although %s" % (
                                    "no complete answer arrived" if spoiled else "no key in the answer opens the result"))
                        elif spoiled is False and holders and all(holders):
                            verdict = ("refused-current", "could not encrypt with the keys served: %r" % (got,))
                    elif op in ("load_new", "load_more", "load_fn"):
                        kw = {"timeout": st["timeout"]} if st["timeout"] and op != "load_fn" else {}
                        ks = more if op == "load_more" else J.KEYS()
                        before = list(more_model) if op == "load_more" else []
                        if op == "load_fn":
                            ok, got = O.call(J.load_jwks_from_url, N.JWKS)
                            have = list(got) if ok else []
                        else:
                            ok, got = O.call(ks.load_from_url, N.JWKS, **kw)
                            have = ks.keys()
                        spoiled = srv.spoiled()
                        have = [(O.key_material(x), x.kid) for x in have]
                        gens = [before + [(K.material(keys[i]), keys[i]["kid"]) for i in cur] for cur, _ in srv.delivered]
                        if ok and (spoiled or have not in gens):
                            verdict = ("loaded-stale", "loaded %r, the server answered %r%s" % (
                                have, gens, ", incompletely" if spoiled else ""))
                        elif not ok and have != before:
                            verdict = ("half-loaded", "after a failure the set holds %r, before %r" % (have, before))
                        elif not ok and spoiled is False:
                            verdict = ("refused-current", "could not load the keys served: %r" % (got,))
                        if ok and op == "load_more":
                            more_model = have
                    else:
                        kw = {"timeout": st["timeout"]} if st["timeout"] else {}
                        s2k = spec2key if st["life"] == "kept" else {}
                        ok, got = O.call(J.load_x509_cert, N.CERT, s2k, **kw)
                        spoiled = srv.spoiled()
                        have = [int(x[1].n) for x in got] if ok else []
                        ns = [[int(K.POOL["rsa"][cert]["n"], 16)] for _, cert in srv.delivered]
                        if have and (spoiled or have not in ns):
                            verdict = ("loaded-stale", "loaded a certificate the server did not send completely in this call")
                        elif not have and spoiled is False:
                            verdict = ("refused-current", "could not load the certificate served: %r" % (got,))
                        ok = bool(have)
                except SimHang as err:
                    ok, got, verdict = False, err, ("hang", "waits for ever although nothing stalls")
            w.log(" ->", ok, O.brief(got))
            if verdict:
                w.violate(verdict[0], "%s: %s" % (op, verdict[1]))
                break
            if spoiled:
                struck += 1
            elif ok and struck:
                recovered += 1
            cover.append([op, st["life"], f and f["kind"], f and f["hop"], st["framing"], st["encoding"], st["redirect"], ok])
        return {"nontrivial": bool(rotated and struck and recovered), "key": json.dumps(cover),
                "interleavings": [json.dumps(c) for c in cover], "sample": [c[:3] + c[-1:] for c in cover]}


PROP = C05()
