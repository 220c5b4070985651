"""C07: key downloads verify TLS and honour the caller's timeout."""
import json
from .. import keys as K
from .. import ops as O
from .. import urlthreads as T
from ..net import Net, Host, Response, jwks_body
from ..runner import Property
from ..seams import entropy_op, SimHang
from ..keys import cut

BAD = ["selfsigned", "expired", "wronghost"]
TAILS = ["", "", "", ".pem", ".json", ".crt", ".der", "/jwks.json", "/certs", "?v=1", "?verify=false&verify=0", "#x",
         "/.well-known/jwks.json", ".PEM", "/x509/public.pem"]
NAMES = ["%s%d.example"] * 3 + ["%s%d.local", "%s%d.internal", "%s%d.test", "localhost-%s%d", "%s%d", "127.0.%s.%d",
                                "192.168.%s.%d", "10.7.%s.%d", "%s%d.accounts.example.com", "login.%s%d.example.org"]
KINDS = ["good", "plain", "selfsigned", "expired", "wronghost"]
WAITS = ["connect", "tls", "head", "body", "drip", "connect_slow", "tls_slow", "head_slow"]


class C07(Property):
    ID = "C07"
    RUNS = {"quick": 6000, "thorough": 60000}
    RULE = ("a run with a download from a server without a valid certificate, or with a wait longer than the caller's "
            "timeout, and a download that succeeded: sequence of (call, verify option, timeout, chain of servers, stall); or threads that download at once, one of them to fail: calls and schedule")
    STATE_MEASURE = "distinct (call, verify option, timeout form, schemes and certificates along the redirects, stall) tuples"
    REAL_PARTS = ["jwkest", "requests", "urllib3", "http.client", "json"]
    STUBS = ["OS random source", "clock", "sockets and name lookup", "TLS handshake (decides by the SSLContext it is given)"]
    ASSUMPTIONS = ["a certificate is one of good, self-signed, expired, for another host",
                   "OpenSSL verifies as the SSLContext it is given says"]

    def gen(self, rng, index, tier):
        if rng.random() < .1:
            return {"threads": T.gen(rng, 0.5)}
        steps = []
        for j in range(rng.randrange(6, 11)):
            call = rng.choice(["load", "load", "load", "load_fn", "cert", "cert", "jku", "x5u", "enc_jku", "enc_x5u"])
            if rng.random() < .5:
                chain = [["https", rng.choice(["good"] * 2 + BAD)]]
            else:
                chain = [[rng.choice(["https", "https", "http"]), rng.choice(["good"] * 3 + BAD)]
                         for _ in range(rng.choice([2, 2, 3]))]
            s = {"id": j, "call": call, "chain": chain, "code": rng.choice([301, 302, 303, 307, 308]),
                 "rel": rng.random() < .2, "verify": rng.choice(["", "", "", "", "true", "false", "false"]),
                 "tmo": None, "wait": None, "kept": rng.random() < .5, "tail": rng.choice(TAILS),
                 "names": rng.choice(NAMES), "port": rng.choice(["", "", "", "", ":443", ":8443", ":80"])}
            if call in ("load", "cert") and rng.random() < .5:
                s["tmo"] = rng.choice([0.5, 1, 3, 3.5, 10, [1, 4], [5, 2]])
            if call in ("jku", "x5u", "enc_jku", "enc_x5u") or (call == "load_fn" and s["verify"] == "true"):
                s["verify"] = ""
            if s["tmo"] is not None and rng.random() < .7:
                s["wait"] = {"lasts": rng.random() < .5, "kind": rng.choice(WAITS), "hop": rng.randrange(3), "frac": cut(rng.random() * .8, 3),
                             "mult": rng.choice([.3, .8, 1.7, 20])}
            steps.append(s)
        return {"steps": steps, "key": rng.choice(K.RSA1024), "imp": rng.choice(K.RSA1536 + K.RSA2048)}

    def shrinkable(self, plan):
        return T.shrinkable(plan["threads"]) if "threads" in plan else [["steps"]]

    def run(self, plan, w):
        from jwkest.jws import JWS
        from jwkest.jwe import JWE
        from jwkest import jwk as J
        net = w.net = Net(w)
        if "threads" in plan:
            problems, cover, schedules, nontrivial = T.run(plan["threads"], w, net)
            T.outcome(problems, w, ("unverified-tls", "timeout-ignored", "refused-valid"))
            return T.result(cover, schedules, nontrivial)
        cover, bad_seen, good_seen, waited = [], 0, 0, 0
        cur = {}

        def handle(host, method, path, hdrs):
            hop = int(path[3])
            chain = cur["chain"]
            if hop + 1 < len(chain):
                nxt = "%s://%s%s/k/%d%s" % (chain[hop + 1][0], name(hop + 1, chain), cur["port"], hop + 1, cur["tail"])
                if cur["rel"] and host.name == name(hop + 1, chain) and chain[hop][0] == chain[hop + 1][0]:
                    nxt = "/k/%d%s" % (hop + 1, cur["tail"])
                return Response(cur["code"], b"moved", [("Location", nxt)])
            cur["answered"] = True
            if cur["call"] in ("cert", "x5u", "enc_x5u"):
                return Response(200, K.POOL["rsa"][plan["key"]]["cert"].encode(), [("Content-Type", "text/plain; charset=utf-8")])
            return Response(200, jwks_body([K.jwk({"t": "RSA", "i": plan["key"]}, False)]),
                            [("Content-Type", "application/json")])

        def name(hop, chain):
            t = chain[hop][1] if chain[hop][0] == "https" else "plain"
            return hostname(cur["names"], t, hop % 2)

        def hostname(form, t, i):
            return form % (KINDS.index(t) if form[0].isdigit() else t, i)
        for form in sorted(set(st["names"] for st in plan["steps"])):
            for t in KINDS:
                for i in (0, 1):
                    net.add(Host(hostname(form, t, i), handle, tls=None if t == "plain" else t))
        kept_ks, kept_certs = J.KEYS(), {}
        tok = O.ref_sign_compact({"t": "RSA", "i": plan["key"]}, "RS256", b"m", {})
        for st in plan["steps"]:
            cur.clear()
            cur.update(st)
            chain = st["chain"]
            url = "%s://%s%s/k/0%s" % (chain[0][0], name(0, chain), st["port"], st["tail"])
            kw = {}
            if st["verify"]:
                kw["verify"] = st["verify"] == "true"
            if st["tmo"] is not None:
                kw["timeout"] = tuple(st["tmo"]) if isinstance(st["tmo"], list) else st["tmo"]
            ct, rt = st["tmo"] if isinstance(st["tmo"], list) else (st["tmo"], st["tmo"])
            net.plans[:] = []
            net.max_wait = net.total_wait = 0
            too_long = stall = lasts = False
            wt = st["wait"]
            if wt:
                k, hop = wt["kind"], min(wt["hop"], len(chain) - 1)
                if k.startswith("tls") and chain[hop][0] != "https":
                    k = "head" + k[3:]
                pl = {}
                stall = not k.endswith("slow") and k != "drip"
                if k == "connect":
                    pl = {"at": "connect", "kind": "timeout"}
                elif k == "tls":
                    pl = {"at": "tls", "kind": "timeout"}
                elif k in ("head", "body"):
                    pl = {"at": "read", "kind": "stall", "where": "headers" if k == "head" else "body", "frac": wt["frac"]}
                elif k == "drip":
                    pl = {"drip": .6 * rt, "step": 200}
                elif k == "connect_slow":
                    pl = {"connect_delay": wt["mult"] * ct}
                elif k == "tls_slow":
                    pl = {"tls_delay": wt["mult"] * (ct if True else rt)}
                else:
                    pl = {"delay": wt["mult"] * rt}
                if k.endswith("slow"):
                    too_long = wt["mult"] > 1
                    # which of the two limits covers the handshake is the HTTP library's business
                    if k == "tls_slow" and ct != rt:
                        too_long = None
                if stall:
                    too_long = True
                if too_long:
                    w.fault("wait_" + k)
                lasts = bool(too_long and wt["lasts"])
                net.plans[:] = [{} for _ in range(hop)] + [dict(pl) for _ in range(6 if lasts else 1)]
            w.log("call", st["id"], st["call"], json.dumps(chain), url, json.dumps(kw), json.dumps(wt))
            t0, seen = w.clock.now, len(net.events)
            hang = False
            try:
                with entropy_op(w, "call%d" % st["id"]):
                    if st["call"] == "load":
                        ks = kept_ks if st["kept"] else J.KEYS()
                        before = len(ks)
                        ok, got = O.call(ks.load_from_url, url, **kw)
                        used = len(ks) > before
                    elif st["call"] == "load_fn":
                        ok, got = O.call(J.load_jwks_from_url, url, **kw)
                        used = ok and bool(got)
                    elif st["call"] == "cert":
                        ok, got = O.call(J.load_x509_cert, url, kept_certs if st["kept"] else {}, **kw)
                        used = ok and bool(got)
                    elif st["call"] in ("jku", "x5u"):
                        ok, got = O.call(JWS(alg="RS256", **{st["call"]: url}).verify_compact, tok)
                        used = ok
                    else:
                        ok, got = O.call(JWE("m", alg="RSA-OAEP", enc="A128CBC-HS256", **{st["call"][4:]: url}).encrypt)
                        used = ok
            except SimHang as err:
                ok, got, used, hang = False, err, False, True
            w.log(" ->", ok, used, O.brief(got), "waited %.2f longest %.2f" % (w.clock.now - t0, net.max_wait))
            if not lasts and sum(1 for e in net.events[seen:] if e[0] == "lookup") > len(chain):
                too_long = None               # it tried again, and only one connection was slow
            verifying = st["verify"] != "false"
            invalid = [c for c in chain if c[0] == "https" and c[1] != "good"]
            if used and verifying and invalid:
                w.violate("unverified-tls", "%s used the answer of a server with a certificate that is %s (chain %s, options %r)"
                          % (st["call"], invalid[0][1], json.dumps(chain), kw))
            if hang:
                w.violate("hang", "%s with %r waits for ever (%s)" % (st["call"], kw, json.dumps(wt)))
            if st["tmo"] is not None and net.max_wait > max(ct, rt) + 1e-6:
                w.violate("timeout-exceeded", "%s with %r waited %.2f s at once" % (st["call"], kw, net.max_wait))
            blocked = bool(verifying and invalid)
            if too_long and not blocked and used:
                w.violate("timeout-ignored", "%s with %r succeeded although it had to wait longer (%s)" % (
                    st["call"], kw, json.dumps(wt)))
            if too_long and not blocked and ok and st["call"] != "cert":
                w.violate("timeout-ignored", "%s with %r returned %s instead of raising" % (st["call"], kw, O.brief(got)))
            if not used and not blocked and too_long is False:
                w.violate("refused-valid", "%s %r over %s failed: %r" % (st["call"], kw, json.dumps(chain), got))
            bad_seen += blocked
            waited += bool(too_long)
            good_seen += bool(used)
            cover.append([st["call"], st["verify"], type(st["tmo"]).__name__, chain, wt and wt["kind"], wt and wt["mult"] > 1])
            if w.violation:
                break
        return {"nontrivial": bool((bad_seen or waited) and good_seen), "key": json.dumps(cover),
                "interleavings": [json.dumps(c) for c in cover], "sample": cover}


PROP = C07()
