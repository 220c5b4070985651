"""Several threads that each download keys from URLs of their own at once (C05, C07).

Every call has a server, a key, a verify option and a timeout of its own, and is judged alone: nothing of another
thread's call - its options, its answer, its failure - may show in it."""
import json
from . import keys as K
from . import ops as O
from . import sched as S
from . import work as W
from .net import Host, Response, jwks_body
from .seams import SimHang

BAD_TLS = ["selfsigned", "expired", "wronghost"]
FAULTS = ["status", "html", "cut", "empty", "badkey"]


def gen(rng, tls):
    """tls: how often a server has no valid certificate."""
    n = rng.choice([2, 2, 2, 3])
    pool = list(K.RSA1024 + K.RSA1536)
    roles, i = [], 0
    for t in range(n):
        calls = []
        for _ in range(rng.choice([1, 1, 2])):
            c = {"id": i, "call": rng.choice(["load", "load", "load_fn", "cert", "cert", "jku", "x5u"]), "key": pool[i % len(pool)],
                 "host": rng.choice(BAD_TLS) if rng.random() < tls else "good", "verify": rng.choice(["", "", "true", "false"]),
                 "tmo": rng.choice([None, 1, 4, 9]), "delay": 0, "fault": None}
            if c["call"] in ("jku", "x5u"):
                c["verify"] = ""
            if c["call"] not in ("load", "cert"):
                c["tmo"] = None
            if rng.random() < .5:
                c["delay"] = rng.choice([.5, 2, 6])
            if rng.random() < .3:
                c["fault"] = rng.choice(FAULTS)
            calls.append(c)
            i += 1
        roles.append(calls)
    rng.shuffle(pool)
    for k, c in enumerate(c for r in roles for c in r):
        c["key"] = pool[k]
    return {"roles": roles, "mode": rng.choice(["line", "line", "line", "instr"]), "first": rng.randrange(n),
            "rounds": W.gen_rounds(rng, S, n, 12, 100, 7), "shared_certs": rng.random() < .5}


def run(plan, w, net):
    """-> (problems [(code, text)], coverage, interleavings, whether a call had to fail and one had to succeed)."""
    from jwkest.jws import JWS
    from jwkest import jwk as J
    calls = dict((c["id"], c) for r in plan["roles"] for c in r)

    def handle(host, method, path, hdrs):
        c = calls[int(path.split("/")[2])]
        spec = {"t": "RSA", "i": c["key"]}
        cert = c["call"] in ("cert", "x5u")
        body = K.POOL["rsa"][c["key"]]["cert"].encode() if cert else jwks_body([K.jwk(spec, False)])
        status, p = 200, {"delay": c["delay"] or .02}
        f = c["fault"]
        if f:
            w.fault("answer_" + f)
        if f == "status":
            status = [404, 500, 503, 403][c["key"] % 4]
        elif f == "html":
            body = b"<html>maintenance</html>"
        elif f == "empty":
            body = b""
        elif f == "badkey":
            body = body.replace(b'"kty"', b'"ktx"') if not cert else b"-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n"
        elif f == "cut":
            p.update(at="read", kind="truncate", where="body", frac=.6)
        return Response(status, body, [("Content-Type", "text/plain" if cert else "application/json")], plan=p)
    for t in ["good"] + BAD_TLS:
        net.add(Host(t + ".example", handle, tls=t))
    toks = dict((i, O.ref_sign_compact({"t": "RSA", "i": c["key"]}, "RS256", b"text %d" % i, {})) for i, c in calls.items())
    ns = dict((K.jwk({"t": "RSA", "i": c["key"]}, False)["n"], c["key"]) for c in calls.values())

    def numbers(keys):
        return [O.key_material(k) for k in keys]

    def work(c, held):
        url = "https://%s.example/k/%d/keys" % (c["host"], c["id"])
        kw = {}
        if c["verify"]:
            kw["verify"] = c["verify"] == "true"
        if c["tmo"] is not None:
            kw["timeout"] = c["tmo"]

        def go():
            if c["call"] == "load":
                ks = J.KEYS()
                try:
                    ks.load_from_url(url, **kw)
                finally:
                    left = numbers(ks.keys())
                    if left and left != ["RSA/%d" % c["key"]]:
                        return left
                return left
            if c["call"] == "load_fn":
                return numbers(J.load_jwks_from_url(url, **kw))
            if c["call"] == "cert":
                got = J.load_x509_cert(url, held, **kw)
                return ["RSA/%s" % ns.get(K.b64u(k.n.to_bytes((k.n.bit_length() + 7) // 8, "big")), "?") for _, k in got]
            got = JWS(alg="RS256", **{c["call"]: url}).verify_compact(toks[c["id"]])
            return ["RSA/%d" % c["key"]] if got == "text %d" % c["id"] else [repr(got)]
        try:
            return O.call(go)
        except SimHang as err:
            return False, err

    def build():
        shared = {}
        return [lambda r=r: [work(c, shared if plan["shared_certs"] else {}) for c in r] for r in plan["roles"]]
    problems, schedules = [], []

    def judge(res, how):
        for r, got in zip(plan["roles"], res):
            for c, (ok, val) in zip(r, got):
                w.log(how, c["id"], c["call"], ok, O.brief(val))
                right = ["RSA/%d" % c["key"]]
                what = "%s of %s (%s server, verify %r, timeout %r, answers after %r s%s) among other threads' downloads" % (
                    c["call"], "its own key", c["host"], c["verify"], c["tmo"], c["delay"], ", fault " + c["fault"] if c["fault"] else "")
                used = ok and bool(val)
                blocked = c["host"] != "good" and c["verify"] != "false"
                late = c["tmo"] is not None and c["delay"] > c["tmo"]
                if used and val != right:
                    problems.append(("wrong-keys", "%s gave %r, its server has %r" % (what, val, right)))
                elif used and blocked:
                    problems.append(("unverified-tls", "%s used the answer" % what))
                elif used and late:
                    problems.append(("timeout-ignored", "%s succeeded" % what))
                elif used and c["fault"]:
                    problems.append(("accepted-stale", "%s gave %r although no complete answer arrived" % (what, val)))
                elif ok and c["call"] != "cert" and (blocked or late or c["fault"]) and c["fault"] != "badkey":
                    problems.append(("hidden-fault", "%s returned %r" % (what, val)))
                elif not used and not (blocked or late or c["fault"]):
                    problems.append(("refused-valid", "%s failed: %r" % (what, val)))
    seq, counters = S.learn(build, plan["mode"])
    judge(seq, "alone")
    for switches in plan["rounds"]:
        if problems:
            break
        try:
            conc = S.concurrent(w, build(), counters, switches, plan["mode"], plan["first"])
        except S.Deadlock as err:
            problems.append(("deadlock", str(err)))
            break
        schedules.append(S.interleaving_hash(w.sched_last.switches))
        judge(conc, "thread")
    flat = list(calls.values())
    fails = [c for c in flat if c["fault"] or c["host"] != "good" or c["delay"]]
    cover = [[(c["call"], c["host"], c["verify"], c["tmo"], c["delay"], c["fault"]) for c in r] for r in plan["roles"]]
    return problems, cover, schedules, bool(fails) and len(fails) < len(flat)


def outcome(problems, w, codes):
    for code, text in problems:
        if code in codes or code == "deadlock":
            w.violate(code, text)
            break


def result(cover, schedules, nontrivial):
    return {"nontrivial": nontrivial, "key": json.dumps([cover, schedules]),
            "interleavings": [json.dumps(x) for r in cover for x in r] + schedules, "sample": cover}


def shrinkable(plan):
    return [["threads", "rounds"]] + ([["threads", "rounds", 0]] if plan["rounds"] else [])
