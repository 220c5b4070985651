"""C17: what callers hand in stays as it was, and every call's outcome is its own."""
import copy
import json
from .. import keys as K
from .. import ops as O
from .. import sched as S
from .. import work as W
from ..keys import cut
from ..runner import Property
from ..seams import entropy_op
from ..trace import Striker, describe

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}
HDR = [{"cty": "text"}, {"typ": "JWT"}, {"x": {"y": [1, 2, {"z": "w"}]}}, {"cty": "JWT", "b": True}, {}, {"exp": 12, "a": None}]
UNPROTECTED = [{"note": "a"}, {"u": {"v": [1]}}, {}, None, {"alg": "HS256"}, {"kid": "k0", "alg": "RS256"}, {"kid": "", "jwk": {"kty": "oct"}, "n": None}]
MSGS = ["a text", b"some bytes", {"iss": "me", "aud": ["you", {"and": "them"}], "n": 3}, ["a", {"b": "c"}, 4], "{\"iss\": \"me\", \"l\": [1, [2]]}"]
MEMBERS = [["kty", "kid"], ["kty", "k"], ["use", "kty", "kid", "alg"], ["y", "x", "crv", "kty"]]
NESTED = [{"a": b"bytes", "b": [b"c", {"d": b"e"}], "f": None}, {"x": [1, "two", b"three"]}]
CHEAP = ["keyrep", "load_dict", "load_dict", "load_jwks", "wrap", "pack", "pack", "thumb", "thumb", "export", "sets", "eq", "b2s", "keyitems", "new"]


class C17(Property):
    ID = "C17"
    RUNS = {"quick": 1500, "thorough": 40000}
    RULE = "history in which two calls, at least one of them failing, struck or run by a thread, were handed the same argument"
    STATE_MEASURE = "distinct (operation, kinds of arguments, fault with its site or schedule, outcome) tuples"
    REAL_PARTS = ["jwkest", "Cryptodome", "json"]
    STUBS = ["OS random source", "thread scheduler"]
    ASSUMPTIONS = ["sign_json notes the algorithm in protected headers that lack one (the repository's tests rely on it)",
                   "what an argument is, is judged by its value, its order and the identity of its elements",
                   "hash() and add_kid() may name a key; they are not used here"]

    def gen(self, rng, index, tier):
        mixed = rng.random() < .4
        t = rng.choice(["oct", "oct", "RSA", "EC"])
        ring = []
        while len(ring) < 3:
            s = W.gen_ring(rng, 1, types=("oct", "RSA", "EC") if mixed else (t,))[0]
            if s["t"] == "EC" and s["crv"] == "P-521":
                continue
            s["kid"] = rng.choice(["", "k%d" % len(ring), "k%d" % len(ring)])
            if rng.random() < .2:
                s["use"] = rng.choice(["sig", "enc"])
            if K.material(s) not in [K.material(x) for x in ring]:
                ring.append(s)
        plan = {"ring": ring, "mode": rng.choice(["line", "line", "instr"]),
                "hdr": [rng.choice(HDR) for _ in range(2)], "msg": [rng.choice(MSGS) for _ in range(2)],
                "unprotected": [rng.choice(UNPROTECTED) for _ in range(2)], "members": rng.choice(MEMBERS), "nested": rng.randrange(len(NESTED)),
                "extra": rng.choice([{}, {}, {"key_ops": ["sign"], "n0": 1}, {"x5c": ["AAAA", "BBBB"], "exp": 4},
                                     {"x5u": "", "use": "", "x5t": None}, {"kid": "", "n1": [], "alg": ""}]), "inactive": [rng.choice([0, 0, 0, 7, 3]) for _ in ring]}
        for i, m in enumerate(plan["msg"]):
            if isinstance(m, bytes):
                plan["msg"][i] = {"bytes": m.decode()}
        plan["steps"] = [self.gen_step(rng, plan, j) for j in range(rng.randrange(4, 10))]
        plan["threads"] = []
        if rng.random() < .4:
            n = rng.choice([2, 2, 3])
            plan["threads"] = [[self.gen_step(rng, plan, 100 + 10 * k + i, True) for i in range(rng.choice([1, 1, 2]))] for k in range(n)]
            ms = sum(W.cost(ring[st["k"]], st) for th in plan["threads"] for st in th)
            plan["rounds"] = W.gen_rounds(rng, S, n, ms, 80, 10)
        return plan

    def gen_step(self, rng, plan, j, thread=False):
        op = rng.choice(["sign"] * 5 + ["sign_json"] * 3 + ["verify"] * 4 + ["verify_json"] * 2 + ["encrypt"] * 3 + ["decrypt"] * 3 + CHEAP)
        k = rng.randrange(3)
        spec = plan["ring"][k]
        st = {"id": j, "op": op, "k": k, "n": rng.randrange(1 << 16), "h": rng.choice([0, 0, 1, None]), "m": rng.randrange(2),
              "keys": rng.choice(["list", "list", "list", "KEYS", "tuple", "one", "strange"]), "fault": "none", "scribble": rng.random() < .4}
        if not thread:
            st.update(fault=rng.choice(["none"] * 6 + ["entropy", "strike", "strike", "strike"]), at=[cut(rng.random(), 5), cut(rng.random(), 4)],
                      exc=rng.choice(list(EXC)), draw=rng.choice([0, 0, 1, 2]))
        if op in ("sign", "sign_json", "verify", "verify_json"):
            a = W.sig_alg(rng, spec)
            st["alg"] = "PS256" if a == "PS512" else a
            st["own"] = rng.choice([None, None, None, "x5c", "jwk", "kid", "typ"]) if op == "sign" else None
            st["damage"] = rng.choice([None, None, None] + W.DAMAGE)
            st["form"] = rng.choice(["str", "bytes", "verbose"])
            if op == "sign_json":
                st.update(alg_in=thread or rng.random() < .4, sigs=rng.choice([1, 1, 2, 2]), same=rng.random() < .3, flat=rng.random() < .4)
        elif op in ("encrypt", "decrypt"):
            st["alg"], st["enc"] = W.enc_alg(rng, spec, .02)
            if st["alg"] == "RSA-OAEP-256":
                st["enc"] = K.ENC_CBC[0]
            st["own"] = rng.choice([None, None, "cty", "apu", "iv", "zip"])
            st["damage"] = rng.choice([None, None, None] + W.JDAMAGE)
        return st

    def shrinkable(self, plan):
        return [["steps"]] + ([["rounds"]] if plan["threads"] else []) + [["threads", i] for i in range(len(plan["threads"]))]

    # ---------------------------------------------------------------- arguments
    def pool(self, plan, w):
        """Everything callers hand in, made anew: always the same."""
        from jwkest import jwk as J
        with entropy_op(w, "pool"):
            p = {"ring": [K.make(s) for s in plan["ring"]]}
            p["strange"] = [K.make(dict(W.other_signer(s, ""), kid=s["kid"], form="obj")) for s in plan["ring"]]
            p["twin"] = [K.make(s) for s in plan["ring"]]
            for key, t in zip(p["ring"], plan["inactive"]):
                key.inactive_since = t
            p["one"] = [[k] for k in p["ring"]]
            p["tuple"] = tuple(p["ring"])
            p["KEYS"] = J.KEYS()
            for k in p["ring"]:
                p["KEYS"].append(k)
            p["hdr"] = [copy.deepcopy(h) for h in plan["hdr"]]
            p["unprotected"] = [copy.deepcopy(h) for h in plan["unprotected"]]
            p["msg"] = [m["bytes"].encode() if isinstance(m, dict) and "bytes" in m else copy.deepcopy(m) for m in plan["msg"]]
            p["members"] = list(plan["members"])
            p["nested"] = copy.deepcopy(NESTED[plan["nested"]])
            p["jwk"] = [dict(K.jwk(s), **copy.deepcopy(plan["extra"])) for s in plan["ring"]]
            p["jwks"] = {"keys": [dict(d) for d in p["jwk"]], "more": ["a"]}
            p["broken"] = {"keys": [dict(p["jwk"][0]), {"kty": "EC", "crv": "P-0", "x": "AA", "y": "AA"}, dict(p["jwk"][1])]}
            p["x5c"] = ["AAAA", "BBBB"]
            p["items"] = {"oct": ["secret one", "secret two"], "RSA": [O.rsa_obj(K.RSA1024[0])]}
            p["rsa"] = O.rsa_obj(K.RSA1024[1])
            p["parts"] = [["a payload", b"more"], [{"iss": ["x", "y"]}, "s"]]
            p["headers"] = {}
            for st in list(plan["steps"]) + [st for th in plan["threads"] for st in th]:
                if st["op"] == "sign_json":
                    hs = []
                    for i in range(st["sigs"]):
                        h = copy.deepcopy(plan["hdr"][(st["h"] or 0) if st["same"] else i])
                        if st["alg_in"]:
                            h["alg"] = st["alg"]
                        hs.append((hs[0][0] if st["same"] and hs else h, p["unprotected"][i]))
                    p["headers"][st["id"]] = hs
        return p

    def prepare(self, plan, w, st):
        spec = plan["ring"][st["k"]]
        if st["op"] in ("verify", "verify_json"):
            with entropy_op(w, "in%d" % st["id"]):
                t = W.sig_token(spec, st["alg"], json.dumps(MSGS[2 + (st["n"] % 8 == 0)]).encode() if st["n"] & 20 else b"some text", None, st["damage"],
                                st["n"], W.other_signer(spec, st["alg"]))
            if st["op"] == "verify_json":
                return W.as_json(t, st["n"] % 2)
            return t.encode() if st["form"] == "bytes" else t
        if st["op"] == "decrypt":
            to = dict(W.other_signer(spec, ""), kid=spec["kid"]) if st["damage"] == "other_key" else spec
            t = W.enc_token(w, "in%d" % st["id"], to, st["alg"], st["enc"], b"a plaintext", st["damage"], st["n"])
            return t if st["n"] & 1 else t.encode()
        return None

    # ---------------------------------------------------------------- one call
    def do(self, plan, p, st, inp):
        from jwkest import jwk as J, jws as S_, jwt as T
        from jwkest.jwe import JWE
        op, n, k = st["op"], st["n"], st["k"]
        keys = {"list": p["ring"], "KEYS": p["KEYS"], "tuple": p["tuple"], "one": p["one"][k], "strange": p["strange"]}[st["keys"]]
        hdr = None if st["h"] is None else p["hdr"][st["h"]]
        msg = p["msg"][st["m"]]
        if op == "sign":
            own = {"x5c": {"x5c": p["x5c"]}, "jwk": {"jwk": p["jwk"][k] if n & 1 else p["ring"][k]}, "kid": {"kid": plan["ring"][k]["kid"]},
                   "typ": {"typ": "JOSE"}, None: {}}[st["own"]]
            return S_.JWS(msg, alg=st["alg"], **own).sign_compact(None if st["own"] == "jwk" and n & 2 else keys, protected=hdr)
        if op == "sign_json":
            return S_.JWS(msg if isinstance(msg, str) else "text", alg=st["alg"]).sign_json(keys, headers=p["headers"][st["id"]], flatten=st["flat"])
        if op == "verify":
            return (S_.JWS().verify_compact_verbose if st["form"] == "verbose" else S_.JWS().verify_compact)(inp, keys)
        if op == "verify_json":
            return S_.JWS().verify_json(inp, keys, sigalg=st["alg"] if n & 8 else None)
        if op == "encrypt":
            own = {"cty": {"cty": "text"}, "apu": {"apu": "QWxpY2U"}, "zip": {"zip": "DEF"}}.get(st["own"], {})
            kw = {"iv": b"0123456789abcdef"[:12 if st["enc"].endswith("GCM") else 16]} if st["own"] == "iv" else {}
            return JWE("a plaintext", alg=st["alg"], enc=st["enc"], **own).encrypt(keys, **kw)
        if op == "decrypt":
            return JWE().decrypt(inp, keys)
        if op == "keyrep":
            return J.keyrep(p["jwk"][k])
        if op == "new":
            return {"RSA": J.RSAKey, "EC": J.ECKey, "oct": J.SYMKey}[plan["ring"][k]["t"]](**p["jwk"][k])
        if op == "load_dict":
            ks = J.KEYS()
            ks.load_dict(p["broken"] if n % 4 == 0 else p["jwks"])
            return ks.keys()
        if op == "load_jwks":
            return J.KEYS().load_jwks(json.dumps(p["jwks"])).keys()
        if op == "wrap":
            return J.jwk_wrap([p["rsa"], "a secret", p["nested"]][n % 3], "sig", "w")
        if op == "pack":
            parts, h = p["parts"][n % 2], hdr or {}
            if n & 4:
                return S_.JWSig(**h).pack(parts=parts)
            return T.JWT(alg="HS256").pack(parts=parts, headers=hdr)
        if op == "thumb":
            key = p["ring"][k] if n & 1 else J.keyrep(p["jwk"][k])
            return key.thumbprint("SHA-256" if n & 6 else "SHA-0", *([p["members"]] if n & 8 else []))
        if op == "export":
            key = p["ring"][k] if n & 1 else J.keyrep(p["jwk"][k])
            return [key.serialize, lambda: key.serialize(private=True), key.to_dict, lambda: str(sorted(str(key))), key.keys][n // 2 % 5]()
        if op == "sets":
            ks = p["KEYS"]
            return [lambda: ks["RSA"], lambda: ks["oct"], lambda: ks.by_kid("k%d" % k), lambda: ks.kids(), lambda: ks.as_dict(),
                    lambda: ks.key_types() and sorted(ks.key_types()), lambda: ks.dump_jwks(), lambda: list(ks), lambda: p["ring"][k] in ks][n % 9]()
        if op == "eq":
            return [p["ring"][k] == x for x in p["strange"] + p["ring"] + p["twin"]] + [p["twin"][k] == p["ring"][k]]
        if op == "b2s":
            return T.b2s_conv(p["nested"])
        if op == "keyitems":
            return J.keyitems2keyreps(p["items"])
        raise AssertionError(op)

    # ---------------------------------------------------------------- what came out
    def outcome(self, plan, st, ok, got):
        if not ok:
            return ["raised", type(got).__name__]
        if st["op"] in ("sign", "sign_json"):
            toks = [got]
            if st["op"] == "sign_json":
                d = json.loads(got)
                toks = [".".join([s["protected"], d["payload"], s["signature"]]) for s in (d["signatures"] if "signatures" in d else [d])]
                rest = [s.get("header") for s in d.get("signatures", [d])]
            else:
                rest = None
            out = []
            for t in toks:
                a, b, s = t.split(".")
                h = json.loads(K.unb64u(a))
                by = [i for i, x in enumerate(self.signers(plan)) if fits(x, h["alg"]) and O.ref_verify(x, h["alg"], (a + "." + b).encode(), K.unb64u(s))]
                out.append([h, K.unb64u(b).decode("latin-1"), by])
            return ["signed", out, rest]
        if st["op"] == "encrypt":
            h = json.loads(K.unb64u(got.split(".")[0]))
            by = []
            for i, x in enumerate(self.signers(plan)):
                r = O.call(O.ref_open, x, got)
                if r[0]:
                    by.append([i, r[1].pt.decode("latin-1")])
            return ["encrypted", {a: v for a, v in h.items() if a not in ("epk", "apv") and (a != "apu" or st["own"] == "apu")}, by,
                    K.unb64u(got.split(".")[2]).hex() if st["own"] == "iv" else None]
        return ["gave", plain(got)]

    def signers(self, plan):
        return plan["ring"] + [W.other_signer(s, "") for s in plan["ring"]]

    # ---------------------------------------------------------------- the run
    def run(self, plan, w):
        p = self.pool(plan, w)
        tr = S.tracer("line")
        cover, held, faulty = [], [], False
        for st in plan["steps"]:
            inp = self.prepare(plan, w, st)
            alone = self.alone(plan, w, st, inp)
            strike = self.site(plan, w, st, inp, tr)
            before = snap(p)
            with entropy_op(w, "op%d" % st["id"], fail_at=st["draw"] if st["fault"] == "entropy" else None) as eo:
                try:
                    if strike:
                        tr.start(strike)
                    try:
                        ok, got = O.call(self.do, plan, p, st, inp)
                    finally:
                        if strike:
                            tr.stop()
                except KeyboardInterrupt as err:
                    ok, got = False, err
            fired = describe(strike.site) if strike and strike.fired else "entropy" if eo.failed else None
            if strike and strike.fired:
                w.fault("interrupt" if st["exc"] == "KeyboardInterrupt" else "memory_error")
            out = self.outcome(plan, st, ok, got)
            w.log("call", st["id"], st["op"], fired, out[0], O.brief(repr(out[1])))
            what = "%s (%s)" % (name(st), fired) if fired else name(st)
            if self.touched(plan, w, p, before, [st], what):
                return {}
            if not fired and out != alone:
                w.violate("depends-on-history", "%s: %s; the same call with arguments nobody used before: %s" % (what, show(out, alone), show(alone, out)))
                return {}
            if ok and isinstance(got, (dict, list)):
                if st["scribble"]:
                    scribble(got, st["op"])
                    if self.touched(plan, w, p, before, [], "changing what %s returned" % what):
                        return {}
                else:
                    held.append((what, got, plain(got)))
            faulty = faulty or not ok or bool(fired)
            cover.append([st["op"], st["keys"], fired, out[0]])
        schedules = []
        if plan["threads"]:
            r = self.threads(plan, w, p)
            if r is None:
                return {}
            schedules = r
            cover += [[st["op"], st["keys"], "thread", h] for h in r for th in plan["threads"] for st in th]
        for what, got, was in held:
            if plain(got) != was:
                w.violate("result-changed", "what %s returned was changed by a later call" % what)
                return {}
        return {"nontrivial": len(plan["steps"]) > 1 and (faulty or bool(schedules)), "key": json.dumps(cover),
                "interleavings": [json.dumps(c) for c in cover], "sample": cover[:5]}

    def alone(self, plan, w, st, inp):
        with entropy_op(w, "op%d" % st["id"]):
            return self.outcome(plan, st, *O.call(self.do, plan, self.pool(plan, w), st, inp))

    def site(self, plan, w, st, inp, tr):
        if st["fault"] != "strike":
            return None
        p2 = self.pool(plan, w)
        with entropy_op(w, "op%d" % st["id"]):
            cnt = S.count_sites(tr, lambda: O.call(self.do, plan, p2, st, inp) and None, False)[1]
        r = cnt.resolve(*st["at"])
        return Striker(r[0], r[1], EXC[st["exc"]]("struck")) if r else None

    def touched(self, plan, w, p, before, steps, what):
        """Has anything in the pool changed? sign_json may note the algorithm."""
        for st in steps:
            if st["op"] == "sign_json" and not st["alg_in"]:
                for h, _ in p["headers"][st["id"]]:
                    if h.get("alg") == st["alg"]:
                        del h["alg"]
        now = snap(p)
        if now == before:
            return False
        w.violate("argument-changed", "%s changed %s" % (what, "; ".join(diff(before, now, "")[:3])))
        return True

    def threads(self, plan, w, p):
        inputs = {st["id"]: self.prepare(plan, w, st) for th in plan["threads"] for st in th}
        alone = {st["id"]: self.alone(plan, w, st, inputs[st["id"]]) for th in plan["threads"] for st in th}

        def build(q):
            fns = []
            for th in plan["threads"]:
                def fn(th=th):
                    out = []
                    for st in th:
                        with entropy_op(w, "op%d" % st["id"]):
                            out.append(O.call(self.do, plan, q, st, inputs[st["id"]]))
                    return out
                fns.append(fn)
            return fns
        _, counters = S.learn(lambda: build(self.pool(plan, w)), plan["mode"], False)
        before = snap(p)
        hashes = []
        for switches in plan["rounds"]:
            try:
                conc = S.concurrent(w, build(p), counters, switches, plan["mode"])
            except S.Deadlock as err:
                w.violate("deadlock", str(err))
                return None
            hashes.append(S.interleaving_hash(w.sched_last.switches))
            w.probe("schedules")
            for th, res in zip(plan["threads"], conc):
                for st, (ok, got) in zip(th, res):
                    out = self.outcome(plan, st, ok, got)
                    if out != alone[st["id"]]:
                        w.violate("depends-on-others", "%s in a thread: %s; alone: %s" % (
                            name(st), show(out, alone[st["id"]]), show(alone[st["id"]], out)))
                        return None
            if self.touched(plan, w, p, before, [], "running %s in threads" % [name(st) for th in plan["threads"] for st in th]):
                return None
        return hashes


def fits(spec, alg):
    t = {"H": "oct", "R": "RSA", "P": "RSA", "E": "EC"}.get(alg[:1])
    return spec["t"] == t and (t != "EC" or K.ES.get(alg) == spec["crv"])


def name(st):
    return " ".join(str(x) for x in (st["op"], st.get("alg"), st.get("own"), st.get("damage")) if x)


def is_key(x):
    return hasattr(x, "kty") and hasattr(x, "to_dict")


def is_set(x):
    return type(x).__name__ == "KEYS"


def plain(x):
    """A value without identity."""
    if is_key(x):
        return ["key", repr(sorted(W.state(x).items()))]
    if is_set(x):
        return [plain(k) for k in x.keys()]
    if isinstance(x, dict):
        return {"dict": [[plain(k), plain(v)] for k, v in x.items()]}
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [plain(v) for v in x]
    if isinstance(x, bytes):
        return ["bytes", x.decode("latin-1")]
    return x


def snap(x):
    """A value with the identity of what it is made of."""
    if is_key(x):
        return (id(x), tuple(sorted((k, repr(v)) for k, v in W.state(x).items())))
    if is_set(x):
        return (id(x), tuple(snap(k) for k in x.keys()))
    if isinstance(x, dict):
        return (id(x), tuple((k, snap(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (id(x), tuple(snap(v) for v in x))
    if hasattr(x, "has_private"):
        return (id(x), repr(W.rsanums(x)))
    return repr(x)


def diff(a, b, path):
    if a == b:
        return []
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 2 and isinstance(a[0], int) and isinstance(a[1], tuple):
        if a[0] != b[0]:
            return ["%s is another object" % path]
        a, b = a[1], b[1]
        if not isinstance(b, tuple):
            return [path]
        if len(a) != len(b):
            return ["%s has %d entries, not %d" % (path or "it", len(b), len(a))]
        out = []
        for i, (x, y) in enumerate(zip(a, b)):
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str):
                out += ["%s.%s" % (path, x[0])] if isinstance(x[1], str) and x != y else diff(x[1], y[1], "%s.%s" % (path, x[0])) if x[0] == y[0] else [
                    "%s: %s where %s was" % (path, y[0], x[0])]
            else:
                out += diff(x, y, "%s[%d]" % (path, i))
        return out
    return ["%s" % path]


def show(out, other):
    s = json.dumps(out, default=str)
    t = json.dumps(other, default=str)
    i = 0
    while i < min(len(s), len(t)) and s[i] == t[i]:
        i += 1
    i = max(0, i - 40)
    return s if len(s) < 160 else ("..." if i else "") + s[i:i + 160]


def scribble(x, op, deep=True):
    """A caller may do as it likes with what it was given."""
    deep = op in ("verify", "verify_json", "b2s")
    if isinstance(x, dict):
        for v in list(x.values()):
            if deep and isinstance(v, (dict, list)):
                scribble(v, op)
        for k in list(x):
            if not is_key(x[k]):
                x[k] = "scribbled"
        x["scribble"] = 1
    elif isinstance(x, list):
        for v in x:
            if deep and isinstance(v, (dict, list)):
                scribble(v, op)
        x.reverse()
        x.append("scribbled")


PROP = C17()
