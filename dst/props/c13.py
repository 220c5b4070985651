"""C13: ephemeral keys off the recipient's curve are never used."""
import json
from .. import keys as K
from .. import ops as O
from .. import sched as S
from .. import work as W
from ..keys import cut
from ..runner import Property
from ..seams import entropy_op, SimHang
from ..trace import Striker, describe

ALGS = ["ECDH-ES"] * 3 + ["ECDH-ES+A128KW", "ECDH-ES+A192KW", "ECDH-ES+A256KW"]
HOSTILE = ["random", "random", "near_y", "near_x", "swap", "order2", "order2", "order3", "other_crv", "other_crv", "other_as_own",
           "range", "range", "zero", "inject", "inject", "replace", "noy", "own_as_other"]


# ---------------------------------------------------------------- curve formulas that never look at b
def add(p, a, b):
    if a is None or b is None:
        return b if a is None else a
    if a[0] == b[0]:
        if (a[1] + b[1]) % p == 0:
            return None
        num, den = 3 * a[0] * a[0] - 3, 2 * a[1]
    else:
        num, den = b[1] - a[1], b[0] - a[0]
    lam = num * pow(den, -1, p) % p
    x = (lam * lam - a[0] - b[0]) % p
    return x, (lam * (a[0] - x) - a[1]) % p


def mul(p, d, pt):
    out = None
    for bit in bin(d)[2:]:
        out = add(p, out, out)
        if bit == "1":
            out = add(p, out, pt)
    return out


def on_curve(crv, x, y):
    p = K.PRIME[crv]
    return 0 <= x < p and 0 <= y < p and (y * y - x * x * x + 3 * x - K.BCOEF[crv]) % p == 0


def sqrt(p, v):
    if p % 4 != 3:
        return None
    r = pow(v, (p + 1) // 4, p)
    return r if r * r % p == v % p else None


def order3(p, rng):
    """A point of order three of some curve y^2 = x^3 - 3x + b."""
    while True:
        x = rng.randrange(1, p)
        b = (9 + 18 * x * x - 3 * pow(x, 4, p)) * pow(12 * x, -1, p) % p
        y = sqrt(p, (x * x * x - 3 * x + b) % p)
        if y and mul(p, 3, (x, y)) is None:
            return x, y


class C13(Property):
    ID = "C13"
    RUNS = {"quick": 1500, "thorough": 60000}
    RULE = ("sequence of (kind of ephemeral key, curve, algorithm, entry point, delivery) of a run with at least one hostile and "
            "one honest message")
    STATE_MEASURE = "distinct (kind of ephemeral key with variant, curve, algorithm, entry point, delivery, strike site or schedule) tuples"
    REAL_PARTS = ["jwkest (jwe, jwk, ecc, elliptic, extra, aes_*)", "Cryptodome", "json"]
    STUBS = ["OS random source", "thread scheduler"]
    ASSUMPTIONS = ["a hostile message is built with knowledge of the recipient's private key, so it decrypts if the point is used "
                   "as the curve formulas would", "an exception of any type is a refusal"]

    def gen(self, rng, index, tier):
        crv = rng.choice(["P-256"] * 6 + ["P-384"] * 2 + ["P-521"])
        ring = []
        for j in range(rng.choice([1, 1, 2, 3])):
            c = crv if j == 0 or rng.random() < .4 else rng.choice(K.CURVES)
            s = {"t": "EC", "crv": c, "cls": rng.choice(["normal", "normal", "normal", "xzero", "yzero"]), "i": rng.randrange(4),
                 "kid": rng.choice(["", "k%d" % j]), "priv": True, "form": rng.choice(["ints", "keyrep", "obj"])}
            if s["cls"] not in K.POOL["ec"][c] or s["i"] >= len(K.POOL["ec"][c][s["cls"]]):
                s["cls"], s["i"] = "normal", 0
            if K.material(s) not in [K.material(x) for x in ring]:
                ring.append(s)
        plan = {"ring": ring, "mode": rng.choice(["line", "line", "instr"]), "deliveries": []}
        n = rng.randrange(3, 8)
        for j in range(n):
            kind = "honest" if j == 0 or rng.random() < .3 else rng.choice(HOSTILE)
            d = {"id": j, "kind": kind, "n": rng.randrange(1 << 30), "k": rng.randrange(len(ring)), "alg": rng.choice(ALGS),
                 "enc": rng.choice(K.ENC_CBC), "text": "text %d" % rng.randrange(10 ** 6), "prefixed": rng.random() < .12,
                 "entry": rng.choice(["jwe"] * 5 + ["low", "factory"]), "shared": rng.random() < .6,
                 "keys": rng.choice(["one", "all", "all"]), "ap": rng.random() < .5, "kid": rng.random() < .5,
                 "strike": rng.random() < .12, "at": [cut(rng.random(), 5), cut(rng.random(), 4)],
                 "exc": rng.choice(["KeyboardInterrupt", "MemoryError"]), "again": rng.random() < .2}
            if rng.random() < .04:
                d["enc"] = rng.choice(K.ENC_GCM)
            plan["deliveries"].append(d)
        if rng.random() < .3 and crv == "P-256":
            # the last two arrive at the same time at one shared receiver
            plan["pair"] = {"rounds": [S.gen_switches(rng, 2, rng.choice([1, 1, 2, 3])) for _ in range(4)],
                            "first": rng.randrange(2), "shared": rng.random() < .8}
        return plan

    def shrinkable(self, plan):
        return [["deliveries"]]

    # ---------------------------------------------------------------- messages
    def point(self, crv, d, rng, kind, seen):
        """(epk members, shared x as bytes) of a hostile ephemeral key for private key d on curve crv."""
        p, wd = K.PRIME[crv], K.CBYTES[crv]
        n = d["n"]
        priv = self.privs[d["k"]]
        base = seen[n % len(seen)] if seen else None
        g = K.ec_entry({"crv": crv, "cls": "normal", "i": n % 3})[1:]
        if kind == "honest":
            return self.members(crv, g), self.z(p, priv, g, wd)
        if kind == "random":
            q = rng.randrange(p), rng.randrange(p)
        elif kind in ("near_y", "near_x", "swap"):
            x, y = base if base and base[0] < p and base[1] < p else g
            delta = [1, p - 1, 2, rng.randrange(1, p)][n % 4]
            q = (x, (y + delta) % p) if kind == "near_y" else ((x + delta) % p, y) if kind == "near_x" else (y, x)
            if on_curve(crv, *q):
                q = (x, (y + 1) % p) if y + 1 < p and not on_curve(crv, x, y + 1) else (1, 1)
        elif kind == "order2":
            q = [rng.randrange(p), 0, 1, p - 1][n % 4], 0
        elif kind == "order3":
            q = order3(p, rng) if p % 4 == 3 else (rng.randrange(p), 0)
        elif kind == "zero":
            q = (0, 0)
        elif kind == "range":
            x, y = g
            root = sqrt(p, K.BCOEF[crv])
            if n & 64 and root is not None:      # the point at x = 0, written with x = p
                return self.members(crv, (p, root), wd), self.z(p, priv, (0, root), wd)
            x2, y2 = [(x + p, y), (x, y + p), (x + p, y + p), (x + 2 * p, y), (x, p * 3 + y)][n % 5]
            return self.members(crv, (x2, y2), wd + 1), self.z(p, priv, g, wd)
        elif kind == "other_crv":
            # an honest point of another curve, agreed upon by that curve's rules
            c2 = [c for c in K.CURVES if c != crv][n % 2]
            g2 = K.ec_entry({"crv": c2, "cls": "normal", "i": n % 3})[1:]
            return self.members(c2, g2), self.z(K.PRIME[c2], priv, g2, K.CBYTES[c2])
        elif kind == "own_as_other":
            # a point of the recipient's curve, said to be of another
            c2 = [c for c in K.CURVES if c != crv][n % 2]
            p2 = K.PRIME[c2]
            z = self.z(p2, priv, (g[0] % p2, g[1] % p2), K.CBYTES[c2]) if n & 4 else self.z(p, priv, g, wd)
            return self.members(c2, g, max(wd, K.CBYTES[c2])), z
        elif kind == "other_as_own":
            c2 = [c for c in K.CURVES if c != crv][n % 2]
            g2 = K.ec_entry({"crv": c2, "cls": "normal", "i": n % 3})[1:]
            return self.members(crv, g2, max(wd, K.CBYTES[c2])), self.z(p, priv, (g2[0] % p, g2[1] % p), wd)
        elif kind == "noy":
            x = rng.randrange(p)
            while sqrt(p, (x * x * x - 3 * x + K.BCOEF[crv]) % p) is not None and p % 4 == 3:
                x = rng.randrange(p)
            m = self.members(crv, (x, 0))
            if n & 1:
                m.pop("y")
            elif n & 2:
                m["y"] = ""
            return m, self.z(p, priv, (x, 0), wd)
        else:
            q = (rng.randrange(p), rng.randrange(p))
            m = self.members(crv, q)
            own = self.members(crv, g)
            m.update([{"curve": crv}, {"curve": {"bits": 256}}, {"key": own}, {"crv": crv.lower()}, {"crv": ""}, {"crv": None},
                      {"crv": "secp256k1"}, {"kty": "OKP"}, {"kty": "oct", "k": "AA"}, {"key": [g[0], g[1]]}, {"d": "AQ"},
                      {"curve": None, "key": crv}][n % 12])
            return m, self.z(p, priv, q, wd)
        return self.members(crv, q), self.z(p, priv, q, wd)

    def members(self, crv, q, width=None):
        wd = width or K.CBYTES[crv]
        return {"kty": "EC", "crv": crv, "x": K.b64u(K.i2b(q[0], wd)), "y": K.b64u(K.i2b(q[1], wd))}

    def z(self, p, priv, q, wd):
        try:
            r = mul(p, priv, q)
        except ValueError:
            r = None
        return K.i2b(r[0] if r else 0, wd)

    def message(self, d, crv, epk, z, rng):
        hdr = {"alg": d["alg"], "enc": d["enc"], "epk": epk}
        spec = self.specs[d["k"]]
        if d["kid"] and spec["kid"]:
            hdr["kid"] = spec["kid"]
        apu = apv = b""
        if d["ap"]:
            apu, apv = b"Alice", bytes([d["n"] & 255] * 16)
            hdr.update(apu=K.b64u(apu), apv=K.b64u(apv))
        name = d["enc"] if d["alg"] == "ECDH-ES" else d["alg"].split("+")[1]
        bits = 8 * (K.CEKLEN[d["enc"]] if d["alg"] == "ECDH-ES" else K.KWLEN[name])
        dk = O.concat_kdf(z, name, apu, apv, bits, d["prefixed"] and d["kind"] != "honest")
        cek, ek = dk, b""
        if d["alg"] != "ECDH-ES":
            cek = rng.randbytes(K.CEKLEN[d["enc"]])
            ek = O.kw_wrap(dk, cek)
        h = K.b64u(json.dumps(hdr).encode())
        iv = rng.randbytes(12 if d["enc"].endswith("GCM") else 16)
        ct, tag = O.content_encrypt(d["enc"], cek, iv, h.encode(), d["text"].encode())
        return ".".join([h] + [K.b64u(v) for v in (ek, iv, ct, tag)])

    def receive(self, d, tok, obj):
        from jwkest.jwe import JWE, JWEnc, JWE_EC, factory
        keys = [self.keys[d["k"]]] if d["keys"] == "one" else list(self.keys)
        if d["entry"] == "low":
            jwt = JWEnc().unpack(tok)
            ec = JWE_EC(alg=d["alg"], enc=d["enc"])
            ec.dec_setup(jwt, key=self.keys[d["k"]])
            return ec.decrypt(jwt)
        if d["entry"] == "factory":
            f = factory(tok)
            return f.decrypt(keys=keys) if d["n"] & 1 else f.decrypt(tok, keys)
        return (obj or JWE()).decrypt(tok, keys)

    # ---------------------------------------------------------------- the run
    def run(self, plan, w):
        from jwkest.jwe import JWE
        from ..runner import rng_for
        self.specs = plan["ring"]
        with entropy_op(w, "ring"):
            self.keys = [K.make(s) for s in self.specs]
        self.privs = [K.ec_entry(s)[0] for s in self.specs]
        before = [W.state(k) for k in self.keys]
        shared = JWE()
        seen, toks, cover = [], {}, []
        hostile = honest = 0
        for d in plan["deliveries"]:
            rng = rng_for(plan["seed"], "point", d["id"])
            crv = self.specs[d["k"]]["crv"]
            kind = d["kind"]
            if kind == "replace":
                # an honest message whose ephemeral key alone is changed
                epk, z = self.point(crv, d, rng, "honest", seen)
                parts = self.message(d, crv, epk, z, rng).split(".")
                hdr = json.loads(K.unb64u(parts[0]))
                hdr["epk"], _ = self.point(crv, d, rng, ["random", "near_y", "order2", "other_crv"][d["n"] % 4], seen)
                tok = ".".join([K.b64u(json.dumps(hdr).encode())] + parts[1:])
            else:
                epk, z = self.point(crv, d, rng, kind, seen)
                tok = self.message(d, crv, epk, z, rng)
                if kind == "honest":
                    seen.append(tuple(int.from_bytes(K.unb64u(epk[c]), "big") for c in "xy"))
            toks[d["id"]] = tok
        pair = plan["deliveries"][-2:] if plan.get("pair") and len(plan["deliveries"]) >= 2 else []
        for d in plan["deliveries"]:
            if d in pair:
                continue
            for attempt in range(2 if d["again"] else 1):
                r = self.deliver(plan, w, d, toks[d["id"]], shared if d["shared"] else None, attempt == 0)
                if w.violation:
                    return {}
                cover.append(r)
            hostile += d["kind"] != "honest"
            honest += d["kind"] == "honest"
        scheds = self.together(plan, w, pair, toks) if pair else []
        for a, b in zip(before, [W.state(k) for k in self.keys]):
            if W.changed(a, b):
                return w.violate("key-changed", "the recipient's key changed: %s" % W.changed(a, b))
        return {"nontrivial": bool(hostile and honest), "key": json.dumps([cover, scheds]),
                "interleavings": [json.dumps(c) for c in cover] + scheds, "sample": cover[:6]}

    def deliver(self, plan, w, d, tok, obj, first):
        strike = None
        if d["strike"] and first:
            tr = S.tracer(plan["mode"])
            with entropy_op(w, "count%d" % d["id"]):
                _, cnt = S.count_sites(tr, lambda: O.call(self.receive, d, tok, None), False)
            r = cnt.resolve(*d["at"])
            if r:
                strike = Striker(r[0], r[1], {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[d["exc"]]("struck"))
        with entropy_op(w, "deliver%d" % d["id"]):
            try:
                if strike:
                    tr.start(strike)
                    try:
                        ok, got = O.call(self.receive, d, tok, obj)
                    finally:
                        tr.stop()
                else:
                    ok, got = O.call(self.receive, d, tok, obj)
            except (KeyboardInterrupt, SimHang) as err:
                ok, got = False, err
        struck = bool(strike and strike.fired)
        if struck:
            w.fault("interrupt" if d["exc"] == "KeyboardInterrupt" else "memory_error")
        w.fault("epk_" + d["kind"]) if d["kind"] != "honest" else w.probe("honest")
        w.log("deliver", d["id"], d["kind"], d["entry"], d["keys"], ok, O.brief(got), describe(strike.site) if struck else "")
        self.judge(w, d, tok, ok, got, struck)
        return [d["kind"], d["n"] % 12, self.specs[d["k"]]["crv"], d["alg"], d["entry"], d["keys"],
                describe(strike.site) if struck else ""]

    def judge(self, w, d, tok, ok, got, struck=False):
        what = "%s ephemeral key for %s, %s/%s by %s" % (d["kind"], self.specs[d["k"]]["crv"], d["alg"], d["enc"], d["entry"])
        if d["kind"] != "honest":
            if ok:
                w.violate("off-curve-key-used", "%s: decrypted to %r: %s" % (what, got, tok[:500]))
        elif ok:
            if not O.same(got, d["text"].encode()):
                w.violate("wrong-plaintext", "%s: %r is not %r" % (what, got, d["text"]))
        elif not struck:
            w.violate("refused-honest", "%s: %r" % (what, got))

    def together(self, plan, w, pair, toks):
        from jwkest.jwe import JWE

        def build(name):
            obj = JWE() if plan["pair"]["shared"] else None
            fns = []
            for d in pair:
                def fn(d=d):
                    with entropy_op(w, "%s/%d" % (name, d["id"])):
                        return O.call(self.receive, d, toks[d["id"]], obj)
                fns.append(fn)
            return fns
        _, counters = S.learn(lambda: build("learn"), plan["mode"], False)
        out = []
        for r, switches in enumerate(plan["pair"]["rounds"]):
            try:
                conc = S.concurrent(w, build("r%d" % r), counters, switches, plan["mode"], plan["pair"]["first"])
            except S.Deadlock as err:
                w.violate("deadlock", str(err))
                return out
            out.append(S.interleaving_hash(w.sched_last.switches))
            for d, (ok, got) in zip(pair, conc):
                w.log("together", d["id"], d["kind"], ok, O.brief(got))
                self.judge(w, d, toks[d["id"]], ok, got)
                if w.violation:
                    return out
        return out


PROP = C13()
