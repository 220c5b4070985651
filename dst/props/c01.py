"""C01: signed payloads stay authentic over a hostile network."""
import base64
import copy
import hmac
import json
from .. import keys as K
from .. import ops as O
from ..net import Net, Host, Response, jwks_body
from ..runner import Property
from ..seams import entropy_op
from ..keys import cut

EVIL = "http://evil.example"
CHARS = "ABCXYZabcxyz0189-_.=+/ \n\t\u00e9\u0000{\"'"


def tweak(tok, frac, kind, ch):
    i = min(len(tok) - 1, int(frac * len(tok)))
    if kind == "sub":
        return tok[:i] + (ch if tok[i] != ch else "Q") + tok[i + 1:]
    if kind == "ins":
        return tok[:i] + ch + tok[i:]
    if kind == "del":
        return tok[:i] + tok[i + 1:]
    if kind == "cut":
        return tok[:i]
    return tok + ch


class C01(Property):
    ID = "C01"
    RUNS = {"quick": 4500, "thorough": 90000}
    RULE = ("a run with at least one forged delivery and one honest delivery: sequence of (serialisation, algorithm, "
            "attack, verifier mode, call, options) over its deliveries")
    STATE_MEASURE = "distinct (attack with parameters class, serialisation, algorithm, verifier mode, call) tuples"
    STUBS = ["OS random source", "clock", "network"]
    ASSUMPTIONS = ["the attacker cannot break HMAC, RSA or ECDSA; it knows public keys, all traffic and its own keys",
                   "a verifier given no key at all and configured with none is outside the property"]

    ATTACKS = ["fwd"] * 5 + ["tweak"] * 3 + ["bit"] * 2 + [
        "splice", "none", "none", "confuse", "confuse", "switch", "attkey", "attkey", "zero", "zero", "width", "e3",
        "payload", "header", "json", "json", "json", "shape", "resign", "oldsig", "hmactrunc"]

    # ---------------------------------------------------------------- plans
    def gen(self, rng, index, tier):
        keys, algs = [], []
        for i in range(rng.randrange(1, 4)):
            alg = rng.choice(list(K.SIG_ALGS) + ["HS256", "RS256", "ES256", "ES256"])
            k = K.sig_key(rng, alg, kid=rng.choice(["", "k%d" % i, "same"]))
            if k["t"] == "RSA" and rng.random() < .25 and alg in ("RS256", "RS384", "RS512"):
                k["i"] = K.RSA_E3[0]
            if K.material(k) in [K.material(x) for x in keys]:
                continue
            k["use"] = rng.choice(["", "", "sig"])
            k["alg"] = rng.choice(["", "", "", alg])
            keys.append(k)
            algs.append(alg)
        att = []
        for k in keys:
            a = k
            while K.material(a) in [K.material(x) for x in keys]:
                a = K.same_material_other(rng, k)
                if a["t"] == "RSA":
                    a["i"] = rng.choice(K.RSA2048 + K.RSA1536)
            att.append(a)
        for a in att:
            a["form"] = "obj"
        msgs = []
        for i in range(rng.randrange(2, 4)):
            ser = rng.choice(["compact", "compact", "flat", "json", "json2"])
            ks = [rng.randrange(len(keys))]
            if ser == "json2":
                ks.append(rng.randrange(len(keys)))
            hdr = rng.choice([{}, {}, {"typ": "JWT"}, {"cty": "JWT"}, {"cty": "text/plain"}, {"cty": "JWT", "typ": "x"}])
            msgs.append({"ser": ser, "keys": ks, "payload": O.rand_text(rng), "hdr": hdr,
                         "ref": rng.random() < .25, "unprot": rng.random() < .3})
        msgs.append({"ser": "compact", "keys": [0], "payload": "unsigned " + O.rand_text(rng), "hdr": {}, "none": True})
        deliveries = []
        for j in range(rng.randrange(7, 12)):
            a = {"a": rng.choice(self.ATTACKS), "f": cut(rng.random(), 6), "g": cut(rng.random(), 6),
                 "c": rng.choice(CHARS), "n": rng.randrange(1 << 16)}
            deliveries.append({
                "id": j, "msg": rng.randrange(len(msgs)), "other": rng.randrange(len(msgs)), "attack": a,
                "mode": rng.choice(["list"] * 4 + ["keys", "keys", "conf_jwk", "conf_jku", "tuple", "empty"]),
                "subset": rng.choice([0, 0, 0, 1]), "call": rng.choice(["compact", "verbose", "factory", "json", "auto",
                                                                      "auto", "auto", "auto"]),
                "sigalg": rng.choice(["", "", "", "", "match", "wrong"]),
                "allow_none": rng.random() < .15, "order": rng.randrange(6)})
        return {"keys": keys, "algs": algs, "att": att, "msgs": msgs, "deliveries": deliveries}

    def shrinkable(self, plan):
        return [["deliveries"]]

    # ---------------------------------------------------------------- honest traffic
    def produce(self, w, plan):
        from jwkest.jws import JWS
        w.honest = []           # dicts: token, sigs [(key index, alg, protected b64, payload b64, sig bytes)], value
        self.ledger = {}
        for i, m in enumerate(plan["msgs"]):
            p = m["payload"]
            if m.get("none"):
                tok = JWS(p, alg="none").sign_compact()
                w.honest.append({"tok": tok, "sigs": [], "val": O.decoded_payload(p.encode(), {}), "m": m})
                continue
            ents = []
            for n, ki in enumerate(m["keys"]):
                spec, alg = plan["keys"][ki], plan["algs"][ki]
                hdr = dict(m["hdr"])
                with entropy_op(w, "sign%d/%d" % (i, n)):
                    if m.get("ref"):
                        if spec.get("kid"):
                            hdr["kid"] = spec["kid"]
                        tok = O.ref_sign_compact(spec, alg, p.encode(), hdr)
                        h, b, s = tok.split(".")
                        ent = {"protected": h, "signature": s}
                        if m["unprot"]:
                            ent["header"] = {"note": "x"}
                    elif m["ser"] == "compact":
                        h, b, s = JWS(p, alg=alg, **hdr).sign_compact([K.make(spec)], protected=dict(hdr)).split(".")
                        ent = {"protected": h, "signature": s}
                    else:
                        d = json.loads(JWS(p, alg=alg).sign_json(
                            [K.make(spec)], [(dict(hdr, alg=alg), {"note": "x"} if m["unprot"] else None)], flatten=True))
                        b = d.pop("payload")
                        ent = d
                ents.append(ent)
            sigs = []
            for ki, e in zip(m["keys"], ents):
                sigs.append((ki, plan["algs"][ki], e["protected"], b, K.unb64u(e["signature"])))
                self.ledger.setdefault((e["protected"], b), []).append(
                    (K.material(plan["keys"][ki]), plan["algs"][ki], K.unb64u(e["signature"])))
            if m["ser"] == "compact":
                tok = ents[0]["protected"] + "." + b + "." + ents[0]["signature"]
            elif m["ser"] == "flat":
                tok = json.dumps(dict(ents[0], payload=b))
            else:
                tok = json.dumps({"payload": b, "signatures": ents})
            w.honest.append({"tok": tok, "sigs": sigs, "val": O.decoded_payload(p.encode(), m["hdr"]), "m": m})
            w.log("honest", i, m["ser"], m["keys"], O.brief(tok))

    # ---------------------------------------------------------------- the attacker
    def attack(self, plan, w, d):
        """Returns (token, honest or None). honest: the message this is an unaltered copy of."""
        a = d["attack"]
        src, oth = w.honest[d["msg"]], w.honest[d["other"]]
        tok, kind = src["tok"], a["a"]
        if kind == "fwd":
            return tok, src
        if kind == "tweak":
            t = tweak(tok, a["f"], ["sub", "ins", "del", "cut", "app"][a["n"] % 5], a["c"])
            return t, None
        if not src["sigs"] and kind not in ("none", "shape", "json"):
            kind = "attkey"
        ki = (src["sigs"] or [(0,)])[0][0]
        spec, alg, att = plan["keys"][ki], plan["algs"][ki], plan["att"][ki]
        parts = self.parts(src)
        hdr = json.loads(K.unb64u(parts[0][0])) if parts[0][0] else {}
        n = a["n"]
        if kind == "bit":
            i = n % 3
            raw = bytearray(K.unb64u([parts[0][0], parts[1], parts[0][1]][i]) or b"\0")
            pos = min(len(raw) - 1, int(a["f"] * len(raw)))
            raw[pos] ^= 1 << (int(a["g"] * 8) % 8)
            v = K.b64u(bytes(raw))
            return self.build(src, v if i == 0 else None, v if i == 1 else None, v if i == 2 else None), None
        if kind == "splice":
            op = self.parts(oth)
            c = n % 6
            return self.build(src, op[0][0] if c in (0, 3, 4) else None, op[1] if c in (1, 3, 5) else None,
                              op[0][1] if c in (2, 4, 5) else None), None
        if kind == "none":
            h = dict(hdr)
            v = [None, "none", "NONE", "nOnE", "None", "", "none ", "non\u0435", [], {}, 0, False][n % 12]
            h["alg"] = v
            if n % 13 == 12:
                del h["alg"]
            if n & 16:
                h.pop("kid", None)
            pl = K.b64u(b"evil") if n & 32 else None
            sig = "" if n & 64 else None
            if n & 128 and src["m"]["ser"] != "compact":
                return self.entry_edit(src, lambda e: (e.pop("protected", None), e.__setitem__("header", h))), None
            return self.build(src, K.b64u(json.dumps(h).encode()), pl, sig), None
        if kind == "confuse":
            h = dict(hdr, alg=["HS256", "HS384", "HS512"][n % 3])
            secrets = [b"", b"\0", b"None", b"none"]
            if spec["t"] == "RSA":
                k = K.POOL["rsa"][spec["i"]]
                ro = O.rsa_obj(spec["i"], False)
                secrets += [k["pub"].encode(), k["pub"].strip().encode(), ro.export_key("DER"),
                            K.i2b(int(k["n"], 16)), str(int(k["n"], 16)).encode(), K.b64u(K.i2b(int(k["n"], 16))).encode(),
                            K.i2b(int(k["e"], 16)), str(ro).split(" at ")[0].encode(), K.i2b(ro.n) + K.i2b(ro.e)]
            elif spec["t"] == "EC":
                _, x, y = K.ec_entry(spec)
                wd = K.CBYTES[spec["crv"]]
                secrets += [K.i2b(x, wd) + K.i2b(y, wd), K.i2b(x, wd), b"\4" + K.i2b(x, wd) + K.i2b(y, wd),
                            repr((x, y)).encode(), str(x).encode()]
            secrets += [json.dumps(K.jwk(spec, False)).encode(), spec.get("kid", "").encode(), b"x" * 32]
            sec = secrets[int(a["f"] * len(secrets))] if spec["t"] != "oct" else \
                [b"", b"None", K.b64u(b"")[:0].encode(), spec.get("kid", "").encode()][n % 4]
            return self.forge(src, h, K.b64u(b"evil") if n & 8 else None,
                              lambda data: hmac.new(sec, data, O.HLIB[h["alg"][2:]]).digest()), None
        if kind == "switch":
            algs = list(K.SIG_ALGS) + ["HS1", "RS1", "ES256K", "EdDSA", "A128KW", "RSA-OAEP", "ECDH-ES", "hs256", "Es256"]
            h = dict(hdr, alg=algs[n % len(algs)])
            return self.build(src, K.b64u(json.dumps(h).encode()), None, None), None
        if kind == "resign":
            # the attacker signs with its own key and lets another honest signature stand beside it
            h = dict(hdr, alg=alg)
            data = self.data(h, parts[1])
            e = {"protected": self.h64(h), "signature": K.b64u(O.ref_sign(att, alg, data))}
            ents = [x for x in self.entries(src)]
            # the same signature once more, over another header
            copy = dict(ents[0] if ents else e, protected=self.h64(dict(hdr, alg=alg, x=n)))
            ents = [ents + [e], [e] + ents, [e, e], ents + ents, ents + [copy], [copy] + ents][n % 6]
            return json.dumps({"payload": parts[1], "signatures": ents}), ("dup" if n % 6 == 3 else None)
        if kind == "oldsig":
            p2 = [{"payload": self.parts(oth)[1], "signatures": self.entries(src)},
                  {"payload": parts[1], "signatures": self.entries(src) + self.entries(oth)},
                  dict(self.entries(src)[0], payload=parts[1], signatures=[]),
                  dict(self.entries(oth)[0] if self.entries(oth) else {}, payload=K.b64u(b"evil"),
                       signatures=self.entries(src))][n % 4]
            return json.dumps(p2), None
        if kind == "hmactrunc":
            s = K.unb64u(parts[0][1])
            half = len(s) // 2
            cuts = [s[:n % max(1, len(s))], s + bytes([n & 255]), s[1:], b"", s[:half], s * 2, b"\0" + s, s[:half] + b"\0" + s[half:],
                    s + b"\0", s[:-1] + bytes(1), s[:half - 1] + s[half:] if half else s]
            if spec["t"] == "EC" and len(s) == 2 * K.CBYTES[spec["crv"]]:
                r, v, order, wd = (int.from_bytes(s[:half], "big"), int.from_bytes(s[half:], "big"), K.ORDER[spec["crv"]],
                                   K.CBYTES[spec["crv"]])
                top = 1 << 8 * wd
                cuts += [K.i2b(x, wd) + K.i2b(y, wd) for x, y in ((r + order, v), (r, v + order), (r + order, v + order), (r, 2 * order - v),
                                                                  (order - r, v), (r, 0), (0, v), (v, r)) if x < top and 0 <= y < top]
            cut = cuts[n % len(cuts)]
            pl = K.b64u(b"evil") if n & 64 else None
            return self.build(src, None, pl, K.b64u(cut)), None
        if kind in ("attkey", "e3", "zero", "width", "payload", "header"):
            h = dict(hdr)
            h.setdefault("alg", alg)
            pl = K.b64u([b"evil", b"{\"admin\": true}", b""][n % 3])
            if kind == "payload":
                return self.build(src, None, pl, None), None
            if kind == "header":
                h.update([{"kid": "other"}, {"x": 1}, {"cty": "JWT"}, {"typ": "JWE"}, {"kid": None}, {"crit": ["x"]},
                          {"kid": ["k0"]}, {"kid": {"a": 1}}, {"b64": False}][n % 9])
                return self.build(src, self.h64(h), None, None), None
            if kind == "attkey":
                jw = K.jwk(dict(att, kid=h.get("kid", "")), private=att["t"] == "oct")
                extra = [{}, {"jwk": jw}, {"jku": EVIL + "/jwks"}, {"x5u": EVIL + "/cert"},
                         {"jwk": jw, "jku": EVIL + "/jwks", "x5u": EVIL + "/c"}, {"kid": "nope"},
                         {"kid": "nope", "jwk": jw}, {"jku": "https://evil.example/j", "kid": ""}][n % 8]
                if att["t"] == "RSA" and n & 8:
                    extra = dict(extra, x5c=[K.POOL["rsa"][att["i"]].get("cert", "").replace("\n", "")])
                h.update(extra)
                if n & 64 and src["m"]["ser"] != "compact":
                    prot = {"alg": h.pop("alg")} if n & 128 else {}
                    data = self.data(prot, pl) if prot else ("." + pl).encode()
                    e = {"signature": K.b64u(O.ref_sign(att, alg, data)), "header": h if prot else dict(h, alg=alg)}
                    if prot:
                        e["protected"] = self.h64(prot)
                    return self.wrap(src, e, pl), None
                return self.forge(src, h, pl, lambda data: O.ref_sign(att, alg, data)), None
            if spec["t"] == "EC":
                wd, order = K.CBYTES[spec["crv"]], K.ORDER[spec["crv"]]
                _, x, y = K.ec_entry(spec)
                rs = [(0, 0), (0, 1), (1, 0), (order, order), (order, 1), (1, order), (x % order, x % order), (1, 1),
                      (x, 0), (0, x), (order - 1, order - 1)][n % 11]
                sig = K.i2b(rs[0], wd) + K.i2b(rs[1], wd)
                if kind == "width":
                    s0 = K.unb64u(parts[0][1])
                    sig = [b"", b"\0", s0[:wd], s0 + b"\0", b"\0" + s0, s0[wd:] + s0[:wd], bytes(2 * wd), s0[:-1],
                           b"\0" * 8 + s0][n % 9]
            elif spec["t"] == "RSA":
                bits = K.POOL["rsa"][spec["i"]]["bits"]
                kl = bits // 8
                nn = int(K.POOL["rsa"][spec["i"]]["n"], 16)
                sig = [bytes(kl), b"", b"\0" * (kl - 1) + b"\1", K.i2b(nn, kl), K.i2b(nn - 1, kl), b"\xff" * kl,
                       K.i2b(int.from_bytes(K.unb64u(parts[0][1]), "big") + nn, kl + 1)][n % 7]
                if kind == "e3" and K.POOL["rsa"][spec["i"]]["e"] == "0x3" and alg.startswith("RS"):
                    return self.forge(src, h, pl, lambda data: cube_forgery(alg, data, kl, n)), None
            else:
                sig = [b"", b"\0", bytes(K.HASHLEN[alg[2:]]), b"\0" * 200][n % 4]
            return self.build(src, self.h64(h), pl if n & 128 else None, K.b64u(sig)), None
        if kind == "shape":
            return self.shape(src, n, a), None
        if kind == "json":
            return self.json_attack(plan, src, oth, n, spec, alg, att), None
        raise AssertionError(kind)

    @staticmethod
    def h64(h):
        return K.b64u(json.dumps(h).encode())

    def data(self, h, pl):
        return (self.h64(h) + "." + pl).encode()

    def entries(self, src):
        if src["tok"].startswith("{"):
            d = json.loads(src["tok"])
            if "signatures" in d:
                return copy.deepcopy(d["signatures"])
            d.pop("payload")
            return [d]
        h, b, s = src["tok"].split(".")
        return [{"protected": h, "signature": s}]

    def parts(self, src):
        """(protected, signature) of the first signature, payload."""
        e = self.entries(src)[0]
        b = json.loads(src["tok"])["payload"] if src["tok"].startswith("{") else src["tok"].split(".")[1]
        return (e.get("protected", ""), e.get("signature", "")), b

    def build(self, src, h, b, s):
        """The message with some of header, payload, signature (base64 texts) replaced."""
        (h0, s0), b0 = self.parts(src)
        h, b, s = (h0 if h is None else h), (b0 if b is None else b), (s0 if s is None else s)
        e = self.entries(src)
        e[0].update(protected=h, signature=s)
        return self.wrap(src, e[0], b, e[1:])

    def wrap(self, src, e, b, more=()):
        ser = src["m"]["ser"]
        if ser == "compact" and "header" not in e:
            return "%s.%s.%s" % (e.get("protected", ""), b, e.get("signature", ""))
        if ser == "flat":
            return json.dumps(dict(e, payload=b))
        return json.dumps({"payload": b, "signatures": [e] + list(more)})

    def entry_edit(self, src, fn):
        es = self.entries(src)
        fn(es[0])
        return self.wrap(src, es[0], self.parts(src)[1], es[1:])

    def forge(self, src, h, pl, signer):
        h64 = self.h64(h)
        b = pl or self.parts(src)[1]
        return self.build(src, h64, b, K.b64u(signer((h64 + "." + b).encode())))

    def shape(self, src, n, a):
        tok = src["tok"]
        if src["m"]["ser"] == "compact":
            h, b, s = tok.split(".")
            return [h + "." + b, h, "", ".", "..", tok + ".", tok + ".x", "." + b + "." + s, h + ".." + s,
                    h + "." + b + ".", "%s.%s.%s.%s.%s" % (h, b, s, s, s), tok.encode("utf-16").decode("latin-1"),
                    K.b64u(b"[]") + "." + b + "." + s, K.b64u(b"null") + "." + b + "." + s,
                    K.b64u(b"\"alg\"") + "." + b + "." + s, K.b64u(b"{\"alg\": " + b"[" * 3000 + b"]" * 3000 + b"}") +
                    "." + b + "." + s, K.b64u(b"{\"alg\": 1}") + "." + b + "." + s, K.b64u(b"\xff\xfe") + "." + b + "." + s,
                    tok.upper(), tok[::-1]][n % 20]
        d = json.loads(tok)
        es = self.entries(src)
        return ["{}", "[]", "null", "1", "\"\"", tok[:-1], tok + "}", json.dumps({"payload": d["payload"]}),
                json.dumps({"payload": d["payload"], "signatures": []}),
                json.dumps({"payload": d["payload"], "signatures": {}}),
                json.dumps({"payload": d["payload"], "signatures": None}),
                json.dumps({"payload": d["payload"], "signatures": [{}]}),
                json.dumps({"payload": d["payload"], "signatures": [{"protected": es[0]["protected"]}]}),
                json.dumps({"payload": d["payload"], "signatures": [{"signature": es[0]["signature"]}]}),
                json.dumps({"signatures": es}), json.dumps({"payload": None, "signatures": es}),
                json.dumps({"payload": [d["payload"]], "signatures": es}), json.dumps([d]),
                json.dumps({"payload": d["payload"], "signature": ""}),
                json.dumps({"payload": d["payload"], "signature": "", "protected": "", "header": {"alg": "none"}}),
                ][n % 20]

    def json_attack(self, plan, src, oth, n, spec, alg, att):
        es = self.entries(src)
        b = self.parts(src)[1]
        evil = K.b64u(b"evil")
        none64 = self.h64({"alg": "none"})
        if not src["sigs"]:
            return json.dumps({"payload": b, "signatures": [{"protected": none64, "signature": ""}]})
        e0 = es[0]
        hdr = json.loads(K.unb64u(e0["protected"]))
        jw = K.jwk(att, private=att["t"] == "oct")
        c = n % 18
        if c == 0:
            return json.dumps({"payload": evil, "signatures": [{"protected": none64, "signature": ""}] + es})
        if c == 1:
            return json.dumps({"payload": b, "signatures": es + [{"protected": none64, "signature": ""}]})
        if c == 2:           # header moved out of the protection
            return json.dumps({"payload": b, "signatures": [{"header": hdr, "signature": e0["signature"]}]})
        if c == 3:           # unprotected header overrides
            e0["header"] = {"alg": "none", "kid": "x"}
            return json.dumps({"payload": evil, "signatures": [e0]})
        if c == 4:
            h = {"alg": alg, "jwk": jw}
            return json.dumps({"payload": evil, "signatures": [
                {"protected": self.h64(h), "signature": K.b64u(O.ref_sign(att, alg, self.data(h, evil)))}]})
        if c == 5:
            h = {"alg": alg}
            return json.dumps({"payload": evil, "signatures": [
                {"protected": self.h64(h), "header": {"jwk": jw, "jku": EVIL + "/jwks", "kid": att.get("kid", "")},
                 "signature": K.b64u(O.ref_sign(att, alg, self.data(h, evil)))}]})
        if c == 6:           # first signature honest, second one by the attacker and naming its own key
            h = {"alg": alg}
            e = {"protected": self.h64(h), "header": {"jwk": jw},
                 "signature": K.b64u(O.ref_sign(att, alg, self.data(h, b)))}
            return json.dumps({"payload": b, "signatures": es + [e]})
        if c == 7:           # duplicate members: some parsers take the first, some the last
            return "{\"payload\": %s, \"signatures\": %s, \"payload\": %s}" % (
                json.dumps(b), json.dumps(es), json.dumps(evil))
        if c == 8:
            return "{\"payload\": %s, \"signatures\": %s, \"signatures\": %s}" % (
                json.dumps(evil), json.dumps(es), json.dumps([{"protected": none64, "signature": ""}]))
        if c == 9:
            e0["protected"] = ""
            e0["header"] = hdr
            return json.dumps({"payload": b, "signatures": es})
        if c == 10:
            e0["header"] = {"jku": EVIL + "/jwks", "x5u": EVIL + "/cert", "jwk": jw}
            return json.dumps({"payload": evil, "signatures": es})
        if c == 11:
            return json.dumps({"payload": evil, "signatures": [], "signature": e0["signature"],
                               "protected": e0["protected"]})
        if c == 12:          # split header: alg outside, empty object inside
            p64 = self.h64({})
            return json.dumps({"payload": evil, "signatures": [
                {"protected": p64, "header": {"alg": "HS256", "jwk": {"kty": "oct", "k": ""}},
                 "signature": K.b64u(hmac.new(b"", (p64 + "." + evil).encode(), "sha256").digest())}]})
        if c == 14:          # each signature with the payload it was made over, another one for all
            for e in es:
                e["payload"] = b
            return json.dumps({"payload": evil, "signatures": es})
        if c == 15:
            return json.dumps(dict(e0, payload=evil, Payload=b, payloads=[b], header={"payload": b, "b64": True}))
        if c == 16:          # another payload, and the honest message inside
            return json.dumps({"payload": evil, "signatures": [dict(e0, header=dict(hdr, jws=src["tok"])), {"payload": b, "signatures": es}][:1 + n // 18 % 2]})
        if c == 17:
            e0["header"] = {"b64": False, "crit": ["b64"], "protected": e0["protected"], "signature": e0["signature"]}
            e0["protected"] = self.h64(dict(hdr, b64=False))
            return json.dumps({"payload": [evil, b][n // 18 % 2], "signatures": es})
        es.append(copy.deepcopy(es[0]))
        es[-1]["signature"] = ""
        return json.dumps({"payload": b, "signatures": es})

    # ---------------------------------------------------------------- oracle
    def justified(self, tok, materials):
        """The (alg, value) an acceptance of tok may be based on, or a reason why none may."""
        txt = tok
        if txt.lstrip().startswith("{"):
            d = json.loads(txt)
            b = d["payload"]
            if "signatures" in d:
                ents = d["signatures"]
            else:
                ents = [d]
        else:
            p = txt.split(".")
            if len(p) != 3:
                return None, "%d parts" % len(p)
            ents, b = [{"protected": p[0], "signature": p[2]}], p[1]
        if not ents:
            return None, "no signature at all"
        out = []
        for e in ents:
            led = self.ledger.get((e.get("protected", ""), b), [])
            sig = lenient(e.get("signature", ""))
            hit = [x for x in led if x[0] in materials and same_sig(x, sig)]
            if not hit:
                return None, "a signature no holder of the verifier's keys made over this header and payload"
            out.append(hit)
        hdr = json.loads(lenient(ents[0]["protected"]))
        return (out, O.decoded_payload(lenient(b), hdr)), None

    def unsigned(self, tok):
        """Payload of a message whose header says alg none, in every signature."""
        try:
            if tok.lstrip().startswith("{"):
                d = json.loads(tok)
                ents = d.get("signatures", [d])
                b = d["payload"]
            else:
                p = tok.split(".")
                ents, b = [{"protected": p[0], "signature": p[2]}], p[1]
            vals = []
            for e in ents:
                h = json.loads(lenient(e.get("protected", "")))
                if not (h["alg"] is None or h["alg"].lower() == "none"):
                    return False, None
                vals.append(O.decoded_payload(lenient(b), h))
            return bool(vals), vals[0] if vals else None
        except Exception:
            return False, None

    def mixed_none(self, tok, materials):
        """JSON message in which every entry is either unsigned or justified."""
        try:
            d = json.loads(tok)
            ents = d.get("signatures", [d])
            b = d["payload"]
            for e in ents:
                h = json.loads(lenient(e.get("protected", "")))
                if h["alg"] is None or h["alg"].lower() == "none":
                    continue
                led = self.ledger.get((e.get("protected", ""), b), [])
                if not [x for x in led if x[0] in materials and same_sig(x, lenient(e.get("signature", "")))]:
                    return False, None
            h = json.loads(lenient(ents[0].get("protected", "")))
            return bool(ents), O.decoded_payload(lenient(b), h)
        except Exception:
            return False, None

    # ---------------------------------------------------------------- run
    def run(self, plan, w):
        from jwkest.jws import JWS, factory
        from jwkest.jwk import KEYS
        net = w.net = Net(w)
        self.produce(w, plan)
        libkeys = [K.make(dict(k, priv=k["t"] == "oct")) for k in plan["keys"]]
        served = [[]]
        net.add(Host("keys.example", lambda h, m, p, hd: Response(200, jwks_body(served[0])), tls="good"))
        net.add(Host("evil.example", lambda h, m, p, hd: Response(200, jwks_body(
            [K.jwk(a, a["t"] == "oct") for a in plan["att"]])), tls="good"))
        cover, forged, honest_ok = [], 0, 0
        for j, d in enumerate(plan["deliveries"]):
            with entropy_op(w, "attack%d" % d["id"]):
                tok, origin = self.attack(plan, w, d)
            idx = list(range(len(libkeys)))
            if d["subset"] and len(idx) > 1:
                idx = idx[1:] if d["order"] % 2 else idx[:-1]
            if d["order"] % 3 == 1:
                idx.reverse()
            mode = d["mode"]
            src = w.honest[d["msg"]]
            alg = src["sigs"][0][1] if src["sigs"] else "none"
            kw = {}
            conf = {}
            if mode == "conf_jwk":
                idx = idx[:1]
                conf = {"jwk": libkeys[idx[0]], "alg": plan["algs"][idx[0]]}
                keys = None
            elif mode == "conf_jku":
                conf = {"jku": "https://keys.example/jwks", "alg": alg if alg != "none" else "HS256"}
                served[0] = [K.jwk(plan["keys"][i], plan["keys"][i]["t"] == "oct") for i in idx]
                keys = None
            elif mode == "keys":
                keys = KEYS()
                for i in idx:
                    keys.append(libkeys[i])
            elif mode == "empty":
                keys, idx = [], []
            else:
                keys = [libkeys[i] for i in idx]
                if mode == "tuple":
                    keys = tuple(keys)
            mats = set(K.material(plan["keys"][i]) for i in idx)
            if d["sigalg"]:
                kw["sigalg"] = alg if d["sigalg"] == "match" else ("RS512" if alg != "RS512" else "HS512")
            if d["allow_none"]:
                kw["allow_none"] = True
            call = d["call"]
            is_json = tok.lstrip().startswith("{")
            if call == "auto":
                call = "json" if is_json else "compact" if d["id"] % 2 else "verbose"
            v = JWS(**conf)
            key = None
            w.fault("delivery_" + d["attack"]["a"])
            w.log("deliver", j, d["attack"]["a"], mode, call, sorted(kw.items()), O.brief(tok))
            before = len(net.events)
            with entropy_op(w, "verify%d" % d["id"]):
                if call == "factory":
                    ok, f = O.call(factory, tok)
                    if not ok or f is None:
                        ok, got = False, f or ValueError("factory declined")
                    else:
                        v = f
                        conf = {}
                        if keys is None:
                            keys = [libkeys[i] for i in idx]
                        ok, got = O.call(f.verify_json if is_json else f.verify_compact, tok, keys, **kw)
                elif call == "json":
                    ok, got = O.call(v.verify_json, tok, keys, **kw)
                else:
                    ok, got = O.call(v.verify_compact if call == "compact" else v.verify_compact_verbose, tok, keys, **kw)
                    if ok and call == "verbose":
                        got, key = got["msg"], got.get("key")
            w.log(" ->", ok, O.brief(got))
            for ev in net.events[before:]:
                if ev[0] in ("lookup", "connect", "request") and "keys.example" not in ev:
                    w.violate("contacted", "the verifier contacted %r, named only by the message" % (ev,))
            forged += origin is None
            cover.append([d["attack"]["a"], d["attack"]["n"] % 20 if d["attack"]["a"] != "fwd" else 0, src["m"]["ser"],
                          alg, mode, call])
            none_ok, none_val = self.unsigned(tok)
            if ok:
                if d["allow_none"] and none_ok:
                    if not O.same(got, none_val):
                        w.violate("wrong-payload", "unsigned message returned %r, it carries %r" % (got, none_val))
                elif none_ok and not d["allow_none"]:
                    w.violate("accepted-unsigned", "unsigned message accepted: %s" % tok[:200])
                else:
                    just, why = self.justified(tok, mats)
                    if just is None and d["allow_none"] and is_json:
                        mx, val = self.mixed_none(tok, mats)
                        if mx:
                            just, why = ([], val), None
                    if just is None:
                        w.violate("accepted-forgery", "%s/%s accepted %s (%s): %s" % (call, mode, d["attack"]["a"], why,
                                                                                     tok[:300]))
                    else:
                        sigs, val = just
                        if not O.same(got, val):
                            w.violate("wrong-payload", "returned %r, signed was %r" % (got, val))
                        algs = [set(x[1] for x in hit) for hit in sigs]
                        if kw.get("sigalg") and any(kw["sigalg"] not in s for s in algs):
                            w.violate("ruled-out-algorithm", "accepted %s, caller wants %s" % (algs, kw["sigalg"]))
                        if conf.get("alg") and call in ("compact", "verbose") and any(conf["alg"] not in s for s in algs):
                            w.violate("ruled-out-algorithm", "accepted %s, configured is %s" % (algs, conf["alg"]))
                        if key is not None and O.key_material(key) not in set(x[0] for x in sigs[0]):
                            w.violate("wrong-key", "reported key %s did not make the signature" % O.key_material(key))
            elif origin is not None:
                want = self.must_accept(plan, w, d, origin, idx, kw, conf, call, keys, is_json)
                if want:
                    w.violate("refused-honest", "%s/%s refused an unaltered %s %s message: %r" % (
                        call, mode, alg, src["m"]["ser"], got))
            if ok and origin is not None:
                honest_ok += 1
            if w.violation:
                break
        return {"nontrivial": bool(forged and honest_ok), "key": json.dumps(cover),
                "interleavings": [json.dumps(c) for c in cover],
                "sample": [(d["attack"]["a"], d["mode"], d["call"]) for d in plan["deliveries"]]}

    def must_accept(self, plan, w, d, origin, idx, kw, conf, call, keys, is_json):
        """May an honest, unaltered message still be refused under these options?"""
        if origin == "dup":
            origin = w.honest[d["msg"]]
        if not origin["sigs"]:
            return bool(kw.get("allow_none")) and (call in ("compact", "verbose", "factory"))
        if is_json != (call == "json") and call != "factory":
            return False
        need = [K.material(plan["keys"][s[0]]) for s in origin["sigs"]]
        have = set(K.material(plan["keys"][i]) for i in idx)
        algs = [s[1] for s in origin["sigs"]]
        if not all(n in have for n in need):
            return False
        if kw.get("sigalg") and any(a != kw["sigalg"] for a in algs):
            return False
        if conf.get("alg") and any(a != conf["alg"] for a in algs):
            return False
        return True


def lenient(s):
    s = "".join(c for c in s if c not in "\n").rstrip("=")
    return base64.urlsafe_b64decode(s + "=" * (-len(s) % 4))


def same_sig(entry, sig):
    mat, alg, good = entry
    if not mat.startswith("EC/"):
        return sig == good
    crv = mat.split("/")[1]
    wd, n = K.CBYTES[crv], K.ORDER[crv]
    if len(sig) != 2 * wd:
        return False
    a = (int.from_bytes(sig[:wd], "big"), int.from_bytes(sig[wd:], "big"))
    b = (int.from_bytes(good[:wd], "big"), int.from_bytes(good[wd:], "big"))
    return a == b or a == (b[0], n - b[1])


def icbrt(n):
    lo, hi = 0, 1 << (n.bit_length() // 3 + 2)
    while lo < hi:
        mid = (lo + hi) // 2
        if mid ** 3 < n:
            lo = mid + 1
        else:
            hi = mid
    return lo


DIGESTINFO = {"256": "3031300d060960864801650304020105000420", "384": "3041300d060960864801650304020205000430",
              "512": "3051300d060960864801650304020305000440"}


def cube_forgery(alg, data, kl, n):
    """Bleichenbacher's forgery: short padding, then garbage, so that the cube root exists."""
    h = O.HLIB[alg[2:]](data).digest()
    di = bytes.fromhex(DIGESTINFO[alg[2:]]) + h
    head = b"\0\1" + b"\xff" * (8 if n & 1 else 1) + b"\0" + di
    v = int.from_bytes(head + b"\0" * (kl - len(head)), "big")
    return K.i2b(icbrt(v), kl)


PROP = C01()
