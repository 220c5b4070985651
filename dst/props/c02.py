"""C02: decryption returns only what was encrypted, intact."""
import json
from .. import keys as K
from .. import ops as O
from ..net import Net, Host, Response, jwks_body
from ..runner import Property
from ..seams import entropy_op
from .c01 import tweak, lenient, CHARS, EVIL
from ..keys import cut

SEG = ["header", "ek", "iv", "ct", "tag"]


class C02(Property):
    ID = "C02"
    RUNS = {"quick": 2000, "thorough": 50000}
    RULE = ("a run with at least one altered delivery and one honest delivery that decrypted: sequence of (algorithm, "
            "encryption, attack, entry point) over its deliveries")
    STATE_MEASURE = "distinct (attack with variant, algorithm, encryption, entry point) tuples"
    STUBS = ["OS random source", "clock", "network"]
    ASSUMPTIONS = ["the attacker cannot break AES, HMAC, GHASH, RSA or ECDH; it knows public keys, all traffic and its own keys",
                   "the encrypted-key segment is not compared: only header, iv, ciphertext and tag identify an encryption"]
    ATTACKS = ["fwd"] * 5 + ["tweak", "tweak", "bit", "bit", "bit", "splice", "splice", "rekey", "alg", "enc", "hdr", "cut", "cut",
               "sentinel", "sentinel", "degenerate", "wrongkek", "shape", "resource", "zip", "own"]

    def gen(self, rng, index, tier):
        keys, algs = [], []
        for i in range(rng.randrange(1, 4)):
            alg = rng.choice(list(K.JWE_ALGS) + ["RSA1_5", "RSA1_5", "A128KW"])
            k = K.enc_key(rng, alg, kid=rng.choice(["", "k%d" % i, "same"]))
            if K.material(k) in [K.material(x) for x in keys]:
                continue
            k["use"] = rng.choice(["", "", "enc"])
            k["alg"] = rng.choice(["", "", "", alg])
            keys.append(k)
            algs.append(alg)
        gcm = rng.random() < .35
        msgs = []
        for i in range(rng.randrange(2, 4)):
            ki = rng.randrange(len(keys))
            enc = rng.choice(K.ENC_GCM) if gcm and i == 0 else rng.choice(K.ENC_CBC)
            if keys[ki]["t"] == "RSA" and algs[ki] == "RSA-OAEP-256" and K.POOL["rsa"][keys[ki]["i"]]["bits"] < 1536:
                enc = "A128CBC-HS256"
            ref = rng.random() < .3
            msgs.append({"id": i, "key": ki, "enc": enc, "payload": O.rand_text(rng),
                         "zip": (ref or algs[ki].startswith("RSA")) and rng.random() < .3,
                         "hdr": rng.choice([{}, {}, {"typ": "JWE"}, {"cty": "JWT"}, {"cty": "c" * rng.choice([200, 900])}]),
                         "ref": ref, "eph": rng.randrange(1, 1 << 255), "party": rng.randrange(4),
                         "direct": rng.random() < .2})
        deliveries = []
        for j in range(rng.randrange(4, 6) if gcm else rng.randrange(7, 13)):
            a = {"a": rng.choice(self.ATTACKS), "f": cut(rng.random(), 6), "g": cut(rng.random(), 6),
                 "c": rng.choice(CHARS), "n": rng.randrange(1 << 16)}
            deliveries.append({"id": j, "msg": rng.randrange(len(msgs)), "other": rng.randrange(len(msgs)), "attack": a,
                               "mode": rng.choice(["list"] * 4 + ["kept"] * 4 + ["keys", "conf_jwk", "factory", "factory", "direct", "cek", "cek"]),
                               "subset": rng.choice([0, 0, 0, 1]), "order": rng.randrange(6),
                               "alg": rng.choice(["", "", "", "match", "wrong"])})
        if rng.random() < .4:    # a message, and then the same one with another encrypted key, to one decrypter
            at = rng.randrange(len(deliveries) + 1)
            d = {"msg": rng.randrange(len(msgs)), "mode": "kept", "subset": 0, "order": rng.randrange(6), "alg": ""}
            deliveries[at:at] = [
                dict(d, id=90, other=d["msg"], attack={"a": "fwd", "f": 0, "g": 0, "c": "A", "n": 0}),
                dict(d, id=91, other=rng.randrange(len(msgs)), attack={"a": "rekey", "f": cut(rng.random(), 6), "g": cut(rng.random(), 6),
                                                                       "c": "A", "n": rng.randrange(1 << 16)})]
        return {"keys": keys, "algs": algs, "msgs": msgs, "deliveries": deliveries}

    def shrinkable(self, plan):
        return [["deliveries"]]

    # ---------------------------------------------------------------- honest traffic
    def produce(self, w, plan):
        from jwkest.jwe import JWE
        self.ledger = {}
        self.honest = []
        for m in plan["msgs"]:
            spec, alg = plan["keys"][m["key"]], plan["algs"][m["key"]]
            with entropy_op(w, "send%d" % m["id"]):
                if m["ref"]:
                    hdr = dict(m["hdr"])
                    if spec.get("kid"):
                        hdr["kid"] = spec["kid"]
                    from Cryptodome.Random import get_random_bytes
                    if m["zip"]:
                        hdr["zip"] = "DEF"
                    for bit, name in ((1, "apu"), (2, "apv")):
                        if alg.startswith("ECDH") and m["party"] & bit:
                            hdr[name] = K.b64u(b"party %d" % bit)
                    tok = O.ref_encrypt(spec, alg, m["enc"], m["payload"].encode(), get_random_bytes(K.CEKLEN[m["enc"]]),
                                        get_random_bytes(12 if m["enc"].endswith("GCM") else 16), hdr, m["eph"])
                else:
                    kw = dict(m["hdr"], alg=alg, enc=m["enc"])
                    if m["zip"]:
                        kw["zip"] = "DEF"
                    tok = JWE(m["payload"], **kw).encrypt([K.make(dict(spec, priv=spec["t"] == "oct"))])
            self.add(tok, K.material(spec), m["payload"].encode())
            self.honest.append({"tok": tok, "m": m})
            w.log("send", m["id"], alg, m["enc"], O.brief(tok))

    def cek(self, plan, i):
        """The content key of an honest message."""
        h = self.honest[i]
        spec = plan["keys"][h["m"]["key"]]
        return O.ref_open(spec, h["tok"]).cek

    def add(self, tok, mat, pt):
        self.ledger.setdefault(ident(tok), []).append((mat, pt, lenient(tok.split(".")[1])))

    # ---------------------------------------------------------------- the attacker
    def attack(self, plan, w, d):
        a = d["attack"]
        h = self.honest[d["msg"]]
        o = self.honest[d["other"]]
        tok, kind, n, m = h["tok"], a["a"], a["n"], h["m"]
        spec, alg = plan["keys"][m["key"]], plan["algs"][m["key"]]
        if kind == "fwd":
            return tok, m
        if kind == "tweak":
            return tweak(tok, a["f"], ["sub", "ins", "del", "cut", "app"][n % 5], a["c"]), None
        p = tok.split(".")
        raw = [K.unb64u(x) for x in p]
        hdr = json.loads(raw[0])
        if kind == "bit":
            i = n % 5
            b = bytearray(raw[i] or b"\0")
            b[min(len(b) - 1, int(a["f"] * len(b)))] ^= 1 << (int(a["g"] * 8) % 8)
            p[i] = K.b64u(bytes(b))
            return ".".join(p), None
        if kind == "rekey":
            b = raw[1] or bytes(24)
            i = min(len(b) - 1, int(a["f"] * len(b)))
            b = [K.unb64u(o["tok"].split(".")[1]), b[:i] + bytes([b[i] ^ 1 << int(a["g"] * 8) % 8]) + b[i + 1:], bytes(len(b)), b[::-1], b[:i]][n % 5]
            p[1] = K.b64u(b)
            return ".".join(p), None
        if kind == "splice":
            q = o["tok"].split(".")
            mask = n % 31
            return ".".join(q[i] if mask >> i & 1 else p[i] for i in range(5)), None
        if kind == "alg":
            algs = list(K.JWE_ALGS) + ["dir", "none", "", "A128GCMKW", "HS256", "PBES2-HS256+A128KW", "AKW", "RSA", None]
            hdr["alg"] = algs[n % len(algs)]
        elif kind == "enc":
            encs = K.ENC_CBC + K.ENC_GCM + ["none", "", "A128CBC", "A128CBC-HS512", None, "a128gcm"]
            hdr["enc"] = encs[n % len(encs)]
            if hdr["enc"] and hdr["enc"] in K.CEKLEN and n & 64:      # give iv and tag the shape of that method
                p[2] = K.b64u((raw[2] + bytes(16))[:12 if hdr["enc"].endswith("GCM") else 16])
                p[4] = K.b64u((raw[4] + bytes(32))[:K.TAGLEN[hdr["enc"]]])
        elif kind == "hdr":
            hdr.update([{"kid": "other"}, {"apu": "AAAA"}, {"apv": "AAAA"}, {"x": 1}, {"crit": ["x"]}, {"typ": "JWT"},
                        {"cty": "x"}, {"kid": ["a"]}][n % 8])
            if n & 8:
                hdr.pop("kid", None)
        elif kind == "zip":
            if hdr.pop("zip", None) is None:
                hdr["zip"] = ["DEF", "GZ", ""][n % 3]
        elif kind == "resource":
            hdr.update([{"jku": EVIL + "/jwks"}, {"x5u": EVIL + "/c"}, {"jwk": {"kty": "oct", "k": "AAAA"}},
                        {"jku": "https://evil.example/j"}][n % 4])
        elif kind == "cut":
            if n % 11 == 0:        # segments left empty, several at once
                for i in range(1, 5):
                    if n >> (5 + i) & 1:
                        p[i] = ""
                return ".".join(p), None
            i = [2, 3, 4, 1, 4][n % 5]
            v = raw[i]
            c = n // 5 % 12
            v = [b"", v[:-1], v[1:], v[:int(a["f"] * len(v))], bytes(len(v)), v + b"\0", v[:len(v) // 2],
                 v[:-16], b"\0" + v, bytes(4) + v, v + v, v[:16]][c]
            p[i] = K.b64u(v)
            if i == 3 and n & 512:
                p[4] = K.b64u(raw[4][:int(a["g"] * len(raw[4]))])
            return ".".join(p), None
        elif kind == "sentinel":
            # make unwrapping fail and hope that the receiver goes on with a key anybody can guess
            enc = m["enc"]
            bits = K.POOL["rsa"][spec["i"]]["bits"] // 8 if spec["t"] == "RSA" else K.CEKLEN[enc] + 8
            ek = [b"\0" + bytes([1 + (n + i) % 255 for i in range(bits - 1)]), b"", bytes(bits), b"\1" * bits,
                  b"\0\2" + b"\1" * (bits - 2), bytes(bits - 1)][n % 6]
            cl = K.CEKLEN[enc]
            if alg == "RSA1_5":
                enc = hdr["enc"] = ["A128CBC-HS256", enc][n >> 4 & 1]
                cl = K.CEKLEN[enc]
            cek = [bytes(cl), b"\xff" * cl, b"None".ljust(cl, b"\0"), b" " * cl, b"\1" * cl, bytes(range(cl)),
                   b"sentinel".ljust(cl, b"\0"), ek[-cl:].rjust(cl, b"\0")][n >> 5 & 7]
            hdr.pop("zip", None)
            h64 = K.b64u(json.dumps(hdr).encode())
            iv = bytes(12 if enc.endswith("GCM") else 16)
            ct, tag = O.content_encrypt(enc, cek, iv, h64.encode(), b"evil")
            return ".".join([h64, K.b64u(ek), K.b64u(iv), K.b64u(ct), K.b64u(tag)]), None
        elif kind == "degenerate":
            # an encrypted key that anybody can write and that unwraps, if at all, to a key anybody knows
            enc = hdr["enc"] = (K.ENC_GCM * 2 + K.ENC_CBC)[n % 9]
            if spec["t"] != "RSA" and n & 16:
                hdr["alg"] = ("ECDH-ES+" if spec["t"] == "EC" else "") + ["A128KW", "A192KW", "A256KW"][n >> 5 & 1]
            icv = b"\xa6" * 8
            ek = [icv, icv, icv + bytes([n >> 8]) * (1 + n % 7), icv + icv, icv[:7], icv + bytes(8), icv + bytes(16),
                  icv * 3, bytes(8), b"", bytes(1)][(n >> 7) % 11]
            cl = K.CEKLEN[enc]
            cek = [bytes(cl), bytes(cl), icv.rjust(cl, b"\0"), (icv * 8)[:cl], ek[8:].rjust(cl, b"\0")[-cl:]][(n >> 11) % 5]
            hdr.pop("zip", None)
            h64 = K.b64u(json.dumps(hdr).encode())
            iv = bytes(12 if enc.endswith("GCM") else 16)
            ct, tag = O.content_encrypt(enc, cek, iv, h64.encode(), b"evil")
            return ".".join([h64, K.b64u(ek), K.b64u(iv), K.b64u(ct), K.b64u(tag)]), None
        elif kind == "wrongkek":
            enc = m["enc"]
            cek = bytes(range(K.CEKLEN[enc]))
            keks = [bytes(16), bytes(24), bytes(32), O.HLIB["256"](b"").digest()[:16], O.HLIB["256"](b"None").digest()[:16],
                    O.HLIB["256"](spec.get("kid", "").encode()).digest()[:16], b"\1" * 16]
            if n & 64:
                hdr["alg"] = ["A128KW", "A192KW", "A256KW"][n % 3]
            if spec["t"] == "RSA":
                k = K.POOL["rsa"][spec["i"]]
                keks += [O.HLIB["256"](k["pub"].encode()).digest()[:16], O.HLIB["256"](K.i2b(int(k["n"], 16))).digest()[:16]]
            ek = O.kw_wrap(keks[n >> 8 & 255 % len(keks)] if False else keks[(n >> 8) % len(keks)], cek)
            if n & 32:
                ek = cek
            hdr.pop("zip", None)
            h64 = K.b64u(json.dumps(hdr).encode())
            iv = bytes(12 if enc.endswith("GCM") else 16)
            ct, tag = O.content_encrypt(enc, cek, iv, h64.encode(), b"evil")
            return ".".join([h64, K.b64u(ek), K.b64u(iv), K.b64u(ct), K.b64u(tag)]), None
        elif kind == "own":
            # a correct message to a key of the attacker's own
            s = dict(spec)
            if s["t"] == "RSA":
                s["i"] = (s["i"] + 1) % K.N_RSA
            if s["t"] != "RSA" or alg == "RSA-OAEP-256" or K.material(s) in [K.material(x) for x in plan["keys"]]:
                s, alg2 = {"t": "oct", "k": "11" * 16}, "A128KW"
            else:
                alg2 = alg
            h2 = {"kid": spec["kid"]} if spec.get("kid") else {}
            return O.ref_encrypt(s, alg2, "A128CBC-HS256", b"evil", b"\7" * 32, b"\0" * 16, h2), None
        elif kind == "shape":
            t = [".".join(p[:4]), ".".join(p[:3]), tok + ".", tok + "." + p[4], "....", "", ".", p[0], p[0] + "....",
                 ".".join([K.b64u(b"[]")] + p[1:]), ".".join([K.b64u(b"{}")] + p[1:]), tok[::-1], tok.lower(),
                 ".".join([K.b64u(b"{\"alg\": 1, \"enc\": 2}")] + p[1:]), ".".join([p[0]] + p[2:] + [p[1]]),
                 ".".join([p[0], "", p[2], p[3], p[4]])][n % 16]
            return t, None
        p[0] = K.b64u(json.dumps(hdr).encode())
        return ".".join(p), None

    # ---------------------------------------------------------------- run
    def run(self, plan, w):
        from jwkest.jwe import JWE, JWE_RSA, JWE_SYM, JWE_EC, JWEnc, factory
        from jwkest.jwk import KEYS
        net = w.net = Net(w)
        net.add(Host("evil.example", lambda h, m, p, hd: Response(200, jwks_body([])), tls="good"))
        self.produce(w, plan)
        lib = [K.make(k) for k in plan["keys"]]
        cover, altered, fine = [], 0, 0
        kept = JWE()
        for d in plan["deliveries"]:
            with entropy_op(w, "attack%d" % d["id"]):
                tok, origin = self.attack(plan, w, d)
            src = self.honest[d["msg"]]["m"]
            alg = plan["algs"][src["key"]]
            idx = list(range(len(lib)))
            if d["subset"] and len(idx) > 1:
                idx = idx[1:] if d["order"] % 2 else idx[:-1]
            if d["order"] % 3 == 1:
                idx.reverse()
            mode = d["mode"]
            kw = {}
            if d["alg"] and mode != "direct":
                kw["alg"] = alg if d["alg"] == "match" else ("RSA-OAEP" if alg != "RSA-OAEP" else "RSA1_5")
            if mode == "direct":
                idx = [src["key"]]
            elif mode == "conf_jwk":
                idx = idx[:1]
            elif mode == "cek":      # the caller knows a content key, that of this message or of another
                known = d["msg"] if d["order"] % 3 or d["attack"]["n"] & 1 else d["other"]
                cek = self.cek(plan, known)
                if d["order"] & 1:
                    idx = []
            keys = [lib[i] for i in idx]
            w.fault("delivery_" + d["attack"]["a"])
            w.log("deliver", d["id"], d["attack"]["a"], d["attack"]["n"], mode, sorted(kw.items()), O.brief(tok))
            before = len(net.events)
            with entropy_op(w, "receive%d" % d["id"]):
                if mode in ("list", "kept"):
                    ok, got = O.call((kept if mode == "kept" else JWE()).decrypt, tok, keys, **kw)
                elif mode == "keys":
                    ks = KEYS()
                    for k in keys:
                        ks.append(k)
                    ok, got = O.call(JWE().decrypt, tok, ks, **kw)
                elif mode == "conf_jwk":
                    ok, got = O.call(JWE(jwk=keys[0]).decrypt, tok, **kw)
                elif mode == "cek":
                    ok, got = O.call(JWE().decrypt, tok, keys or None, cek=cek, **kw)
                elif mode == "factory":
                    ok, f = O.call(factory, tok)
                    if ok and f is not None:
                        ok, got = O.call(f.decrypt, keys=keys, **kw)
                    else:
                        ok, got = False, f or ValueError("factory declined")
                else:
                    spec = plan["keys"][idx[0]]
                    if spec["t"] == "RSA":
                        ok, got = O.call(JWE_RSA().decrypt, tok, keys[0].key)
                    elif spec["t"] == "oct":
                        ok, got = O.call(JWE_SYM().decrypt, tok, O.kek(spec, alg))
                    else:
                        def ec():
                            e, t = JWE_EC(), JWEnc().unpack(tok)
                            e.dec_setup(t, key=keys[0])
                            return e.decrypt(t)
                        ok, got = O.call(ec)
            w.log(" ->", ok, O.brief(got))
            if [e for e in net.events[before:] if e[0] in ("lookup", "connect", "request")]:
                w.violate("contacted", "the receiver contacted %r, named only by the message" % (net.events[before:],))
            mats = [K.material(plan["keys"][i]) for i in idx]
            altered += origin is None
            if ok:
                try:
                    led = self.ledger.get(ident(tok), [])
                except Exception:
                    led = []
                good = [pt for mat, pt, ek in led if mat in mats and ek == lenient(tok.split(".")[1])]
                if mode == "cek" and not good and ident(tok) == ident(self.honest[known]["tok"]):
                    good = [self.honest[known]["m"]["payload"].encode()]      # no encrypted key was needed
                if not good:
                    w.violate("decrypted-forgery", "%s returned %r for a message nobody encrypted to its key (%s %d): %s" % (
                        mode, got, d["attack"]["a"], d["attack"]["n"], tok[:400]))
                elif not any(O.same(got, pt) for pt in good):
                    w.violate("wrong-plaintext", "returned %r, encrypted was %r" % (got, good[0]))
                elif kw.get("alg") and kw["alg"] != json.loads(lenient(tok.split(".")[0]))["alg"]:
                    w.violate("ruled-out-algorithm", "caller wants %s" % kw["alg"])
                elif origin is not None:
                    fine += 1
            elif origin is not None and kw.get("alg", alg) == alg and (
                    mode != "cek" and K.material(plan["keys"][src["key"]]) in mats or
                    mode == "cek" and known == d["msg"] and (mats == [] and not alg.startswith("ECDH") or
                                                            K.material(plan["keys"][src["key"]]) in mats)):
                w.violate("refused-honest", "%s refused an unaltered %s/%s message: %r" % (mode, alg, src["enc"], got))
            cover.append([d["attack"]["a"], d["attack"]["n"] % 40 if origin is None else 0, alg, src["enc"], mode])
            if w.violation:
                break
        return {"nontrivial": bool(altered and fine), "key": json.dumps(cover),
                "interleavings": [json.dumps(c) for c in cover],
                "sample": [(d["attack"]["a"], d["mode"]) for d in plan["deliveries"]]}


def ident(tok):
    p = tok.split(".")
    if len(p) != 5:
        raise ValueError
    iv, ct, tag = (lenient(x) for x in p[2:])
    return p[0], iv, ct, tag


PROP = C02()
