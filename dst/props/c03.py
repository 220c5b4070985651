"""C03: every random outcome yields valid, full-width tokens and keys."""
import json
from .. import keys as K
from .. import ops as O
from ..runner import Property
from ..seams import entropy_op

PATTERNS = ["zero", "ff", "lead0", "lead00", "trail0", "one", "fe", "low"]


def pattern(rng, n):
    k = rng.choice(PATTERNS)
    r = bytes(rng.randrange(256) for _ in range(n))
    v = {"zero": bytes(n), "ff": b"\xff" * n, "lead0": b"\0" + r[1:], "lead00": b"\0" * min(n, 5) + r[5:],
         "trail0": r[:-1] + b"\0", "one": bytes(n - 1) + b"\1", "fe": b"\xff" * (n - 1) + b"\xfe",
         "low": bytes(n - 1) + r[-1:]}[k]
    return v[:n].hex()


def scalar_draw(rng, crv):
    """Bytes for a scalar draw of a curve: extremes, rejections, and nonces whose r starts with zero bytes."""
    n, w = K.ORDER[crv], K.CBYTES[crv]
    r = rng.random()
    if r < .3 and K.POOL["nonce"].get(crv):
        e = rng.choice(K.POOL["nonce"][crv])
        k = int(e["k"], 16) if isinstance(e, dict) else int(e, 16)
        return K.i2b(k - 1, w).hex()
    if r < .5:
        v = rng.choice([n - 3, n - 2, n - 1, n, n + 1, 0, 1, 2, (1 << K.CBITS[crv]) - 1, 2 * n - 1])
        return K.i2b(v % (1 << (8 * w)), w).hex()
    return pattern(rng, w)


class C03(Property):
    ID = "C03"
    RUNS = {"quick": 1500, "thorough": 30000}
    RULE = ("one entropy outcome class forced into one operation: (operation, algorithm, encryption, key class and "
            "form, forced draw sizes and values)")
    STATE_MEASURE = "distinct (operation, algorithm, key class, forced entropy values) tuples"
    ASSUMPTIONS = ["Cryptodome, used as independent receiver, is correct",
                   "forced draws reach the library in the sizes it asks for; other sizes leave a run unforced"]

    # ---------------------------------------------------------------- plans
    def gen(self, rng, index, tier):
        ops = []
        for j in range(rng.randrange(2, 5)):
            r = rng.random()
            if r < .42:
                ops.append(self.gen_sign(rng))
            elif r < .78:
                ops.append(self.gen_enc(rng, allow_gcm=(j == 0)))
            else:
                ops.append(self.gen_key(rng))
        for j, o in enumerate(ops):
            o["id"] = j
        return {"ops": ops}

    def gen_sign(self, rng):
        alg = rng.choice(list(K.SIG_ALGS) + ["ES256"] * 4 + ["ES384"] * 2 + ["ES512"] * 2)
        key = K.sig_key(rng, alg, kid=rng.choice(["", "k1"]))
        ov = []
        mode = "plain"
        if alg in K.ES:
            crv = K.ES[alg]
            key["cls"] = rng.choice(["normal", "xzero", "yzero", "dsmall", "dbig"])
            key["i"] = rng.randrange(len(K.POOL["ec"][crv][key["cls"]]))
            w = K.CBYTES[crv]
            ov = [[w, scalar_draw(rng, crv)] for _ in range(rng.choice([0, 1, 1, 2]))]
            mode = rng.choice(["plain", "plain", "szero", "sshort"])
            if mode != "plain":
                ov = [[w, scalar_draw(rng, crv)]]
                key["form"] = "ints" if mode == "szero" else key["form"]
        elif alg.startswith("PS"):
            ov = [[K.HASHLEN[alg[2:]], pattern(rng, K.HASHLEN[alg[2:]])]]
        elif alg.startswith("RS"):
            n = K.POOL["rsa"][key["i"]]["bits"] // 8
            ov = [[n, "ff" * n], [n, pattern(rng, n)]]
        payload = O.rand_text(rng)
        if alg == "ES256" and mode == "plain" and rng.random() < .3:
            payload, key["kid"] = O.HIGH_DIGEST, ""
        return {"op": "sign", "alg": alg, "key": key, "mode": mode, "ov": ov, "payload": payload}

    def gen_enc(self, rng, allow_gcm):
        alg = rng.choice(list(K.JWE_ALGS) + ["ECDH-ES", "ECDH-ES+A128KW"])
        enc = rng.choice(K.ENC_GCM) if allow_gcm and rng.random() < .5 else rng.choice(K.ENC_CBC)
        key = K.enc_key(rng, alg, kid=rng.choice(["", "k1"]))
        ivn = 12 if enc.endswith("GCM") else 16
        ov = []
        if rng.random() < .7:
            ov.append([K.CEKLEN[enc], pattern(rng, K.CEKLEN[enc])])
        if rng.random() < .7:
            ov.append([ivn, pattern(rng, ivn)])
        mode = "plain"
        if alg == "RSA1_5":
            ov += [[1, "00"]] * rng.choice([0, 1, 5])
        if alg.startswith("ECDH"):
            crv = key["crv"]
            ov += [[16, pattern(rng, 16)] for _ in range(rng.randrange(3))]
            mode = rng.choice(["plain", "epkzero", "zzero"])
            if mode == "plain" and rng.random() < .6:
                ov.insert(0, [K.CBYTES[crv], scalar_draw(rng, crv)])
            if mode == "epkzero":
                e = rng.choice(K.POOL["ec"][crv][rng.choice(["xzero", "yzero"])])
                ov.insert(0, [K.CBYTES[crv], K.i2b(int(e["d"], 16) - 1, K.CBYTES[crv]).hex()])
            if mode == "zzero":
                ov = [o for o in ov if o[0] != K.CBYTES[crv]]
        elif enc.endswith("GCM") and rng.random() < .5:
            mode = "tagzero"
        return {"op": "enc", "alg": alg, "enc": enc, "key": key, "mode": mode, "ov": ov,
                "seed": rng.randrange(1 << 40), "payload": O.rand_text(rng)}

    def gen_key(self, rng):
        crv = rng.choice(K.CURVES)
        if rng.random() < .6:
            return {"op": "keygen", "crv": crv, "how": rng.choice(["load_key", "ctor", "wrap", "add"]),
                    "ov": [[K.CBYTES[crv], scalar_draw(rng, crv)] for _ in range(rng.choice([1, 1, 2]))]}
        cls = rng.choice(["xzero", "yzero", "dsmall", "dbig"])
        return {"op": "export", "key": {"t": "EC", "crv": crv, "cls": cls, "kid": rng.choice(["", "e"]),
                                        "i": rng.randrange(len(K.POOL["ec"][crv][cls])),
                                        "form": rng.choice(K.FORMS["EC"])}, "ov": []}

    def size(self, plan):
        return "%d operations" % len(plan["ops"])

    # ---------------------------------------------------------------- runs
    def run(self, plan, w):
        keys = []
        for op in plan["ops"]:
            label = "op%d" % op["id"]
            try:
                getattr(self, "do_" + op["op"])(w, op, label)
            except Exception as err:
                import traceback
                tb = traceback.extract_tb(err.__traceback__)
                if any("/jwkest/" in f.filename for f in tb[-6:]):
                    w.violate("%s-raised" % op["op"], "%s raised %r for %s" % (op["op"], err, json.dumps(op)[:600]))
                else:
                    raise
            if w.violation:
                break
            keys.append([op["op"], op.get("alg"), op.get("enc"), op.get("crv"), op.get("mode"),
                         (op.get("key") or {}).get("cls"), op.get("how"), op["ov"]])
        fired = w.faults.get("entropy_rare_value", 0) > 0 or any(o["op"] == "export" for o in plan["ops"])
        return {"nontrivial": fired, "key": json.dumps(keys), "interleavings": [json.dumps(k) for k in keys],
                "sample": plan["ops"][0]}

    @staticmethod
    def _ov(op):
        return [(n, bytes.fromhex(h)) for n, h in op["ov"]]

    def do_sign(self, w, op, label):
        from jwkest.jws import JWS
        spec, alg = op["key"], op["alg"]
        key = K.make(spec)
        payload = op["payload"]
        ref = spec
        pub = K.make(dict(spec, priv=False)) if spec["t"] != "oct" else key
        if op["mode"] in ("szero", "sshort"):
            # learn the nonce that this entropy gives from a first signature, then arrange s
            crv = K.ES[alg]
            n, wd = K.ORDER[crv], K.CBYTES[crv]
            with entropy_op(w, label + "/dry", overrides=self._ov(op)):
                tok = JWS(payload, alg=alg).sign_compact([key])
            si, sig = tok.rsplit(".", 1)
            sig = K.unb64u(sig)
            r, s = int.from_bytes(sig[:wd], "big"), int.from_bytes(sig[wd:], "big")
            h = int.from_bytes(O.HLIB[alg[2:]](si.encode()).digest(), "big")
            d = K.ec_entry(spec)[0]
            k = pow(s, -1, n) * (h + r * d) % n
            if op["mode"] == "szero":
                d2 = -h * pow(r, -1, n) % n
                from Cryptodome.PublicKey import ECC
                from jwkest.jwk import ECKey
                from jwkest.ecc import NISTEllipticCurve
                pt = ECC.construct(curve=crv, d=d2)
                x, y = int(pt.pointQ.x), int(pt.pointQ.y)
                kid = {"kid": spec["kid"]} if spec.get("kid") else {}
                key = ECKey(crv=crv, curve=NISTEllipticCurve.by_name(crv), x=x, y=y, d=d2, **kid)
                pub = ECKey(crv=crv, curve=NISTEllipticCurve.by_name(crv), x=x, y=y, d="", **kid)
                ref = (x, y)
                w.probe("s_is_zero")
            else:
                kinv = pow(k, -1, n)
                hdr = si.split(".")[0]
                for i in range(3000):
                    p = "%s%d" % ("s", i)
                    h = int.from_bytes(O.HLIB[alg[2:]]((hdr + "." + K.b64u(p.encode())).encode()).digest(), "big")
                    if kinv * (h + r * d) % n < 1 << (K.CBITS[crv] - 8):
                        payload = p
                        w.probe("s_is_short")
                        break
        with entropy_op(w, label, overrides=self._ov(op)) as eo:
            tok = JWS(payload, alg=alg).sign_compact([key])
        w.log("sign", alg, op["mode"], O.brief(tok), "draws=%d" % len(eo.draws))
        si, sig = tok.rsplit(".", 1)
        sig = K.unb64u(sig)
        if spec["t"] == "EC":
            want = 2 * K.CBYTES[spec["crv"]]
        elif spec["t"] == "RSA":
            want = K.POOL["rsa"][spec["i"]]["bits"] // 8
        else:
            want = K.HASHLEN[alg[2:]]
        if len(sig) != want:
            return w.violate("signature-width", "%s signature has %d bytes, not %d" % (alg, len(sig), want))
        if isinstance(ref, tuple):
            from Cryptodome.PublicKey import ECC
            from Cryptodome.Signature import DSS
            try:
                DSS.new(ECC.construct(curve=K.ES[alg], point_x=ref[0], point_y=ref[1]), "fips-186-3").verify(
                    O.HASH[alg[2:]].new(si.encode()), sig)
                good = True
            except ValueError:
                good = False
        else:
            good = O.ref_verify(ref, alg, si.encode(), sig)
        if not good:
            return w.violate("signature-invalid", "%s signature is refused by an independent verifier" % alg)
        if payload == O.HIGH_DIGEST:
            if O.HLIB["256"](si.encode()).digest() > K.i2b(K.ORDER["P-256"], 32):
                w.probe("digest_above_group_order")
            peer = O.ref_sign(ref, alg, si.encode())
            ok, got = O.call(JWS().verify_compact, si + "." + K.b64u(peer), [pub])
            if not ok:
                return w.violate("verify-refuses", "the library refuses a %s signature of another "
                                 "implementation: %r" % (alg, got))
        ok, got = O.call(JWS().verify_compact, tok, [pub])
        if not ok:
            return w.violate("verify-refuses", "the library refuses its own %s signature: %r" % (alg, got))
        if not O.same(got, O.decoded_payload(payload.encode(), {})):
            return w.violate("payload", "verified payload %r is not the signed %r" % (got, payload))

    def do_enc(self, w, op, label):
        from jwkest.jwe import JWE
        spec, alg, enc = op["key"], op["alg"], op["enc"]
        key = K.make(spec)
        ov = self._ov(op)
        msg = op["payload"]
        if op["mode"] == "tagzero":
            with entropy_op(w, label + "/dry", overrides=list(ov)):
                t0 = JWE(msg, alg=alg, enc=enc).encrypt([key])
            o = O.ref_open(spec, t0)
            aad = t0.split(".")[0].encode()
            for i in range(4000):
                iv = (op["seed"] + i).to_bytes(12, "big")
                if O.content_encrypt(enc, o.cek, iv, aad, msg.encode())[1][0] == 0:
                    ov = [(len(o.cek), o.cek), (12, iv)] + [x for x in ov if x[0] not in (12, len(o.cek))]
                    w.probe("tag_leading_zero")
                    break
        elif op["mode"] == "zzero":
            from Cryptodome.PublicKey import ECC
            crv = spec["crv"]
            _, x, y = K.ec_entry(spec)
            pt = ECC.EccPoint(x, y, curve=crv)
            step = pt
            d = op["seed"]
            cur = pt * d
            lim = 1 << (8 * (K.CBYTES[crv] - 1)) if crv != "P-521" else 1 << 512
            for i in range(1200):
                if int(cur.x) < lim:
                    ov.insert(0, (K.CBYTES[crv], K.i2b(d + i - 1, K.CBYTES[crv])))
                    w.probe("shared_secret_leading_zero")
                    break
                cur = cur + step
        with entropy_op(w, label, overrides=list(ov)) as eo:
            tok = JWE(msg, alg=alg, enc=enc).encrypt([key])
        w.log("enc", alg, enc, op["mode"], O.brief(tok), "draws=%d" % len(eo.draws))
        parts = [K.unb64u(p) for p in tok.split(".")]
        if len(parts) != 5:
            return w.violate("parts", "token has %d parts" % len(parts))
        hdr = json.loads(parts[0])
        widths = [("iv", len(parts[2]), 12 if enc.endswith("GCM") else 16), ("tag", len(parts[4]), K.TAGLEN[enc])]
        if spec["t"] == "RSA":
            widths.append(("encrypted key", len(parts[1]), K.POOL["rsa"][spec["i"]]["bits"] // 8))
        elif alg.endswith("KW"):
            widths.append(("encrypted key", len(parts[1]), K.CEKLEN[enc] + 8))
        if spec["t"] == "EC":
            for c in "xy":
                widths.append(("epk " + c, len(K.unb64u(hdr["epk"][c])), K.CBYTES[spec["crv"]]))
        for name, got, want in widths:
            if got != want:
                return w.violate("width", "%s of %s/%s has %d bytes, not %d" % (name, alg, enc, got, want))
        try:
            o = O.ref_open(spec, tok)
        except Exception as err:
            return w.violate("undecryptable", "an independent receiver cannot open %s/%s: %r" % (alg, enc, err))
        if o.pt != msg.encode():
            return w.violate("plaintext", "independent receiver got %r for %r" % (o.pt, msg))
        ok, got = O.call(JWE().decrypt, tok, [K.make(spec)])
        if not ok:
            return w.violate("decrypt-refuses", "the library cannot decrypt its own %s/%s: %r" % (alg, enc, got))
        if not O.same(got, msg.encode()):
            return w.violate("plaintext", "decrypted %r, encrypted %r" % (got, msg))

    def check_ec(self, w, key, crv, d=None, x=None, y=None):
        """A library EC key: consistent, in range, full width on the wire, and usable after a round trip."""
        from Cryptodome.PublicKey import ECC
        from jwkest.jwk import KEYS
        from jwkest.jws import JWS
        n, wd = K.ORDER[crv], K.CBYTES[crv]
        dd = key.get_key(private=True)
        xx, yy = key.get_key(private=False)
        if not 1 <= dd < n:
            return w.violate("scalar-range", "private value %x not in 1..n-1" % dd)
        pt = ECC.construct(curve=crv, d=dd).pointQ
        if (int(pt.x), int(pt.y)) != (xx, yy):
            return w.violate("key-pair", "public point does not belong to the private value %x" % dd)
        if d is not None and (dd, xx, yy) != (d, x, y):
            return w.violate("key-value", "key changed")
        for private in (False, True):
            j = json.loads(json.dumps(key.serialize(private=private)))
            for c in "xy" + ("d" if private else ""):
                v = K.unb64u(j[c])
                if len(v) != wd:
                    return w.violate("width", "JWK member %s of a %s key has %d bytes, not %d" % (c, crv, len(v), wd))
                if int.from_bytes(v, "big") != {"x": xx, "y": yy, "d": dd}[c]:
                    return w.violate("jwk-value", "JWK member %s is wrong" % c)
            back = KEYS().load_jwks(json.dumps({"keys": [j]})).keys()[0]
            if back.get_key(private=False) != (xx, yy) or (private and back.get_key(private=True) != dd):
                return w.violate("jwk-round-trip", "JWK loads as another key")
        return back

    def do_keygen(self, w, op, label):
        from jwkest.jwk import ECKey, KEYS, jwk_wrap
        from jwkest.ecc import NISTEllipticCurve
        from jwkest.jws import JWS
        crv = op["crv"]
        curve = NISTEllipticCurve.by_name(crv)
        with entropy_op(w, label, overrides=self._ov(op)) as eo:
            if op["how"] == "load_key":
                key = ECKey().load_key(curve)
            elif op["how"] == "ctor":
                key = ECKey(key=curve)
            elif op["how"] == "wrap":
                key = jwk_wrap(curve, kid="w")
            else:
                ks = KEYS()
                ks.wrap_add(curve)
                key = ks.keys()[0]
        w.log("keygen", crv, op["how"], "%x" % key.d, "draws=%d" % len(eo.draws))
        back = self.check_ec(w, key, crv)
        if w.violation:
            return
        alg = "ES" + {"P-256": "256", "P-384": "384", "P-521": "512"}[crv]
        with entropy_op(w, label + "/use"):
            tok = JWS("generated", alg=alg).sign_compact([key])
        ok, got = O.call(JWS().verify_compact, tok, [back])
        if not ok or got != "generated":
            w.violate("generated-key", "signature of a generated key is refused: %r" % (got,))

    def do_export(self, w, op, label):
        spec = op["key"]
        d, x, y = K.ec_entry(spec)
        key = K.make(spec)
        w.log("export", spec["crv"], spec["cls"], spec["form"])
        self.check_ec(w, key, spec["crv"], d, x, y)


PROP = C03()
