"""Key pool and key specifications.

A key spec is a JSON dict: {"t": "RSA"|"EC"|"oct", ...material..., "kid", "use", "alg", "priv", "form"}.
JWKs are written here, independently of the library's own serialisation.
"""
import base64
import json
import os
from . import seams

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with seams.REAL["open"](os.path.join(HERE, "data", "keys.json")) as _f:
    POOL = json.load(_f)

N_RSA = len(POOL["rsa"])
# keys of 3072 to 8192 bits: only files of them are read, nothing is computed with them
with seams.REAL["open"](os.path.join(HERE, "data", "bigkeys.json")) as _f:
    _BIG = json.load(_f)
RSA_BIG = list(range(N_RSA, N_RSA + len(_BIG)))
RSA1024 = [i for i, k in enumerate(POOL["rsa"]) if k["bits"] == 1024 and k["e"] == "0x10001"]
RSA2048 = [i for i, k in enumerate(POOL["rsa"]) if k["bits"] == 2048]
RSA_E3 = [i for i, k in enumerate(POOL["rsa"]) if k["e"] == "0x3"]
RSA1536 = [i for i, k in enumerate(POOL["rsa"]) if k["bits"] == 1536]
POOL["rsa"] += _BIG
CURVES = ["P-256", "P-384", "P-521"]
CBITS = {"P-256": 256, "P-384": 384, "P-521": 521}
CBYTES = {"P-256": 32, "P-384": 48, "P-521": 66}
ORDER = {
    "P-256": 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
    "P-384": 0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973,
    "P-521": 0x1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409,
}
PRIME = {
    "P-256": 2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1,
    "P-384": 2 ** 384 - 2 ** 128 - 2 ** 96 + 2 ** 32 - 1,
    "P-521": 2 ** 521 - 1,
}
BCOEF = {
    "P-256": 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
    "P-384": 0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef,
    "P-521": 0x051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00,
}
ES = {"ES256": "P-256", "ES384": "P-384", "ES512": "P-521"}


def b64u(b):
    return base64.urlsafe_b64encode(b).rstrip(b"=").decode()


def unb64u(s):
    if isinstance(s, str):
        s = s.encode()
    return base64.urlsafe_b64decode(s + b"=" * (-len(s) % 4))


def i2b(n, width=None):
    return n.to_bytes(width or max(1, (n.bit_length() + 7) // 8), "big")


def ec_entry(spec):
    e = POOL["ec"][spec["crv"]][spec.get("cls", "normal")][spec["i"]]
    return int(e["d"], 16), int(e["x"], 16), int(e["y"], 16)


def material(spec):
    if spec["t"] == "RSA":
        return "RSA/%d" % spec["i"]
    if spec["t"] == "EC":
        return "EC/%s/%x" % (spec["crv"], ec_entry(spec)[1])
    return "oct/%s" % spec["k"]


def jwk(spec, private=None):
    """The JWK of a spec, fixed width members."""
    private = spec.get("priv", True) if private is None else private
    out = {"kty": spec["t"]}
    for a in ("kid", "use", "alg"):
        if spec.get(a):
            out[a] = spec[a]
    if spec["t"] == "RSA":
        k = POOL["rsa"][spec["i"]]
        for a in ("n", "e") + (("d", "p", "q") if private else ()):
            out[a] = b64u(i2b(int(k[a], 16)))
        if private and spec.get("more"):
            d, p, q = (int(k[a], 16) for a in "dpq")
            for a, v in (("dp", d % (p - 1)), ("dq", d % (q - 1)), ("qi", pow(q, -1, p))):
                out[a] = b64u(i2b(v))
            out["oth"] = spec["more"]
    elif spec["t"] == "EC":
        d, x, y = ec_entry(spec)
        w = CBYTES[spec["crv"]]
        out.update(crv=spec["crv"], x=b64u(i2b(x, w)), y=b64u(i2b(y, w)))
        if private:
            out["d"] = b64u(i2b(d, w))
    else:
        out["k"] = b64u(bytes.fromhex(spec["k"]))
    return out


def make(spec):
    """A jwkest key object for a spec, built the way spec["form"] says."""
    from jwkest import jwk as J
    from jwkest.ecc import NISTEllipticCurve
    form = spec.get("form", "obj")
    d = jwk(spec)
    if form == "jwks":
        return J.KEYS().load_jwks(json.dumps({"keys": [d]})).keys()[0]
    if form == "keyrep":
        return J.keyrep(d)
    kw = dict((a, spec[a]) for a in ("kid", "use", "alg") if spec.get(a))
    if spec["t"] == "RSA":
        if form == "kwargs":
            return J.RSAKey(**d)
        from .ops import rsa_obj
        key = rsa_obj(spec["i"], spec.get("priv", True))
        if form == "load_key":
            return J.RSAKey(**kw).load_key(key)
        return J.RSAKey(key=key, **kw)
    if spec["t"] == "EC":
        if form == "ints":
            dd, x, y = ec_entry(spec)
            return J.ECKey(crv=spec["crv"], curve=NISTEllipticCurve.by_name(spec["crv"]), x=x, y=y,
                           d=dd if spec.get("priv", True) else "", **kw)
        return J.ECKey(**d)
    if form == "kwargs":
        return J.SYMKey(**d)
    return J.SYMKey(key=bytes.fromhex(spec["k"]), **kw)


FORMS = {"RSA": ["obj", "jwks", "keyrep", "kwargs", "load_key"], "EC": ["obj", "jwks", "keyrep", "ints"],
         "oct": ["obj", "jwks", "keyrep", "kwargs"]}

SIG_ALGS = {"HS256": "oct", "HS384": "oct", "HS512": "oct", "RS256": "RSA", "RS384": "RSA", "RS512": "RSA",
            "PS256": "RSA", "PS384": "RSA", "PS512": "RSA", "ES256": "EC", "ES384": "EC", "ES512": "EC"}
HASHLEN = {"256": 32, "384": 48, "512": 64}
ENC_CBC = ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512"]
ENC_GCM = ["A128GCM", "A192GCM", "A256GCM"]
CEKLEN = {"A128GCM": 16, "A192GCM": 24, "A256GCM": 32,
          "A128CBC-HS256": 32, "A192CBC-HS384": 48, "A256CBC-HS512": 64}
TAGLEN = {"A128GCM": 16, "A192GCM": 16, "A256GCM": 16,
          "A128CBC-HS256": 16, "A192CBC-HS384": 24, "A256CBC-HS512": 32}
KWLEN = {"A128KW": 16, "A192KW": 24, "A256KW": 32}
JWE_ALGS = {"RSA1_5": "RSA", "RSA-OAEP": "RSA", "RSA-OAEP-256": "RSA", "A128KW": "oct", "A192KW": "oct",
            "A256KW": "oct", "ECDH-ES": "EC", "ECDH-ES+A128KW": "EC", "ECDH-ES+A192KW": "EC",
            "ECDH-ES+A256KW": "EC"}


def rand_oct(rng, n):
    return bytes(rng.randrange(256) for _ in range(n)).hex()


def sig_key(rng, alg, kid="", priv=True, fast=True):
    """A random key spec fit for a signature algorithm."""
    t = SIG_ALGS[alg]
    spec = {"t": t, "kid": kid, "priv": priv}
    if t == "RSA":
        pool = RSA2048 if alg == "PS512" or (not fast and rng.random() < .5) else RSA1024 + RSA1536
        spec["i"] = rng.choice(pool)
    elif t == "EC":
        spec.update(crv=ES[alg], cls=rng.choice(["normal"] * 4 + ["xzero", "yzero"]))
        spec["i"] = rng.randrange(len(POOL["ec"][spec["crv"]][spec["cls"]]))
    else:
        spec["k"] = rand_oct(rng, rng.choice([1, 16, 32, 48, 64, 65, 130]))
    spec["form"] = rng.choice(FORMS[t])
    return spec


def enc_key(rng, alg, kid="", priv=True, crv=None):
    t = JWE_ALGS[alg]
    spec = {"t": t, "kid": kid, "priv": priv}
    if t == "RSA":
        spec["i"] = rng.choice(RSA2048 if alg == "RSA-OAEP-256" and rng.random() < .3 else RSA1024 + RSA1536)
        if alg == "RSA-OAEP-256":
            spec["i"] = rng.choice(RSA1536 + RSA2048)     # 64 byte CEK needs more than 1024 bits
    elif t == "EC":
        spec.update(crv=crv or rng.choice(["P-256"] * 3 + ["P-384", "P-521"]),
                    cls=rng.choice(["normal"] * 4 + ["xzero", "yzero"]))
        spec["i"] = rng.randrange(len(POOL["ec"][spec["crv"]][spec["cls"]]))
    else:
        spec["k"] = rand_oct(rng, KWLEN[alg])
    spec["form"] = rng.choice(FORMS[t])
    return spec


def same_material_other(rng, spec):
    """Another key of the same type and shape."""
    for _ in range(50):
        s = dict(spec)
        if s["t"] == "RSA":
            b = POOL["rsa"][s["i"]]["bits"]
            s["i"] = rng.choice([i for i, k in enumerate(POOL["rsa"]) if k["bits"] == b] +
                                [rng.randrange(N_RSA)])
        elif s["t"] == "EC":
            s["cls"] = rng.choice(["normal", "xzero", "yzero"])
            s["i"] = rng.randrange(len(POOL["ec"][s["crv"]][s["cls"]]))
        else:
            s["k"] = rand_oct(rng, len(s["k"]) // 2)
        if material(s) != material(spec):
            return s
    raise AssertionError


def cut(x, digits):
    """x in [0, 1) with so many digits, still below 1."""
    return int(x * 10 ** digits) / 10 ** digits
