"""Shared operations and independent reference implementations (Cryptodome only, no jwkest code)."""
import hashlib
import hmac as _hmac
import json
import struct
import zlib
from Cryptodome.Cipher import AES, PKCS1_OAEP, PKCS1_v1_5
from Cryptodome.Hash import SHA1, SHA256, SHA384, SHA512
from Cryptodome.PublicKey import ECC, RSA
from Cryptodome.Signature import DSS, pkcs1_15, pss
from . import keys as K
from . import seams

HASH = {"256": SHA256, "384": SHA384, "512": SHA512}
HLIB = {"256": hashlib.sha256, "384": hashlib.sha384, "512": hashlib.sha512}

_rsa_cache = {}


def rsa_obj(i, private=True):
    k = (i, private)
    if k not in _rsa_cache:
        e = K.POOL["rsa"][i]
        _rsa_cache[k] = RSA.import_key(e["pem"] if private else e["pub"])
    return _rsa_cache[k]


def preload():
    for i in range(K.N_RSA):
        rsa_obj(i, True)
        rsa_obj(i, False)


# ------------------------------------------------------------------ payloads

WORDS = ["hello", "w\u00f6rld", "\u65e5\u672c", "a" * 40, "0", "{}", "x.y.z", "null", "tr ue", "\u0000", "\U0001f600", "\n", "\u2028", "\x0b\x1c", "\x85", "\t "]


# under the header {"alg":"ES256"} the SHA-256 digest of this payload's signing input exceeds the group order
# of P-256 (found by search over 2^32 payloads)
HIGH_DIGEST = "n00001722078861"


def rand_text(rng, jsonable=True):
    """A payload text. Some parse as JSON, most do not."""
    r = rng.random()
    if jsonable and r < .3:
        return json.dumps({"iss": rng.choice(WORDS), "n": rng.randrange(1000), "l": [1, None, True]})
    if jsonable and r < .36:
        return rng.choice(["12345", "true", "null", "[1, 2]", "\"q\"", "-0.5", "{\"a\": 1, \"a\": 2}"])
    if r < .4:
        return ""
    if r < .41:
        return "[" * 100000
    if r < .5:
        return "x" * rng.choice([15, 16, 17, 31, 32, 33, 64, 1000])
    return " ".join(rng.choice(WORDS) for _ in range(rng.randrange(1, 5))) + str(rng.randrange(10 ** 6))


def decoded_payload(data, header):
    """What verify must return for payload bytes under a header."""
    try:
        txt = data.decode()
    except UnicodeDecodeError:
        txt = data
    if "cty" in header and header["cty"].lower() != "jwt":
        return txt
    try:
        return json.loads(txt)
    except (ValueError, RecursionError):
        return txt


def same(a, b):
    """Equal values of equal types (True is not 1, 1 is not 1.0)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or (a != a and b != b)


# ------------------------------------------------------------------ key identity of library objects

def key_material(key):
    """The material() string of a jwkest key object, from its values."""
    kty = key.kty if isinstance(key.kty, str) else key.kty.decode()
    if kty.upper() == "RSA":
        n = key.key.n
        for i, k in enumerate(K.POOL["rsa"]):
            if int(k["n"], 16) == int(n):
                return "RSA/%d" % i
        return "RSA/n=%x" % n
    if kty.upper() == "EC":
        crv = key.crv if isinstance(key.crv, str) else key.crv.decode()
        return "EC/%s/%x" % (crv, key.x)
    v = key.key
    return "oct/%s" % (v.encode() if isinstance(v, str) else v).hex()


# ------------------------------------------------------------------ independent JWS

def ref_sign(spec, alg, data, nonce=None):
    """Signature bytes of an honest holder of spec (deterministic)."""
    if alg.startswith("HS"):
        return _hmac.new(bytes.fromhex(spec["k"]), data, HLIB[alg[2:]]).digest()
    h = HASH[alg[2:]].new(data)
    if alg.startswith("RS"):
        return pkcs1_15.new(rsa_obj(spec["i"])).sign(h)
    if alg.startswith("PS"):
        return pss.new(rsa_obj(spec["i"])).sign(h)
    d, x, y = K.ec_entry(spec)
    key = ECC.construct(curve=spec["crv"], d=d, point_x=x, point_y=y)
    return DSS.new(key, "deterministic-rfc6979").sign(h)


def ref_verify(spec, alg, data, sig):
    if alg.startswith("HS"):
        return _hmac.compare_digest(ref_sign(spec, alg, data), sig)
    h = HASH[alg[2:]].new(data)
    try:
        if alg.startswith("RS"):
            pkcs1_15.new(rsa_obj(spec["i"], False)).verify(h, sig)
        elif alg.startswith("PS"):
            pss.new(rsa_obj(spec["i"], False)).verify(h, sig)
        else:
            _, x, y = K.ec_entry(spec)
            DSS.new(ECC.construct(curve=spec["crv"], point_x=x, point_y=y), "fips-186-3").verify(h, sig)
        return True
    except ValueError:
        return False


def ref_sign_compact(spec, alg, payload, header):
    """An honest compact JWS made without the library."""
    hdr = dict(header)
    hdr["alg"] = alg
    si = K.b64u(json.dumps(hdr).encode()) + "." + K.b64u(payload)
    return si + "." + K.b64u(ref_sign(spec, alg, si.encode()))


# ------------------------------------------------------------------ independent JWE

def kw_unwrap(kek, w):
    n = len(w) // 8 - 1
    a = int.from_bytes(w[:8], "big")
    r = [w[i * 8:i * 8 + 8] for i in range(1, n + 1)]
    ecb = AES.new(kek, AES.MODE_ECB)
    for j in range(5, -1, -1):
        for i in range(n, 0, -1):
            b = ecb.decrypt((a ^ (n * j + i)).to_bytes(8, "big") + r[i - 1])
            a, r[i - 1] = int.from_bytes(b[:8], "big"), b[8:]
    if a != 0xa6a6a6a6a6a6a6a6:
        raise ValueError("unwrap")
    return b"".join(r)


def kw_wrap(kek, p):
    n = len(p) // 8
    a = 0xa6a6a6a6a6a6a6a6
    r = [p[i * 8:i * 8 + 8] for i in range(n)]
    ecb = AES.new(kek, AES.MODE_ECB)
    for j in range(6):
        for i in range(1, n + 1):
            b = ecb.encrypt(a.to_bytes(8, "big") + r[i - 1])
            a, r[i - 1] = int.from_bytes(b[:8], "big") ^ (n * j + i), b[8:]
    return a.to_bytes(8, "big") + b"".join(r)


def gcm_keys(enc, cek):
    """What this library keys AES with: the CEK as a number in 16, or 32, bytes. A 192 bit key is so extended with
    zeros in front (a known deviation from RFC 7518, not a subject here); listed last."""
    v = int.from_bytes(cek, "big")
    alt = v.to_bytes(16 if v < 1 << 128 else 32, "big")
    return [cek] if alt == cek else [cek, alt]


def content_encrypt(enc, cek, iv, aad, pt):
    if enc.endswith("GCM"):
        c = AES.new(gcm_keys(enc, cek)[-1], AES.MODE_GCM, nonce=iv)
        c.update(aad)
        return c.encrypt_and_digest(pt)
    n = len(cek) // 2
    pad = 16 - len(pt) % 16
    ct = AES.new(cek[n:], AES.MODE_CBC, iv).encrypt(pt + bytes([pad]) * pad)
    mac = _hmac.new(cek[:n], aad + iv + ct + struct.pack("!Q", 8 * len(aad)), HLIB[enc[-3:]]).digest()[:n]
    return ct, mac


def content_decrypt(enc, cek, iv, aad, ct, tag):
    if len(cek) != K.CEKLEN[enc]:
        raise ValueError("cek of %d bytes" % len(cek))
    if enc.endswith("GCM"):
        for k in gcm_keys(enc, cek):
            c = AES.new(k, AES.MODE_GCM, nonce=iv)
            c.update(aad)
            try:
                return c.decrypt_and_verify(ct, tag)
            except ValueError:
                continue
        raise ValueError("gcm tag")
    n = len(cek) // 2
    mac = _hmac.new(cek[:n], aad + iv + ct + struct.pack("!Q", 8 * len(aad)), HLIB[enc[-3:]]).digest()[:n]
    if mac != tag:
        raise ValueError("mac")
    p = AES.new(cek[n:], AES.MODE_CBC, iv).decrypt(ct)
    pad = p[-1]
    if not 1 <= pad <= 16 or p[-pad:] != bytes([pad]) * pad:
        raise ValueError("padding")
    return p[:-pad]


def concat_kdf(z, alg, apu, apv, bits, prefixed):
    a = alg.encode()
    info = (struct.pack("!I", len(a)) if prefixed else b"") + a + struct.pack("!I", len(apu)) + apu + \
        struct.pack("!I", len(apv)) + apv + struct.pack("!I", bits)
    out, i = b"", 0
    while len(out) < bits // 8:
        i += 1
        out += hashlib.sha256(struct.pack("!I", i) + z + info).digest()
    return out[:bits // 8]


def shared_x(spec, hdr):
    d, _, _ = K.ec_entry(spec)
    e = hdr["epk"]
    x, y = (int.from_bytes(K.unb64u(e[c]), "big") for c in "xy")
    pt = ECC.EccPoint(x, y, curve=spec["crv"]) * d
    return int(pt.x).to_bytes(K.CBYTES[spec["crv"]], "big")


def ecdh_keys(spec, hdr):
    """Candidate agreed keys: without (what this library does) and with the length prefix of RFC 7518."""
    z = shared_x(spec, hdr)
    apu = K.unb64u(hdr["apu"]) if hdr.get("apu") else b""
    apv = K.unb64u(hdr["apv"]) if hdr.get("apv") else b""
    if hdr["alg"] == "ECDH-ES":
        alg, bits = hdr["enc"], K.CEKLEN[hdr["enc"]] * 8
    else:
        alg = hdr["alg"].split("+")[1]
        bits = K.KWLEN[alg] * 8
    return [concat_kdf(z, alg, apu, apv, bits, p) for p in (False, True)]


def recover_cek(spec, hdr, ek):
    alg = hdr["alg"]
    if alg == "RSA1_5":
        r = PKCS1_v1_5.new(rsa_obj(spec["i"])).decrypt(ek, None)
        if r is None:
            raise ValueError("pkcs1")
        return [r]
    if alg == "RSA-OAEP":
        return [PKCS1_OAEP.new(rsa_obj(spec["i"]), SHA1).decrypt(ek)]
    if alg == "RSA-OAEP-256":
        return [PKCS1_OAEP.new(rsa_obj(spec["i"]), SHA256).decrypt(ek)]
    if alg.startswith("A"):
        err = None
        for k in (kek(spec, alg), bytes.fromhex(spec["k"])):
            try:
                return [kw_unwrap(k, ek)]
            except ValueError as e:
                err = e
        raise err
    ks = ecdh_keys(spec, hdr)
    if alg == "ECDH-ES":
        return ks
    out = []
    for k in ks:
        try:
            out.append(kw_unwrap(k, ek))
        except ValueError:
            pass
    if not out:
        raise ValueError("unwrap")
    return out


def wrap_cek(spec, alg, cek):
    """Encrypted key for non-ECDH algorithms, by an honest or hostile sender without the library."""
    if alg == "RSA1_5":
        return PKCS1_v1_5.new(rsa_obj(spec["i"], False)).encrypt(cek)
    if alg.startswith("RSA-OAEP"):
        return PKCS1_OAEP.new(rsa_obj(spec["i"], False), SHA256 if alg.endswith("256") else SHA1).encrypt(cek)
    return kw_wrap(kek(spec, alg), cek)


def kek(spec, alg):
    """OpenID Connect's key for a shared secret: the front of its SHA-256."""
    return hashlib.sha256(bytes.fromhex(spec["k"])).digest()[:K.KWLEN[alg]]


class Opened(object):
    pass


def ref_open(spec, token):
    """Decrypt a compact JWE without the library. Raises ValueError and friends."""
    o = Opened()
    parts = token.split(".")
    if len(parts) != 5:
        raise ValueError("%d parts" % len(parts))
    o.header = json.loads(K.unb64u(parts[0]))
    o.ek, o.iv, o.ct, o.tag = (K.unb64u(p) for p in parts[1:])
    err = None
    for cek in recover_cek(spec, o.header, o.ek):
        try:
            o.pt = content_decrypt(o.header["enc"], cek, o.iv, parts[0].encode(), o.ct, o.tag)
            o.cek = cek
            if o.header.get("zip") == "DEF":
                o.pt = zlib.decompress(o.pt)
            return o
        except ValueError as e:
            err = e
    raise ValueError("cannot open: %s" % err)


def message_secrets(spec, token):
    """Everything secret on the way from a message to its plaintext."""
    o = ref_open(spec, token)
    half = len(o.cek) // 2
    out = [("content encryption key", o.cek), ("content encryption key", o.cek[half:]), ("content encryption key", o.cek[:half])]
    if o.header["alg"].startswith("ECDH"):
        out.append(("agreed secret", shared_x(spec, o.header)))
        out += [("agreed key", k) for k in ecdh_keys(spec, o.header)]
    return out


def right_tag(enc, cek, token):
    """The authentication tag that would make a token with this header, IV and ciphertext acceptable."""
    h, _, iv, ct, _ = token.split(".")
    iv, ct, n = K.unb64u(iv), K.unb64u(ct), len(cek) // 2
    if enc.endswith("GCM"):
        return None
    return _hmac.new(cek[:n], h.encode() + iv + ct + struct.pack("!Q", 8 * len(h)), HLIB[enc[-3:]]).digest()[:n]


def ref_encrypt(spec, alg, enc, pt, cek, iv, header=None, eph=None):
    """A compact JWE made without the library. eph is the ephemeral private value of ECDH-ES; apu and apv come with the
    header."""
    hdr = dict(header or {})
    hdr.update(alg=alg, enc=enc)
    if hdr.get("zip") == "DEF":
        pt = zlib.compress(pt)
    if alg.startswith("ECDH"):
        crv, w = spec["crv"], K.CBYTES[spec["crv"]]
        mine = ECC.construct(curve=crv, d=eph).pointQ
        hdr["epk"] = {"kty": "EC", "crv": crv, "x": K.b64u(K.i2b(int(mine.x), w)), "y": K.b64u(K.i2b(int(mine.y), w))}
        agreed = ecdh_keys(spec, hdr)[0]        # z is the same from either side
        ek = b""
        if alg == "ECDH-ES":
            cek = agreed
        else:
            ek = kw_wrap(agreed, cek)
    else:
        ek = wrap_cek(spec, alg, cek)
    h = K.b64u(json.dumps(hdr).encode())
    ct, tag = content_encrypt(enc, cek, iv, h.encode(), pt)
    return ".".join([h, K.b64u(ek), K.b64u(iv), K.b64u(ct), K.b64u(tag)])


# ------------------------------------------------------------------ library calls

def call(fn, *a, **kw):
    """(True, value) or (False, exception). BaseException (SimHang, Budget, interrupts) passes through."""
    try:
        return True, fn(*a, **kw)
    except Exception as err:
        return False, err


def brief(v):
    if isinstance(v, BaseException):
        return type(v).__name__
    s = seams._ADDRESS.sub("at 0x..", v if isinstance(v, str) else repr(v))
    return s if len(s) < 60 else "%s..%d/%s" % (s[:30], len(s), hashlib.sha256(s.encode("utf-8", "replace")).hexdigest()[:8])
