"""Items of work over key objects: planned as data, prepared and judged without the library's own code.

An item is a JSON dict; prepare() makes its input (a token somebody honest or hostile made), do() lets the library
work on it, judge() says what is wrong with the outcome, or None.  Items name their keys by index into a ring of specs.
"""
import io
import json
import os
import runpy
import sys
from . import keys as K
from . import ops as O
from .seams import entropy_op
from .keys import cut

DAMAGE = ["payload", "sig", "kid", "other_key", "header", "cut"]
JDAMAGE = ["ct", "tag", "ek", "iv", "header", "other_key", "cut"]


def sig_alg(rng, spec):
    if spec["t"] == "EC":
        return [a for a, c in K.ES.items() if c == spec["crv"]][0]
    if spec["t"] == "RSA":
        a = rng.choice(["RS256", "RS256", "RS384", "RS512", "PS256", "PS384", "PS512"])
        return "PS256" if a == "PS512" and K.POOL["rsa"][spec["i"]]["bits"] < 1100 else a
    return rng.choice(["HS256", "HS384", "HS512"])


def enc_alg(rng, spec, gcm=.0):
    if spec["t"] == "EC":
        a = rng.choice(["ECDH-ES", "ECDH-ES", "ECDH-ES+A128KW", "ECDH-ES+A192KW", "ECDH-ES+A256KW"])
    elif spec["t"] == "RSA":
        a = rng.choice(["RSA1_5", "RSA-OAEP", "RSA-OAEP-256"])
    else:
        a = rng.choice(["A128KW", "A192KW", "A256KW"])
    enc = rng.choice(K.ENC_GCM) if rng.random() < gcm else rng.choice(K.ENC_CBC)
    if spec["t"] == "RSA" and a == "RSA-OAEP-256" and K.POOL["rsa"][spec["i"]]["bits"] < 1100:
        enc = "A128CBC-HS256" if enc.endswith("512") or enc.endswith("384") else enc
    return a, enc


def gen_ring(rng, n, kids=True, priv=True, types=("RSA", "EC", "EC", "oct"), forms=True):
    """n keys with unique kids (or none) and unique material."""
    ring = []
    while len(ring) < n:
        t = rng.choice(types)
        s = {"t": t, "kid": "k%d" % len(ring) if kids else "", "priv": priv}
        if t == "RSA":
            s["i"] = rng.choice(K.RSA1024 + K.RSA1536)
        elif t == "EC":
            s.update(crv=rng.choice(["P-256"] * 10 + ["P-384", "P-521"]), cls=rng.choice(["normal"] * 3 + ["xzero", "yzero"]))
            s["i"] = rng.randrange(len(K.POOL["ec"][s["crv"]][s["cls"]]))
        else:
            s["k"] = K.rand_oct(rng, rng.choice([16, 32, 48]))
        s["form"] = rng.choice(K.FORMS[t]) if forms and (t != "RSA" or rng.random() < .15) else "obj"
        if K.material(s) not in [K.material(x) for x in ring]:
            ring.append(s)
    return ring


# ------------------------------------------------------------------ signed messages

def sig_token(spec, alg, payload, hdr=None, damage=None, n=0, other=None):
    """A compact JWS an honest holder of spec made - then damaged, or made by somebody else (other)."""
    h = dict(hdr or {})
    if spec.get("kid"):
        h["kid"] = spec["kid"]
    maker = spec
    if damage == "other_key" and other:
        maker = other
    if damage == "kid":
        h["kid"] = "no-such-kid"
    tok = O.ref_sign_compact(maker, alg, payload, h)
    a, b, c = tok.split(".")
    if damage == "payload":
        b = K.b64u(payload + b"!")
    elif damage == "sig":
        s = bytearray(K.unb64u(c))
        s[n % len(s)] ^= 1 << n % 8
        c = K.b64u(bytes(s))
    elif damage == "header":
        h["x"] = n
        h["alg"] = alg
        a = K.b64u(json.dumps(h).encode())
    elif damage == "cut":
        c = c[:-(4 + n % 8)]
    return ".".join([a, b, c])


def as_json(tok, flat=True):
    a, b, c = tok.split(".")
    s = {"protected": a, "signature": c}
    return json.dumps(dict(s, payload=b) if flat else {"payload": b, "signatures": [s]})


def other_signer(spec, alg):
    """Somebody else's key fit for the same algorithm."""
    if spec["t"] == "RSA":
        pool = K.RSA2048 if alg == "PS512" else K.RSA1024 + K.RSA1536
        return {"t": "RSA", "i": [i for i in pool if i != spec["i"]][0]}
    if spec["t"] == "EC":
        for i in range(9):
            s = {"t": "EC", "crv": spec["crv"], "cls": "normal", "i": i}
            if K.material(s) != K.material(spec):
                return s
    return {"t": "oct", "k": "00" + spec["k"]}


def read_signed(tok):
    h, p, _ = tok.split(".")
    return json.loads(K.unb64u(h)), K.unb64u(p)


def check_signed(spec, alg, tok, payload, extra=None, maybe_kid=True):
    """A compact token that must be spec's signature over payload."""
    if isinstance(tok, bytes):
        tok = tok.decode()
    if not isinstance(tok, str) or tok.count(".") != 2:
        return "token is %s" % O.brief(tok)
    a, b, c = tok.split(".")
    hdr = json.loads(K.unb64u(a))
    if hdr.get("alg") != alg:
        return "token says alg %r, not %s" % (hdr.get("alg"), alg)
    if spec.get("kid") and hdr.get("kid") != spec["kid"]:
        return "token says kid %r, not %s" % (hdr.get("kid"), spec["kid"])
    if not spec.get("kid") and hdr.get("kid"):
        return "token says kid %r" % hdr["kid"]
    for k, v in (extra or {}).items():
        if hdr.get(k) != v:
            return "token says %s %r, not %r" % (k, hdr.get(k), v)
    if K.unb64u(b) != payload:
        return "token carries another payload"
    if not O.ref_verify(spec, alg, (a + "." + b).encode(), K.unb64u(c)):
        return "the signature is not the key's"
    return None


# ------------------------------------------------------------------ encrypted messages

def enc_token(w, label, spec, alg, enc, pt, damage=None, n=0, hdr=None):
    """A compact JWE an honest sender made for spec.  ECDH messages are made by the library, alone."""
    h = dict(hdr or {})
    if spec.get("kid"):
        h["kid"] = spec["kid"]
    with entropy_op(w, label):
        if alg.startswith("ECDH"):
            from jwkest.jwe import JWE
            key = K.make(dict(spec, priv=False, form="obj", use="", alg=""))
            tok = JWE(pt.decode(), alg=alg, enc=enc).encrypt([key])
        else:
            from .seams import _urandom
            ceklen = K.CEKLEN[enc]
            tok = O.ref_encrypt(spec, alg, enc, pt, _urandom(ceklen), _urandom(12 if enc.endswith("GCM") else 16), h)
    return damage_jwe(tok, damage, n)


def damage_jwe(tok, damage, n):
    if not damage:
        return tok
    p = tok.split(".")
    at = {"header": 0, "ek": 1, "iv": 2, "ct": 3, "tag": 4}.get(damage)
    if damage == "header":
        h = json.loads(K.unb64u(p[0]))
        h["x"] = n
        p[0] = K.b64u(json.dumps(h).encode())
    elif damage == "cut":
        p[4] = p[4][:-(4 + n % 8)]
    elif at is not None:
        if at == 1 and not p[1]:
            at = 4
        b = bytearray(K.unb64u(p[at]))
        b[n % len(b)] ^= 1 << n % 8
        p[at] = K.b64u(bytes(b))
    return ".".join(p)


def check_encrypted(spec, alg, enc, tok, pt, cek=None):
    if isinstance(tok, bytes):
        tok = tok.decode()
    if not isinstance(tok, str) or tok.count(".") != 4:
        return "token is %s" % O.brief(tok)
    hdr = json.loads(K.unb64u(tok.split(".")[0]))
    if (hdr.get("alg"), hdr.get("enc")) != (alg, enc):
        return "token says %r" % ((hdr.get("alg"), hdr.get("enc")),)
    if spec.get("kid") and hdr.get("kid") != spec["kid"]:
        return "token says kid %r, not %s" % (hdr.get("kid"), spec["kid"])
    ok, got = O.call(O.ref_open, spec, tok)
    if not ok:
        return "the recipient cannot open the token: %r" % (got,)
    if got.pt != pt:
        return "the token holds another plaintext"
    if cek is not None and got.cek != cek:
        return "the token uses another content encryption key"
    return None


# ------------------------------------------------------------------ key state

def rsanums(k):
    out = {"n": int(k.n), "e": int(k.e)}
    if k.has_private():
        out.update(d=int(k.d), p=int(k.p), q=int(k.q))
    return out


def state(key):
    """What a key object is, as its user sees it."""
    out = {}
    for a in ("kty", "alg", "use", "kid", "x5c", "x5t", "x5u", "n", "e", "d", "p", "q", "x", "y", "crv", "extra_args"):
        v = getattr(key, a, None)
        out[a] = v.decode() if isinstance(v, bytes) else list(v) if isinstance(v, list) else v
    k = key.key
    out["key"] = rsanums(k) if hasattr(k, "n") else k
    c = getattr(key, "curve", None)
    out["curve"] = c.name() if c is not None else None
    return out


def changed(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


def cost(spec, o):
    """Milliseconds, about."""
    if (o.get("enc") or "").endswith("GCM"):
        return 130
    if spec["t"] == "EC":
        return {"P-256": 4, "P-384": 9, "P-521": 18}[spec["crv"]] * (2 if o.get("enc") else 1)
    return 3 if spec["t"] == "RSA" else 1


def gen_rounds(rng, S, n, ms, budget=160, most=20):
    """Schedules for n threads whose work takes ms together: single preemptions spread evenly, and wilder ones."""
    k = max(1, min(most, int(budget / max(1, ms))))
    rounds = []
    for r in range(k):
        m = rng.choice([1, 1, 1, 2, 2, 3, 5, 8])
        sw = S.gen_switches(rng, n, m)
        if m == 1:
            sw[0][1] = cut((r + rng.random()) / k, 5)
        rounds.append(sw)
    return rounds


# ------------------------------------------------------------------ command line tools

def script(name):
    src = os.environ.get("DST_REPO_SRC", "/repo/src")
    return os.path.join(os.path.dirname(src), "script", name)


class Device(io.RawIOBase):
    """What standard output is connected to; room is how many bytes fit before it is full."""

    def __init__(self, room):
        io.RawIOBase.__init__(self)
        self.room, self.got, self.full = room, bytearray(), False

    def writable(self):
        return True

    def write(self, b):
        n = len(b)
        if self.room is not None:
            n = min(n, self.room)
            self.room -= n
            if not n and len(b):
                self.full = True
                raise OSError(28, "No space left on device")
        self.got += bytes(b[:n])
        return n


def run_script(name, argv, stdin="", room=None):
    """Run a command line tool in this process. Returns (ok, stdout, error, stderr)."""
    dev, errdev = Device(room), Device(None)
    save = (sys.argv, sys.stdout, sys.stderr, sys.stdin)
    out = io.TextIOWrapper(io.BufferedWriter(dev), "utf-8")
    err = io.TextIOWrapper(io.BufferedWriter(errdev), "utf-8", "backslashreplace", write_through=True)
    sys.argv, sys.stdout, sys.stderr = [name] + argv, out, err
    sys.stdin = io.TextIOWrapper(io.BytesIO(stdin.encode() if isinstance(stdin, str) else stdin), "utf-8")
    try:
        runpy.run_path(script(name), run_name="__main__")
        res = (True, None)
    except SystemExit as e:
        res = (e.code in (None, 0), e)
    except (Exception, KeyboardInterrupt) as e:
        res = (False, e)
    finally:
        sys.argv, sys.stdout, sys.stderr, sys.stdin = save
    try:
        out.flush()
    except OSError as e:                          # the interpreter ends with status 120 then
        res = (False, e)
        dev.room = None
    errtext = bytes(errdev.got).decode("utf-8", "replace")
    return res[0], bytes(dev.got).decode("utf-8", "replace"), res[1], errtext
