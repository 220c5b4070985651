"""Generates data/keys.json: the pool of test keys (run once; the result is committed)."""
import json, os, subprocess, tempfile
from Cryptodome.PublicKey import RSA, ECC
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {"rsa": [], "ec": {}, "nonce": {}}
for bits, e, cnt in ((1024, 65537, 6), (2048, 65537, 4), (1024, 3, 1), (1536, 65537, 1)):
    for i in range(cnt):
        k = RSA.generate(bits, e=e)
        pem = k.export_key("PEM").decode()
        with tempfile.TemporaryDirectory() as d:
            open(d + "/k", "w").write(pem)
            cert = subprocess.run(["openssl", "req", "-new", "-x509", "-key", d + "/k", "-days", "36500",
                                   "-sha256", "-subj", "/CN=key%d" % len(out["rsa"])],
                                  capture_output=True, text=True, check=True).stdout
        out["rsa"].append(dict(bits=bits, n=hex(k.n), e=hex(k.e), d=hex(k.d), p=hex(k.p), q=hex(k.q), pem=pem,
                               pub=k.publickey().export_key("PEM").decode(), cert=cert,
                               encpem=k.export_key("PEM", passphrase="pw%d" % bits, pkcs=8,
                                                   protection="PBKDF2WithHMAC-SHA1AndAES128-CBC",
                                                   prot_params={"iteration_count": 10}).decode()))
N = {"P-256": 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551}
for crv, nbits in (("P-256", 256), ("P-384", 384), ("P-521", 521)):
    w = (nbits + 7) // 8
    sh = 8 * (w - 1) if nbits != 521 else 8 * 65
    G = ECC._curves[crv].G
    order = int(ECC._curves[crv].order)
    keys = {"normal": [], "xzero": [], "yzero": [], "dsmall": [], "dbig": []}
    import random
    rnd = random.Random(1)
    def entry(d):
        p = G * d
        return dict(d=hex(d), x=hex(int(p.x)), y=hex(int(p.y)))
    while len(keys["normal"]) < 5:
        keys["normal"].append(entry(rnd.randrange(1, order)))
    lim = 1 << (8 * (w - 1) if nbits != 521 else 8 * 64)   # P-521: also drop the odd top byte and one more
    nonces = []
    while len(keys["xzero"]) < 3 or len(keys["yzero"]) < 3:
        e_ = entry(rnd.randrange(1, order))
        if int(e_["x"], 16) < lim and len(keys["xzero"]) < 3:
            keys["xzero"].append(e_)
        elif int(e_["y"], 16) < lim and len(keys["yzero"]) < 3:
            keys["yzero"].append(e_)
    for d in (1, 2, 255, 1 << (nbits // 2), (lim >> 8) - 1):
        keys["dsmall"].append(entry(d))
    for d in (order - 1, order - 2):
        keys["dbig"].append(entry(d))
    while len(nonces) < 4:
        k = rnd.randrange(1, order)
        if int((G * k).x) % order < lim:
            nonces.append(hex(k))
    out["ec"][crv] = keys
    out["nonce"][crv] = nonces
json.dump(out, open(HERE + "/data/keys.json", "w"), indent=0)
