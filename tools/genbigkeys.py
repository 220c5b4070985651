"""Generates data/bigkeys.json: keys whose files are larger than usual buffers (run once; the result is committed)."""
import json, os, subprocess, sys
from Cryptodome.PublicKey import RSA
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
src = sys.argv[1]      # B.pem, .pub, .p8, .enc, .cert made by openssl for B in 3072, 4096, 8192
for bits in (3072, 4096, 8192):
    t = dict((x, open("%s/%d.%s" % (src, bits, x)).read().strip()) for x in ("pem", "pub", "p8", "enc", "cert"))
    k = RSA.import_key(t["pem"])
    out.append(dict(bits=bits, n=hex(k.n), e=hex(k.e), d=hex(k.d), p=hex(k.p), q=hex(k.q), pem=t["pem"], pub=t["pub"],
                    cert=t["cert"], encpem=t["enc"], p8=t["p8"]))
json.dump(out, open(HERE + "/data/bigkeys.json", "w"), indent=0)
