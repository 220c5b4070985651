"""Shared parts of the network properties: a key server whose contents rotate, and faults on the way to it."""
from . import keys as K
from .net import Host, Response, jwks_body
from .keys import cut

JWKS = "https://keys.example/jwks"
CERT = "https://keys.example/cert.pem"

# faults after which no complete answer can have arrived; "final" ones only make sense on the last hop
CUT = ["dns", "refuse", "unreach", "tls_reset", "tls_eof", "send_reset", "trunc_head", "trunc_body", "reset_head",
       "reset_body"]
BAD_ANSWER = ["status", "html", "empty", "badjson", "notdict", "nokeys", "badkey", "badb64", "strkeys"]


def gen_fault(rng):
    kind = rng.choice(CUT * 2 + BAD_ANSWER * 2 + ["loop", "tail"])
    return {"kind": kind, "frac": cut(rng.random(), 3), "n": rng.randrange(1 << 12), "hop": rng.randrange(2)}


def conn_plan(f):
    """The network part of a fault: the plan of the connection it strikes."""
    k = f["kind"]
    if k == "dns":
        return {"at": "dns"}
    if k in ("refuse", "unreach"):
        return {"at": "connect", "kind": k}
    if k in ("tls_reset", "tls_eof"):
        return {"at": "tls", "kind": k[4:]}
    if k == "send_reset":
        return {"at": "send"}
    if k[:6] in ("trunc_", "reset_"):
        kind, where = k.split("_")
        return {"at": "read", "kind": "truncate" if kind == "trunc" else "reset",
                "where": "headers" if where == "head" else "body", "frac": f["frac"] * .7, "step": 1 + f["n"] % 64}
    if k == "tail":
        return {"at": "tail", "extra": ["garbage", "{}", "]", ", \"x\": 1}"][f["n"] % 4]}
    return {}


def answer(f, body, ctype, framing, encoding):
    """The server's part of a fault."""
    hdr = [("Content-Type", ctype)]
    status = 200
    k = f["kind"] if f else ""
    n = f["n"] if f else 0
    if k == "status":
        # error answers often carry a body; here it is a perfectly good key set
        status = [404, 500, 503, 403, 401, 201, 202, 203, 206, 204, 304, 300, 301, 302, 400, 418, 299][n % 17]
        if status in (204, 304):
            body, framing, encoding = b"", "length", None
    elif k == "html":
        body = b"<html><body>maintenance</body></html>"
    elif k == "empty":
        body = [b"", b" ", b"null", b"\xef\xbb\xbf"][n % 4]
    elif k == "badjson":
        body = [body[:-1], body + b"}", body.replace(b"\"keys\"", b"keys"), body[1:], b"{\"keys\": [" + body + b"", body + b"\0", b"\0\0" + body,
                body + body, body[:-1] + b",}", b")]}'\n" + body, b"keys(" + body + b");", body + b" // keys", b"\xff\xfe" + body][n % 13]
    elif k == "notdict":
        body = [b"[" + body + b"]", b"\"keys\"", b"3", b"true"][n % 4]
    elif k == "nokeys":
        body = [b"{}", b"{\"Keys\": []}", b"{\"error\": \"x\"}"][n % 3]
    elif k == "strkeys":
        body = [b"{\"keys\": 7}", b"{\"keys\": null}", b"{\"keys\": [1]}", b"{\"keys\": [null]}", b"{\"keys\": [[]]}"][n % 5]
    elif k in ("badkey", "badb64"):
        bad = ([b"{\"kty\": \"EC\", \"crv\": \"P-999\", \"x\": \"AA\", \"y\": \"AA\"}", b"{}", b"{\"kid\": \"x\"}",
                b"{\"kty\": \"EC\", \"crv\": \"P-256\", \"x\": 1.5, \"y\": []}"] if k == "badkey" else
               [b"{\"kty\": \"oct\", \"k\": \"A\"}", b"{\"kty\": \"RSA\", \"n\": \"A\", \"e\": \"AQAB\"}",
                b"{\"kty\": \"oct\", \"k\": \"****\"}"])[n % 3]
        body = bad.join([b"{\"keys\": [", b", " + body[len(b"{\"keys\": ["):]]) if n & 64 else body[:-2] + b", " + bad + b"]}"
    return Response(status, body, hdr, framing=framing, encoding=encoding)


class KeyServer(object):
    """keys.example, cdn.example and the state of the current call."""

    def __init__(self, net, plan):
        self.net, self.plan = net, plan
        self.current = []          # indexes of the keys served
        self.cert = 0
        self.private = False
        self.cacheable = False
        self.fault = None
        self.redirect, self.hopcode = 0, 1
        self.mirror = ([], 0)
        self.framing, self.encoding = "length", None
        self.delivered = []        # (keys, cert) of the answers with contents
        self.lookups = 0
        self.auto = None           # generations to walk through, one per answer
        for h in ("keys.example", "cdn.example"):
            net.add(Host(h, self.handle))

    def begin(self, step):
        f = step.get("fault")
        self.fault, self.redirect, self.hopcode = f, step.get("redirect", 0), step.get("hopcode", 1)
        if self.redirect:
            self.mirror = (list(self.current), self.cert)
        self.framing, self.encoding = step.get("framing", "length"), step.get("encoding")
        self.cacheable = step.get("cacheable")
        self.delivered = []
        self.lookups = self.tries()
        self.net.max_wait = 0
        self.net.plans[:] = []
        if f:
            cp = conn_plan(f)
            if cp:
                hop = self.redirect if cp.get("at") in ("read", "tail") else min(f["hop"], self.redirect)
                self.net.plans[:] = [{} for _ in range(hop)] + [cp]

    def handle(self, host, method, path, hdrs):
        path = path.split("?")[0]
        if self.fault and self.fault["kind"] == "loop":
            return Response(302, b"", [("Location", "https://%s%s" % (
                "cdn.example" if host.name == "keys.example" else "keys.example", path))])
        if host.name == "keys.example" and self.redirect:
            return Response([301, 302, 303, 307, 308][self.hopcode], b"moved", [("Location", "https://cdn.example" + path)])
        keys, cert = self.current, self.cert
        if host.name == "cdn.example" and not self.redirect:
            keys, cert = self.mirror   # no longer (or not yet) the place to ask: what it held when last it was
        if path == "/jwks":
            body, ct = jwks_body([K.jwk(self.plan["keys"][i], self.private or self.plan["keys"][i]["t"] == "oct")
                                  for i in keys]), "application/json"
        elif path == "/cert.pem":
            body, ct = K.POOL["rsa"][cert]["cert"].strip().encode(), "text/plain; charset=utf-8"
        else:
            return Response(404, b"not found", [])
        f = self.fault
        if path == "/cert.pem" and f and f["kind"] in ("badjson", "notdict", "nokeys", "strkeys", "badkey", "badb64"):
            n = f["n"]
            r = Response(200, [body[:-1], body[1:], body.replace(b"A", b"?", 1), b"", b"-----BEGIN CERTIFICATE-----",
                               body[:len(body) // 2] + b"\n-----END CERTIFICATE-----"][n % 6], [("Content-Type", ct)],
                         framing=self.framing, encoding=self.encoding)
        else:
            r = answer(f, body, ct, self.framing, self.encoding)
        if self.cacheable:
            # permission to cache does not free a client from asking: the promise is to use what this very call got
            r.headers = r.headers + [("Cache-Control", "max-age=3600"), ("ETag", '"v%d"' % (len(body) % 7)),
                                     ("Expires", "Thu, 01 Jan 2037 00:00:00 GMT"), ("Age", "5")]
        if f and f["kind"] in BAD_ANSWER:
            self.net.world.fault("server_" + f["kind"])
        if keys is self.current:
            self.delivered.append((list(self.current), self.cert))
        return r

    def tries(self):
        return sum(1 for e in self.net.events if e[0] == "lookup")

    def spoiled(self):
        """Can no complete successful answer have arrived in this call? None: who knows, the call tried again."""
        f = self.fault
        if not f:
            return False
        if f["kind"] == "tail":
            return self.framing == "close" and not self.encoding
        if conn_plan(f) and self.tries() - self.lookups > 1 + bool(self.redirect):
            return None
        return True
