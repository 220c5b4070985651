"""C15: secrets stay with their holder, in exports, headers, messages, log records and error texts."""
import base64
import contextlib
import copy
import hashlib
import io
import json
import logging
import re
import traceback
from .. import keys as K
from .. import netops as N
from .. import ops as O
from .. import sched as S
from .. import work as W
from ..disk import Disk
from ..net import Net
from ..runner import Property
from ..seams import SimHang, entropy_op
from ..trace import Striker, describe
from ..keys import cut

PUBLIC = {"RSA": {"kty", "use", "kid", "alg", "n", "e", "x5c", "x5t", "x5u"},
          "EC": {"kty", "use", "kid", "alg", "crv", "x", "y", "x5c", "x5t", "x5u"}}
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}
RUNS = re.compile(r"[A-Za-z0-9_+/-]{12,}")
JWKFORMS = ["obj", "dict", "text", "public", "symobj"]
ENCDAMAGE = ["ek", "ct", "tag", "iv", "other_key", "ek cut", "ct cut", "tag cut", "iv cut", "ek none", "ct none", "tag none",
             "iv none", "ek more", "ct more", "tag more", "iv more"]


class Secrets(object):
    """Byte strings that must not turn up, in any of the forms in which programs write bytes and numbers."""

    def __init__(self):
        self.seen = set()
        self.needles = {}              # text -> name

    def add(self, name, b):
        if isinstance(b, int):
            b = K.i2b(b)
        b = bytes(b).lstrip(b"\0")
        if len(b) < 12 or len(set(b)) < 6 or b in self.seen:
            return
        self.seen.add(b)
        for c in (b[:12], b[-12:]):
            self.needles[c.hex()] = self.needles[c.hex().upper()] = name
            self.needles[c.decode("latin-1")] = name
            self.needles[", ".join(str(x) for x in c)] = name
            self.needles[repr(c)[2:-1]] = name
        n = int.from_bytes(b, "big")
        self.needles[str(n)[:24]] = name
        for width in {len(b), len(b) + (-len(b) % 4)}:
            p = b.rjust(width, b"\0")
            for pad in range(3):
                t = base64.urlsafe_b64encode(b"\0" * pad + p).decode().rstrip("=")[4 * (pad > 0):]
                self.needles[t[:16]] = self.needles[t[:16].replace("-", "+").replace("_", "/")] = name

    def text(self, name, s):
        self.needles[s] = name

    def find(self, text, depth=2, skip=()):
        for n, name in self.needles.items():
            if n in text and name.split()[0] not in skip:
                return name
        if depth:
            for m in RUNS.finditer(text):
                t = m.group().replace("+", "-").replace("/", "_")
                try:
                    raw = base64.urlsafe_b64decode(t + "=" * (-len(t) % 4))
                except ValueError:
                    continue
                got = self.find(raw.decode("latin-1"), depth - 1, skip)
                if got:
                    return got
        return None


class Records(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, 0)
        self.texts = []

    def emit(self, rec):
        try:
            t = rec.getMessage()
        except Exception as err:          # the library's own formatting mistake: nothing was written
            t = repr(err)
        if rec.exc_info:
            t += "".join(traceback.format_exception(*rec.exc_info))
        self.texts.append("%s %s: %s" % (rec.name, rec.levelname, t))


@contextlib.contextmanager
def recording():
    """Everything logged at any level, and everything printed."""
    rec, root = Records(), logging.getLogger()
    old, dis = root.level, logging.root.manager.disable
    out = io.StringIO()
    libs = [logging.getLogger(n) for n in sorted(root.manager.loggerDict) if n.startswith("jwkest")]
    levels = [x.level for x in libs]
    root.addHandler(rec)
    root.setLevel(1)
    logging.disable(0)
    for x in libs:
        x.setLevel(1)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            yield rec
    finally:
        root.removeHandler(rec)
        root.setLevel(old)
        logging.disable(dis)
        for x, l in zip(libs, levels):
            x.setLevel(l)
        rec.texts.append(out.getvalue())


def error_text(err):
    out, n = [], 0
    while err is not None and n < 6:
        out += [str(err), repr(err), repr(err.args)]
        err, n = err.__cause__ or err.__context__, n + 1
    return "\n".join(out)


def private_numbers(spec):
    if spec["t"] == "RSA":
        k = K.POOL["rsa"][spec["i"]]
        d, p, q = (int(k[a], 16) for a in "dpq")
        return [("d", d), ("p", p), ("q", q), ("dp", d % (p - 1)), ("dq", d % (q - 1)), ("qi", pow(q, -1, p)), ("pi", pow(p, -1, q))]
    if spec["t"] == "EC":
        return [("d", K.ec_entry(spec)[0])]
    k = bytes.fromhex(spec["k"])
    return [("k", k)] + [("key derived by " + h, hashlib.new(h, k).digest()) for h in ("sha256", "sha384", "sha512")]


class C15(Property):
    ID = "C15"
    RUNS = {"quick": 1500, "thorough": 30000}
    RULE = ("a history of one kind of run (stories of key objects and messages, threads) with at least one failure, interruption or "
            "thread switch and at least one public output: sequence of (operation, form, fault, outcome)")
    STATE_MEASURE = "distinct (operation, key type, form, fault or switch site) tuples"
    REAL_PARTS = ["jwkest", "Cryptodome", "json", "logging", "requests", "urllib3", "http.client"]
    STUBS = ["OS random source", "clock", "thread scheduler", "sockets and name lookup", "file reads (through a fault layer)"]
    ASSUMPTIONS = ["a secret shows as raw bytes, base64, base64url, hexadecimal, a decimal number or a list of numbers",
                   "exports of symmetric keys and of key sets holding some are not public exports",
                   "the length of a message, timing and memory contents are not outputs"]

    # ---------------------------------------------------------------- plans
    def gen(self, rng, index, tier):
        if rng.random() < .3:
            return self.gen_threads(rng)
        ring = W.gen_ring(rng, rng.randrange(3, 6), types=("RSA", "EC", "EC", "oct"))
        for s in ring:
            if s["t"] == "RSA":
                s["form"] = rng.choice(K.FORMS["RSA"])
            s["use"] = rng.choice(["", "", "sig", "enc"])
            if rng.random() < .25:
                s["alg"] = rng.choice([W.sig_alg, lambda r, x: W.enc_alg(r, x)[0]])(rng, s)
            if s["t"] == "RSA" and s.get("form") in ("jwks", "keyrep", "kwargs") and rng.random() < .5:
                # every private member there is
                s["more"] = [{"r": "%064x" % rng.getrandbits(256), "d": "%064x" % rng.getrandbits(256), "t": "%064x" % rng.getrandbits(256)}]
        steps = []
        for j in range(rng.randrange(5, 9)):
            op = rng.choice(["export"] * 2 + ["mutate"] * 3 + ["sign"] * 4 + ["encrypt"] * 3 + ["decrypt"] * 3 + ["verify"] * 2 +
                            ["badset"] * 2 + ["headers"] * 2 + ["url", "file", "tool"])
            k = rng.randrange(len(ring))
            spec = ring[k]
            s = {"id": j, "op": op, "k": k, "n": rng.randrange(1 << 16), "life": rng.choice(["new", "kept"]),
                 "fault": rng.choice(["none", "none", "entropy", "strike", "missing"]), "at": [cut(rng.random(), 4), cut(rng.random() ** 2, 4)],
                 "exc": rng.choice(["KeyboardInterrupt", "MemoryError"]), "draw": rng.randrange(3),
                 "text": "%016x is the launch code %016x" % (rng.randrange(1 << 64), rng.randrange(1 << 64)),
                 "form": rng.choice(JWKFORMS), "json": rng.choice(["compact", "compact", "flat", "general"]),
                 "damage": rng.choice([None] + ENCDAMAGE), "damage2": rng.choice(ENCDAMAGE),
                 "jwk": rng.random() < .35, "passed": rng.choice(["one", "list", "KEYS", "none"])}
            if op in ("sign", "verify"):
                s["alg"] = W.sig_alg(rng, dict(spec, alg=""))
                s["msg"] = rng.choice(["str"] * 6 + ["bytes", "int", "null", "list"])
            elif op in ("encrypt", "decrypt"):
                s["alg"], s["enc"] = W.enc_alg(rng, dict(spec, alg=""), .04)
                s["msg"] = rng.choice(["str"] * 6 + ["bytes", "int", "null", "list"])
                s["given"] = rng.choice([""] * 5 + ["cek", "iv", "both"])
                s["jwk"] = s["jwk"] or spec["t"] == "RSA" and rng.random() < .5
                s["epk"] = rng.random() < .3
                if s["alg"] == "RSA-OAEP-256" and s["damage"] == "other_key":
                    s["damage"] = "tag"            # the other key may be too short
            elif op == "mutate":
                s["to"] = rng.choice(K.RSA1024 + K.RSA1536)
                s["priv"] = rng.random() < .5
                s["crv"] = rng.choice(["P-256", "P-256", "P-384", "P-521"])
                s["how"] = rng.choice(["load", "load", "bad"])
            elif op == "tool":
                s["alg"] = W.sig_alg(rng, spec) if spec["t"] != "RSA" else "RS256"
                s["ealg"], s["enc"] = W.enc_alg(rng, spec)
                s["tool"] = rng.choice(["sign", "enc", "jwenc"])
                if s["ealg"] == "RSA-OAEP-256":
                    s["enc"] = K.ENC_CBC[0]
            elif op == "url":
                s["net"] = N.gen_fault(rng)
            steps.append(s)
        return {"kind": "story", "ring": ring, "steps": steps, "mode": rng.choice(["line", "line", "instr"])}

    def gen_threads(self, rng):
        ring = W.gen_ring(rng, rng.randrange(2, 4), types=("RSA", "EC", "EC"))
        n = rng.choice([2, 2, 3])
        threads = []
        for t in range(n):
            ops = []
            for j in range(rng.choice([1, 1, 2])):
                k = rng.randrange(len(ring))
                o = {"op": rng.choice(["export", "export", "dump", "copy", "private", "private", "private", "to_dict", "str", "sign",
                                       "encrypt", "thumb"]), "k": k, "text": "%016x is the secret of %d/%d" % (rng.randrange(1 << 64), t, j)}
                if o["op"] == "sign":
                    o["alg"] = W.sig_alg(rng, ring[k])
                elif o["op"] == "encrypt":
                    o["alg"], o["enc"] = W.enc_alg(rng, ring[k])
                ops.append(o)
            threads.append(ops)
        if rng.random() < .6:
            k = rng.randrange(len(ring))
            threads[0][0].update(op=rng.choice(["export", "dump", "copy"]), k=k)
            threads[1][0].update(op=rng.choice(["private", "to_dict", "str"]), k=k)
        mode = rng.choice(["line", "instr"])
        ms = sum(W.cost(ring[o["k"]], o) if o["op"] in ("sign", "encrypt") else 1 for t in threads for o in t)
        return {"kind": "threads", "ring": ring, "threads": threads, "mode": mode, "first": rng.randrange(n),
                "rounds": W.gen_rounds(rng, S, n, ms, 80, 12)}

    def shrinkable(self, plan):
        if plan["kind"] == "story":
            return [["steps"]]
        return [["rounds"]] + [["rounds", i] for i in range(len(plan["rounds"]))] + [["threads", i] for i in range(len(plan["threads"]))]

    def run(self, plan, w):
        self.cover, self.faulty, self.outputs = [], 0, 0
        self.secrets = Secrets()
        for s in plan["ring"]:
            for a, v in private_numbers(s):
                self.secrets.add("%s %s of %s" % (s["t"], a, K.material(s)[:30] if s["t"] != "oct" else "a shared secret"), v)
            for o in s.get("more", []):
                for v in o.values():
                    self.secrets.text("RSA prime of %s" % K.material(s)[:30], v)
        sched = getattr(self, "do_" + plan["kind"])(plan, w) or []
        return {"nontrivial": bool(self.faulty and self.outputs), "key": json.dumps([plan["kind"], self.cover, sched]),
                "interleavings": sched or [json.dumps(c) for c in self.cover], "sample": [plan["kind"], self.cover[:5]]}

    # ---------------------------------------------------------------- judging
    def look(self, w, what, text, skip=()):
        """No secret in a text."""
        if isinstance(text, bytes):
            text = text.decode("latin-1")
        found = self.secrets.find(text, 2, skip)
        if found and not w.violation:
            w.violate("leak", "%s shows %s" % (what, found))
        return found

    def exported(self, w, what, d, t=None):
        """A public export: nothing but public members."""
        self.outputs += 1
        if not isinstance(d, dict) or d.get("kty", t) not in PUBLIC:
            return
        more = sorted(a for a in set(d) - PUBLIC[d.get("kty", t)] if d[a])
        if more and not w.violation:
            w.violate("private-members", "%s has the members %s" % (what, ", ".join(more)))
        self.look(w, what, json.dumps(d, default=str))

    def export_all(self, w, key, ks, what):
        """Every public face of a key and of the set it is in."""
        from jwkest import jwk as J
        one = J.KEYS()
        one.append(key)
        for name, fn in [("serialize()", key.serialize), ("serialize(private=False)", lambda: key.serialize(private=False)),
                         ("serialize(False)", lambda: key.serialize(False))]:
            if isinstance(key, J.SYMKey):
                continue
            ok, got = O.call(fn)
            if ok:
                self.exported(w, "%s of %s" % (name, what), got)
        for name, fn in [("dump_jwks()", ks.dump_jwks), ("str(key set)", lambda: str(ks)), ("repr(key set)", lambda: repr(ks)),
                         ("dump_jwks() of a set of one", one.dump_jwks)]:
            ok, got = O.call(fn)
            if ok:
                for d in json.loads(got)["keys"]:
                    self.exported(w, "%s with %s" % (name, what), d)
        for name, fn in [("repr(key)", lambda: repr(key)), ("a list of keys", lambda: str([key])), ("hash", lambda: str(key.thumbprint("SHA-256")))]:
            ok, got = O.call(fn)
            if ok:
                self.look(w, "%s of %s" % (name, what), got)
        if not isinstance(key, J.SYMKey):
            ok, got = O.call(J.make_public_copy, key)
            if ok:
                v = dict((a, x) for a, x in vars(got).items() if x and a in ("d", "p", "q", "dp", "dq", "di", "qi", "extra_args"))
                if v and not w.violation:
                    w.violate("private-members", "make_public_copy of %s has %s" % (what, sorted(v)))
                k = vars(got).get("key")
                if k is not None and getattr(k, "has_private", lambda: False)() and not w.violation:
                    w.violate("private-members", "make_public_copy of %s holds the private key" % what)

    # ---------------------------------------------------------------- stories
    def do_story(self, plan, w):
        from jwkest import jwk as J
        self.disk = w.disk = Disk(w)
        self.net = w.net = Net(w)
        self.srv = N.KeyServer(self.net, {"keys": plan["ring"]})
        self.srv.private = True
        self.kept = {}
        with entropy_op(w, "ring"), recording() as made:
            self.keys = [K.make(s) for s in plan["ring"]]
            self.fresh = lambda: [K.make(s) for s in plan["ring"]]
            self.ks = J.KEYS()
            for k in self.keys:
                self.ks.append(k)
        for t in made.texts:
            self.look(w, "the log of making the keys", t)
        self.specs = [dict(s) for s in plan["ring"]]
        tr = S.tracer(plan["mode"])
        for st in plan["steps"]:
            spec = plan["ring"][st["k"]]
            with entropy_op(w, "prep%d" % st["id"]), recording() as made:
                op = getattr(self, "op_" + st["op"])(plan, w, st, spec)
            if op is None:
                continue
            f = st["fault"]
            if f in ("entropy", "strike") and (spec["t"], st["op"]) == ("RSA", "mutate") and f == "entropy":
                f = "none"
            strike = None
            if f == "strike":
                # how many places there are to strike, on objects of its own
                with entropy_op(w, "count%d" % st["id"]), recording():
                    other = copy.copy(self.__dict__)
                    try:
                        self.keys, self.kept = self.fresh(), {}
                        self.ks = J.KEYS()
                        for k in self.keys:
                            self.ks.append(k)
                        trial = getattr(self, "op_" + st["op"])(plan, w, st, spec)
                        _, cnt = S.count_sites(tr, lambda: O.call(trial), False)
                    finally:
                        self.__dict__.update(other)
                    op = getattr(self, "op_" + st["op"])(plan, w, st, spec)
                r = cnt.resolve(*st["at"])
                if r:
                    strike = Striker(r[0], r[1], EXC[st["exc"]]("struck"))
            with recording() as rec, entropy_op(w, "s%d" % st["id"], fail_at=st["draw"] if f == "entropy" else None) as eo:
                if strike:
                    tr.start(strike)
                try:
                    ok, got = O.call(op)
                except (KeyboardInterrupt, SimHang) as err:
                    ok, got = False, err
                finally:
                    if strike:
                        tr.stop()
            if strike and strike.fired:
                w.fault("interrupt" if st["exc"] == "KeyboardInterrupt" else "memory_error")
            where = describe(strike.site) if strike and strike.fired else ""
            w.log("step", st["id"], st["op"], f, where, ok, O.brief(type(got).__name__ if not ok else ""))
            self.faulty += not ok or f != "none"
            what = "%s with a %s key" % (st["op"], spec["t"])
            self.after(plan, w, st, spec, ok, got, eo, what)
            # a member that is not even base64 may be quoted by the error that says so
            quoted = (spec["t"],) if st["op"] == "badset" and st["n"] % 9 in (4, 5, 6, 7) else ()
            if not ok:
                self.look(w, "the error of %s (%s)" % (what, where or f), error_text(got), quoted)
            for t in made.texts + rec.texts:
                if self.look(w, "the log of %s (%s)" % (what, where or f), t, quoted):
                    break
            self.export_all(w, self.keys[st["k"]], self.ks, "the key after %s" % what)
            self.cover.append([st["op"], spec["t"], st.get("alg"), st["form"] if st["jwk"] else "", where or f,
                               st["damage"] if st["op"] in ("decrypt", "verify") else "", ok])
            if w.violation:
                return None
        return None

    def arg(self, st):
        if st["fault"] == "missing":
            return [k for i, k in enumerate(self.keys) if i != st["k"] and k.kty != self.keys[st["k"]].kty] or None
        return {"one": [self.keys[st["k"]]], "list": self.keys, "KEYS": self.ks, "none": None}[st["passed"]]

    def jwkarg(self, plan, st, spec):
        """The jwk header parameter in one of its forms, private members and all."""
        d = K.jwk(spec)
        f = st["form"]
        if f == "dict":
            return d
        if f == "text":
            return json.dumps(d)
        if f == "public" and spec["t"] != "oct":
            return K.jwk(spec, False)
        if f == "symobj":
            for i, s in enumerate(plan["ring"]):
                if s["t"] == "oct":
                    return self.keys[i]
        return self.keys[st["k"]]

    def op_export(self, plan, w, st, spec):
        key = self.keys[st["k"]]
        return lambda: [key.to_dict(), key.serialize(private=True), str(key), key.keys(), hash(key), key == self.keys[0]]

    def op_mutate(self, plan, w, st, spec):
        from jwkest.ecc import NISTEllipticCurve
        key = self.keys[st["k"]]
        if spec["t"] == "oct":
            return None
        if st["how"] == "bad":
            return lambda: key.load_key(O.rsa_obj(st["to"]) if spec["t"] == "EC" else NISTEllipticCurve.by_name(st["crv"]))
        if spec["t"] == "RSA":
            for a, v in private_numbers({"t": "RSA", "i": st["to"]}):
                self.secrets.add("RSA %s of RSA/%d" % (a, st["to"]), v)
            return lambda: key.load_key(O.rsa_obj(st["to"], st["priv"]))
        return lambda: key.load_key(NISTEllipticCurve.by_name(st["crv"]))

    def op_sign(self, plan, w, st, spec):
        from jwkest.jws import JWS
        kw = {"alg": st["alg"]}
        if st["jwk"]:
            kw["jwk"] = self.jwkarg(plan, st, spec)
        k = ("sign", st["alg"], st["jwk"] and (st["form"], st["k"]))
        j = self.kept.get(k) if st["life"] == "kept" else None
        if j is None:
            j = self.kept[k] = JWS(st["text"], **kw)
        j.msg = self.message(st)
        arg = self.arg(st)
        if st["json"] == "compact":
            return lambda: j.sign_compact(arg)
        return lambda: j.sign_json(arg, flatten=st["json"] == "flat", headers=[({"alg": st["alg"], "kid": spec["kid"]}, {"x": 1})])

    def op_encrypt(self, plan, w, st, spec):
        from jwkest.jwe import JWE
        from jwkest.jwk import ECKey
        from jwkest.ecc import NISTEllipticCurve
        kw = {"alg": st["alg"], "enc": st["enc"]}
        if st["jwk"]:
            kw["jwk"] = self.jwkarg(plan, st, spec)
        if st["n"] % 5 == 0:
            kw["zip"] = "DEF"
        self.secrets.add("plaintext", st["text"].encode())
        self.secrets.text("plaintext", st["text"])
        if st["epk"] and spec["t"] == "EC":
            e = ECKey(kid="mine").load_key(NISTEllipticCurve.by_name(spec["crv"]))
            self.secrets.add("EC ephemeral private value", e.d)
            kw["epk"] = e
        k = ("enc", st["alg"], st["enc"], st["jwk"] and (st["form"], st["k"]), st["epk"])
        j = self.kept.get(k) if st["life"] == "kept" else None
        if j is None:
            j = self.kept[k] = JWE(st["text"], **kw)
        j.msg = self.message(st)
        arg = self.arg(st)
        kw = {}
        if st["given"] in ("cek", "both"):
            kw["cek"] = self.stuff("cek%d" % st["n"], K.CEKLEN[st["enc"]])
            self.secrets.add("content encryption key", kw["cek"])
        if st["given"] in ("iv", "both"):
            kw["iv"] = self.stuff("iv%d" % st["n"], 12 if st["enc"].endswith("GCM") else 16)
        return lambda: j.encrypt(arg, **kw)

    def message(self, st):
        t = st["text"]
        return {"str": t, "bytes": t.encode(), "int": 5, "null": None, "list": [t]}[st["msg"]]

    def stuff(self, name, n):
        return hashlib.sha512(name.encode()).digest()[:n]

    def op_headers(self, plan, w, st, spec):
        """What would go into a header, asked for directly."""
        from jwkest.jws import JWS
        from jwkest.jwe import JWE, JWE_RSA
        cls = [JWS, JWE, JWE_RSA][st["n"] % 3]
        arg = self.jwkarg(plan, st, spec)
        if st["n"] & 4:
            obj = self.keys[st["k"]] if not hasattr(arg, "serialize") else arg
            j = cls(st["text"], alg="RS256")
            return lambda: j.headers({"jwk": obj, "alg": "RS256"})
        j = cls(st["text"], alg="RS256", jwk=arg)
        return lambda: j.headers()

    def op_decrypt(self, plan, w, st, spec):
        from jwkest.jwe import JWE
        j = self.kept.setdefault("dec", JWE()) if st["life"] == "kept" else JWE()
        self.secrets.add("plaintext", st["text"].encode())
        self.secrets.text("plaintext", st["text"])
        to = spec
        if st["damage"] == "other_key":
            to = dict(W.other_signer(spec, ""), kid=spec["kid"])
        tok = W.enc_token(w, "tok%d" % st["id"], to, st["alg"], st["enc"], st["text"].encode())
        ok, found = O.call(O.message_secrets, to, tok)
        for name, v in found if ok else []:
            self.secrets.add(name, v)
        tok = self.damaged(tok, st["damage"] if st["damage"] != "other_key" else None, st["n"])
        right = O.right_tag(st["enc"], found[0][1], tok) if ok else None
        if right:
            tag = K.unb64u(tok.split(".")[4])
            if tag[:12] != right[:12] and tag[-12:] != right[-12:]:
                self.secrets.add("right tag of a damaged message", right)
        arg = self.arg(st) or self.keys
        return lambda: j.decrypt(tok, arg)

    def damaged(self, tok, damage, n):
        if not damage or " " not in damage:
            return W.damage_jwe(tok, damage, n)
        part, how = damage.split()
        p = tok.split(".")
        i = {"ek": 1, "iv": 2, "ct": 3, "tag": 4}[part]
        b = K.unb64u(p[i])
        if not b:
            i = 4
            b = K.unb64u(p[4])
        p[i] = K.b64u({"cut": b[:-(1 + n % len(b))], "none": b"", "more": b + bytes([n % 251] * (1 + n % 40))}[how])
        return ".".join(p)

    def op_verify(self, plan, w, st, spec):
        from jwkest.jws import JWS
        tok = W.sig_token(spec, st["alg"], st["text"].encode(), {"jwk": K.jwk(spec, False)} if st["jwk"] and spec["t"] != "oct" else None,
                          {"ek": "sig", "ct": "payload", "tag": "sig", "iv": "header", "other_key": "other_key", None: None}[
                              (st["damage"] or "").split()[0] if st["damage"] else None],
                          st["n"], W.other_signer(spec, st["alg"]))
        if spec["t"] == "oct":
            # what would have made a refused message good
            a, b, c = tok.split(".")
            right, had = O.ref_sign(spec, st["alg"], (a + "." + b).encode()), K.unb64u(c)
            if had[:12] != right[:12] and had[-12:] != right[-12:]:
                self.secrets.add("right MAC of a forged message", right)
        j = self.kept.setdefault("ver", JWS()) if st["life"] == "kept" else JWS()
        arg = self.arg(st) or self.keys
        return lambda: j.verify_compact(tok, arg)

    def op_badset(self, plan, w, st, spec):
        """Private keys to load, one of them bad."""
        from jwkest import jwk as J
        entries = [K.jwk(s) for s in plan["ring"]]
        e = entries[st["k"]]
        n = st["n"] % 9
        if n == 0:
            e.pop({"RSA": "n", "EC": "x", "oct": "k"}[spec["t"]])
        elif n == 1:
            e.pop({"RSA": "e", "EC": "crv", "oct": "k"}[spec["t"]])
        elif n == 2:
            e["kty"] = "XX"
        elif n == 3:
            e.pop("kty")
        elif n == 4:
            a = {"RSA": "n", "EC": "x", "oct": "k"}[spec["t"]]
            e[a] = e[a][:-1] + "*"
        elif n == 5:
            a = {"RSA": "d", "EC": "d", "oct": "k"}[spec["t"]]
            e[a] = e[a] + "=!"
        elif n == 6:
            a = {"RSA": "p", "EC": "d", "oct": "k"}[spec["t"]]
            e[a] = e[a] + "A"
        elif n == 7:
            a = {"RSA": "d", "EC": "d", "oct": "k"}[spec["t"]]
            e[a] = [e[a]]
        else:
            e["kid"] = 5
        how = st["n"] // 16 % 5
        if how == 0:
            return lambda: J.KEYS().load_dict({"keys": entries}) and None
        if how == 1:
            return lambda: J.KEYS().load_jwks(json.dumps({"keys": entries})) and None
        if how == 2:
            return lambda: J.keyrep(e) and None
        if how == 3:
            return lambda: J.key_from_jwk_dict(e) and None
        text = json.dumps({"keys": entries})
        return lambda: J.KEYS().load_jwks(text[:int(cut(st["at"][0], 3) * len(text))]) and None

    def op_url(self, plan, w, st, spec):
        """A key set with private keys, for the holder only, over a bad network."""
        from jwkest import jwk as J
        self.srv.current = list(range(len(plan["ring"])))
        self.srv.begin({"fault": st["net"]})
        return lambda: J.KEYS().load_from_url(N.JWKS) and None

    def op_file(self, plan, w, st, spec):
        """A private key file that does not load, or does."""
        from jwkest import jwk as J
        rsa = [s for s in plan["ring"] if s["t"] == "RSA"]
        if not rsa:
            return None
        e = K.POOL["rsa"][rsa[0]["i"]]
        what = ["pem", "encpem", "pem", "p8key"][st["n"] % 4]
        data = e.get(what, e["pem"])
        pw = "correct horse %d" % st["n"]
        self.secrets.text("passphrase", pw)
        if st["n"] & 4:
            data = data[:int(st["at"][0] * len(data))]
        name = "f%d" % st["id"]
        self.disk.write(name, data.encode())
        path = self.disk.path(name)
        return lambda: (J.import_rsa_key_from_file(path, passphrase=pw) if st["n"] & 8 else
                        J.RSAKey().load(path) if st["n"] & 16 else J.rsa_load(path)) and None

    def op_tool(self, plan, w, st, spec):
        """A command line tool with private keys, good or torn."""
        name = "set%d" % st["id"]
        text = json.dumps({"keys": [K.jwk(spec)]})
        if st["n"] & 3 == 0:
            text = text[:int(st["at"][1] * len(text))]
        self.disk.write(name, text)
        argv = {"sign": ["-s", "-a", st["alg"], "-J"], "enc": ["-e", "-A", st["ealg"], "-E", st["enc"], "-J"],
                "jwenc": ["-a", st["ealg"], "-e", st["enc"], "-j"]}[st["tool"]]
        if st["tool"] != "sign":
            self.secrets.text("plaintext", st["text"])
        argv += [self.disk.path(name), st["text"]]

        def run():
            ok, out, err, errtext = W.run_script("jwenc.py" if st["tool"] == "jwenc" else "jwkutil.py", argv)
            return out, error_text(err) + errtext
        return run

    def after(self, plan, w, st, spec, ok, got, eo, what):
        """What this operation made secret, and what it let out."""
        op = st["op"]
        if op == "mutate" and spec["t"] == "EC":
            d = self.keys[st["k"]].d
            if isinstance(d, int):
                self.secrets.add("EC private value generated", d)
        if op == "encrypt":
            iv = b""
            if ok:
                tok = got if isinstance(got, str) else got.decode()
                iv = K.unb64u(tok.split(".")[2])
                for s in plan["ring"]:
                    o, found = O.call(O.message_secrets, s, tok)
                    for name, v in found if o else []:
                        self.secrets.add(name, v)
            for b in eo.draws:
                if b != iv and not (st["alg"].startswith("ECDH") and len(b) == 16):        # apu and apv travel in the header
                    self.secrets.add("random bytes drawn for %s" % what, b)
        elif op == "sign" and spec["t"] == "EC":
            for b in eo.draws:
                self.secrets.add("nonce drawn for %s" % what, b)
        if ok and op in ("sign", "encrypt"):
            self.outputs += 1
            self.look(w, "the message made by %s" % what + (" and jwk given as %s" % st["form"] if st["jwk"] else ""), got)
            self.headers(w, got, what)
        if op == "headers" and ok:
            self.outputs += 1
            if isinstance(got.get("jwk"), dict):
                self.exported(w, "the jwk header given as %s" % st["form"], got["jwk"])
            self.look(w, "the headers with jwk given as %s" % st["form"], json.dumps(got, default=str))
        if op == "tool" and ok:
            self.outputs += 1
            self.look(w, "what %s printed" % st["tool"], got[0])
            self.look(w, "the error text of %s" % st["tool"], got[1], (spec["t"],) if st["n"] & 3 == 0 else ())
        if op == "decrypt" and not ok and st["fault"] in ("none", "missing") and st["damage"] and st["fault"] == "none":
            self.same_refusal(plan, w, st, spec, got)

    def headers(self, w, got, what):
        text = got if isinstance(got, str) else got.decode()
        parts = []
        if text.startswith("{"):
            d = json.loads(text)
            for s in d.get("signatures", [d]):
                parts += [s.get("protected"), s.get("header")]
        else:
            parts = [text.split(".")[0]]
        for p in parts:
            if isinstance(p, str) and p:
                p = json.loads(K.unb64u(p))
            for a in ("jwk", "epk"):
                if isinstance(p, dict) and isinstance(p.get(a), dict):
                    self.exported(w, "the %s header of the message made by %s" % (a, what), p[a])

    def same_refusal(self, plan, w, st, spec, err):
        """The same message damaged elsewhere is refused in the same words."""
        from jwkest.jwe import JWE
        with entropy_op(w, "again%d" % st["id"]):
            tok = W.enc_token(w, "again%d" % st["id"], spec, st["alg"], st["enc"], st["text"].encode())
            tok = self.damaged(tok, st["damage2"] if st["damage2"] != "other_key" else "tag", st["n"] >> 3)
            ok, got = O.call(JWE().decrypt, tok, self.arg(st) or self.keys)
        if not ok and (type(got), str(got)) != (type(err), str(err)) and not w.violation:
            w.violate("telling-refusal", "a message with a damaged %s is refused with %r, one with a damaged %s with %r" % (
                st["damage"], err, st["damage2"], got))

    # ---------------------------------------------------------------- threads
    def do_threads(self, plan, w):
        from jwkest import jwk as J
        from jwkest.jws import JWS
        from jwkest.jwe import JWE
        ring = plan["ring"]

        def build(name):
            with entropy_op(w, "ring"):
                keys = [K.make(s) for s in ring]
            ks = J.KEYS()
            for k in keys:
                ks.append(k)
            fns = []
            for t, ops in enumerate(plan["threads"]):
                def fn(t=t, ops=ops):
                    out = []
                    for j, o in enumerate(ops):
                        with entropy_op(w, "%s/%d/%d" % (name, t, j)) as eo:
                            out.append(O.call(do, keys, ks, o) + (eo,))
                    return out
                fns.append(fn)
            return fns, keys, ks

        def do(keys, ks, o):
            key, op = keys[o["k"]], o["op"]
            if op == "export":
                return key.serialize()
            if op == "dump":
                return ks.dump_jwks()
            if op == "copy":
                return vars(J.make_public_copy(key))
            if op == "private":
                return key.serialize(private=True)
            if op == "to_dict":
                return key.to_dict()
            if op == "str":
                return str(key)
            if op == "thumb":
                return str(key.thumbprint("SHA-256"))
            if op == "sign":
                return JWS(o["text"], alg=o["alg"], jwk=key).sign_compact()
            return JWE(o["text"], alg=o["alg"], enc=o["enc"]).encrypt([key])
        for ops in plan["threads"]:
            for o in ops:
                if o["op"] == "encrypt":
                    self.secrets.text("plaintext", o["text"])
        with recording():
            seq, counters = S.learn(lambda: build("alone")[0], plan["mode"], False)
        schedules = []
        for r, switches in enumerate(plan["rounds"]):
            fns, keys, ks = build("r%d" % r)
            try:
                with recording() as rec:
                    conc = S.concurrent(w, fns, counters, switches, plan["mode"], plan["first"])
            except S.Deadlock as err:
                w.violate("deadlock", str(err))
                return schedules
            schedules.append(S.interleaving_hash(w.sched_last.switches))
            self.faulty += bool(w.sched_last.switches)
            w.probe("schedules")
            for t, ops in enumerate(plan["threads"]):
                for o, (ok, got, eo) in zip(ops, conc[t]):
                    w.log("result", t, o["op"], ok)
                    what = "%s of %s in thread %d" % (o["op"], K.material(ring[o["k"]])[:30], t)
                    if o["op"] in ("private", "to_dict", "str"):
                        continue
                    if not ok:
                        self.look(w, "the error of " + what, error_text(got))
                    elif o["op"] == "export":
                        self.exported(w, what, got)
                    elif o["op"] == "dump":
                        for d in json.loads(got)["keys"]:
                            self.exported(w, what, d)
                    elif o["op"] == "copy":
                        self.exported(w, what, dict((a, v) for a, v in got.items() if v and a in ("d", "p", "q", "extra_args", "kty")))
                    else:
                        if o["op"] == "encrypt":
                            g, found = O.call(O.message_secrets, ring[o["k"]], got)
                            for name, v in found if g else []:
                                self.secrets.add(name, v)
                        self.look(w, what, got)
                        if o["op"] in ("sign", "encrypt"):
                            self.headers(w, got, what)
                        self.outputs += 1
            for t in rec.texts:
                self.look(w, "the log", t)
            for k in keys:
                self.export_all(w, k, ks, "a key after all threads")
            if w.violation:
                return schedules
        self.cover.append([[o["op"] for o in t] for t in plan["threads"]])
        return schedules


PROP = C15()
