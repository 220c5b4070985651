"""C16: nothing piles up and nothing stays open."""
import errno
import functools
import gc
import json
import logging
import os
import sys
import types
from .. import keys as K
from .. import netops as N
from .. import ops as O
from .. import sched as S
from .. import work as W
from ..disk import Disk
from ..keys import cut
from ..net import Net, idle_fd
from ..runner import Property
from ..seams import entropy_op, SimHang
from ..trace import Striker, describe

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}
FRAMING = ["length", "chunked", "close", "length-keepalive"]
WARM, MEASURED, MORE, MARKS = 2, 4, 240, 5


class C16(Property):
    ID = "C16"
    RUNS = {"quick": 1500, "thorough": 25000}
    RULE = ("history of repeated rounds of operations on kept objects, with faults, in which operations both succeeded and failed")
    STATE_MEASURE = "distinct (operation, form or loader, fault with its site, outcome) tuples"
    REAL_PARTS = ["jwkest", "Cryptodome", "json", "requests, urllib3, http.client", "the file system below a scratch directory"]
    STUBS = ["OS random source", "clock", "sockets, name lookup and TLS", "key server", "file reads (through a fault layer)"]
    ASSUMPTIONS = ["state is what can be reached from the library's modules and classes, the kept objects and the keys",
                   "a cache with a bound (functools.lru_cache with a size) is not growth",
                   "a key set grows by the keys loaded into it; only new sets are loaded"]

    def gen(self, rng, index, tier):
        t = rng.choice(["oct", "oct", "RSA", "EC"])
        ring = W.gen_ring(rng, 3, types=(t,), forms=False)
        if t == "EC":
            for j, s in enumerate(ring):
                s.update(crv="P-256", cls="normal", i=j)
        if rng.random() < .3:
            for s in ring:
                s["kid"] = ""
        a = W.sig_alg(rng, ring[0])
        enc = W.enc_alg(rng, ring[0], .02)
        plan = {"ring": ring, "alg": {"PS512": "PS256"}.get(a, a), "ealg": enc[0], "enc": enc[1], "fixed": rng.random() < .7,
                "keys": [dict(ring[0]), dict(ring[1])], "first": [0, 1], "cert": K.RSA1024[0], "file": rng.choice(K.RSA1024)}
        if plan["ealg"] == "RSA-OAEP-256":
            plan["enc"] = K.ENC_CBC[0]
        plan["steps"] = [self.gen_step(rng, plan, j) for j in range(rng.randrange(4, 9))]
        return plan

    def gen_step(self, rng, plan, j):
        op = rng.choice(["verify"] * 4 + ["decrypt"] * 3 + ["sign", "sign", "encrypt", "encrypt", "is_jws", "factory", "fetch", "fetch", "fetch",
                                                           "file", "file", "keys", "keys", "keys"])
        st = {"id": j, "op": op, "n": rng.randrange(1 << 16), "k": rng.randrange(3),
              "fault": rng.choice(["none"] * 6 + ["entropy", "strike", "strike"]), "at": [cut(rng.random(), 5), cut(rng.random(), 4)],
              "exc": rng.choice(list(EXC)), "draw": rng.choice([0, 0, 1, 2]), "period": rng.choice([1, 1, 1, 2]),
              "keys": rng.choice(["all", "all", "one", "KEYS", "strange", "none"])}
        if op == "verify":
            st.update(form=rng.choice(["compact", "compact", "verbose", "flat", "general", "two"]), which=rng.choice(["v", "v", "u", "new"]),
                      damage=rng.choice([None] * 4 + W.DAMAGE + ["none", "garbage", "garbage", "garbage"]), named=rng.random() < .6,
                      extra=rng.random() < .3, allow_none=rng.random() < .3)
        elif op == "decrypt":
            st.update(which=rng.choice(["d", "d", "e", "new"]), damage=rng.choice([None] * 3 + W.JDAMAGE + ["garbage", "garbage"]))
        elif op == "sign":
            st["form"] = rng.choice(["compact", "json", "flat"])
        elif op == "fetch":
            st.update(how=rng.choice(["jku", "jku", "jku", "load", "load", "module", "cert", "x5u"]), framing=rng.choice(FRAMING),
                      encoding=rng.choice([None, None, "gzip"]), redirect=rng.choice([0, 0, 1]), timeout=rng.choice([None, 5]),
                      cacheable=rng.random() < .2, net=N.gen_fault(rng) if rng.random() < .6 else None)
            if st["fault"] == "entropy":
                st["fault"] = "none"
        elif op == "file":
            st.update(how=rng.choice(["rsa_load", "import_file", "cert2rsa", "key_load", "key_load"]),
                      disk=rng.choice([None, None, "eio", "eintr", "short", "open_error", "missing", "torn", "foreign"]), frac=cut(rng.random(), 4))
        elif op == "keys":
            st.update(how=rng.choice(["load", "load", "keyrep", "find", "dump", "export", "thumb", "wrap", "eq"]),
                      bad=rng.choice([None, None, "entry", "text", "type"]))
        return st

    def shrinkable(self, plan):
        return [["steps"]]

    # ---------------------------------------------------------------- one operation
    def prepare(self, w, plan, st, c):
        """What arrives from outside in round c; never twice the same."""
        spec = plan["ring"][st["k"]]
        text = "message %04d of step %02d" % (c, st["id"])
        n = (st["n"] + 7919 * c) & 0xffff
        with entropy_op(w, "in%d/%d" % (st["id"], c)):
            if st["op"] in ("verify", "is_jws") or (st["op"] == "fetch" and st["how"] in ("jku", "x5u")) or (st["op"] == "factory" and st["n"] & 1):
                if st.get("damage") == "garbage" or (st["op"] != "verify" and st["op"] != "fetch" and st["n"] & 2):
                    h = K.b64u(json.dumps([{"kid": "nobody-%04d" % c}, {"alg": "XX%04d" % c}, {"alg": plan["alg"], "kid": "nobody-%04d" % c},
                                           {"alg": plan["alg"], "jku": "https://keys.example/jwks?c=%04d" % c}][st["n"] // 4 % 4]).encode())
                    return [h + ".e30.AA", "%04d" % c, "a%04d.b.c" % c, h + "." + h + "."][st["n"] // 16 % 4]
                hdr = {"x-%04d" % c: c} if st.get("extra") else None
                if st.get("damage") == "none":
                    return K.b64u(json.dumps({"alg": "none"}).encode()) + "." + K.b64u(text.encode()) + "."
                named = dict(spec, kid=spec["kid"] if st.get("named", True) else "")
                if st.get("damage") == "kid":
                    named["kid"] = "nobody-%04d" % c
                if st["op"] == "fetch":
                    named = dict(plan["keys"][st["k"] % 2], kid=plan["keys"][st["k"] % 2]["kid"])
                    if st["how"] == "x5u":
                        named = {"t": "RSA", "i": plan["cert"], "kid": "", "priv": True}
                        return W.sig_token(named, "RS256", text.encode())
                t = W.sig_token(named, plan["alg"], text.encode(), hdr, st.get("damage") if st.get("damage") != "kid" else None, n,
                                W.other_signer(spec, plan["alg"]))
                if st.get("form") == "two":
                    a, b, s = t.split(".")
                    t2 = W.sig_token(named, plan["alg"], text.encode(), {"x": c}).split(".")
                    return json.dumps({"payload": b, "signatures": [{"protected": a, "signature": s},
                                                                    {"protected": t2[0], "signature": t2[2]}]})
                return W.as_json(t, st["form"] == "flat") if st.get("form") in ("flat", "general") else t
            if st["op"] == "decrypt" or st["op"] == "factory":
                if st.get("damage") == "garbage":
                    return ["%04d" % c, "a.b.c.d.%04d" % c, K.b64u(json.dumps({"alg": "XX%04d" % c, "enc": "A128GCM"}).encode()) + ".a.a.a.a",
                            K.b64u(json.dumps({"alg": plan["ealg"], "enc": "X%04d" % c}).encode()) + ".AA.AA.AA.AA"][st["n"] % 4]
                to = spec
                if st.get("damage") == "other_key":
                    to = dict(W.other_signer(spec, ""), kid=spec["kid"])
                return W.enc_token(w, "in%d/%d" % (st["id"], c), to, plan["ealg"], plan["enc"], text.encode(), st.get("damage"), n)
        return None

    def objects(self, w, plan):
        from jwkest import jwk as J
        from jwkest.jws import JWS
        from jwkest.jwe import JWE
        o = {}
        with entropy_op(w, "objects"):
            o["ring"] = [K.make(s) for s in plan["ring"]]
            o["strange"] = [K.make(dict(W.other_signer(s, plan["alg"]), kid=s["kid"], form="obj")) for s in plan["ring"]]
            o["KEYS"] = J.KEYS()
            for k in o["ring"]:
                o["KEYS"].append(k)
            o["u"], o["d"] = JWS(), JWE()
            o["v"] = JWS("signed text", alg=plan["alg"]) if plan["fixed"] else JWS()
            o["s"] = JWS("signed text", alg=plan["alg"])
            o["e"] = JWE("encrypted text", alg=plan["ealg"], enc=plan["enc"])
            o["jku"] = JWS(alg=plan["alg"], jku=N.JWKS) if plan["fixed"] else JWS(jku=N.JWKS)
            o["x5u"] = JWS(alg="RS256", x5u=N.CERT)
            o["rsa"] = J.RSAKey(kid="file")
        return o

    def do(self, plan, o, st, inp, c):
        from jwkest import jwk as J, jws as S_, jwe as E_
        op, n = st["op"], st["n"]
        keys = {"all": o["ring"], "one": [o["ring"][st["k"]]], "KEYS": o["KEYS"], "strange": o["strange"], "none": None}[st["keys"]]
        if op == "verify":
            v = (S_.JWS(kid="kid-%04d" % c, jku=N.JWKS) if n & 48 == 48 else S_.JWS()) if st["which"] == "new" else o[st["which"]]
            kw = {"allow_none": st["allow_none"]}
            if st["form"] == "compact":
                return v.verify_compact(inp, keys, **kw)
            if st["form"] == "verbose":
                return v.verify_compact_verbose(inp, keys, **kw)
            return v.verify_json(inp, keys, **kw)
        if op == "decrypt":
            d = E_.JWE() if st["which"] == "new" else o[st["which"]]
            return d.decrypt(inp, keys)
        if op in ("sign", "encrypt") and n & 12 == 12:       # an object for this message alone
            own = {"typ": "T%04d" % c, "cty": "text/x%04d" % c, "kid": "" if n & 16 else "kid-%04d" % c}
            if op == "encrypt":
                return E_.JWE("text %04d" % c, alg=plan["ealg"], enc=plan["enc"], **own).encrypt(keys)
            return S_.JWS("text %04d" % c, alg=plan["alg"], **own).sign_compact(keys)
        if op == "sign":
            if st["form"] == "compact":
                return o["s"].sign_compact(keys, protected={"x-%04d" % c: c} if n & 1 else None)
            return o["s"].sign_json(keys, flatten=st["form"] == "flat", headers=[({"alg": plan["alg"], "x-%04d" % c: c}, None)])
        if op == "encrypt":
            return o["e"].encrypt(keys)
        if op == "is_jws":
            return (o["u"] if n & 8 else S_.JWS()).is_jws(inp)
        if op == "factory":
            if n & 1:
                return S_.factory(inp).verify_compact(inp, keys)
            return E_.factory(inp).decrypt(keys=keys)
        if op == "fetch":
            kw = {"timeout": st["timeout"]} if st["timeout"] else {}
            if st["how"] in ("jku", "x5u"):
                return o[st["how"]].verify_compact(inp)
            url = N.JWKS + "?c=%04d" % c if n & 1 else N.JWKS
            if st["how"] == "load":
                return len(J.KEYS().load_from_url(url, **kw))
            if st["how"] == "module":
                return len(J.load_jwks_from_url(url))
            got = J.load_x509_cert(N.CERT + ("?c=%04d" % c if n & 1 else ""), {}, **kw)
            if not got:
                raise ValueError("no certificate")
            return len(got)
        if op == "file":
            path = o["disk"].path("f%04d.pem" % c if n & 1 else "f.pem")
            if st["how"] == "rsa_load":
                return J.rsa_load(path)
            if st["how"] == "import_file":
                return J.import_rsa_key_from_file(path)
            if st["how"] == "cert2rsa":
                return J.pem_cert2rsa(path)
            return o["rsa"].load(path)
        return self.do_keys(plan, o, st, c)

    def do_keys(self, plan, o, st, c):
        from jwkest import jwk as J
        from jwkest.ecc import NISTEllipticCurve
        how, bad, n = st["how"], st["bad"], st["n"]
        key = o["ring"][st["k"]]
        docs = [dict(K.jwk(s), kid="kid-%04d" % c) for s in plan["ring"][:1 + n % 3]] + [
            {"kty": "oct", "k": K.b64u(b"secret %04d" % c), "kid": "oct-%04d" % c}]
        if bad == "entry":
            docs.insert(n % 2, [{"kty": "EC", "crv": "P-%04d" % c, "x": "AA", "y": "AA"}, {"kty": "oct", "k": c},
                                {"kty": "RSA", "n": "!%04d" % c, "e": "AQAB"}][n // 2 % 3])
        elif bad == "type":
            docs.insert(n % 2, {"kty": "T%04d" % c, "x": "AA"})
        if how == "load":
            t = json.dumps({"keys": docs})
            if bad == "text":
                t = t[:n % len(t)]
            return len(J.KEYS().load_jwks(t))
        if how == "keyrep":
            return [J.keyrep(d).kid for d in docs]
        if how == "find":
            ks = o["KEYS"]
            return [len(ks.by_kid("kid-%04d" % c)), len(ks.by_kid(key.kid)), ks.kids(), len(ks["RSA"]), len(ks.as_dict()), key in ks]
        if how == "dump":
            return o["KEYS"].dump_jwks()
        if how == "export":
            return [key.serialize(), key.serialize(private=True), key.to_dict(), str(key)]
        if how == "thumb":
            return J.keyrep(docs[-1] if n & 1 else docs[0]).thumbprint("SHA-256") if not bad else key.thumbprint("SHA-%04d" % c)
        if how == "wrap":
            x = [O.rsa_obj(K.RSA1024[0]), "secret %04d" % c, NISTEllipticCurve.by_name("P-256")][n % 3] if not bad else object()
            return J.jwk_wrap(x, kid="kid-%04d" % c).kid
        return [key == J.keyrep(docs[0]), hash(key), hash(J.keyrep(docs[-1]))]

    # ---------------------------------------------------------------- the run
    def run(self, plan, w):
        w.net = Net(w)
        idle_fd()
        srv = N.KeyServer(w.net, plan)
        srv.current, srv.cert = [0, 1], plan["cert"]
        self.disk = w.disk = Disk(w)
        return self.history(plan, w, srv)

    def history(self, plan, w, srv):
        o = self.objects(w, plan)
        o["disk"] = w.disk
        roots = [v for k, v in sorted(o.items()) if k != "disk"]
        tr = S.tracer("line")
        sites = {}
        good = bad = 0
        cover = {}
        sizes = []
        c = 0
        while c < WARM + MEASURED:
            for st in plan["steps"]:
                r = self.step(plan, w, srv, o, st, c, tr, sites)
                if r is None:
                    return
                good += r[0]
                bad += not r[0]
                cover[json.dumps(r[1])] = 1
            c += 1
            if c >= WARM:
                sizes.append(measure(roots))
        cover = sorted(cover)
        w.log("rounds", len(plan["steps"]), good, bad)
        n0, n1 = sizes[0], sizes[-1]
        if n1[0] >= n0[0] + 2 or n1[1] >= n0[1] + 200:
            # perhaps: see whether it goes on
            marks, each = [], MORE // MARKS
            for i in range(MORE):
                for st in plan["steps"]:
                    if self.step(plan, w, srv, o, st, c, tr, sites) is None:
                        return
                c += 1
                if i % each == each - 1:
                    marks.append(measure(roots))
                    if len(marks) > 1 and marks[-1] <= marks[-2]:
                        break
            for j, per in ((0, .4), (1, 6)):
                if len(marks) == MARKS and all(b[j] - a[j] >= per * each for a, b in zip(marks, marks[1:])):
                    where = grown(roots, lambda: [self.step(plan, w, srv, o, st, c + 1, tr, sites) for st in plan["steps"]])
                    return w.violate("grows", "%s keeps growing: %s after %d more rounds of %s" % (
                        where, "%d, ... %d objects" % (marks[0][0], marks[-1][0]) if j == 0 else "%d, ... %d bytes" % (marks[0][1], marks[-1][1]),
                        MORE, [name(st) for st in plan["steps"]]))
        return {"nontrivial": bool(good and bad), "key": json.dumps(cover), "interleavings": cover, "sample": cover[:4]}

    def arrange(self, plan, w, srv, st, c, on):
        """The world outside as the step of round c finds it."""
        if st["op"] == "fetch":
            for j, k in enumerate(plan["keys"]):
                k["kid"] = "kid-%04d-%d" % (c, j) if st["n"] & 2 else plan["ring"][j]["kid"]
            srv.begin(dict(st, fault=st["net"] if on else None))
        if st["op"] == "file":
            d, f = w.disk, st["disk"] if on else None
            for n in os.listdir(d.root):
                d.remove(n)
            d.faults.clear()
            fn = "f%04d.pem" % c if st["n"] & 1 else "f.pem"
            e = K.POOL["rsa"][plan["file"]]
            data = (e["cert"] if st["how"] == "cert2rsa" else e["pem"]).strip()
            if f == "torn":
                data = data[:int(len(data) * st["frac"])]
            elif f == "foreign":
                data = "not a key, %04d" % c
            if f != "missing":
                d.write(fn, data)
            if f in ("eio", "eintr", "short", "open_error"):
                d.faults[fn] = {"kind": f, "frac": st["frac"] * .99, "step": 11, "errno": [errno.EACCES, errno.EMFILE, errno.EIO][st["n"] % 3]}
            if f in ("torn", "missing", "foreign"):
                w.fault("disk_" + f)

    def step(self, plan, w, srv, o, st, c, tr, sites):
        on = c % st["period"] == 0
        self.arrange(plan, w, srv, st, c, on)
        inp = self.prepare(w, plan, st, c)
        files, fds = sorted(os.listdir(w.disk.root)), open_fds()
        f = st["fault"] if on else "none"
        strike = None
        if f == "strike":
            if st["id"] not in sites:
                o2 = self.objects(w, plan)
                o2["disk"] = w.disk
                with entropy_op(w, "op"):
                    try:
                        cnt = S.count_sites(tr, lambda: O.call(self.do, plan, o2, st, inp, c) and None, False)[1]
                        sites[st["id"]] = cnt.resolve(*st["at"])
                    except (SimHang, KeyboardInterrupt):
                        sites[st["id"]] = None
                o2 = None
                self.arrange(plan, w, srv, st, c, on)
            r = sites[st["id"]]
            if r:
                strike = Striker(r[0], r[1], EXC[st["exc"]]("struck"))
        what = name(st)
        with entropy_op(w, "op%d/%d" % (st["id"], c), fail_at=st["draw"] if f == "entropy" else None) as eo:
            try:
                if strike:
                    tr.start(strike)
                try:
                    ok, got = O.call(self.do, plan, o, st, inp, c)
                finally:
                    if strike:
                        tr.stop()
            except (KeyboardInterrupt, SimHang) as err:
                ok, got = False, err
        # while whoever called still looks at the error (but with itself can be struck before it has closed anything)
        early = open_fds() - fds if not (strike and strike.fired) else None
        early = "descriptor(s) open as long as the error lives: %s" % sorted(target(n, w.disk.root) for n in early) if early else None
        got = type(got).__name__ if not ok else None
        fired = describe(strike.site) if strike and strike.fired else "entropy" if eo.failed else \
            st["net"]["kind"] if st.get("net") and on else st.get("disk") if on else None
        if strike and strike.fired:
            w.fault("interrupt" if st["exc"] == "KeyboardInterrupt" else "memory_error")
        strike = None
        if c < WARM + MEASURED:
            w.log("step", c, st["id"], what, fired, ok, got)
        left = early or self.left_open(w, files, fds)
        if left:
            w.violate("left-open", "%s (%s) %s and left %s" % (what, fired, "succeeded" if ok else "failed with " + got, left))
            return None
        return ok, [what, fired, ok]

    def left_open(self, w, files, fds):
        for last in (False, True):
            socks = [s for s in w.net.open_sockets()]
            more = [n for n in open_fds() if n not in fds]
            new = sorted(set(os.listdir(w.disk.root)) - set(files))
            del w.net.socks[:]
            w.net.socks.extend(weak(socks))
            if not socks and not more and not new:
                return None
            if not last:
                socks = None
                gc.collect()
        out = []
        if socks:
            out.append("%d connection(s) to %s open" % (len(socks), sorted(set(s._host.name for s in socks if s._host))))
        if more:
            out.append("%d descriptor(s) open: %s" % (len(more), sorted(target(n, w.disk.root) for n in more)))
        if new:
            out.append("the file(s) %s" % new)
        return " and ".join(out)


def weak(socks):
    import weakref
    return [weakref.ref(s) for s in socks]


def open_fds():
    out = set()
    for n in os.listdir("/proc/self/fd"):
        try:
            os.fstat(int(n))
            out.add(n)
        except OSError:                  # the directory's own
            pass
    return out


def target(n, root):
    try:
        return os.readlink("/proc/self/fd/" + n).replace(root, "<disk>").split(":")[0]
    except OSError:
        return "?"


def name(st):
    return " ".join(str(x) for x in (st["op"], st.get("how") or st.get("form") or st.get("which"), st.get("damage") or st.get("bad")) if x)


# -------------------------------------------------------------------- what is reachable
SKIP = (types.ModuleType, types.BuiltinFunctionType, types.CodeType, types.FrameType, types.TracebackType, logging.Logger,
        logging.Handler, logging.Manager, types.GetSetDescriptorType, types.MemberDescriptorType, types.WrapperDescriptorType)
LEAF = (str, bytes, bytearray, int, float, complex, bool, type(None))


def modules():
    return [m for n, m in sorted(sys.modules.items()) if (n == "jwkest" or n.startswith("jwkest.")) and m is not None]


def children(x):
    if isinstance(x, SKIP):
        return []
    if isinstance(x, type):
        return [x.__dict__.get(k) for k in list(x.__dict__)] if (x.__module__ or "").split(".")[0] == "jwkest" else []
    if isinstance(x, types.FunctionType):
        if (x.__module__ or "").split(".")[0] != "jwkest":
            return []
        return [x.__defaults__, x.__kwdefaults__, x.__dict__] + [cell for cell in x.__closure__ or ()]
    if isinstance(x, functools._lru_cache_wrapper):
        return gc.get_referents(x) if x.cache_parameters()["maxsize"] is None else [x.__wrapped__]
    if type(x).__module__.split(".")[0] in ("Cryptodome", "ctypes", "_ctypes", "_cffi_backend", "cffi"):
        return [getattr(x, "__dict__", None)]
    if isinstance(x, dict):
        return list(x) + gc.get_referents(x)         # of a dictionary with plain keys it names the values only
    return gc.get_referents(x)


def walk(start):
    seen, todo = {}, list(start)
    n = size = 0
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen[id(x)] = x
        n += 1
        size += sys.getsizeof(x, 0)
        if not isinstance(x, LEAF):
            todo.extend(children(x))
    return n, size


def starts():
    out = []
    for m in modules():
        for k in sorted(m.__dict__):
            if k not in ("__builtins__", "__spec__", "__loader__"):
                out.append((m.__name__ + "." + k, m.__dict__[k]))
    out.append(("the loggers", [n for n in logging.root.manager.loggerDict if n.startswith("jwkest")]))
    return out


def measure(roots):
    return walk(list(roots) + [v for _, v in starts()])


def grown(roots, again):
    """Names of what grows when the round is run once more."""
    def sizes():
        d = dict((k, walk([v])) for k, v in starts())
        for i, r in enumerate(roots):
            d["kept %s" % type(r).__name__ + (" of %s" % type(r[0]).__name__ if isinstance(r, list) else "")] = walk([r])
        return d
    a = sizes()
    again()
    b = sizes()
    return ", ".join(sorted(k for k in b if b[k][0] > a.get(k, (0, 0))[0])[:6]) or "the state"


PROP = C16()
