"""Simulated network: sockets, name lookup and TLS in memory, over simulated time.

requests, urllib3 and http.client above it are the real ones.
"""
import errno
import gzip
import io
import json
import os
import socket
import ssl
import weakref
import zlib
from . import seams
from .seams import SimHang

_idle = None


def idle_fd():
    """A descriptor that is never readable: what an idle connection looks like to poll()."""
    global _idle
    if _idle is None:
        _idle = os.pipe()
    return _idle[0]


class Net(object):
    def __init__(self, world):
        self.world = world
        self.hosts = {}              # name -> Host
        self.ips = {}
        self.events = []             # (what, host, ...)
        self.max_wait = 0.0          # longest single wait in the current call
        self.total_wait = 0.0
        self.plans = []              # per-connection fault plans, consumed in order
        self.conns = 0
        self.socks = []              # weak references to the sockets that connected

    def open_sockets(self):
        """Connected, not closed, and still referred to by somebody."""
        out = [r() for r in self.socks]
        return [s for s in out if s is not None and not s._closed]

    def add(self, host):
        self.hosts[host.name] = host
        ip = "10.0.%d.%d" % divmod(len(self.hosts), 250)
        self.ips[ip] = host
        host.ip = ip
        host.net = self
        return host

    def note(self, *ev):
        self.events.append(ev)
        self.world.log("net", *ev)

    def getaddrinfo(self, host, port):
        if isinstance(host, bytes):
            host = host.decode()
        self.note("lookup", host)
        h = self.hosts.get(host)
        plan = self.plans[0] if self.plans else None
        if plan and plan.get("at") == "dns":
            self.plans.pop(0)
            self.world.fault("net_dns")
            raise socket.gaierror(socket.EAI_AGAIN, "Temporary failure in name resolution")
        if h is None and host in self.ips:
            h = self.ips[host]
        if h is None:
            raise socket.gaierror(socket.EAI_NONAME, "Name or service not known")
        return [(socket.AF_INET, socket.SOCK_STREAM, 6, "", (h.ip, int(port or 0)))]

    def wait(self, sock, d):
        """Let the code under test wait d simulated seconds (None: for ever) on sock."""
        t = sock._timeout
        if d is None or (t is not None and d > t):
            if t is None:
                self.note("waits for ever")
                raise SimHang("network wait without end and without timeout")
            self.max_wait = max(self.max_wait, t)
            self.total_wait += t
            self.world.clock.advance(t)
            raise socket.timeout("timed out")
        self.max_wait = max(self.max_wait, d)
        self.total_wait += d
        self.world.clock.advance(d)


class Host(object):
    """A server. tls: None (plain only) or "good" / "selfsigned" / "expired" / "wronghost" (impostor)."""

    def __init__(self, name, handler, tls="good"):
        self.name, self.handler, self.tls = name, handler, tls
        self.requests = 0


class Response(object):
    def __init__(self, status=200, body=b"", headers=None, framing="length", reason="X", encoding=None, plan=None):
        self.plan = plan            # how this answer travels, whatever the connection's own plan
        self.status, self.body, self.headers = status, body, headers or []
        self.framing, self.reason, self.encoding = framing, reason, encoding

    def wire(self):
        body = self.body
        hdrs = list(self.headers)
        if self.encoding == "gzip":
            body = gzip.compress(body, mtime=0)
            hdrs.append(("Content-Encoding", "gzip"))
        elif self.encoding == "deflate":
            body = zlib.compress(body)
            hdrs.append(("Content-Encoding", "deflate"))
        if self.framing in ("length", "length-keepalive"):
            hdrs.append(("Content-Length", str(len(body))))
        elif self.framing == "chunked":
            hdrs.append(("Transfer-Encoding", "chunked"))
            out, i, step = b"", 0, 97
            while i < len(body):
                c = body[i:i + step]
                out += b"%x\r\n%s\r\n" % (len(c), c)
                i += step
            body = out + b"0\r\n\r\n"
        if self.framing != "length-keepalive":
            hdrs.append(("Connection", "close"))
        head = "HTTP/1.1 %d %s\r\n" % (self.status, self.reason)
        head += "".join("%s: %s\r\n" % h for h in hdrs) + "\r\n"
        return head.encode("latin-1"), body


class FakeSocket(object):
    family = socket.AF_INET
    type = socket.SOCK_STREAM
    proto = 6

    def __init__(self, family=socket.AF_INET, type=socket.SOCK_STREAM, proto=0, fileno=None):
        self._timeout = socket.getdefaulttimeout()
        self._closed = self._want_close = False
        self._refs = 0             # files made from this socket keep it open, as for real ones
        self._out = b""
        self._in = []               # [(delay, bytes | exception | None for EOF)]
        self._host = None
        self._plan = {}
        self._tls = None
        self._buf = b""
        self._eof = False

    # -- plumbing
    def settimeout(self, t):
        self._timeout = t

    def gettimeout(self):
        return self._timeout

    def setblocking(self, b):
        self._timeout = None if b else 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def bind(self, addr):
        pass

    def fileno(self):
        return -1 if self._closed else idle_fd()

    def getpeername(self):
        return (self._host.ip if self._host else "0.0.0.0", self._port)

    getsockname = getpeername

    def shutdown(self, how):
        pass

    def detach(self):
        return idle_fd()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._want_close = True
        if self._refs <= 0:
            self._closed = True

    def _unref(self):
        self._refs -= 1
        if self._refs <= 0 and self._want_close:
            self._closed = True

    def _net(self):
        w = seams.CUR
        if w is None or w.net is None:
            raise OSError(errno.ENETUNREACH, "no network in the simulation")
        return w.net

    # -- connection
    def connect(self, addr):
        net = self._net()
        ip, self._port = addr[0], addr[1]
        host = net.ips.get(ip) or net.hosts.get(ip)
        net.conns += 1
        self._plan = net.plans.pop(0) if net.plans else {}
        net.note("connect", host.name if host else ip, self._port, "tmo=%s" % self._timeout)
        if host is None:
            raise OSError(errno.EHOSTUNREACH, "No route to host")
        at = self._plan.get("at")
        if at == "connect":
            kind = self._plan["kind"]
            net.world.fault("net_connect_" + kind)
            if kind == "refuse":
                raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
            if kind == "unreach":
                raise OSError(errno.ENETUNREACH, "Network is unreachable")
            net.wait(self, None)
        d = self._plan.get("connect_delay", 0.01)
        if d > 1:
            net.world.fault("net_slow")
        net.wait(self, d)
        self._host = host
        net.socks.append(weakref.ref(self))

    def connect_ex(self, addr):
        try:
            self.connect(addr)
        except OSError as err:
            return err.errno or errno.EIO
        return 0

    def sendall(self, data, flags=0):
        net = self._net()
        if self._plan.get("at") == "send":
            net.world.fault("net_send_reset")
            self._in = [(0.0, ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")), (0.0, None)]
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
        self._out += bytes(data)
        if b"\r\n\r\n" in self._out:
            head, self._out = self._out.split(b"\r\n\r\n", 1)
            self._respond(head)

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def _respond(self, head):
        net = self._net()
        lines = head.decode("latin-1").split("\r\n")
        method, path, _ = lines[0].split(" ", 2)
        hdrs = dict((l.split(":", 1)[0].strip().lower(), l.split(":", 1)[1].strip()) for l in lines[1:] if ":" in l)
        self._host.requests += 1
        scheme = "https" if self._tls else "http"
        # an answer with a body may only be framed by the server's own rules, see Response
        net.note("request", method, scheme, self._host.name, path)
        resp = self._host.handler(self._host, method, path, hdrs)
        h, b = resp.wire()
        wire = h + b
        plan = self._plan if resp.plan is None else resp.plan
        at, kind = plan.get("at"), plan.get("kind")
        delay = plan.get("delay", 0.02)
        step = plan.get("step") or len(wire)
        if at == "read":
            # position of the fault: fraction of headers / body
            if plan.get("where") == "headers":
                pos = int(len(h) * plan.get("frac", 0.5))
            else:
                pos = len(h) + int(len(b) * plan.get("frac", 0.5))
            if kind == "corrupt":
                pos = max(len(h), min(pos, len(wire) - 1))
                if b:
                    wire = wire[:pos] + bytes([wire[pos] ^ (plan.get("xor", 1) or 1)]) + wire[pos + 1:]
                    net.world.fault("net_corrupt")
                pos = len(wire)
            elif kind == "truncate" or kind == "reset" or kind == "stall":
                pos = min(pos, len(wire) - 1)
                wire = wire[:pos]
                net.world.fault("net_" + kind)
        elif at == "tail":
            wire = wire + plan.get("extra", "garbage").encode()
            net.world.fault("net_trailing_garbage")
        chunks = [wire[i:i + step] for i in range(0, len(wire), step)] or []
        if step < len(wire):
            net.world.fault("net_short_reads")
        if delay > 1:
            net.world.fault("net_slow")
        for c in chunks:
            self._in.append((delay, c))
            delay = plan.get("drip", 0.0)
        if at == "read" and kind == "reset":
            self._in.append((0.0, ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")))
        elif at == "read" and kind == "stall":
            self._in.append((None, b""))
        elif resp.framing != "length-keepalive":
            self._in.append((0.0, None))
        elif at in ("read", "tail"):
            self._in.append((0.0, None))

    # -- reading
    def recv(self, n, flags=0):
        net = self._net()
        if self._closed:
            raise OSError(errno.EBADF, "Bad file descriptor")
        while not self._buf:
            if self._eof or not self._in:
                if not self._eof and not self._in:
                    net.wait(self, None)         # nothing was asked: nothing will come
                return b""
            delay, item = self._in[0]
            net.wait(self, delay)
            self._in.pop(0)
            if item is None:
                self._eof = True
                return b""
            if isinstance(item, BaseException):
                raise item
            self._buf = item
        out, self._buf = self._buf[:n], self._buf[n:]
        return out

    def recv_into(self, buf, nbytes=0, flags=0):
        data = self.recv(nbytes or len(buf))
        buf[:len(data)] = data
        return len(data)

    read = recv

    def makefile(self, mode="r", buffering=None, **kw):
        raw = _Raw(self)
        f = io.BufferedReader(raw) if "r" in mode else io.BufferedWriter(raw)
        if "b" in mode:
            return f
        return io.TextIOWrapper(f, **kw)


class _Raw(io.RawIOBase):
    def __init__(self, sock):
        self._s = sock
        sock._refs += 1

    def close(self):
        if not self.closed:
            self._s._unref()
        io.RawIOBase.close(self)

    def readable(self):
        return True

    def readinto(self, b):
        return self._s.recv_into(b)

    def writable(self):
        return True

    def write(self, b):
        self._s.sendall(b)
        return len(b)


class FakeTLSSocket(FakeSocket):
    def __init__(self, sock, context, server_hostname):
        self.__dict__.update(sock.__dict__)
        self.context = context
        self.server_hostname = server_hostname
        net = self._net()
        net.socks.append(weakref.ref(self))
        sock._closed = True            # as ssl does: the connection now belongs to this one
        try:
            self._handshake(net)
        except BaseException:
            self._closed = True
            raise

    def _handshake(self, net):
        context, server_hostname = self.context, self.server_hostname
        w = net.world
        host = self._host
        plan = self._plan
        if plan.get("at") == "tls":
            kind = plan.get("kind")
            w.fault("net_tls_" + kind)
            if kind == "reset":
                raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
            if kind == "eof":
                raise ssl.SSLEOFError(8, "EOF occurred in violation of protocol")
            net.wait(self, None)
        net.wait(self, plan.get("tls_delay", 0.01))
        bad = None
        if host.tls is None:
            raise ssl.SSLError(1, "wrong version number")
        if context.verify_mode != ssl.CERT_NONE:
            if host.tls in ("selfsigned", "expired"):
                bad = "certificate verify failed: " + host.tls
            elif context.check_hostname and (host.tls == "wronghost" or server_hostname != host.name):
                bad = "certificate verify failed: Hostname mismatch"
        net.note("tls", host.name, "verify=%d" % int(context.verify_mode), "check=%s" % context.check_hostname,
                 "cert=%s" % host.tls, "refused" if bad else "ok")
        self._tls = host.tls
        if host.tls != "good":
            w.fault("tls_bad_certificate_" + host.tls)
        if bad:
            err = ssl.SSLCertVerificationError(1, bad)
            err.verify_code, err.verify_message = 18, bad
            raise err

    def getpeercert(self, binary_form=False):
        if binary_form:
            return b"cert of " + self._host.name.encode()
        if self.context.verify_mode == ssl.CERT_NONE:
            return {}
        name = self._host.name if self._tls != "wronghost" else "other.example"
        return {"subject": ((("commonName", name),),),
                "subjectAltName": (("IP Address" if name.replace(".", "").isdigit() else "DNS", name),)}

    def version(self):
        return "TLSv1.3"

    def cipher(self):
        return ("TLS_AES_128_GCM_SHA256", "TLSv1.3", 128)

    def selected_alpn_protocol(self):
        return None

    def unwrap(self):
        return self

    def pending(self):
        return len(self._buf)

    def do_handshake(self, *a):
        pass


def _wrap_socket(self, sock, server_side=False, do_handshake_on_connect=True, suppress_ragged_eofs=True,
                 server_hostname=None, session=None):
    return FakeTLSSocket(sock, self, server_hostname)


def install():
    socket.socket = FakeSocket
    socket.getaddrinfo = seams._getaddrinfo
    socket.gethostbyname = lambda h: seams._getaddrinfo(h, 0)[0][4][0]
    socket.gethostbyaddr = lambda a: (a, [], [a])
    ssl.SSLContext.wrap_socket = _wrap_socket
    # reading the real CA bundle for each context costs milliseconds and decides nothing here: trust is the
    # simulated server's "tls" class, verified according to the context the code under test built
    ssl.SSLContext.load_verify_locations = lambda self, *a, **k: None
    ssl.SSLContext.load_default_certs = lambda self, *a, **k: None


# --------------------------------------------------------------------------- resources

def jwks_body(keys):
    return json.dumps({"keys": keys}).encode()
