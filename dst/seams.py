"""The seams: every source of nondeterminism the library can reach, put behind the current World.

Must be imported before requests, Cryptodome or jwkest.  Nothing in /repo is changed: the seams are the
modules the library itself imports (os, random, time, socket, ssl, builtins.open, threading).
"""
import builtins
import hashlib
import io
import os
import random
import re
import socket
import ssl
import sys
import threading
import time
import _thread
from collections import Counter

REAL = {
    "urandom": os.urandom, "time": time.time, "monotonic": time.monotonic, "perf_counter": time.perf_counter,
    "sleep": time.sleep, "open": builtins.open, "socket": socket.socket, "getaddrinfo": socket.getaddrinfo,
    "Random": random.Random, "Lock": threading.Lock, "RLock": threading.RLock, "allocate_lock": _thread.allocate_lock,
    "thread_time": time.thread_time, "process_time": time.process_time,
}

CUR = None          # the World of the run in progress


class SimHang(BaseException):
    """The code under test waits for something that will never come (and asked for no timeout)."""


_ADDRESS = re.compile(r"at 0x[0-9a-f]+")   # object addresses differ between processes


class World(object):
    def __init__(self, seed):
        self.seed = seed
        self.entropy = Entropy(seed)
        self.clock = Clock()
        self.net = None
        self.disk = None
        self.sched = None
        self.tracer = None
        self.counters = Counter()
        self.faults = Counter()
        self.trace = []              # readable event list; the digest is taken over it
        self.violation = None

    def log(self, *items):
        self.trace.append(_ADDRESS.sub("at 0x..", " ".join(str(i) for i in items)))

    def fault(self, kind, n=1):
        """A fault has actually fired."""
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.counters[name] += n

    def violate(self, kind, detail):
        if self.violation is None:
            detail = _ADDRESS.sub("at 0x..", str(detail))
            self.violation = {"kind": kind, "detail": detail[:2000]}
            self.log("VIOLATION", kind, str(detail)[:300])

    def digest(self):
        return hashlib.sha256("\n".join(self.trace).encode("utf-8", "backslashreplace")).hexdigest()


def set_world(w):
    global CUR
    CUR = w


# --------------------------------------------------------------------------- clock

class Clock(object):
    def __init__(self):
        self.now = 1500000000.0
        self.start = self.now
        self.skew = 0.0

    def advance(self, d):
        self.now += max(0.0, d)

    def jump(self, d):
        """The wall clock is set forward or back."""
        self.skew += d
        if d and CUR is not None:
            CUR.fault("clock_jump")

    def wall(self):
        return self.now + self.skew


def _sim(realname, offset=0.0):
    real = REAL[realname]

    def now():
        if CUR is None:
            return real()
        return CUR.clock.now - offset if offset else CUR.clock.wall()
    return now


def _sim_ns(realname, offset=0.0):
    real = REAL[realname]

    def now():
        if CUR is None:
            return int(real() * 1e9)
        return int((CUR.clock.now - offset if offset else CUR.clock.wall()) * 1e9)
    return now


def _sleep(d):
    if CUR is None:
        return REAL["sleep"](d)
    CUR.clock.advance(d)
    CUR.probe("sleep")


# --------------------------------------------------------------------------- entropy

class Op(object):
    """One operation's private stream of OS entropy, so that removing other operations changes nothing in it."""

    def __init__(self, label, fail_at=None, overrides=None, fail_exc=None, once=False):
        self.label = label
        self.fail_at = fail_at
        self.fail_exc = fail_exc
        self.once = once                     # a passing failure: the next draw works again
        self.overrides = overrides or []     # [(size, bytes)]: the next draw of that size gets these bytes
        self.draws = []
        self.used = 0
        self.failed = False


class Entropy(object):
    def __init__(self, seed):
        self.key = hashlib.sha256(("entropy/%s" % seed).encode()).digest()
        self.local = _thread._local()
        self.base = Op("base")

    def current(self):
        return getattr(self.local, "op", None) or self.base

    def read(self, n):
        op = self.current()
        i = len(op.draws)
        if op.fail_at is not None and (i == op.fail_at if op.once else i >= op.fail_at):
            op.failed = True
            CUR.fault("entropy_error")
            op.draws.append(b"")
            raise (op.fail_exc or OSError)(5, "simulated failure of the random source")
        for j, (size, data) in enumerate(op.overrides):
            if size == n:
                del op.overrides[j]
                op.used += 1
                CUR.fault("entropy_rare_value")
                op.draws.append(data)
                return data
        data = hashlib.shake_128(self.key + ("%s/%d" % (op.label, i)).encode()).digest(n)
        op.draws.append(data)
        return data


class entropy_op(object):
    """with entropy_op(world, label, ...) as op: everything drawn inside comes from that stream."""

    def __init__(self, world, label, **kw):
        self.world, self.op = world, Op(label, **kw)

    def __enter__(self):
        loc = self.world.entropy.local
        self.prev = getattr(loc, "op", None)
        loc.op = self.op
        return self.op

    def __exit__(self, *exc):
        self.world.entropy.local.op = self.prev
        return False


def _urandom(n):
    if CUR is None:
        return REAL["urandom"](n)
    if n < 0:
        raise ValueError("negative argument not allowed")
    return CUR.entropy.read(n)


class _UrandomFile(io.RawIOBase):
    def readable(self):
        return True

    def readinto(self, b):
        b[:] = _urandom(len(b))
        return len(b)


_mt_seed = random.Random.seed


def _random_seed(self, a=None, version=2):
    """random.Random() without a seed would ask the kernel in C; give it a deterministic non-secret seed."""
    if a is None and CUR is not None:
        CUR.probe("mt_autoseed")
        a = 88172645463325252
    return _mt_seed(self, a, version)


# --------------------------------------------------------------------------- locks

class SimLock(object):
    """A lock that knows the cooperative scheduler: only ever one simulated thread runs, so a contended
    acquire hands control to another thread instead of blocking the process."""
    _reentrant = False

    def __init__(self):
        self._real = REAL["allocate_lock"]()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._reentrant and self._owner == me:
            self._count += 1
            return True
        sched = CUR.sched if CUR is not None else None
        if sched is None or not sched.managed():
            ok = self._real.acquire(blocking, timeout) if blocking else self._real.acquire(False)
        else:
            ok = self._real.acquire(False)
            while not ok and blocking:
                if timeout is not None and timeout >= 0 and not sched.others_runnable():
                    CUR.clock.advance(timeout)
                    return False
                sched.block(self)
                ok = self._real.acquire(False)
        if ok:
            self._owner = me
            self._count = 1
        return ok

    def release(self):
        if self._reentrant:
            if self._owner != _thread.get_ident():
                raise RuntimeError("cannot release un-acquired lock")
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._real.release()
        sched = CUR.sched if CUR is not None else None
        if sched is not None:
            sched.released(self)

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def _at_fork_reinit(self):
        self._real = REAL["allocate_lock"]()
        self._owner = None
        self._count = 0


class SimRLock(SimLock):
    _reentrant = True

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._real.release()
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count, self._owner = st

    def _recursion_count(self):
        return self._count if self._is_owned() else 0


# --------------------------------------------------------------------------- files

def _open(file, mode="r", *args, **kw):
    w = CUR
    if w is not None and isinstance(file, (str, bytes, os.PathLike)):
        path = os.fsdecode(file)
        if path in ("/dev/urandom", "/dev/random"):
            return io.BufferedReader(_UrandomFile())
        if w.disk is not None and w.disk.owns(path):
            return w.disk.open(path, mode, *args, **kw)
    return REAL["open"](file, mode, *args, **kw)


# --------------------------------------------------------------------------- sockets

def _getaddrinfo(host, port, *a, **kw):
    if CUR is None or CUR.net is None:
        raise socket.gaierror(socket.EAI_AGAIN, "no network in the simulation")
    return CUR.net.getaddrinfo(host, port)


def install():
    os.urandom = _urandom
    if hasattr(os, "getrandom"):
        os.getrandom = lambda size, flags=0: _urandom(size)
    random._urandom = _urandom
    random.Random.seed = _random_seed
    ssl.RAND_bytes = _urandom
    import secrets  # noqa: F401  (uses random.SystemRandom, which now draws here)
    time.time = _sim("time")
    time.monotonic = _sim("monotonic", 1400000000.0)
    time.perf_counter = _sim("perf_counter", 1400000000.0)
    time.time_ns = _sim_ns("time")
    time.monotonic_ns = _sim_ns("monotonic", 1400000000.0)
    time.perf_counter_ns = _sim_ns("perf_counter", 1400000000.0)
    time.sleep = _sleep
    builtins.open = _open
    io.open = _open
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading._RLock = SimRLock
    threading._PyRLock = SimRLock
    from . import net
    net.install()


def boot(repo_src="/repo/src"):
    """Install the seams, then import the code under test from the working tree."""
    for k in list(os.environ):
        if k.lower().endswith("_proxy") or k.upper() in ("REQUESTS_CA_BUNDLE", "CURL_CA_BUNDLE", "NETRC",
                                                         "SSLKEYLOGFILE", "SSL_CERT_FILE", "SSL_CERT_DIR"):
            del os.environ[k]
    os.environ["HOME"] = "/nonexistent"          # no ~/.netrc
    install()
    import requests                               # noqa: F401  (before the prefix: use its cached bytecode)
    import Cryptodome.PublicKey.RSA, Cryptodome.PublicKey.ECC, Cryptodome.Signature.pss  # noqa: E401,F401
    sys.path.insert(0, repo_src)
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent/dst"       # compile the library's sources, whatever __pycache__ says
    import jwkest
    if not os.path.realpath(jwkest.__file__).startswith(os.path.realpath(repo_src) + os.sep):
        raise RuntimeError("jwkest comes from %s, not from %s" % (jwkest.__file__, repo_src))
    import importlib
    for m in ("jwt", "jwk", "jws", "jwe", "ecc", "elliptic", "curves", "aes_gcm", "aes_key_wrap", "extra"):
        importlib.import_module("jwkest." + m)
    sys.pycache_prefix = None
    import logging
    logging.getLogger().addHandler(logging.NullHandler())
    import warnings
    warnings.simplefilter("ignore")
    return jwkest
