"""Simulated disk: real files inside a scratch directory, read through a layer that injects faults."""
import builtins  # noqa: F401
import errno
import io
import os
import shutil
import tempfile
from . import seams


class Disk(object):
    def __init__(self, world):
        self.world = world
        self.root = tempfile.mkdtemp(prefix="dst-disk-%d-" % os.getpid())
        self.faults = {}            # name -> dict(kind, frac/pos, step)
        self.opens = 0
        self.gone = False

    def close(self):
        if not self.gone:        # once only: the name may be another run's by now
            self.gone = True
            shutil.rmtree(self.root, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.root, name)

    def owns(self, path):
        return os.path.abspath(path).startswith(self.root + os.sep)

    def write(self, name, data):
        if isinstance(data, str):
            data = data.encode()
        with seams.REAL["open"](self.path(name), "wb") as f:
            f.write(data)
        t = int(self.world.clock.wall())         # a file system with time stamps of whole seconds
        os.utime(self.path(name), (t, t))

    def read(self, name):
        with seams.REAL["open"](self.path(name), "rb") as f:
            return f.read()

    def remove(self, name):
        os.unlink(self.path(name))

    def open(self, path, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        name = os.path.relpath(os.path.abspath(path), self.root)
        fault = self.faults.get(name)
        self.opens += 1
        if any(c in mode for c in "wax+") or fault is None:
            return seams.REAL["open"](path, mode, buffering, encoding, errors, newline, closefd, opener)
        kind = fault["kind"]
        if kind == "open_error":
            self.world.fault("disk_open_error")
            raise OSError(fault.get("errno", errno.EACCES), os.strerror(fault.get("errno", errno.EACCES)), path)
        f = FaultFile(self, seams.REAL["open"](path, "rb", 0), fault)
        if buffering == 0:
            return f
        buf = io.BufferedReader(f, buffering_size(buffering))
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)


def buffering_size(b):
    return b if b > 1 else 8192


class FaultFile(io.RawIOBase):
    def __init__(self, disk, f, fault):
        self.disk, self.f, self.fault = disk, f, fault
        self.pos = 0
        size = os.fstat(f.fileno()).st_size
        self.at = int(size * fault.get("frac", 0.5))
        self.fired = False

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        self.pos = self.f.seek(off, whence)
        return self.pos

    def tell(self):
        return self.pos

    def fileno(self):
        return self.f.fileno()

    def close(self):
        if not self.closed:
            self.f.close()
        io.RawIOBase.close(self)

    def readinto(self, b):
        w, kind = self.disk.world, self.fault["kind"]
        n = len(b)
        if kind == "eio":
            if self.pos >= self.at:
                w.fault("disk_eio")
                raise OSError(errno.EIO, "Input/output error")
            n = min(n, self.at - self.pos)
        elif kind == "short":
            n = min(n, max(1, self.fault.get("step", 7)))
            if not self.fired:
                w.fault("disk_short_reads")
                self.fired = True
        elif kind == "eintr":
            if not self.fired and self.pos >= self.at:
                self.fired = True
                w.fault("disk_interrupted")
                raise KeyboardInterrupt()
            if not self.fired:
                n = min(n, max(1, self.at - self.pos))
        data = self.f.read(n)
        b[:len(data)] = data
        self.pos += len(data)
        return len(data)
