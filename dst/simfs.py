"""Files under a scratch directory seen through a faulty disk: builtins.open and io.open give a real
io stack whose lowest layer is ours. Everything else goes to the real functions."""
import builtins
import errno
import io
import os
import shutil
import tempfile

from .core import W


class PowerLoss(BaseException):
    """the machine stops at this write"""


class Raw(io.FileIO):
    disk = None

    def write(self, b):
        return self.disk.on_write(self, bytes(b))

    def readinto(self, b):
        n = self.disk.on_read(self, len(b))
        if n == 0:
            return 0
        data = io.FileIO.read(self, n)
        b[: len(data)] = data
        return len(data)

    def readall(self):
        out = b""
        buf = bytearray(4096)
        while True:
            n = self.readinto(buf)
            if not n:
                return out
            out += bytes(buf[:n])

    def close(self):
        if not self.closed:
            try:
                self.disk.on_close(self)
            finally:
                io.FileIO.close(self)


class Disk:
    """plan: {"kind": "enospc"|"eio_write"|"eio_close"|"eio_read"|"crash"|"short", "at": byte}"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="dstfs")
        self.plan = None
        self.written = 0
        self.read = 0
        self.dirty = set()

    def path(self, name):
        return os.path.join(self.dir, name)

    def arm(self, plan):
        self.plan = dict(plan) if plan else None
        self.written = self.read = 0

    def fired(self):
        return bool(self.plan and self.plan.get("done"))

    def fire(self, kind):
        if not self.plan.get("done"):
            W.count("disk_" + kind)
        self.plan["done"] = True

    # -- called by Raw
    def on_write(self, f, b):
        p = self.plan
        self.dirty.add(f.name)
        if p and p["kind"] == "short" and len(b) > 1:
            # legal: a write may accept less than it was given
            self.fire("short_write")
            b = b[: max(1, min(len(b) - 1, p["at"] % len(b)))]
        elif p and p["kind"] in ("enospc", "eio_write", "crash") and self.written + len(b) > p["at"]:
            k = max(0, p["at"] - self.written)
            if k:
                io.FileIO.write(f, b[:k])
                self.written += k
            self.fire(p["kind"])
            if p["kind"] == "crash":
                raise PowerLoss()
            raise OSError(errno.ENOSPC if p["kind"] == "enospc" else errno.EIO, "injected", f.name)
        n = io.FileIO.write(f, b)
        self.written += n
        return n

    def on_read(self, f, n):
        p = self.plan
        if p and p["kind"] == "eio_read" and self.read + n > p["at"]:
            self.fire("eio_read")
            raise OSError(errno.EIO, "injected", f.name)
        if p and p["kind"] == "short_read":
            self.fire("short_read")
            n = min(n, 1 + p["at"] % 97)
        self.read += n
        return n

    def on_close(self, f):
        p = self.plan
        if p and p["kind"] == "eio_close" and not p.get("done") and "w" in getattr(f, "simmode", ""):
            self.fire("eio_close")
            raise OSError(errno.EIO, "injected at close", f.name)

    def power_loss(self, r):
        """only a prefix of what was written and never synced survives"""
        W.count("disk_power_loss")
        for p in sorted(self.dirty):
            if os.path.exists(p):
                n = os.path.getsize(p)
                os.truncate(p, r.choice([n, r.randrange(n + 1), (n // 512) * 512, 0]))
        self.dirty.clear()

    # -- installation
    def __enter__(self):
        self.saved = builtins.open, io.open
        builtins.open = io.open = self.open
        return self

    def __exit__(self, *a):
        builtins.open, io.open = self.saved
        return False

    def cleanup(self):
        d = os.path.abspath(self.dir)
        assert os.path.basename(d).startswith("dstfs")
        shutil.rmtree(d, ignore_errors=True)

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        try:
            name = os.path.abspath(os.fspath(file))
        except TypeError:
            name = ""
        if not isinstance(name, str) or not name.startswith(self.dir + os.sep):
            return self.saved[0](file, mode, buffering, encoding, errors, newline, closefd, opener)
        raw = type("Raw", (Raw,), {"disk": self})(name, mode.replace("b", "").replace("t", ""), closefd, opener)
        raw.simmode = mode
        if "+" in mode:
            buf = io.BufferedRandom(raw)
        elif "r" in mode:
            buf = io.BufferedReader(raw)
        else:
            buf = io.BufferedWriter(raw)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline)
