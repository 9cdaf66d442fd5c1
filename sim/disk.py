"""The disk seam.

Two parts, both installed for the duration of one run and both seeing every operation on the thread that makes it:

* temporary files: `tempfile.TemporaryFile` (what a SpooledTemporaryFile rolls over to) becomes a simulated file, a raw
  byte store under Python's real buffering layer, so buffered writes, flushes and late errors behave as they do.
* real files inside one scratch directory: `open`, `os.stat`, `os.lstat` and reads are intercepted.

In a worker thread an operation takes simulated time (the loop runs meanwhile).  On the event-loop thread it is
recorded in `loop_io`.  Faults: errno at the k-th operation of a kind (once or from then on), short transfers, a disk
that fills up.
"""
from __future__ import annotations

import builtins
import errno
import io
import os
import shutil
import tempfile
import weakref

from . import kernel

REAL_OPEN = builtins.open
REAL_IO_OPEN = io.open
REAL_STAT = os.stat
REAL_LSTAT = os.lstat
REAL_OS_OPEN = os.open
REAL_TEMP = tempfile.TemporaryFile
REAL_NTF = tempfile.NamedTemporaryFile
REAL_SPOOL_INIT = tempfile.SpooledTemporaryFile.__init__

_scratch_parent = None


def scratch():
    """A directory of this process, emptied for every run; removed by the runner's parent."""
    global _scratch_parent
    if _scratch_parent is None or _scratch_parent[0] != os.getpid():
        base = os.environ.get("SIM_SCRATCH") or tempfile.mkdtemp(prefix="vsim.")
        os.environ.setdefault("SIM_SCRATCH", base)
        d = os.path.join(base, str(os.getpid()))
        os.makedirs(d, exist_ok=True)
        _scratch_parent = (os.getpid(), d)
    return _scratch_parent[1]


class Fault:
    """`err` at the nth operation of `kind` (counted from 0), once or from then on."""

    def __init__(self, kind, nth, err, sticky):
        self.kind, self.nth, self.err, self.sticky = kind, nth, err, sticky
        self.count = 0
        self.hits = 0

    def __repr__(self):
        return f"{self.kind}#{self.nth}:{errno.errorcode[self.err]}{'+' if self.sticky else ''}"


class Disk:
    def __init__(self, sim, root=None):
        self.sim = sim
        self.root = root
        self.faults = []
        self.files = []  # every file opened: [label, object, open]
        self.spools = []  # every SpooledTemporaryFile made
        self.loop_io = []  # operations made on the event-loop thread: (op, label)
        self.ops = 0
        self.capacity = None  # bytes that temporary files may hold in total
        self.used = 0
        self.raised = []  # errors injected
        self.short = None  # max bytes of one raw transfer
        self.slow = True
        self.quiet = 0
        self.on_op = None
        self.finalised = []  # files garbage collected instead of closed: (label, whose, operations made on it)
        sim.cleanups.append(self.remove)
        tempfile.TemporaryFile = self._temporary
        tempfile.SpooledTemporaryFile.__init__ = _spool_init(self)
        if root is not None:
            builtins.open = io.open = self._open
            os.stat = self._stat
            os.lstat = self._lstat

    def remove(self):
        tempfile.TemporaryFile = REAL_TEMP
        tempfile.SpooledTemporaryFile.__init__ = REAL_SPOOL_INIT
        builtins.open = REAL_OPEN
        io.open = REAL_IO_OPEN
        os.stat = REAL_STAT
        os.lstat = REAL_LSTAT
        self.quiet += 1
        for rec in self.files:
            f = rec[1]() if isinstance(rec[1], weakref.ref) else rec[1]
            raw = rec[3] if isinstance(rec[3], SimRaw) else getattr(f, "raw", f)
            if raw is not None:
                raw._disk = None
            try:
                if f is not None:
                    f.close()
            except Exception:
                pass

    # -- one operation
    def op(self, kind, label, loop_ok=False):
        sim = self.sim
        if self.quiet or kernel.current is not sim:
            return
        self.ops += 1
        worker = sim.in_worker()
        sim.log("disk", kind, label, "thread" if worker else "loop")
        if not worker and not loop_ok:
            self.loop_io.append((kind, label))
        if worker and self.slow:
            sim.tpause("disk")
        if self.on_op is not None:
            self.on_op(kind, label)
        for f in self.faults:
            if f.kind == kind or f.kind == "any" and kind != "close":
                n = f.count
                f.count += 1
                if n == f.nth or f.sticky and n > f.nth:
                    f.hits += 1
                    sim.fault("disk-" + errno.errorcode[f.err].lower())
                    e = OSError(f.err, os.strerror(f.err))
                    e.sim_owner = kernel.owner_var.get()
                    self.raised.append((kind, e))
                    raise e

    class _Quiet:
        def __init__(self, d):
            self.d = d

        def __enter__(self):
            self.d.quiet += 1

        def __exit__(self, *a):
            self.d.quiet -= 1

    def harness(self):
        """The harness's own file operations."""
        return Disk._Quiet(self)

    # -- temporary files
    def _temporary(self, mode="w+b", buffering=-1, *a, **k):
        label = f"tmp{len(self.files)}"
        self.op("open", label)
        raw = SimRaw(self, label)
        f = io.BufferedRandom(raw, 8192 if buffering < 2 else buffering)
        self.files.append([label, f, True, raw])
        return f

    # -- real files
    def _inside(self, path):
        if isinstance(path, int):
            return None
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if p.startswith(self.root):
            return "~" + p[len(self.root):]
        return None

    def _open(self, file, mode="r", buffering=-1, *a, **k):
        label = None if self.quiet else self._inside(file)
        if label is None:
            return REAL_OPEN(file, mode, buffering, *a, **k)
        self.op("open", label)
        if "b" not in mode or mode.strip("b") != "r":
            raise kernel.HarnessError(f"open mode {mode}")
        raw = HookRaw(file, "rb")
        raw._disk, raw._label, raw._owner = self, label, kernel.owner_var.get()
        self.sim.log("disk", "opened", label)
        f = raw if buffering == 0 else io.BufferedReader(raw, 8192)
        rec = [label, weakref.ref(f), True, None]
        raw._rec = rec
        self.files.append(rec)
        return f

    def _stat(self, path, *a, **k):
        label = None if self.quiet else self._inside(path)
        if label is not None:
            self.op("stat", label)
        return REAL_STAT(path, *a, **k)

    def _lstat(self, path, *a, **k):
        label = None if self.quiet else self._inside(path)
        if label is not None:
            self.op("lstat", label)
        return REAL_LSTAT(path, *a, **k)

    def open_files(self):
        return [r[0] for r in self.files if r[2]]


def _spool_init(disk):
    def __init__(self, *a, **k):
        REAL_SPOOL_INIT(self, *a, **k)
        disk.spools.append(self)

    return __init__


class SimRaw(io.RawIOBase):
    """A raw temporary file: bytes in memory, seekable, with faults."""

    def __init__(self, disk, label):
        self._disk, self._label = disk, label
        self.data = bytearray()
        self.pos = 0
        self.rec = None

    def readable(self):
        return True

    writable = seekable = readable

    def _op(self, kind):
        if self._disk is not None:
            self._disk.op(kind, self._label)

    def readinto(self, b):
        self._op("read")
        n = min(len(b), max(0, len(self.data) - self.pos))
        if self._disk is not None and self._disk.short and n > self._disk.short:
            n = self._disk.short
            self._disk.sim.fault("disk-short-read")
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n

    def write(self, b):
        self._op("write")
        b = bytes(b)
        n = len(b)
        d = self._disk
        if d is not None and d.short and n > d.short:
            n = d.short
            d.sim.fault("disk-short-write")
        if d is not None and d.capacity is not None:
            grow = max(0, self.pos + n - len(self.data))
            if d.used + grow > d.capacity:
                n -= d.used + grow - d.capacity
                if n <= 0:
                    d.sim.fault("disk-full")
                    e = OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
                    d.raised.append(("write", e))
                    raise e
                grow = max(0, self.pos + n - len(self.data))
            d.used += grow
        if self.pos > len(self.data):
            self.data.extend(bytes(self.pos - len(self.data)))
        self.data[self.pos:self.pos + n] = b[:n]
        self.pos += n
        return n

    def seek(self, off, whence=0):
        self._op("seek")
        if whence == 0:
            if off < 0:
                raise OSError(errno.EINVAL, "Invalid argument")
            self.pos = off
        elif whence == 1:
            self.pos += off
        else:
            self.pos = len(self.data) + off
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        self._op("write")
        size = self.pos if size is None else size
        del self.data[size:]
        return size

    def close(self):
        if not self.closed:
            d = self._disk
            if d is not None:
                for rec in d.files:
                    if rec[3] is self:
                        rec[2] = False
                d.op("close", self._label)
        super().close()


class HookRaw(io.FileIO):
    _disk = None
    _label = ""
    _rec = None
    _owner = None
    _used = 0  # operations since it was opened

    def _op(self, kind):
        if self._disk is not None:
            self._used += 1
            self._disk.op(kind, self._label)

    def readinto(self, b):
        self._op("read")
        d = self._disk
        if d is not None and d.short and len(b) > d.short:
            d.sim.fault("disk-short-read")
            return super().readinto(memoryview(b)[:d.short])
        return super().readinto(b)

    def readall(self):
        self._op("read")
        return super().readall()

    def read(self, n=-1):
        self._op("read")
        return super().read(n)

    def seek(self, *a):
        self._op("seek")
        return super().seek(*a)

    def _dealloc_warn(self, source):
        self._dropped = True  # the buffered file around this one is being garbage collected

    _dropped = False

    def close(self):
        if not self.closed and self._rec is not None:
            self._rec[2] = False
            d = self._disk
            if d is not None:
                if self._dropped or getattr(self, "_finalizing", False):
                    d.finalised.append((self._label, self._owner, self._used))
                    d.sim.log("disk", "finalised", self._label)
                else:
                    try:
                        d.op("close", self._label)
                    finally:
                        super().close()
        super().close()


def draw_faults(sim, disk, kinds, p=0.5, nmax=8, errs=None):
    """Draw a disk fault plan."""
    f = sim.f
    if not f.chance(p):
        return False
    kind = f.pick(kinds)
    err = f.pick(errs or {"write": [errno.ENOSPC, errno.EIO], "open": [errno.EMFILE, errno.EACCES, errno.ENOENT],
                          "stat": [errno.EIO, errno.EACCES]}.get(kind, [errno.EIO]))
    disk.faults.append(Fault(kind, f.int(0, nmax), err, f.chance(0.4)))
    return True


def clean(path):
    """Empty a scratch directory of ours."""
    base = os.environ.get("SIM_SCRATCH")
    assert base and os.path.abspath(path).startswith(os.path.abspath(base) + os.sep)
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path, exist_ok=True)
