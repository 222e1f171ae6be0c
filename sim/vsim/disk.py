"""A simulated disk under Python's open(): seeded failures, short and torn writes, short reads.

The real file system is used for the bytes (below the case's own scratch folder); what the
system calls answer is decided here.  Only files whose name the plan lists are touched.
"""
import builtins
import bz2
import errno
import io
import os

ERRS = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EDQUOT": errno.EDQUOT, "EACCES": errno.EACCES, "ENOENT": errno.ENOENT, "EFBIG": errno.EFBIG}
_real_open = builtins.open


def make_err(name, what):
    return OSError(ERRS[name], f"injected {name} at {what}")


class Raw(io.FileIO):
    """One open file: every raw read and write passes the plan."""

    def __init__(self, disk, path, mode):
        self._disk, self._path = disk, path
        super().__init__(path, mode)

    def write(self, b):
        d = self._disk
        b = memoryview(b).cast("B")
        f = d.hit(self._path, "write")
        if f is not None:
            k = f.get("torn", 0)
            if k and len(b) > 1 and not f.get("part"):
                f["part"] = True     # what still fitted is written, the next call fails
                d.counts[(os.path.basename(self._path), "write")] -= 1
                return super().write(b[: max(1, min(k, len(b) - 1))])
            raise f["err"]
        if d.short and len(b) > 1:
            n = 1 + d.rand() % len(b)
            d.shorts += n < len(b)
            b = b[:n]
        return super().write(b)

    def _limit(self, n):
        d = self._disk
        f = d.hit(self._path, "read")
        if f is not None:
            raise f["err"]
        if d.short and n > 1:
            m = 1 + d.rand() % n
            d.shorts += m < n
            return m
        return n

    def readinto(self, b):
        b = memoryview(b).cast("B")
        return super().readinto(b[: self._limit(len(b))])

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        return super().read(self._limit(n))

    def readall(self):
        out = []
        while True:
            c = super().read(self._limit(8192))
            if not c:
                return b"".join(out)
            out.append(c)

    def seek(self, *a):
        f = self._disk.hit(self._path, "seek")
        if f is not None:
            raise f["err"]
        return super().seek(*a)

    def close(self):
        if self.closed:
            return
        f = self._disk.hit(self._path, "close")
        super().close()
        if f is not None:
            raise f["err"]


class Disk:
    """faults: [{"file": name, "op": open|write|read|close|seek, "n": nth call, "err": ENOSPC.., "sticky": bool, "torn": bytes}]"""

    def __init__(self, files, faults=(), short=0, buffer=None):
        self.files = set(files)
        self.faults = [dict(f) for f in faults]
        self.short, self.buffer = short, buffer
        self.x = (short or 1) * 2654435761 % (1 << 31)
        self.counts = {}
        self.fired = []
        self.shorts = 0
        self.opened = 0

    def rand(self):
        self.x = (self.x * 1103515245 + 12345) % (1 << 31)
        return self.x >> 8

    def hit(self, path, op):
        name = os.path.basename(path)
        key = (name, op)
        n = self.counts.get(key, 0)
        self.counts[key] = n + 1
        for f in self.faults:
            if f["file"] == name and f["op"] == op and (n == f["n"] or (f.get("sticky") and n > f["n"])):
                if "err" not in f or isinstance(f["err"], str):
                    f["err"] = make_err(f["err"], f"{op} {name}")
                    self.fired.append(f)
                return f
        return None

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        try:
            name = os.path.basename(os.fspath(file))
        except TypeError:
            name = None
        if name not in self.files or not closefd or opener is not None:
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        path = os.fspath(file)
        f = self.hit(path, "open")
        if f is not None:
            raise f["err"]
        self.opened += 1
        binary = "b" in mode
        rawmode = mode.replace("b", "").replace("t", "")
        raw = Raw(self, path, rawmode)
        if buffering == 0:
            return raw
        size = self.buffer and (self.buffer if not name.endswith(".gz") else max(self.buffer, 300)) or (buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        elif "r" in mode:
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if binary:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, write_through=bool(self.buffer) and "r" not in mode)
        t.mode = mode
        return t

    def __enter__(self):
        builtins.open = self.open
        io.open = self.open
        bz2._builtin_open = self.open
        return self

    def __exit__(self, *a):
        builtins.open = _real_open
        io.open = _real_open
        bz2._builtin_open = _real_open
        return False


def open_fds(path):
    """Descriptors of this process that are open on a file (from the kernel)."""
    out = []
    want = os.path.realpath(path)
    for fd in os.listdir("/proc/self/fd"):
        try:
            if os.readlink(f"/proc/self/fd/{fd}").replace(" (deleted)", "") == want:
                out.append(int(fd))
        except OSError:
            pass
    return out


class H5Disk:
    """Failures of the HDF5 layer: the calls of PyTables that a recorder makes answer with an error."""

    def __init__(self, files, faults=()):
        self.files = set(files)
        self.faults = [dict(f) for f in faults]
        self.counts = {}
        self.fired = []
        self.inside = 0
        self.saved = []

    def hit(self, path, op):
        if self.inside:
            return
        name = os.path.basename(str(path))
        if name not in self.files:
            return
        n = self.counts.get((name, op), 0)
        self.counts[(name, op)] = n + 1
        import tables

        for f in self.faults:
            if f["file"] == name and f["op"] == op and (n == f["n"] or (f.get("sticky") and n > f["n"])):
                if isinstance(f["err"], str):
                    f["err"] = tables.HDF5ExtError(f"injected at {op} {name}") if f["err"] == "HDF5" else make_err(f["err"], f"{op} {name}")
                    self.fired.append(f)
                raise f["err"]

    def __enter__(self):
        import tables

        me = self

        def patch(obj, attr, op, pathof, after=False):
            orig = getattr(obj, attr)
            self.saved.append((obj, attr, orig))

            def call(*a, **k):
                if not after:
                    me.hit(pathof(*a), op)
                    return orig(*a, **k)
                path = pathof(*a)
                me.inside += 1
                try:
                    out = orig(*a, **k)
                finally:
                    me.inside -= 1
                me.hit(path, op)
                return out

            setattr(obj, attr, call)

        patch(tables, "open_file", "open", lambda f, *a: f)
        patch(tables.CArray, "__setitem__", "write", lambda s, *a: s._v_file.filename)
        patch(tables.Table, "flush", "flush", lambda s, *a: s._v_file.filename)
        patch(tables.File, "create_carray", "create", lambda s, *a: s.filename)
        patch(tables.File, "create_table", "create", lambda s, *a: s.filename)
        patch(tables.Table, "_f_close", "-", lambda s, *a: "", after=True)
        patch(tables.File, "close", "close", lambda s, *a: s.filename, after=True)
        return self

    def __exit__(self, *a):
        for o, n, v in reversed(self.saved):
            setattr(o, n, v)
        self.saved = []
        return False


def h5_open(path):
    """Is a file still registered as open by PyTables?"""
    import tables

    want = os.path.realpath(path)
    return [h for h in list(tables.file._open_files._handlers) if os.path.realpath(h.filename) == want and h.isopen]
