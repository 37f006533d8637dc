"""
Simulated file system: an overlay over a real scratch directory.

The real files are the page cache (what every process sees, what survives a
process kill).  Beside them the overlay tracks what is durable: file contents
as of the last fsync and directory operations as of the last journal commit.
A power loss rewrites the scratch directory to a state the journal allows:
a prefix of the uncommitted directory operations, and for each file with
unsynchronised data its old durable content or a prefix of the new one.

User-space buffers are Python's own io classes on top of a simulated raw
file, so data that was not flushed dies with its process.
"""
import builtins
import errno
import hashlib
import io
import os
import shutil

from .core import active

R = {}          # real functions
SECTOR = 512


class Inode:
    __slots__ = ("dur", "synced", "path0")

    def __init__(self, dur, synced, path0):
        self.dur = dur          # durable content (None: no durable data yet)
        self.synced = synced    # current content == durable content
        self.path0 = path0


class SimFS:
    def __init__(self, root):
        self.root = os.path.realpath(root) + os.sep
        self.cur = {}           # path -> Inode (current directory state)
        self.ddir = {}          # path -> Inode (durable directory state)
        self.journal = []       # uncommitted directory operations
        self.fdmap = {}         # fd -> (Inode, path)
        self.raws = {}          # fd -> SimRaw opened with os.open
        self.dirs = set()       # descriptors of directories
        self.full = False       # sticky disk-full
        self.writes = []        # (step, proc, path) of completed data writes
        for base, _, files in os.walk(self.root):
            for f in files:
                p = os.path.join(base, f)
                with R["open"](p, "rb") as fh:
                    ino = Inode(fh.read(), True, p)
                self.cur[p] = ino
                self.ddir[p] = ino

    # ------------------------------------------------------------ helpers
    def mine(self, path):
        if isinstance(path, int):
            return None
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        if not p.startswith("/"):
            return None
        d = os.path.realpath(os.path.dirname(p))
        full = os.path.join(d, os.path.basename(p))
        if full.startswith(self.root):
            return full
        return None

    def commit(self):
        for op in self.journal:
            self._apply(self.ddir, op)
        self.journal = []

    @staticmethod
    def _apply(d, op):
        if op[0] == "link":
            d[op[1]] = op[2]
        elif op[0] == "unlink":
            d.pop(op[1], None)
        elif op[0] == "rename":
            ino = d.pop(op[1], None)
            if ino is None:
                ino = op[3]
            d[op[2]] = ino

    def fault(self, s, t, kinds, what):
        """draw an I/O fault of one of the kinds for this operation"""
        f = s.cfg.faults
        for k, err in kinds:
            if k == "enospc" and self.full:
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), what)
            p = f.get(k, 0)
            if (p or s.ch.replay) and s.ch.flip(f"fs.{s.cfg.fault_scope}{k}:{t.name}", p):
                s.fault(k, os.path.basename(what))
                if k == "enospc" and f.get("enospc_sticky"):
                    self.full = True
                raise OSError(err, os.strerror(err), what)

    # ------------------------------------------------------------ operations
    def open(self, s, t, path, file, mode, buffering, encoding, errors, newline, closefd):
        s.point("fs.open", os.path.basename(path) + mode)
        writing = any(c in mode for c in "wax+")
        self.fault(s, t, [("emfile", errno.EMFILE)] +
                   ([("eacces", errno.EACCES)] if writing else [("eio_read", errno.EIO)]), path)
        existed = os.path.exists(path)
        if writing and not existed:
            self.fault(s, t, [("enospc", errno.ENOSPC)], path)
        raw = SimRaw(self, s, path, mode.replace("t", "").replace("b", ""))
        return self.stack(raw, mode, buffering, encoding, errors, newline)

    def stack(self, raw, mode, buffering, encoding, errors, newline):
        """Python's own buffering on top of a raw file"""
        writing = any(c in mode for c in "wax+")
        binary = "b" in mode
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        text.mode = mode
        return text

    def os_open(self, s, t, path, flags, mode):
        """os.open"""
        if os.path.isdir(path):
            fd = R["os.open"](path, flags, mode)
            self.dirs.add(fd)
            return fd
        acc = flags & os.O_ACCMODE
        m = "r" if acc == os.O_RDONLY else "w"
        s.point("fs.open", os.path.basename(path) + m)
        self.fault(s, t, [("emfile", errno.EMFILE)] +
                   ([("eacces", errno.EACCES)] if m == "w" else [("eio_read", errno.EIO)]), path)
        if m == "w" and not os.path.exists(path):
            self.fault(s, t, [("enospc", errno.ENOSPC)], path)
        raw = SimRaw(self, s, path, None, flags, mode)
        self.raws[raw.fd] = raw
        return raw.fd

    def fsync(self, s, t, ino, path):
        s.point("fs.fsync", os.path.basename(path))
        self.fault(s, t, [("eio_fsync", errno.EIO)], path)
        for p, i in self.cur.items():
            if i is ino:
                with R["open"](p, "rb") as fh:
                    ino.dur = fh.read()
                ino.synced = True
                break
        self.commit()

    def remove(self, s, t, path, kw):
        s.point("fs.remove", os.path.basename(path))
        self.fault(s, t, [("eacces", errno.EACCES)], path)
        R["remove"](path)
        ino = self.cur.pop(path, None)
        if ino is not None:
            self.journal.append(("unlink", path, ino))
        s.note("removed", path)

    def rename(self, s, t, src, dst, real):
        s.point("fs.rename", os.path.basename(dst))
        self.fault(s, t, [("eacces", errno.EACCES)], dst)
        real(src, dst)
        ino = self.cur.pop(src, None)
        if ino is None:
            return
        self.cur[dst] = ino
        self.journal.append(("rename", src, dst, ino))
        if ino.synced:
            # a rename of synchronised data is taken as durable (lenient)
            self.commit()

    def power_loss(self, ch):
        """rewrite the scratch directory to a legal post-crash state"""
        self.recheck()
        k = len(self.journal) - ch.choose("pl.journal", len(self.journal) + 1, 0.4)
        d = dict(self.ddir)
        for op in self.journal[:k]:
            self._apply(d, op)
        content = {}
        for p, i in self.cur.items():
            with R["open"](p, "rb") as fh:
                content[i] = fh.read()
        final = {}
        lost = torn = 0
        for p in sorted(d):
            ino = d[p]
            if ino.synced:
                final[p] = ino.dur
                continue
            now = content.get(ino, b"")
            opts = ["all", "none", "prefix", "zeros", "hole"]
            o = opts[ch.choose("pl.data", 5, 0.8)]
            if o == "all":
                final[p] = now
            elif o == "none":
                final[p] = b""
                torn += 1
            elif o == "prefix":
                cut = ch.choose("pl.cut", 64, 0.98)
                final[p] = now[: len(now) * cut // 64]
                torn += 1
            elif o == "hole":       # a sector in the middle never reached the disk
                n = len(now) // SECTOR
                c = ch.choose("pl.hole", max(1, n)) * SECTOR
                final[p] = now[:c] + b"\0" * len(now[c:c + SECTOR]) + now[c + SECTOR:]
                torn += 1
            else:
                cut = ch.choose("pl.cut", 64, 0.98)
                c = len(now) * cut // 64
                final[p] = now[:c] + b"\0" * (len(now) - c)
                torn += 1
        for p in list(self.cur):
            if p not in final:
                lost += 1
                try:
                    R["remove"](p)
                except FileNotFoundError:
                    pass
        for p, data in final.items():
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with R["open"](p, "wb") as fh:
                fh.write(data)
        return {"lost_files": lost, "torn_files": torn}

    def recheck(self):
        """notice data that reached a file below Python's io layer"""
        for p, ino in self.cur.items():
            if ino.synced and ino.dur is not None:
                try:
                    with R["open"](p, "rb") as fh:
                        ino.synced = fh.read() == ino.dur
                except FileNotFoundError:
                    pass

    def undurable(self):
        """paths whose current content could be lost by a power loss now"""
        self.recheck()
        out = []
        for p, ino in self.cur.items():
            if not os.path.exists(p):
                continue
            if not ino.synced or self.ddir.get(p) is not ino:
                out.append(p)
        return sorted(out)


class SimRaw(io.RawIOBase):
    """raw file on the overlay"""

    def __init__(self, fs, s, path, mode, flags=None, perm=0o666):
        self.fs = fs
        self.path = path
        self.name = path
        if mode is None:
            acc = flags & os.O_ACCMODE
            mode = "r" if acc == os.O_RDONLY else "a" if flags & os.O_APPEND else "w"
            self._open(fs, path, flags, perm, acc != os.O_WRONLY, acc != os.O_RDONLY,
                       bool(flags & os.O_TRUNC))
            return
        base = mode.replace("+", "")
        plus = "+" in mode
        flags = {"r": 0, "w": os.O_CREAT | os.O_TRUNC, "a": os.O_CREAT | os.O_APPEND,
                 "x": os.O_CREAT | os.O_EXCL}[base]
        if plus:
            flags |= os.O_RDWR
        elif base == "r":
            flags |= os.O_RDONLY
        else:
            flags |= os.O_WRONLY
        self._open(fs, path, flags, perm, base == "r" or plus, base != "r" or plus, base == "w")

    def _open(self, fs, path, flags, perm, rd, wr, trunc):
        self._r = rd
        self._w = wr
        existed = os.path.exists(path)
        self.fd = R["os.open"](path, flags | os.O_CLOEXEC, perm)
        ino = fs.cur.get(path)
        if not existed:
            ino = Inode(None, False, path)
            fs.cur[path] = ino
            fs.journal.append(("link", path, ino))
        elif ino is None:
            ino = Inode(None, True, path)
            fs.cur[path] = ino
            fs.ddir[path] = ino
        if trunc and existed:
            ino.synced = False
        self.ino = ino
        fs.fdmap[self.fd] = (ino, path)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def readinto(self, b):
        s, t = active()
        if s is not None:
            s.point("fs.read", os.path.basename(self.path))
            self.fs.fault(s, t, [("eio_read", errno.EIO)], self.path)
        data = R["os.read"](self.fd, len(b))
        b[: len(data)] = data
        return len(data)

    def write(self, b):
        data = bytes(b)
        s, t = active()
        if s is None:
            return R["os.write"](self.fd, data)
        n = len(data)
        s.point("fs.write", os.path.basename(self.path))
        fs = self.fs
        part = n
        if n > 1:
            c = s.ch.choose(f"fs.torn:{t.name}", 8, s.cfg.faults.get("torn", 0.3))
            if c:
                part = max(1, n * c // 8)
        self.ino.synced = False
        try:
            fs.fault(s, t, [("enospc", errno.ENOSPC), ("eio_write", errno.EIO)], self.path)
        except OSError:
            if part < n:        # the failing write left a partial one behind
                _wr(self.fd, data[:part])
            raise
        _wr(self.fd, data[:part])
        if part < n:
            s.point("fs.write2", os.path.basename(self.path))
            _wr(self.fd, data[part:])
        fs.writes.append((s.steps, t.proc.name, self.path))
        s.point("fs.written", os.path.basename(self.path))
        return n

    def seek(self, pos, whence=0):
        return os.lseek(self.fd, pos, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        R["os.ftruncate"](self.fd, size)
        self.ino.synced = False
        return size

    def close(self):
        if not self.closed:
            super().close()
            self.fs.fdmap.pop(self.fd, None)
            self.fs.raws.pop(self.fd, None)
            R["os.close"](self.fd)
            s, t = active()
            if s is not None:
                s.point("fs.close", os.path.basename(self.path))


def _wr(fd, data):
    mv = memoryview(data)
    while mv:
        k = R["os.write"](fd, mv)
        mv = mv[k:]


_installed = False


def _fs():
    s, t = active()
    if s is None:
        return None, None, None
    return s, t, getattr(s, "fs", None)


def install():
    global _installed
    if _installed:
        return
    _installed = True
    R["open"] = builtins.open
    for k in ("open", "read", "write", "close", "ftruncate", "link"):
        R["os." + k] = getattr(os, k)
    shutil._USE_CP_SENDFILE = False
    R["remove"] = os.remove
    R["rename"] = os.rename
    R["replace"] = os.replace
    R["fsync"] = os.fsync
    R["mkdir"] = os.mkdir
    R["rmtree"] = shutil.rmtree

    def sopen(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
              closefd=True, opener=None):
        s, t, fs = _fs()
        if fs is not None and opener is not None and fs.mine(file) is not None:
            base = next(c for c in mode if c in "rwax")
            fl = {"r": 0, "w": os.O_CREAT | os.O_TRUNC, "a": os.O_CREAT | os.O_APPEND,
                  "x": os.O_CREAT | os.O_EXCL}[base]
            fl |= os.O_RDWR if "+" in mode else os.O_RDONLY if base == "r" else os.O_WRONLY
            file, opener = opener(file, fl), None
        if fs is not None and opener is None and isinstance(file, int) and file in fs.raws and closefd:
            return fs.stack(fs.raws[file], mode, buffering, encoding, errors, newline)
        if fs is not None and opener is None:
            p = fs.mine(file)
            if p is not None:
                return fs.open(s, t, p, file, mode, buffering, encoding, errors, newline, closefd)
        return R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    builtins.open = sopen
    io.open = sopen

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        s, t, fs = _fs()
        if fs is not None and dir_fd is None:
            p = fs.mine(path)
            if p is not None or fs.mine(os.path.join(os.fsdecode(path), "x")):
                return fs.os_open(s, t, p or os.path.abspath(os.fsdecode(path)), flags, mode)
        return R["os.open"](path, flags, mode, dir_fd=dir_fd)
    os.open = os_open

    def on_fd(name, method):
        real = R["os." + name]

        def f(fd, *a):
            s, t, fs = _fs()
            raw = fs.raws.get(fd) if fs is not None else None
            if raw is not None:
                return method(raw, *a)
            if name == "close" and fs is not None:
                fs.dirs.discard(fd)
            return real(fd, *a)
        setattr(os, name, f)

    def rd(raw, n):
        b = bytearray(n)
        return bytes(b[:raw.readinto(b)])

    def wr(raw, data):
        return raw.write(data)
    on_fd("read", rd)
    on_fd("write", wr)
    on_fd("close", lambda raw: raw.close())
    on_fd("ftruncate", lambda raw, n: raw.truncate(n))

    def link(src, dst, **kw):
        s, t, fs = _fs()
        if fs is not None and not kw:
            a, b = fs.mine(src), fs.mine(dst)
            if a is not None and b is not None:
                s.point("fs.link", os.path.basename(b))
                R["os.link"](a, b)
                ino = fs.cur.get(a)
                if ino is not None:
                    fs.cur[b] = ino
                    fs.journal.append(("link", b, ino))
                return None
        return R["os.link"](src, dst, **kw)
    os.link = link

    # names of temporary files and random bytes: decided by the run
    import random
    import tempfile
    real_next = tempfile._RandomNameSequence.__next__
    real_urandom = os.urandom

    def next_name(self):
        s, t = active()
        if s is None:
            return real_next(self)
        return s.uname("t").rjust(8, "0")
    tempfile._RandomNameSequence.__next__ = next_name

    def urandom(n):
        s, t = active()
        if s is None:
            return real_urandom(n)
        return hashlib.shake_128(s.uname("urandom").encode()).digest(n)
    os.urandom = urandom
    random._urandom = urandom

    def remove(path, *, dir_fd=None):
        s, t, fs = _fs()
        if fs is not None and dir_fd is None:
            p = fs.mine(path)
            if p is not None:
                return fs.remove(s, t, p, {})
        return R["remove"](path, dir_fd=dir_fd)
    os.remove = remove
    os.unlink = remove

    def mk_rename(name):
        real = R[name]

        def rename(src, dst, **kw):
            s, t, fs = _fs()
            if fs is not None and not kw:
                a, b = fs.mine(src), fs.mine(dst)
                if a is not None and b is not None:
                    return fs.rename(s, t, a, b, real)
            return real(src, dst, **kw)
        return rename
    os.rename = mk_rename("rename")
    os.replace = mk_rename("replace")

    # directory listing order is unspecified: a decision of the run
    real_listdir, real_scandir = os.listdir, os.scandir

    def permute(s, t, items):
        for i in range(len(items) - 1):
            j = s.ch.choose(f"fs.order:{t.name}", len(items) - i, s.cfg.faults.get("dir_order", 0))
            items[i], items[i + j] = items[i + j], items[i]
        return items

    def listdir(path="."):
        s, t, fs = _fs()
        if fs is not None and fs.mine(os.path.join(os.fspath(path), "x")):
            s.point("fs.list")
            return permute(s, t, sorted(real_listdir(path)))
        return real_listdir(path)
    os.listdir = listdir

    class Scan:
        def __init__(self, it):
            self.it = iter(it)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

        def close(self):
            return None

    def scandir(path="."):
        s, t, fs = _fs()
        if fs is not None and not isinstance(path, int) and fs.mine(os.path.join(os.fspath(path), "x")):
            s.point("fs.list")
            with real_scandir(path) as it:
                items = sorted(it, key=lambda e: e.name)
            return Scan(permute(s, t, items))
        return real_scandir(path)
    os.scandir = scandir

    def mk_sync(real):
        def fsync(fd):
            s, t, fs = _fs()
            if fs is not None:
                n = fd if isinstance(fd, int) else fd.fileno()
                e = fs.fdmap.get(n)
                if e is not None:
                    return fs.fsync(s, t, *e)
                if n in fs.dirs:
                    s.point("fs.fsync", "dir")
                    fs.fault(s, t, [("eio_fsync", errno.EIO)], "directory")
                    fs.commit()
                    return None
            return real(fd)
        return fsync
    os.fsync = mk_sync(os.fsync)
    if hasattr(os, "fdatasync"):
        os.fdatasync = mk_sync(os.fdatasync)

    def rmtree(path, ignore_errors=False, onerror=None, **kw):
        s, t, fs = _fs()
        if fs is None or fs.mine(path) is None:
            return R["rmtree"](path, ignore_errors=ignore_errors, onerror=onerror, **kw)
        try:
            for base, dirs, files in sorted(os.walk(path, topdown=False)):
                for f in sorted(files):
                    os.remove(os.path.join(base, f))
            for base, dirs, files in sorted(os.walk(path), reverse=True):
                os.rmdir(base)
        except OSError:
            if not ignore_errors:
                raise
        return None
    shutil.rmtree = rmtree

    real_mkdir = R["mkdir"]

    def mkdir(path, mode=0o777, *, dir_fd=None):
        s, t, fs = _fs()
        if fs is not None and dir_fd is None and fs.mine(path) is not None:
            s.point("fs.mkdir")
            fs.fault(s, t, [("enospc", errno.ENOSPC)], os.fspath(path))
        return real_mkdir(path, mode, dir_fd=dir_fd) if dir_fd is not None else real_mkdir(path, mode)
    os.mkdir = mkdir
