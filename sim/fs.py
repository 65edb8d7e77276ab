"""In-memory file system with POSIX-like semantics behind open() and os.*.

Every system call on it goes through world.syscall(), where the scheduler may switch tasks and the fault plan may
inject an error, a short transfer, a stall or a kill.  What reached the inode survives a kill; Python-level buffers
of the killed process do not."""
import errno, io, os, posixpath, stat as statmod
from . import real

FD0 = 1 << 20


class Node:
    __slots__ = ("kind", "data", "mode", "mtime", "ino", "nlink")
    _n = 0

    def __init__(self, kind, ino, mtime=0.0):
        self.kind = kind
        self.data = bytearray() if kind == "f" else None
        self.mode = 0o644 if kind == "f" else 0o755
        self.mtime = mtime
        self.ino = ino
        self.nlink = 1


class SimFS:
    def __init__(self, world):
        self.world = world
        self.nodes = {}
        self.ino = 10
        self.fds = {}
        self.nextfd = FD0
        self.cwd = "/simfs/cwd"
        self.full = False       # ENOSPC for new data
        self.readonly = False   # EROFS for modifications
        self.deny = {}          # path -> errno on open
        self.mutations = 0
        self.extra = ()         # prefixes of real paths whose files are simulated
        self.listing = lambda l: l     # the order directories are listed in
        for d in ("/simfs", "/simfs/home", "/simfs/home/user", "/simfs/cwd", "/simfs/tmp"):
            self.nodes[d] = self._new("d")

    def _new(self, kind):
        self.ino += 1
        return Node(kind, self.ino, self.world.clock.wall)

    # ---- paths
    def norm(self, path):
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        path = os.fspath(path)
        if not path.startswith("/"):
            path = self.cwd + "/" + path
        return posixpath.normpath(path)

    def owns(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p.startswith("/"):
            return True
        if self.extra and p.startswith(self.extra):
            return True
        return p == "/simfs" or p.startswith("/simfs/") or p.startswith("/root/") or p == "/root"

    def err(self, e, path=None):
        exc = OSError(e, os.strerror(e), path)
        return exc

    def lookup(self, path):
        p = self.norm(path)
        n = self.nodes.get(p)
        if n is None:
            parent = posixpath.dirname(p)
            pn = self.nodes.get(parent)
            if pn is not None and pn.kind == "f":
                raise self.err(errno.ENOTDIR, path)
            raise self.err(errno.ENOENT, path)
        return n

    def parent_ok(self, p, path):
        pn = self.nodes.get(posixpath.dirname(p))
        if pn is None:
            raise self.err(errno.ENOENT, path)
        if pn.kind != "d":
            raise self.err(errno.ENOTDIR, path)
        return pn

    def modify_ok(self, path):
        if self.readonly:
            raise self.err(errno.EROFS, path)

    # ---- harness-side access (no syscall, no fault)
    def put(self, path, data):
        p = self.norm(path)
        n = self.nodes.get(p)
        if n is None or n.kind != "f":
            n = self.nodes[p] = self._new("f")
        n.data[:] = data
        n.mtime = self.world.clock.wall

    def get(self, path):
        n = self.nodes.get(self.norm(path))
        return None if n is None or n.kind != "f" else bytes(n.data)

    def mkd(self, path):
        p = self.norm(path)
        parts = p.split("/")
        for i in range(2, len(parts) + 1):
            q = "/".join(parts[:i])
            if q not in self.nodes:
                self.nodes[q] = self._new("d")

    def drop(self, path):
        p = self.norm(path)
        for k in [k for k in self.nodes if k == p or k.startswith(p + "/")]:
            del self.nodes[k]

    def snapshot(self):
        return {k: (None if n.kind == "d" else bytes(n.data)) for k, n in self.nodes.items()}

    # ---- system calls
    def sys_open(self, path, flags, mode=0o777):
        p = self.norm(path)
        acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
        wr = acc in (os.O_WRONLY, os.O_RDWR)
        f = self.world.syscall("open", p, wr)
        if p in self.deny and (self.deny[p][1] == "rw" or wr):
            raise self.err(self.deny[p][0], path)
        n = self.nodes.get(p)
        if n is None:
            if not flags & os.O_CREAT:
                self.lookup(path)
            self.parent_ok(p, path)
            self.modify_ok(path)
            if self.full and self.world.chance_full_inode:
                raise self.err(errno.ENOSPC, path)
            n = self.nodes[p] = self._new("f")
            self.mutations += 1
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise self.err(errno.EEXIST, path)
            if n.kind == "d":
                if wr:
                    raise self.err(errno.EISDIR, path)
            if wr:
                self.modify_ok(path)
            if flags & os.O_TRUNC and wr:
                del n.data[:]
                self.mutations += 1
        fd = self.nextfd
        self.nextfd += 1
        self.fds[fd] = [n, 0, flags, p, self.world.proc]
        self.world.after("open", p, f)
        return fd

    def _fd(self, fd):
        try:
            return self.fds[fd]
        except KeyError:
            raise OSError(errno.EBADF, "Bad file descriptor")

    def sys_close(self, fd):
        e = self._fd(fd)
        if e[4] is not None and e[4].dead:
            del self.fds[fd]
            return
        f = self.world.syscall("close", e[3], False, e[4])
        self.fds.pop(fd, None)
        self.world.after("close", e[3], f)

    def sys_read(self, fd, n):
        e = self._fd(fd)
        f = self.world.syscall("read", e[3], False, e[4])
        node = e[0]
        if node.kind == "d":
            raise self.err(errno.EISDIR, e[3])
        if n is None or n < 0:
            n = len(node.data)
        if f == "short" and n > 1:
            n = max(1, min(n, 1 + (len(node.data) - e[1]) // 2))
        cap = self.world.read_cap
        if cap and n > cap:
            n = cap
        b = bytes(node.data[e[1]:e[1] + n])
        e[1] += len(b)
        self.world.after("read", e[3], f)
        return b

    def sys_write(self, fd, b):
        e = self._fd(fd)
        b = bytes(b)
        f = self.world.syscall("write", e[3], True, e[4])
        node = e[0]
        self.modify_ok(e[3])
        if self.full:
            raise self.err(errno.ENOSPC, e[3])
        pos = len(node.data) if e[2] & os.O_APPEND else e[1]
        part = None
        if f in ("short", "torn", "crash_torn"):
            part = len(b) // 2
            if f == "short" and part == 0:
                part = len(b)
        out = b if part is None else b[:part]
        if pos > len(node.data):
            node.data.extend(b"\0" * (pos - len(node.data)))
        node.data[pos:pos + len(out)] = out
        node.mtime = self.world.clock.wall
        e[1] = pos + len(out)
        self.mutations += 1
        if f == "torn":
            raise self.err(errno.ENOSPC, e[3])
        self.world.after("write", e[3], f)
        return len(out)

    def sys_lseek(self, fd, off, whence):
        e = self._fd(fd)
        if whence == 0:
            e[1] = off
        elif whence == 1:
            e[1] += off
        else:
            e[1] = len(e[0].data or b"") + off
        if e[1] < 0:
            raise self.err(errno.EINVAL)
        return e[1]

    def sys_ftruncate(self, fd, n):
        e = self._fd(fd)
        f = self.world.syscall("truncate", e[3], True, e[4])
        self.modify_ok(e[3])
        d = e[0].data
        if len(d) > n:
            del d[n:]
        else:
            d.extend(b"\0" * (n - len(d)))
        self.mutations += 1
        self.world.after("truncate", e[3], f)

    def sys_fsync(self, fd):
        e = self._fd(fd)
        f = self.world.syscall("fsync", e[3], False, e[4])
        self.world.after("fsync", e[3], f)

    def _stat(self, n):
        size = len(n.data) if n.kind == "f" else 4096
        m = (statmod.S_IFREG if n.kind == "f" else statmod.S_IFDIR) | n.mode
        t = n.mtime
        return os.stat_result((m, n.ino, 7, 1, 1000, 1000, size, int(t), int(t), int(t)))

    def sys_fstat(self, fd):
        return self._stat(self._fd(fd)[0])

    def sys_stat(self, path):
        p = self.norm(path)
        f = self.world.syscall("stat", p, False)
        n = self.lookup(path)
        r = self._stat(n)
        self.world.after("stat", p, f)
        return r

    def sys_mkdir(self, path, mode=0o777):
        p = self.norm(path)
        f = self.world.syscall("mkdir", p, True)
        if p in self.nodes:
            raise self.err(errno.EEXIST, path)
        self.parent_ok(p, path)
        self.modify_ok(path)
        if self.full:
            raise self.err(errno.ENOSPC, path)
        self.nodes[p] = self._new("d")
        self.mutations += 1
        self.world.after("mkdir", p, f)

    def sys_unlink(self, path):
        p = self.norm(path)
        f = self.world.syscall("unlink", p, True)
        n = self.lookup(path)
        if n.kind == "d":
            raise self.err(errno.EISDIR, path)
        self.modify_ok(path)
        del self.nodes[p]
        self.mutations += 1
        self.world.after("unlink", p, f)

    def sys_rmdir(self, path):
        p = self.norm(path)
        f = self.world.syscall("rmdir", p, True)
        n = self.lookup(path)
        if n.kind != "d":
            raise self.err(errno.ENOTDIR, path)
        if any(k.startswith(p + "/") for k in self.nodes):
            raise self.err(errno.ENOTEMPTY, path)
        self.modify_ok(path)
        del self.nodes[p]
        self.mutations += 1
        self.world.after("rmdir", p, f)

    def sys_rename(self, a, b):
        pa, pb = self.norm(a), self.norm(b)
        f = self.world.syscall("rename", pb, True)
        n = self.lookup(a)
        self.parent_ok(pb, b)
        self.modify_ok(b)
        t = self.nodes.get(pb)
        if t is not None and t.kind == "d" and n.kind == "f":
            raise self.err(errno.EISDIR, b)
        if pb in self.deny and self.deny[pb][1] == "rw" and self.deny[pb][0] == errno.EISDIR:
            raise self.err(errno.EISDIR, b)
        if pa == pb:
            return
        moved = [k for k in self.nodes if k == pa or k.startswith(pa + "/")]
        for k in moved:
            self.nodes[pb + k[len(pa):]] = self.nodes.pop(k)
        self.mutations += 1
        self.world.after("rename", pb, f)

    def sys_listdir(self, path):
        p = self.norm(path)
        f = self.world.syscall("listdir", p, False)
        n = self.lookup(path)
        if n.kind != "d":
            raise self.err(errno.ENOTDIR, path)
        return self.listing(sorted(k[len(p) + 1:] for k in self.nodes
                                   if k.startswith(p + "/") and "/" not in k[len(p) + 1:]))

    def sys_access(self, path, mode):
        p = self.norm(path)
        self.world.syscall("access", p, False)
        if p not in self.nodes:
            return False
        if mode & os.W_OK and (self.readonly or p in self.deny):
            return False
        if mode & os.R_OK and p in self.deny and self.deny[p][1] == "rw":
            return False
        return True

    # ---- open()
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not isinstance(mode, str):
            raise TypeError("invalid mode: %r" % mode)
        modes = set(mode)
        if modes - set("axrwb+t") or len(mode) > len(modes):
            raise ValueError("invalid mode: %r" % mode)
        creating, reading, writing, appending = "x" in modes, "r" in modes, "w" in modes, "a" in modes
        updating, text, binary = "+" in modes, "t" in modes, "b" in modes
        if text and binary:
            raise ValueError("can't have text and binary mode at once")
        if creating + reading + writing + appending != 1:
            raise ValueError("must have exactly one of create/read/write/append mode")
        if binary and encoding is not None:
            raise ValueError("binary mode doesn't take an encoding argument")
        if binary and errors is not None:
            raise ValueError("binary mode doesn't take an errors argument")
        if binary and newline is not None:
            raise ValueError("binary mode doesn't take a newline argument")
        if reading:
            flags = os.O_RDWR if updating else os.O_RDONLY
        else:
            flags = os.O_RDWR if updating else os.O_WRONLY
            flags |= os.O_CREAT
            if writing:
                flags |= os.O_TRUNC
            if creating:
                flags |= os.O_EXCL
            if appending:
                flags |= os.O_APPEND
        if isinstance(file, int):
            fd = file
            if fd not in self.fds:
                raise OSError(errno.EBADF, "Bad file descriptor")
            name = fd
        else:
            name = file
            if opener is not None:
                fd = opener(file, flags | os.O_CLOEXEC)
            else:
                fd = self.sys_open(file, flags)
            if self.fds[fd][0].kind == "d":
                self.fds.pop(fd)
                raise self.err(errno.EISDIR, file)
        raw = SimRaw(self, fd, name, reading or updating, not reading or updating, closefd)
        if appending:
            raw.seek(0, 2)
        result = raw
        try:
            line_buffering = False
            if buffering == 1:
                buffering = -1
                line_buffering = True
            if buffering < 0:
                buffering = self.world.buffer_size
            if buffering == 0:
                if binary:
                    return raw
                raise ValueError("can't have unbuffered text I/O")
            if updating:
                buf = io.BufferedRandom(raw, buffering)
            elif reading:
                buf = io.BufferedReader(raw, buffering)
            else:
                buf = io.BufferedWriter(raw, buffering)
            result = buf
            if binary:
                return buf
            t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering)
            result = t
            t.mode = mode
            return t
        except BaseException:
            result.close()
            raise


class SimRaw(io.RawIOBase):
    def __init__(self, fs, fd, name, r, w, closefd):
        self.fs, self.fd, self.name, self._r, self._w, self._cl = fs, fd, name, r, w, closefd
        self.mode = "rb+" if r and w else ("rb" if r else "wb")

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def readinto(self, b):
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        d = self.fs.sys_read(self.fd, len(b))
        b[:len(d)] = d
        return len(d)

    def write(self, b):
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        return self.fs.sys_write(self.fd, b)

    def seek(self, off, whence=0):
        return self.fs.sys_lseek(self.fd, off, whence)

    def tell(self):
        return self.fs.sys_lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self.fs.sys_ftruncate(self.fd, size)
        return size

    def close(self):
        if not self.closed:
            try:
                if self._cl and self.fd in self.fs.fds:
                    self.fs.sys_close(self.fd)
            finally:
                super().close()
