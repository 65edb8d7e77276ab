"""The simulated machine: clock, file system, network, processes, and the seams that route the code under test to it."""
import builtins, errno, hashlib, io, os, sys, gc, random
import time, datetime, threading, warnings, importlib, importlib.util, importlib.abc, importlib._bootstrap
import tempfile, platform, socket, collections
from . import real
from .sched import CUR, SimCrash, SimAbort, Scheduler, instrument
from .fs import SimFS, FD0

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "raytracing")


class SimHang(BaseException):
    """A call used more simulated time, sleeps or system calls than any correct run needs."""


class SimEscape(BaseException):
    """The code under test tried to leave the simulation."""


# ---------------------------------------------------------------- clock
class Clock:
    EPOCH = 1_700_000_000.0

    def __init__(self, world):
        self.world = world
        self.wall = self.EPOCH
        self.mono = 1000.0
        self.start = 1000.0
        self.per_read = 0.0
        self.reads = 0
        self.limit = None            # monotonic deadline of the current operation
        self.jumps = {}              # read number -> wall jump in seconds
        self.stalls = {}             # read number -> seconds lost before the read returns
        self.lo = self.hi = self.wall   # extremes of the readings since someone last set these

    def advance(self, dt):
        self.mono += dt
        self.wall += dt
        self.check()

    def advance_to(self, mono):
        if mono > self.mono:
            self.wall += mono - self.mono
            self.mono = mono

    def check(self):
        if self.limit is not None and self.mono > self.limit:
            raise SimHang("simulated time limit exceeded (%.0f s)" % (self.mono - self.start))

    def tick(self):
        self.reads += 1
        if self.reads in self.jumps:
            self.wall += self.jumps[self.reads]
            self.world.fired["clock_jump"] += 1
        if self.reads in self.stalls:
            self.world.fired["clock_stall"] += 1
            self.mono += self.stalls[self.reads]
            self.wall += self.stalls[self.reads]
        self.mono += self.per_read
        self.wall += self.per_read
        self.lo, self.hi = min(self.lo, self.wall), max(self.hi, self.wall)

    def time(self):
        self.tick()
        return self.wall

    def monotonic(self):
        self.tick()
        return self.mono

    def sleep(self, dt):
        w = self.world
        p = w.proc
        if p is not None and p.dead:
            raise SimCrash()
        if dt < 0:
            raise ValueError("sleep length must be non-negative")
        w.sleeps += 1
        w.op_sleeps += 1
        w.log("sleep %g" % dt)
        s = CUR.sched
        if s is not None and isinstance(s, Scheduler) and s.in_task():
            s.sleep(dt)
        else:
            self.mono += dt
            self.wall += dt
        w.on_time()
        self.check()
        if w.op_sleeps > 20000:
            raise SimHang("more than 20000 sleeps in one operation")


class _DTMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, real.datetime_cls)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, real.datetime_cls) if sub is not SimDateTime else True


class SimDateTime(real.datetime_cls, metaclass=_DTMeta):
    @classmethod
    def _mk(cls, tz=None):
        w = CUR.world
        t = w.clock.time() if w is not None else real.time_time()
        us = int(round(t * 1_000_000))
        base = real.datetime_cls(1970, 1, 1) + datetime.timedelta(microseconds=us)
        d = cls(base.year, base.month, base.day, base.hour, base.minute, base.second, base.microsecond)
        if tz is not None:
            d = d.replace(tzinfo=datetime.timezone.utc).astimezone(tz)
        return d

    @classmethod
    def now(cls, tz=None):
        return cls._mk(tz)

    @classmethod
    def utcnow(cls):
        return cls._mk()

    @classmethod
    def today(cls):
        return cls._mk()


class SimDate(datetime.date, metaclass=type("_DM", (type,), {
        "__instancecheck__": lambda c, o: isinstance(o, _REAL_DATE)})):
    @classmethod
    def today(cls):
        d = SimDateTime.now()
        return cls(d.year, d.month, d.day)


_REAL_DATE = datetime.date


# ---------------------------------------------------------------- locks that park simulated tasks
class SimLock:
    def __init__(self):
        self._locked = False
        self._owner = None
        self._count = 0

    reentrant = False

    def acquire(self, blocking=True, timeout=-1):
        me = real.get_ident()
        if self.reentrant and self._locked and self._owner == me:
            self._count += 1
            return True
        s = CUR.sched
        if self._locked:
            if not blocking:
                return False
            if isinstance(s, Scheduler) and s.in_task():
                if timeout is not None and timeout >= 0:
                    if not s.block(lambda: not self._locked, timeout):
                        return False
                else:
                    s.block(lambda: not self._locked)
            else:
                raise SimHang("lock acquired twice: the caller waits for itself")
        elif isinstance(s, Scheduler) and s.in_task():
            s.yield_point("lock")
            if self._locked:
                return self.acquire(blocking, timeout)
        self._locked = True
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        if self.reentrant:
            if self._owner != real.get_ident():
                raise RuntimeError("cannot release un-acquired lock")
            self._count -= 1
            if self._count:
                return
        self._locked = False
        self._owner = None

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")


class SimRLock(SimLock):
    reentrant = True

    def _is_owned(self):
        return self._locked and self._owner == real.get_ident()

    def _release_save(self):
        st = (self._count, self._owner)
        self._locked, self._owner, self._count = False, None, 0
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count, self._owner = st


_real_Lock, _real_RLock, _real_alloc = threading.Lock, threading.RLock, threading._allocate_lock
_real_start = threading._start_new_thread


# ---------------------------------------------------------------- network
class SimNet:
    """One scripted answer per request.  script: dict(kind=..., ...)"""

    def __init__(self, world):
        self.world = world
        self.requests = []
        self.answers = []            # consumed in order; last one repeats
        self.i = 0

    def urlopen(self, req, data=None, timeout=None):
        import urllib.error
        w = self.world
        if w.proc is not None and w.proc.dead:
            raise SimCrash()
        url = req if isinstance(req, str) else getattr(req, "full_url", str(req))
        w.yield_("net")
        self.requests.append((w.clock.wall, url))
        w.fault("net", url, False)
        a = dict(self.answers[min(self.i, len(self.answers) - 1)]) if self.answers else {"kind": "unreachable"}
        self.i += 1
        k = a.get("kind", "ok")
        w.log("net request -> %s" % k)
        w.fired["net_" + k] += 1
        import socket as so
        if timeout is None or (not isinstance(timeout, (int, float))):
            timeout = None
        def wait(d):
            """time passes up to the timeout"""
            if timeout is not None and d >= timeout:
                w.clock.sleep_net(timeout)
                raise TimeoutError("timed out")
            w.clock.sleep_net(d)
        try:
            wait(a.get("connect", 0.05))
            if k == "unreachable":
                raise so.gaierror(-3, "Temporary failure in name resolution")
            if k == "refused":
                raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
            if k == "reset":
                raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
            if k == "ssl":
                import ssl
                raise ssl.SSLError(1, "certificate verify failed")
            if k == "hang":
                wait(1e9)
        except TimeoutError as e:
            raise urllib.error.URLError(e)
        except OSError as e:
            raise urllib.error.URLError(e)
        if k == "badstatus":
            import http.client
            raise http.client.BadStatusLine("garbage")
        if k == "http":
            import email.message
            raise urllib.error.HTTPError(url, a.get("code", 503), "Service Unavailable", email.message.Message(),
                                         io.BytesIO(b"oops"))
        body = a.get("body", "").encode("utf-8", "surrogateescape")
        return SimResponse(self, body, a, wait, url)


class SimResponse(io.BufferedIOBase):
    def __init__(self, net, body, a, wait, url):
        self.net, self.body, self.pos, self.a, self.wait, self.url = net, body, 0, a, wait, url
        self.status = self.code = 200
        self.reason = self.msg = "OK"
        import email.message
        m = email.message.Message()
        m["Content-Type"] = "application/json; charset=UTF-8"
        m["Content-Length"] = str(len(body))
        self.headers = m
        self.chunk = a.get("chunk") or 4096
        self.cut = a.get("cut")

    def info(self):
        return self.headers

    def getheader(self, name, default=None):
        return self.headers.get(name, default)

    def getheaders(self):
        return list(self.headers.items())

    def geturl(self):
        return self.url

    def getcode(self):
        return self.status

    def readable(self):
        return True

    def _one(self, n):
        """one socket read: at most a chunk, after its delay"""
        if self.pos >= len(self.body):
            return b""
        w = self.net.world
        if w.proc is not None and w.proc.dead:
            raise SimCrash()
        self.wait(self.a.get("delay", 0.0))
        if self.cut is not None and self.pos >= self.cut:
            w.fired["net_cut"] += 1
            import http.client
            if self.a.get("cutkind") == "reset":
                raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
            raise http.client.IncompleteRead(b"", len(self.body) - self.pos)
        end = min(len(self.body), self.pos + min(n, self.chunk))
        if self.cut is not None:
            end = min(end, max(self.cut, self.pos + 1))
        b = self.body[self.pos:end]
        self.pos = end
        return b

    def read(self, n=-1):
        if n is None or n < 0:
            n = 1 << 60
        out = bytearray()
        while len(out) < n:
            b = self._one(n - len(out))
            if not b:
                break
            out += b
        return bytes(out)

    def read1(self, n=-1):
        return self._one(n if n and n > 0 else 1 << 60)

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)


# ---------------------------------------------------------------- processes
class Proc:
    def __init__(self, world, name, env=None, pid=None):
        self.world = world
        self.name = name
        self.dead = False
        self.pid = pid or (1000 + len(world.procs))
        self.env = {"HOME": "/simfs/home/user"}
        self.env.update(env or {})
        self.modules = {}
        self.out = io.StringIO()
        self.shown = []                # warnings displayed: (category name, text)
        self.filters = None            # warning state saved while switched out
        self.formatwarning = None
        self.fault = None              # armed fault of the current operation
        self.count = 0                 # system calls of the current operation
        world.procs.append(self)

    @property
    def rt(self):
        return self.modules.get("raytracing") or sys.modules.get("raytracing")


BASE_FILTERS = [("default", None, DeprecationWarning, "__main__", 0), ("ignore", None, DeprecationWarning, None, 0),
                ("ignore", None, PendingDeprecationWarning, None, 0), ("ignore", None, ImportWarning, None, 0),
                ("ignore", None, ResourceWarning, None, 0)]
_orig_formatwarning = warnings.formatwarning
_orig_showwarnmsg_impl = warnings._showwarnmsg_impl


class World:
    def __init__(self, seed=0):
        self.clock = Clock(self)
        self.clock.sleep_net = self._sleep_net
        self.proc = None
        self.procs = []
        self.fs = SimFS(self)
        self.net = SimNet(self)
        self.events = hashlib.sha256()
        self.nevents = 0
        self.keep = None             # list of event strings when tracing
        self.fired = collections.Counter()
        self.sleeps = 0
        self.op_sleeps = 0
        self.paths = set()
        self.nsys = 0
        self.op_sys = 0
        self.buffer_size = 8192
        self.read_cap = None
        self.chance_full_inode = True
        self.platform = "Linux"
        self.cpus = 4
        self.tmpn = 0
        self.seed = seed
        self.time_hooks = []
        self.escapes = []
        self.on_load = None          # told of every module of the package that was loaded
        self.pool = None
        self.saved_env = None
        self.np_seed = seed & 0xffffffff

    # ---- log
    def log(self, s):
        self.nevents += 1
        self.events.update(s.encode("utf-8", "replace") + b"\n")
        if self.keep is not None:
            self.keep.append(s)

    # ---- time
    def _sleep_net(self, d):
        s = CUR.sched
        if isinstance(s, Scheduler) and s.in_task():
            s.sleep(d)
        else:
            self.clock.mono += d
            self.clock.wall += d
        self.clock.check()

    def on_time(self):
        for h in self.time_hooks:
            h(self)

    # ---- system calls
    def yield_(self, what):
        s = CUR.sched
        if isinstance(s, Scheduler):
            s.yield_point(what)

    def syscall(self, name, path, mut, owner=None):
        p = owner or self.proc
        if p is not None and p.dead:
            raise SimCrash()
        self.nsys += 1
        self.op_sys += 1
        if self.op_sys > 200000:
            raise SimHang("more than 200000 system calls in one operation")
        self.yield_(name)
        if p is not None and p.dead:
            raise SimCrash()
        self.log("%s %s %s" % (p.name if p else "-", name, path))
        self.paths.add(path)
        return self.fault(name, path, mut, p)

    def fault(self, name, path, mut, p=None):
        p = p or self.proc
        if p is None:
            return None
        p.count += 1
        ft = p.fault
        if ft is None:
            return None
        sel = ft.get("on")
        if sel and sel != name and not (sel == "mut" and mut):
            return None
        if sel:
            ft["_c"] = ft.get("_c", 0) + 1
            hit = ft["_c"]
        else:
            hit = p.count
        n = ft["n"]
        if hit == n or (ft.get("sticky") and hit >= n):
            return self.fire(ft["kind"], name, path, mut, p)
        return None

    def fire(self, kind, name, path, mut, p):
        if kind in ("short",) and name not in ("read", "write"):
            return None
        if kind in ("torn",) and name != "write":
            kind = "ENOSPC"
        if kind == "crash_torn" and name != "write":
            kind = "crash"
        if kind == "ENOSPC" and not mut:
            return None
        self.fired["%s@%s" % (kind, name)] += 1
        self.log("fault %s at %s" % (kind, name))
        if kind == "crash":
            p.dead = True
            raise SimCrash()
        if kind in ("crash_after", "crash_torn", "short", "torn"):
            return kind
        if kind == "stall":
            if self.clock.limit is not None:
                self.clock.limit += 7.0
            self.op_sleeps -= 1
            self.clock.sleep(7.0)
            return None
        if kind == "clock_jump":
            self.clock.wall += p.fault.get("amount", 3600.0)
            return None
        if kind == "hook":                 # another party acts at this very moment
            p.fault["do"]()
            return None
        if kind == "interrupt":
            raise KeyboardInterrupt()
        if kind == "nomem":
            raise MemoryError()
        e = getattr(errno, kind)
        raise OSError(e, os.strerror(e), path)

    def after(self, name, path, token):
        if token in ("crash_after", "crash_torn"):
            p = self.proc
            p.dead = True
            raise SimCrash()

    # ---- operations
    def begin_op(self, fault=None, limit=None):
        p = self.proc
        p.count = 0
        p.fault = dict(fault) if fault else None
        self.op_sleeps = 0
        self.op_sys = 0
        self.clock.limit = None if limit is None else self.clock.mono + limit

    def end_op(self):
        if self.proc is not None:
            self.proc.fault = None
        self.clock.limit = None

    # ---- processes
    def new_proc(self, name, env=None):
        return Proc(self, name, env)

    def switch(self, proc):
        """make proc the running process: its modules, environment, warning state, output"""
        cur = self.proc
        if cur is proc:
            return
        if cur is not None:
            cur.modules = _take_modules()
            cur.filters = list(warnings.filters)
            cur.formatwarning = warnings.formatwarning
        self.proc = proc
        if proc is not None:
            sys.modules.update(proc.modules)
            f = proc.filters if proc.filters is not None else BASE_FILTERS
            warnings.filters[:] = f
            warnings.formatwarning = proc.formatwarning or _orig_formatwarning
            warnings._filters_mutated()
            warnings.onceregistry.clear()
            sys.stdout = proc.out
            for k in ("HOME", "RAYTRACING_EXPERT"):
                if k in proc.env:
                    os.environ[k] = proc.env[k]
                else:
                    os.environ.pop(k, None)
        else:
            sys.stdout = sys.__stdout__

    def __enter__(self):
        assert CUR.world is None
        self.saved = (dict(os.environ), list(warnings.filters), warnings.formatwarning, sys.stdout, sys.stderr,
                      sys.unraisablehook)
        _take_modules()
        gc.disable()
        random.seed(self.seed)
        import numpy as np
        np.random.seed(self.np_seed)
        sys.stderr = io.StringIO()
        sys.unraisablehook = lambda *a: None
        CUR.world = self
        return self

    def __exit__(self, *a):
        self.switch(None)
        CUR.world = None
        env, filters, fmt, out, err, hook = self.saved
        _take_modules()
        os.environ.clear()
        os.environ.update(env)
        warnings.filters[:] = filters
        warnings._filters_mutated()
        warnings.formatwarning = fmt
        sys.stdout, sys.stderr, sys.unraisablehook = out, err, hook
        for p in self.procs:
            p.modules = {}
        gc.enable()

    # ---- the package
    def load(self, proc=None, prefs='{"mode": "silent", "lastVersionCheck": "2023-11-14T22:00:00.000001"}', **kw):
        """convenience: a fresh process with the package imported on a healthy machine"""
        p = proc or self.new_proc("p%d" % len(self.procs), **kw)
        if prefs is not None:
            self.fs.mkd("/simfs/home/user/.config")
            self.fs.put("/simfs/home/user/.config/ca.dcclab.python.raytracing.json", prefs.encode())
        self.switch(p)
        import raytracing  # noqa: the fresh copy
        return raytracing

    def digest(self):
        return self.events.hexdigest()[:16]


def _is_pkg(name):
    return name == "raytracing" or name.startswith("raytracing.")


def _take_modules():
    out = {}
    for k in [k for k in sys.modules if _is_pkg(k)]:
        out[k] = sys.modules.pop(k)
    return out


# ---------------------------------------------------------------- fresh copies of the package, compiled once
_code = {}


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def get_code(self, name):
        return get_code(self.path)

    def get_source(self, name):
        with real.open(self.path, encoding="utf-8") as f:
            return f.read()

    def exec_module(self, module):
        exec(get_code(self.path), module.__dict__)
        w = CUR.world
        if w is not None and w.on_load is not None:
            w.on_load(module)


def get_code(path):
    c = _code.get(path)
    if c is None:
        with real.open(path, encoding="utf-8") as f:
            src = f.read()
        c = _code[path] = compile(src, path, "exec", dont_inherit=True)
    return c


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if not _is_pkg(name):
            return None
        base = os.path.join(REPO, *name.split("."))
        init = os.path.join(base, "__init__.py")
        if os_isfile(init):
            return importlib.util.spec_from_file_location(name, init, loader=_Loader(init),
                                                          submodule_search_locations=[base])
        f = base + ".py"
        if os_isfile(f):
            return importlib.util.spec_from_file_location(name, f, loader=_Loader(f))
        return None


def os_isfile(p):
    try:
        return (real.os_.stat(p).st_mode & 0o170000) == 0o100000
    except OSError:
        return False


def precompile():
    for fn in sorted(os.listdir(PKG)):
        if fn.endswith(".py"):
            get_code(os.path.join(PKG, fn))


NOT_INSTRUMENTED = {"thorlabs.py", "eo.py", "olympus.py", "nikon.py", "lensViewer.py", "__main__.py"}


def function_codes(files=None):
    """code objects of all functions of the package (not module or class bodies)"""
    out = []

    def walk(c):
        if c.co_flags & 1:
            out.append(c)
        for k in c.co_consts:
            if hasattr(k, "co_code"):
                walk(k)
    for fn in sorted(os.listdir(PKG)):
        if fn.endswith(".py") and fn not in NOT_INSTRUMENTED and (files is None or fn in files):
            walk(get_code(os.path.join(PKG, fn)))
    return out


def instrument_package(files=None):
    precompile()
    instrument(function_codes(files))


# ---------------------------------------------------------------- seams
def install():
    """route the process's I/O, time, locks and network through the simulated world, whenever one is active"""
    if getattr(install, "done", False):
        return
    install.done = True
    _preload()
    O = real.os_

    def W():
        return CUR.world

    def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        w = CUR.world
        if w is None:
            return real.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if w.fs.owns(file):
            return w.fs.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if isinstance(mode, str) and (set(mode) & set("wax+")) and not isinstance(file, int):
            if os.fspath(file) == "/dev/null":
                return real.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            w.escapes.append(str(file))
            raise PermissionError(errno.EACCES, "outside the simulation", str(file))
        return real.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    builtins.open = sim_open
    io.open = sim_open
    import _io
    _io.open = sim_open

    def route(name, meth, mutates=False, nargs=1):
        orig = getattr(O, name)

        def f(path, *a, **k):
            w = CUR.world
            if w is not None and w.fs.owns(path):
                k.pop("dir_fd", None)
                k.pop("follow_symlinks", None)
                return getattr(w.fs, meth)(path, *a, **k)
            if w is not None and mutates:
                w.escapes.append("%s %s" % (name, path))
                raise PermissionError(errno.EACCES, "outside the simulation", str(path))
            return orig(path, *a, **k)
        f.__name__ = name
        setattr(os, name, f)

    orig_stat = O.stat

    def sim_stat(path, *, dir_fd=None, follow_symlinks=True):
        w = CUR.world
        if w is not None:
            if isinstance(path, int):
                if path >= FD0:
                    return w.fs.sys_fstat(path)
            elif w.fs.owns(path):
                return w.fs.sys_stat(path)
        return orig_stat(path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    os.stat = sim_stat

    def sim_lstat(path, *, dir_fd=None):
        w = CUR.world
        if w is not None and w.fs.owns(path):
            return w.fs.sys_stat(path)
        return O.lstat(path, dir_fd=dir_fd)
    os.lstat = sim_lstat
    route("mkdir", "sys_mkdir", True)
    route("remove", "sys_unlink", True)
    route("unlink", "sys_unlink", True)
    route("rmdir", "sys_rmdir", True)
    route("rename", "sys_rename", True)
    route("replace", "sys_rename", True)
    route("access", "sys_access")

    def sim_listdir(path="."):
        w = CUR.world
        if w is not None and w.fs.owns(path):
            return w.fs.sys_listdir(path)
        return O.listdir(path)
    os.listdir = sim_listdir

    def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
        w = CUR.world
        if w is not None and w.fs.owns(path):
            return w.fs.sys_open(path, flags, mode)
        if w is not None and flags & (os.O_WRONLY | os.O_RDWR):
            w.escapes.append(str(path))
            raise PermissionError(errno.EACCES, "outside the simulation", str(path))
        return O.open(path, flags, mode, dir_fd=dir_fd)
    os.open = sim_os_open

    def fdroute(name, meth):
        orig = getattr(O, name)

        def f(fd, *a, **k):
            if isinstance(fd, int) and fd >= FD0 and CUR.world is not None:
                return getattr(CUR.world.fs, meth)(fd, *a, **k)
            return orig(fd, *a, **k)
        f.__name__ = name
        setattr(os, name, f)
    fdroute("close", "sys_close")
    fdroute("read", "sys_read")
    fdroute("write", "sys_write")
    fdroute("fsync", "sys_fsync")
    fdroute("fdatasync", "sys_fsync")
    fdroute("lseek", "sys_lseek")
    fdroute("fstat", "sys_fstat")
    fdroute("ftruncate", "sys_ftruncate")

    def sim_noop(name):
        orig = getattr(O, name)

        def f(path, *a, **k):
            if CUR.world is not None and (CUR.world.fs.owns(path) or (isinstance(path, int) and path >= FD0)):
                return None
            return orig(path, *a, **k)
        setattr(os, name, f)
    for n in ("chmod", "fchmod", "utime", "chown"):
        sim_noop(n)

    def sim_isatty(fd):
        if isinstance(fd, int) and fd >= FD0:
            return False
        return O.isatty(fd)
    os.isatty = sim_isatty
    os.getpid = lambda: (CUR.world.proc.pid if CUR.world is not None and CUR.world.proc else O.getpid())
    os.getcwd = lambda: (CUR.world.fs.cwd if CUR.world is not None else O.getcwd())
    os.cpu_count = lambda: (CUR.world.cpus if CUR.world is not None else O.cpu_count())
    if hasattr(O, "urandom"):
        def sim_urandom(n):
            if CUR.world is not None:
                return bytes(random.getrandbits(8) for _ in range(n))
            return O.urandom(n)
        os.urandom = sim_urandom

    # processes: nothing real may be started from inside a run
    def refuse(name, orig):
        def f(*a, **k):
            if CUR.world is not None:
                CUR.world.escapes.append(name)
                raise OSError(errno.EAGAIN, "no real processes inside the simulation")
            return orig(*a, **k)
        return f
    import subprocess
    os.system = refuse("os.system", os.system)
    os.fork = refuse("fork", O.fork)
    os.kill = refuse("kill", O.kill)
    subprocess.Popen.__init__ = refuse("Popen", subprocess.Popen.__init__)

    try:
        import fcntl
        _flock, _lockf = fcntl.flock, fcntl.lockf
        _locks = {}

        def sim_flock(fd, op):
            w = CUR.world
            n = fd if isinstance(fd, int) else fd.fileno()
            if w is not None and n >= FD0:
                node = w.fs._fd(n)[0]
                held = getattr(w, "flocks", None)
                if held is None:
                    held = w.flocks = {}
                # locks die with their descriptor or process
                def holder():
                    h = held.get(node.ino)
                    if h is None or h[0] not in w.fs.fds or h[1].dead:
                        return None
                    return h
                if op & fcntl.LOCK_UN:
                    h = held.get(node.ino)
                    if h and h[0] == n:
                        held.pop(node.ino)
                    return None
                w.syscall("flock", w.fs._fd(n)[3], False)
                h = holder()
                if h is not None and h[0] != n:
                    if op & fcntl.LOCK_NB:
                        raise BlockingIOError(errno.EAGAIN, "locked")
                    s = CUR.sched
                    if isinstance(s, Scheduler) and s.in_task():
                        s.block(lambda: holder() is None)
                    else:
                        raise SimHang("file lock waits for itself")
                held[node.ino] = (n, w.proc)
                return None
            return _flock(fd, op)
        fcntl.flock = sim_flock
        fcntl.lockf = lambda fd, op, *a: sim_flock(fd, op)
    except ImportError:
        pass

    # time
    def timef(name, simf):
        orig = getattr(time, name)

        def f():
            w = CUR.world
            return orig() if w is None else simf(w.clock)
        f.__name__ = name
        setattr(time, name, f)
    timef("time", lambda c: c.time())
    timef("monotonic", lambda c: c.monotonic())
    timef("perf_counter", lambda c: c.monotonic())
    timef("process_time", lambda c: c.monotonic())
    timef("time_ns", lambda c: int(c.time() * 1e9))
    timef("monotonic_ns", lambda c: int(c.monotonic() * 1e9))
    timef("perf_counter_ns", lambda c: int(c.monotonic() * 1e9))
    time.sleep = lambda d: (real.sleep(d) if CUR.world is None else CUR.world.clock.sleep(d))
    for n in ("gmtime", "localtime"):
        def mk(orig):
            def f(secs=None):
                if secs is None and CUR.world is not None:
                    secs = CUR.world.clock.time()
                return orig(secs)
            return f
        setattr(time, n, mk(getattr(time, n)))
    datetime.datetime = SimDateTime
    datetime.date = SimDate

    # locks and threads
    threading.Lock = lambda: SimLock() if CUR.world is not None else _real_Lock()
    threading.RLock = lambda *a, **k: SimRLock() if CUR.world is not None else _real_RLock(*a, **k)
    threading._allocate_lock = lambda: SimLock() if CUR.world is not None else _real_alloc()

    def sim_start(fn, args=(), kw={}):
        s = CUR.sched
        w = CUR.world
        if w is None:
            return _real_start(fn, args, kw)
        if isinstance(s, Scheduler):
            t = s.spawn(lambda: fn(*args, **kw), "thread", w.proc)
            return 100000 + t.id
        raise SimEscape("thread started outside a scheduled run")
    threading._start_new_thread = sim_start

    # names and places
    tempfile._get_candidate_names = lambda: _names()
    def _names():
        while True:
            w = CUR.world
            if w is None:
                yield "x%d" % int(real.monotonic() * 1e9)
            else:
                w.tmpn += 1
                yield "tmp%05d" % w.tmpn
    orig_gettempdir = tempfile.gettempdir
    tempfile.gettempdir = lambda: "/simfs/tmp" if CUR.world is not None else orig_gettempdir()
    orig_sys = platform.system
    platform.system = lambda: CUR.world.platform if CUR.world is not None else orig_sys()

    # network
    import urllib.request
    orig_open = urllib.request.OpenerDirector.open

    def sim_urlopen(self, fullurl, data=None, timeout=None):
        w = CUR.world
        if w is None:
            return orig_open(self, fullurl, data, timeout)
        return w.net.urlopen(fullurl, data, timeout)
    urllib.request.OpenerDirector.open = sim_urlopen

    def no_net(orig):
        def f(*a, **k):
            if CUR.world is not None:
                CUR.world.escapes.append("socket")
                raise OSError(errno.ENETUNREACH, "Network is unreachable")
            return orig(*a, **k)
        return f
    socket.create_connection = no_net(socket.create_connection)
    socket.getaddrinfo = no_net(socket.getaddrinfo)

    # displayed warnings are recorded per process
    def show(msg):
        w = CUR.world
        if w is None or w.proc is None:
            return _orig_showwarnmsg_impl(msg)
        w.proc.shown.append((msg.category.__name__, str(msg.message)))
        w.log("warning %s" % msg.category.__name__)
    warnings._showwarnmsg_impl = show

    # imports of several simulated processes interleave; the baton already serialises them
    class _NoLock:
        def __init__(self, name):
            pass

        def __enter__(self):
            pass

        def __exit__(self, *a):
            pass
    importlib._bootstrap._ModuleLockManager = _NoLock
    sys.meta_path.insert(0, _Finder())
    from . import pool
    pool.install()
    from . import rng
    rng.install()
    precompile()


def _preload():
    import numpy, json, pickle, copy, re, cmath, struct  # noqa
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot, matplotlib.widgets, matplotlib.patches, matplotlib.path, matplotlib.transforms  # noqa
    import urllib.request, urllib.error, http.client, ssl, email.message, email.parser  # noqa
    import packaging.version  # noqa
    import multiprocessing, multiprocessing.pool, concurrent.futures, concurrent.futures.process  # noqa
    import concurrent.futures.thread, multiprocessing.dummy, queue, functools, itertools, pathlib, shutil  # noqa
    import PIL.PngImagePlugin, matplotlib.backends.backend_agg, pygments  # noqa
