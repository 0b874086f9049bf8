"""
The simulated world: every seam through which the code under test meets something
that it does not control.

One World is one simulated process lifetime.  It owns

* a disk: a real scratch directory, reached only through intercepted calls (open, read,
  write, close, stat, unlink, mkdir, rename ...), each of which can be made to fail, be
  shortened, be interrupted or crash the process;
* the locale (text encoding used when the code does not name one);
* the process environment, the host name, uuid4, the user's answers, stdout/stderr;
* child processes (the `modulecmd` executable).

Nothing here draws random numbers: a case (plain JSON data, generated from the seed) says
which faults are armed when, so one case is one exactly repeatable execution.
"""
import builtins
import errno
import io
import os
import platform
import random
import shutil
import socket
import subprocess
import sys
import tempfile
import time
import uuid

REAL = {
    "open": builtins.open,
    "os.open": os.open,
    "os.read": os.read,
    "os.write": os.write,
    "os.close": os.close,
    "os.fsync": os.fsync,
    "os.ftruncate": os.ftruncate,
    "os.stat": os.stat,
    "os.lstat": os.lstat,
    "os.unlink": os.unlink,
    "os.remove": os.remove,
    "os.mkdir": os.mkdir,
    "os.rename": os.rename,
    "os.replace": os.replace,
    "os.rmdir": os.rmdir,
    "os.access": os.access,
    "os.truncate": os.truncate,
    "os.link": os.link,
    "os.symlink": os.symlink,
    "os.chmod": os.chmod,
    "os.system": os.system,
    "os.uname": os.uname,
    "os.urandom": os.urandom,
    "time.time": time.time,
    "time.monotonic": time.monotonic,
    "time.perf_counter": time.perf_counter,
    "time.sleep": time.sleep,
    "Popen": subprocess.Popen,
    "gethostname": socket.gethostname,
    "uuid4": uuid.uuid4,
    "input": builtins.input,
    "stdout": sys.stdout,
    "stderr": sys.stderr,
    "environ": dict(os.environ),
}

_cur = [None]          # the world of the running execution


def _stub(key, real):
    """The permanent stand-in of one function: the current world's version of it, the real one without a world.
    Code that binds it once (from os import stat) still reaches the world of each execution."""

    def f(*a, **k):
        w = _cur[0]
        return (real if w is None else w.seams.get(key, real))(*a, **k)

    f.__name__ = f.__qualname__ = key.rpartition(".")[2]
    return f


class _Popen:
    """Permanent stand-in of subprocess.Popen."""

    def __new__(cls, *a, **k):
        w = _cur[0]
        return REAL["Popen"](*a, **k) if w is None else w._popen(*a, **k)

    def __class_getitem__(cls, item):
        return cls


def _install_stubs():
    for key, real in REAL.items():
        mod, _, name = key.rpartition(".")
        if mod in ("os", "time"):
            setattr(sys.modules[mod], name, _stub(key, real))
    builtins.open = io.open = _stub("open", REAL["open"])
    builtins.input = _stub("input", REAL["input"])
    socket.gethostname = _stub("gethostname", REAL["gethostname"])
    uuid.uuid4 = _stub("uuid4", REAL["uuid4"])
    subprocess.Popen = _Popen
    for n in ("supports_dir_fd", "supports_follow_symlinks", "supports_effective_ids", "supports_fd"):
        st = getattr(os, n)
        for key, real in REAL.items():
            if key.startswith("os.") and real in st:
                st.add(getattr(os, key[3:]))


ERRNO = {
    n: getattr(errno, n)
    for n in ("EIO", "EACCES", "ENOENT", "ENOSPC", "EMFILE", "EPERM", "EROFS", "ESTALE", "EDQUOT", "EAGAIN",
              "ENOMEM", "EPIPE", "ENOEXEC", "EINTR", "ELOOP", "ENOTDIR", "EISDIR")
}


class Violation(Exception):
    """The property does not hold on this execution."""

    def __init__(self, kind, detail=""):
        super().__init__(kind, detail)
        self.kind = kind
        self.detail = detail

    def __str__(self):
        return f"{self.kind}: {self.detail}"


class SimCrash(BaseException):
    """The simulated process died here. Nothing after this point reaches the disk."""


class Hang(BaseException):
    """The watchdog found that an execution does not finish."""


class Inadmissible(Exception):
    """A (shrunk) case is outside the domain of the property; it is not executed."""


class Injected(RuntimeError):
    """An error raised by a simulated user callback."""


class InjectedKey(KeyError):
    """A KeyError raised by a simulated user callback."""


class InjectedValue(ValueError):
    pass


class InjectedOS(OSError):
    pass


CALLBACK_ERRORS = {
    "err": Injected,
    "key": InjectedKey,
    "val": InjectedValue,
    "os": InjectedOS,
    "kbd": KeyboardInterrupt,
    "mem": MemoryError,
    "exit": SystemExit,
    "stop": StopIteration,
    "assert": AssertionError,
}


class Outcome:
    """Result of one call into the code under test."""

    __slots__ = ("ok", "value", "exc")

    def __init__(self, ok, value=None, exc=None):
        self.ok = ok
        self.value = value
        self.exc = exc

    def __repr__(self):
        if self.ok:
            return f"ok({self.value!r})"
        return f"raised({type(self.exc).__name__}: {str(self.exc)[:160]!r})"


class World:

    def __init__(self, root):
        self.root = root            # scratch directory of this worker
        self.log = []               # event log, path independent
        self.counts = {}            # fault kinds that actually fired, and probes
        self.steps = 0              # seam crossings
        self.faults = []            # armed faults
        self.crashed = False
        self.locale = "utf-8"
        self.hostname = "simhost"
        self.answers = []
        self.asked = 0
        self.uuids = 0
        self.procs = None           # process model: callable(cmd, env) -> dict
        self.on_step = None         # invariant called after each disk mutation
        self.on_disk_change = None
        self.chunk = None           # maximum bytes per raw read/write
        self.out = None
        self.err = None
        self._installed = False
        self.bypass = 0             # >0 while the harness itself uses the disk
        self.fds = {}               # descriptors opened by os.open on the simulated disk
        self.torn_fds = set()
        self.clock = 0.0            # simulated seconds
        self.seams = {}

    # ------------------------------------------------------------------ helpers
    def path(self, name):
        return os.path.join(self.root, name)

    def rel(self, p):
        if self.bypass:
            return None
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        ap = p if os.path.isabs(p) else os.path.join(os.getcwd(), p)
        ap = os.path.normpath(ap)
        if ap == self.root:
            return "."
        if ap.startswith(self.root + os.sep):
            return ap[len(self.root) + 1:]
        return None

    def note(self, *event):
        self.log.append(event)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def probe(self, name):
        self.count("probe." + name)

    def __enter__(self):
        self.bypass += 1

    def __exit__(self, *a):
        self.bypass -= 1

    # raw disk access for the harness (never intercepted, never faulted)
    def put(self, name, data):
        with self:
            if isinstance(data, str):
                data = data.encode("utf-8")
            p = self.path(name)
            d = os.path.dirname(p)
            if not os.path.isdir(d):
                os.makedirs(d, exist_ok=True)
            fd = REAL["os.open"](p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
            try:
                if data:
                    REAL["os.write"](fd, data)
            finally:
                REAL["os.close"](fd)

    def get(self, name):
        with self:
            try:
                with REAL["open"](self.path(name), "rb") as f:
                    return f.read()
            except FileNotFoundError:
                return None
            except (IsADirectoryError, NotADirectoryError):
                return None

    def drop(self, name):
        with self:
            p = self.path(name)
            try:
                REAL["os.unlink"](p)
            except FileNotFoundError:
                pass
            except IsADirectoryError:
                shutil.rmtree(p)

    def wipe(self):
        with self:
            for e in os.listdir(self.root):
                p = os.path.join(self.root, e)
                if os.path.isdir(p) and not os.path.islink(p):
                    shutil.rmtree(p, ignore_errors=True)
                else:
                    try:
                        REAL["os.unlink"](p)
                    except OSError:
                        pass

    def tree(self):
        """All files of the disk: {relative name: bytes}."""
        with self:
            out = {}
            for d, _, fs in os.walk(self.root):
                for f in fs:
                    p = os.path.join(d, f)
                    with REAL["open"](p, "rb") as fh:
                        out[os.path.relpath(p, self.root)] = fh.read()
            return out

    # ------------------------------------------------------------------ faults
    def arm(self, fault):
        f = dict(fault)
        f["seen"] = 0
        self.faults.append(f)

    def heal(self):
        self.faults = []

    def _hit(self, op, name):
        """The armed fault that applies to this seam crossing, if any."""
        hit = None
        for f in self.faults:
            if f["op"] != op and not (f["op"] == "*" and op in ("open_r", "read", "open_w", "write", "close")):
                continue
            pat = f.get("path", "*")
            if pat != "*" and pat != name and not (pat.startswith("~") and pat[1:] in (name or "")):
                continue
            k = f["seen"]
            f["seen"] = k + 1
            nth = f.get("nth", 0)
            if nth <= k < nth + f.get("span", 1) and hit is None:
                hit = f
        return hit

    def fault_count(self):
        return sum(f.get("fired", 0) for f in self.faults)

    def cross(self, op, name, extra=None):
        """One seam crossing. Returns the action of a fault to be carried out by the caller
        ("short", "swap", ...) or None; raises the errors that a fault demands."""
        if self.crashed:
            raise SimCrash()
        self.steps += 1
        self.log.append((op, name) if extra is None else (op, name, extra))
        f = self._hit(op, name)
        if f is None:
            return None
        act = f["act"]
        f["fired"] = f.get("fired", 0) + 1
        self.count(f"fault.{op}.{act}")
        self.log.append(("FAULT", op, name, act))
        if act in ERRNO:
            e = ERRNO[act]
            raise OSError(e, os.strerror(e), name)
        if act == "kbd":
            raise KeyboardInterrupt()
        if act == "mem":
            raise MemoryError()
        if act == "crash":
            self.crashed = True
            raise SimCrash()
        if act == "vanish":
            self.drop(name)
            return None
        if act == "swap":
            self.drop(name)          # a new file: readers of the old one keep the old content
            self.put(name, f["data"])
            return None
        if act == "swapdir":
            self.drop(name)
            with self:
                os.makedirs(self.path(name), exist_ok=True)
            return None
        return f

    # ------------------------------------------------------------------ calls into the code under test
    def call(self, fn, *a, **k):
        """Call the code under test; every exception is an outcome."""
        try:
            return Outcome(True, fn(*a, **k))
        except (Violation, Inadmissible, Hang):
            raise
        except BaseException as ex:   # noqa: the outcome may be any exception
            if type(ex) is SimCrash:
                self.crashed = True
            return Outcome(False, None, ex)

    def take_output(self):
        """What was printed since the last call."""
        t = self.out.getvalue() + self.err.getvalue()
        self.out.seek(0); self.out.truncate(0)
        self.err.seek(0); self.err.truncate(0)
        return t

    # ------------------------------------------------------------------ install
    def install(self, environ=None):
        w = self
        self._installed = True
        self._saved_env = dict(os.environ)
        self._saved_cwd = os.getcwd()
        if environ is not None:
            os.environ.clear()
            os.environ.update(environ)
        self.seams = sm = {"open": self._open}

        def wrap1(fname, op, mutates):
            real = REAL[fname]

            def f(path, *a, **k):
                name = w.rel(path) if isinstance(path, (str, bytes, os.PathLike)) else None
                if name is not None:
                    w.cross(op, name)
                r = real(path, *a, **k)
                if mutates and name is not None:
                    w.changed()
                return r

            return f

        def wrap2(fname, op):
            real = REAL[fname]

            def f(src, dst, *a, **k):
                name = w.rel(dst)
                if name is not None or w.rel(src) is not None:
                    w.cross(op, name)
                r = real(src, dst, *a, **k)
                w.changed()
                return r

            return f

        sm["os.stat"] = wrap1("os.stat", "stat", False)
        sm["os.lstat"] = wrap1("os.lstat", "lstat", False)

        def os_access(path, mode, *a, **k):
            name = w.rel(path) if isinstance(path, (str, bytes, os.PathLike)) else None
            if name is not None:
                try:
                    if w.cross("access", name) is not None:
                        return False        # an ordinary user; the simulation runs as root
                except OSError:
                    return False
            return REAL["os.access"](path, mode, *a, **k)

        sm["os.access"] = os_access
        sm["os.unlink"] = wrap1("os.unlink", "unlink", True)
        sm["os.remove"] = wrap1("os.remove", "unlink", True)
        sm["os.mkdir"] = wrap1("os.mkdir", "mkdir", True)
        sm["os.rmdir"] = wrap1("os.rmdir", "unlink", True)
        sm["os.truncate"] = wrap1("os.truncate", "write", True)
        sm["os.chmod"] = wrap1("os.chmod", "chmod", False)
        sm["os.rename"] = wrap2("os.rename", "rename")
        sm["os.replace"] = wrap2("os.replace", "rename")
        sm["os.link"] = wrap2("os.link", "rename")
        sm["os.symlink"] = wrap2("os.symlink", "rename")

        def os_open(path, flags, *a, **k):
            name = w.rel(path) if isinstance(path, (str, bytes, os.PathLike)) else None
            if name is not None:
                wr = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
                w.cross("open_w" if wr else "open_r", name)
            fd = REAL["os.open"](path, flags, *a, **k)
            if name is not None:
                w.fds[fd] = name
                w.torn_fds.discard(fd)
                if wr:
                    w.changed()
            return fd

        def os_read(fd, n):
            if fd not in w.fds or w.bypass:
                return REAL["os.read"](fd, n)
            f = w.cross("read", w.fds[fd])
            if w.chunk:
                n = min(n, w.chunk)
            if f is not None and f["act"] == "short":
                n = min(n, max(1, f.get("n", 1)))
            return REAL["os.read"](fd, n)

        def os_write(fd, b):
            if fd not in w.fds or w.bypass:
                return REAL["os.write"](fd, b)
            torn = fd in w.torn_fds
            w.torn_fds.discard(fd)
            n, torn = w.raw_write(w.fds[fd], lambda mv: REAL["os.write"](fd, mv), b, torn)
            if torn:
                w.torn_fds.add(fd)
            return n

        def os_close(fd):
            name = w.fds.pop(fd, None)
            w.torn_fds.discard(fd)
            try:
                if name is not None and w._installed and not w.bypass:
                    w.cross("close", name)
            finally:
                REAL["os.close"](fd)

        def os_fsync(fd):
            if fd in w.fds and not w.bypass:
                w.cross("fsync", w.fds[fd])
            return REAL["os.fsync"](fd) if fd not in w.fds else None

        def os_ftruncate(fd, n):
            if fd in w.fds and not w.bypass:
                w.cross("write", w.fds[fd])
            r = REAL["os.ftruncate"](fd, n)
            w.changed()
            return r

        sm["os.open"] = os_open
        sm["os.read"] = os_read
        sm["os.write"] = os_write
        sm["os.close"] = os_close
        sm["os.fsync"] = os_fsync
        sm["os.ftruncate"] = os_ftruncate
        tempfile._name_sequence = iter("cpesim%06d" % i for i in range(10**6))
        shutil._USE_CP_SENDFILE = False
        random.seed(0x5eed)
        platform._uname_cache = None
        sm["gethostname"] = self._gethostname
        sm["uuid4"] = self._uuid4
        sm["input"] = self._input
        sm["os.system"] = self._system
        sm["os.uname"] = self._uname
        sm["os.urandom"] = lambda n: random.randbytes(n)
        for n in ("time", "monotonic", "perf_counter"):
            sm["time." + n] = self._clock
        sm["time.sleep"] = self._sleep
        _cur[0] = self
        self.out = SimOut(self)
        self.err = SimOut(self)
        sys.stdout = self.out
        sys.stderr = self.err

    def uninstall(self):
        if not self._installed:
            return
        self._installed = False
        _cur[0] = None
        platform._uname_cache = None
        for fd in list(self.fds):      # descriptors of a process that died
            try:
                REAL["os.close"](fd)
            except OSError:
                pass
        self.fds = {}
        sys.stdout = REAL["stdout"]
        sys.stderr = REAL["stderr"]
        os.chdir(self._saved_cwd)
        os.environ.clear()
        os.environ.update(self._saved_env)

    def changed(self):
        if self.on_disk_change is not None and not self.crashed:
            self.on_disk_change()

    # ------------------------------------------------------------------ seams
    def raw_write(self, name, real, b, torn):
        """One write system call. Returns (bytes written, the next write of this file fails)."""
        f = self.cross("write", name)
        if torn:
            raise OSError(errno.EIO, "Input/output error", name)
        mv = memoryview(b).cast("B")
        n = len(mv)
        if self.chunk:
            n = min(n, self.chunk)
        if f is not None:
            if f["act"] == "short":
                n = min(n, max(1, f.get("n", 1)))
            elif f["act"] == "torn":
                # part of the data reaches the disk (a short write), then the device fails; this is how a
                # kernel reports it: the count first, the error with the next write
                n = f.get("n", 1) % max(1, len(mv))
                if n == 0:
                    raise OSError(errno.EIO, "Input/output error", name)
                torn = True
            elif f["act"] == "torncrash":
                part = mv[:f.get("n", 1) % (len(mv) + 1)]
                if len(part):
                    real(part)
                    self.changed()
                self.crashed = True
                raise SimCrash()
        r = real(mv[:n])
        self.changed()
        return r, torn

    def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True,
              opener=None):
        name = None
        if isinstance(file, (str, bytes, os.PathLike)):
            name = self.rel(file)
        elif isinstance(file, int) and not self.bypass:
            name = self.fds.get(file)
        if name is None or not self._installed:
            return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        write = any(c in mode for c in "wax+")
        if not isinstance(file, int):
            self.cross("open_w" if write else "open_r", name)
        binary = "b" in mode
        rawmode = mode.replace("b", "").replace("t", "")
        raw = SimFileIO(self, name, file, rawmode, closefd, opener)
        if write:
            self.changed()
        if binary and buffering == 0:
            return raw
        if "+" in rawmode:
            buf = io.BufferedRandom(raw)
        elif write:
            buf = io.BufferedWriter(raw)
        else:
            buf = io.BufferedReader(raw)
        if binary:
            return buf
        if encoding is None or encoding == "locale":
            encoding = self.locale
        text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        text.mode = mode
        return text

    def _gethostname(self):
        self.cross("hostname", None)
        return self.hostname

    def _uname(self):
        u = REAL["os.uname"]()
        return type(u)((u.sysname, self._gethostname(), u.release, u.version, u.machine))

    def _clock(self):
        return 1.6e9 + self.clock

    def _sleep(self, s):
        self.steps += 1
        self.clock += max(0.0, float(s))
        self.log.append(("sleep", s))

    def _uuid4(self):
        self.uuids += 1
        self.log.append(("uuid", self.uuids))
        return uuid.UUID(int=(0x5eed0000 + self.uuids) << 96 | self.uuids)

    def _input(self, prompt=""):
        self.cross("input", None)
        self.asked += 1
        if not self.answers:
            raise EOFError("EOF when reading a line")
        a = self.answers.pop(0)
        if a is None:
            raise EOFError("EOF when reading a line")
        return a

    def _popen(self, cmd, *a, **k):
        if self.procs is None:
            raise RuntimeError("harness: no process model for %r" % (cmd,))
        return self.procs(self, cmd, a, k)

    def _system(self, cmd):
        if getattr(self, "system_model", None) is None:
            raise RuntimeError("harness: no os.system model for %r" % (cmd,))
        return self.system_model(self, cmd)


class SimOut(io.StringIO):
    """stdout or stderr: a pipe whose reader may go away."""

    def __init__(self, world):
        super().__init__()
        self._w = world

    def write(self, text):
        w = self._w
        if w._installed and not w.bypass and any(f["op"] == "stdout" for f in w.faults):
            w.cross("stdout", None)
        return super().write(text)


class SimFileIO(io.FileIO):
    """The raw (system call) layer of one open file."""

    def __init__(self, world, name, file, mode, closefd=True, opener=None):
        self._w = world
        self._n = name
        self._closed_once = False
        self._torn = False
        fmode = mode
        super().__init__(file, fmode, closefd, opener)
        if isinstance(file, int) or opener is not None:
            # from now on the descriptor belongs to this object
            self._n = world.fds.pop(self.fileno(), self._n)

    def readinto(self, b):
        w = self._w
        f = w.cross("read", self._n)
        n = len(b)
        if w.chunk:
            n = min(n, w.chunk)
        if f is not None and f["act"] == "short":
            n = min(n, max(1, f.get("n", 1)))
        if n < len(b):
            mv = memoryview(b).cast("B")[:n]
            return super().readinto(mv)
        return super().readinto(b)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        b = bytearray(size)
        n = self.readinto(b)
        return None if n is None else bytes(b[:n])

    def readall(self):
        out = bytearray()
        while True:
            b = bytearray(8192)
            n = self.readinto(b)
            if not n:
                return bytes(out)
            out += b[:n]

    def write(self, b):
        torn, self._torn = self._torn, False
        n, self._torn = self._w.raw_write(self._n, super().write, b, torn)
        return n

    def close(self):
        if self.closed or self._closed_once:
            super().close()
            return
        self._closed_once = True
        w = self._w
        try:
            if w._installed:
                w.cross("close", self._n)
        finally:
            super().close()


_install_stubs()
