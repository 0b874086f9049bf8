"""Simulated child processes (the `modulecmd` executable and the shell's `type module`)."""
import io
import os
import subprocess

from .world import ERRNO


class SimPopen:
    """Stand-in for subprocess.Popen: the process has run to its end when it is collected.

    res["lag"]: how many polls find it still running; res["dur"]: simulated seconds it takes, which only
    matters to a caller that gives a timeout."""

    def __init__(self, w, args, res, kw):
        self._w = w
        self.args = args
        self._res = res
        self._kw = kw
        self.pid = 4242
        self._polls = 0
        self.returncode = None
        text = bool(kw.get("text") or kw.get("universal_newlines") or kw.get("encoding") or kw.get("errors"))
        self._text = text
        out, err = res.get("out", b""), res.get("err", b"")
        if isinstance(out, str):
            out = out.encode("utf-8", "surrogateescape")
        if isinstance(err, str):
            err = err.encode("utf-8", "surrogateescape")
        if kw.get("stderr") == subprocess.STDOUT:
            out, err = out + err, b""
        self._out, self._err = out, err
        self.stdin = None
        self.stdout = self._pipe(out) if kw.get("stdout") == subprocess.PIPE else None
        self.stderr = self._pipe(err) if kw.get("stderr") == subprocess.PIPE else None

    def _pipe(self, b):
        if self._text:
            return io.TextIOWrapper(io.BytesIO(b), encoding=self._kw.get("encoding") or "utf-8",
                                    errors=self._kw.get("errors"))
        return io.BytesIO(b)

    def _end(self, timeout=None):
        if timeout is not None and self.returncode is None and self._res.get("dur", 0) > timeout:
            self._w.count("fault.timeout")
            raise subprocess.TimeoutExpired(self.args, timeout)
        self.returncode = self._res.get("rc", 0)

    def communicate(self, input=None, timeout=None):
        self._w.cross("communicate", None)
        self._end(timeout)
        o = self.stdout.read() if self.stdout is not None else None
        e = self.stderr.read() if self.stderr is not None else None
        self._end()
        return o, e

    def wait(self, timeout=None):
        self._w.cross("wait", None)
        self._end(timeout)
        return self.returncode

    def poll(self):
        if self.returncode is None and self._polls < self._res.get("lag", 0):
            self._polls += 1
            self._w.count("fault.still_running")
            return None
        self._end()
        return self.returncode

    def kill(self):
        self._end()

    terminate = kill

    def send_signal(self, s):
        self._end()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._end()


class Modules:
    """The process model of one world: what the n-th modulecmd invocation does.

    outcomes: list of {"rc", "out", "err", "spawn"}; log: commands issued, in order.
    """

    def __init__(self, w, outcomes, type_module=None):
        self.w = w
        self.outcomes = list(outcomes)
        self.type_module = type_module     # text that the shell prints for `type module`
        self.log = []
        self.shell = 0

    def __call__(self, w, cmd, a, kw):
        if isinstance(cmd, str) or kw.get("shell"):
            self.shell += 1
            w.cross("spawn", "shell")
            t = self.type_module
            return SimPopen(w, cmd, {"rc": 1, "err": "type: module: not found"} if t is None else {"rc": 0, "out": t}, kw)
        cmd = [os.fspath(c) for c in cmd]
        w.note("spawn", cmd[1:])
        res = self.outcomes[len(self.log)] if len(self.log) < len(self.outcomes) else {"rc": 0}
        self.log.append(cmd)
        w.steps += 1
        if res.get("spawn"):
            w.count(f"fault.spawn.{res['spawn']}")
            e = ERRNO[res["spawn"]]
            raise OSError(e, os.strerror(e), cmd[0])
        w.cross("spawn", "modulecmd")
        if res.get("kind", "ok") != "ok":
            w.count(f"fault.modulecmd.{res['kind']}")
        return SimPopen(w, cmd, res, kw)
