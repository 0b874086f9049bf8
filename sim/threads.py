"""
Seeded interleavings of real threads.

Every simulated thread is a real thread, but only the one that holds the baton runs.  A
trace function on the files of the code under test makes every executed source line (or
every bytecode) a scheduling point; the schedule - plain data, part of the case - says
after how many points the baton goes to which thread.  Locks of the `threading` module are
replaced by ones that give up the baton instead of blocking.
"""
import _thread
import os
import pickle
import random
import signal
import sys
import threading

from . import target
from .world import Hang

_current = None        # the running scheduler, if any


class Sched:

    def __init__(self, plan, opcodes=False, aim=None):
        self.plan = list(plan)          # [[points, thread], ...]
        # switch also at every execution of some source lines: those whose hash is res modulo mod
        self.aim = aim                  # None or [mod, res, seed]
        self.rng = random.Random(aim[2]) if aim else None
        self.opcodes = opcodes
        self.left = 0
        self.cur = None
        self.points = 0
        self.switches = 0
        self.trail = []                 # (thread, points) of every slice, for the event log
        self.prefix = target.REPO + os.sep
        self.start = 0

    def run(self, bodies):
        """Run the bodies (callables) to completion; returns when all have finished."""
        global _current
        n = len(bodies)
        self.alive = set(range(n))
        self.locks = [_thread.allocate_lock() for _ in range(n)]
        for l in self.locks:
            l.acquire()
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.ids = {}
        self.blocked = set()
        started = []
        for i, b in enumerate(bodies):
            t = threading.Thread(target=self._body, args=(i, b), daemon=True)
            started.append(t)
        _current = self
        try:
            for t in started:
                t.start()
            self._next(0)
            self.locks[self.cur].release()
            self.done.acquire()
            for t in started:
                t.join()
        finally:
            _current = None

    def _body(self, i, b):
        self.ids[_thread.get_ident()] = i
        self.locks[i].acquire()
        sys.settrace(self._trace)
        try:
            b()
        finally:
            sys.settrace(None)
            self.trail.append((i, self.points - self.start))
            self.alive.discard(i)
            if self.alive:
                self._next(i)
                self.locks[self.cur].release()
            else:
                self.done.release()

    def _next(self, i):
        """Choose the next slice."""
        self.start = self.points
        if self.plan:
            n, t = self.plan.pop(0)
            if t not in self.alive:
                t = min((x for x in self.alive if x > t), default=min(self.alive))
            self.left, self.cur = n, t
        else:
            self.left, self.cur = 1 << 60, (i if i in self.alive else min(self.alive))

    def point(self):
        """One scheduling point of the running thread."""
        self.points += 1
        self.left -= 1
        if self.left > 0:
            return
        self.hand_over()

    def at_line(self, frame):
        """Preempt the running thread if it is about to execute a target line."""
        t = self.aim
        if (frame.f_lineno * 2654435761 + len(frame.f_code.co_filename[len(self.prefix):])) % 1000003 % t[0] != t[1]:
            return False
        others = sorted(x for x in self.alive if x != self.cur)
        if not others:
            return False
        self.points += 1
        self.plan.insert(0, [1 << 60, self.rng.choice(others)])
        self.hand_over()
        return True

    def hand_over(self):
        me = self.cur
        s = self.start
        self._next(me)
        if self.cur != me:
            self.trail.append((me, self.points - s))
            self.switches += 1
            self.locks[self.cur].release()
            self.locks[me].acquire()
        else:
            self.start = s

    def give_up(self):
        """The running thread cannot go on (it waits for a lock): let another one run."""
        me = self.cur
        others = sorted(x for x in self.alive if x != me)
        if not others:
            raise Hang()
        self.trail.append((me, self.points - self.start))
        self.start = self.points
        later = [x for x in others if x > me]
        self.cur = later[0] if later else others[0]
        self.left = max(self.left, 1)
        self.locks[self.cur].release()
        self.locks[me].acquire()

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.prefix):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            return self._local_op
        return self._local

    def _local(self, frame, event, arg):
        if event == "line":
            if self.aim is None or not self.at_line(frame):
                self.point()
        return self._local

    def _local_op(self, frame, event, arg):
        if event == "opcode":
            self.point()
        return self._local_op


class SimLock:
    """threading.Lock / RLock that a simulated thread can wait for without stopping the simulation."""

    def __init__(self, real):
        self._l = real

    def acquire(self, blocking=True, timeout=-1):
        s = _current
        if s is None or _thread.get_ident() not in s.ids or not blocking or timeout not in (-1, None):
            return self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            s.give_up()
        return True

    def release(self):
        self._l.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, n):
        return getattr(self._l, n)


_orig = {"Lock": threading.Lock, "RLock": threading.RLock}


def install_locks():
    threading.Lock = lambda: SimLock(_orig["Lock"]())
    threading.RLock = lambda: SimLock(_orig["RLock"]())


def uninstall_locks():
    threading.Lock = _orig["Lock"]
    threading.RLock = _orig["RLock"]


def isolated(fn, cpu=20):
    """Run fn in a forked child, so that what it leaves in modules and classes is lost; returns its result."""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            os.close(r)
            import resource
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 1))
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(60)
            try:
                res = ("ok", fn())
            except Hang:
                res = ("hang", None)
            except BaseException as ex:
                import traceback
                res = ("error", "".join(traceback.format_exception(ex)))
            data = pickle.dumps(res)
            with os.fdopen(wfd, "wb", closefd=True) as f:
                f.write(data)
            rc = 0
        finally:
            os._exit(rc)
    os.close(wfd)
    chunks = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    data = b"".join(chunks)
    if not data:
        raise Hang()
    kind, val = pickle.loads(data)
    if kind == "hang":
        raise Hang()
    if kind == "error":
        raise RuntimeError("harness: isolated run failed\n" + val)
    return val
