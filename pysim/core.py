"""Deterministic simulator for the Python implementation: one virtual clock, one seeded list of choices.

Every thread of the simulated processes is a task; exactly one runs at a time and the scheduler decides which one
continues at every call of the simulated threading/queue/socket modules and, in part of the runs, between any two lines
of the implementation. Choice 0 is always the plainest one (go on, no fault).
"""
import ctypes
import heapq
import random
import sys
import threading as _rt
import zlib

MAXSTEPS = 40000
MAXLINES = 4000000
MAXWALL = 6        # seconds of real time without a step of the simulation: an endless loop


class Kill(BaseException):
    pass


class Violation(Exception):
    pass


class Task(object):
    __slots__ = ("sim", "name", "fn", "lock", "state", "locals", "timer", "proc", "waits", "obj", "gap", "exc", "daemon", "woken", "ident", "intr")

    def __init__(self, sim, name, fn, proc):
        self.sim, self.name, self.fn, self.proc = sim, name, fn, proc
        self.lock = _rt.Lock()
        self.lock.acquire()
        self.state = "new"
        self.locals = {}
        self.timer = None
        self.waits = []     # tasks joined on this one
        self.obj = None
        self.gap = 0
        self.exc = None
        self.woken = False
        self.intr = False       # a signal for the main thread of a process


class _Worker(object):
    """A pooled OS thread that runs one task after the other."""
    def __init__(self, pool):
        self.pool = pool
        self.go = _rt.Lock()
        self.go.acquire()
        self.task = None
        t = _rt.Thread(target=self.loop, daemon=True)
        t.start()

    def loop(self):
        while True:
            self.go.acquire()
            self.task.sim._body(self.task)
            self.task = None
            self.pool.append(self)


_pool = []


class Sim(object):
    cur = None      # the running simulator (one per process)

    def __init__(self, seed=None, choices=None, trace=None):
        self.rng = random.Random(seed) if choices is None else None
        self.replay = choices
        self.pos = 0
        self.rec = []
        self.now = 0
        self.seq = 0
        self.events = []
        self.ready = []
        self.tasks = []
        self.current = None
        self.done = _rt.Lock()
        self.done.acquire()
        self.viol = None
        self.hash = 0
        self.steps = 0
        self.switches = 0
        self.ops = 0
        self.faults = {}
        self.probes = {}
        self.trace = trace
        self.killing = False
        self.faulty = True
        self.preempt = 0
        self.linegap = 0
        self.files = None
        self.lines = 0
        self.loglevel = 30

    # -- choices
    def choose(self, n, w=None):
        """A number below n; w: chance (numerator of 256) that it is not 0."""
        if n <= 1 or self.killing:
            return 0
        if self.replay is not None:
            v = self.replay[self.pos] % n if self.pos < len(self.replay) else 0
            self.pos += 1
        elif w is None:
            v = self.rng.randrange(n)
        else:
            v = 0 if self.rng.randrange(256) >= w else self.rng.randrange(1, n)
        self.rec.append(v)
        return v

    def chance(self, w):
        return self.choose(2, w) == 1

    def fault(self, kind, w):
        if self.faulty and not self.killing and self.choose(2, w):
            self.faults[kind] = self.faults.get(kind, 0) + 1
            return True
        return False

    def probe(self, kind):
        self.probes[kind] = self.probes.get(kind, 0) + 1

    # -- history
    def log(self, *a):
        s = "%d %s %s" % (self.now // 1000, self.current.name if self.current else "-", " ".join(str(x) for x in a))
        self.hash = zlib.crc32(s.encode("utf-8", "replace"), self.hash)
        if self.trace is not None:
            self.trace.append(s)

    def fail(self, tag, msg):
        if self.viol is None and not self.killing:
            self.viol = (tag, msg)
            self.log("VIOLATION", tag, msg)
        if self.current is not None and not self.killing:
            self._end()
            raise Kill()

    # -- events
    def at(self, t, fn):
        self.seq += 1
        e = [max(t, self.now), self.seq, fn]
        heapq.heappush(self.events, e)
        return e

    def after(self, d, fn):
        return self.at(self.now + d, fn)

    # -- tasks
    def spawn(self, fn, name, proc):
        t = Task(self, name, fn, proc)
        self.tasks.append(t)
        t.state = "ready"
        self.ready.append(t)
        w = _pool.pop() if _pool else _Worker(_pool)
        w.task = t
        w.go.release()
        return t

    def _watch(self):
        """Waits for the end of the run; a thread that loops without an end is unwound."""
        last = None
        while not self.done.acquire(timeout=MAXWALL):
            x = (self.steps, self.current, len(self.rec))
            if x == last or self.killing:
                if self.viol is None:
                    self.viol = ("HANG", "%s runs without an end" % self.current.name)
                self.killing = True
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(self.current.ident), ctypes.py_object(Kill))
            last = x

    def _body(self, t):
        t.lock.acquire()
        t.ident = _rt.get_ident()
        try:
            if not self.killing:
                if self.linegap:
                    sys.settrace(self._tr)
                try:
                    t.fn()
                finally:
                    sys.settrace(None)
        except Kill:
            pass
        except BaseException as ex:     # reported by the wrapper of the application or of the thread
            if not self.killing:
                import traceback
                tb = traceback.extract_tb(ex.__traceback__)
                where = " < ".join("%s:%s" % (f.filename.rsplit("/", 1)[-1], f.name) for f in reversed(tb[-4:]))
                if self.viol is None:
                    self.viol = ("HARNESS", "%s: %s in %s (%s)" % (type(ex).__name__, ex, t.name, where))
                self._end()
        t.state = "dead"
        for o in t.waits:
            self.wake(o)
        t.waits = []
        self._exit_switch(t)

    def _tr(self, frame, ev, arg):
        if frame.f_code.co_filename.startswith(self.files):
            return self._trl
        return None

    def _trl(self, frame, ev, arg):
        if ev == "line" and not self.killing:
            t = self.current
            self.lines += 1
            if self.lines > MAXLINES:
                self.fail("HANG", "%s runs without an end" % t.name)
            t.gap -= 1
            if t.gap < 0:
                t.gap = 4 + self.choose(self.linegap)
                if self.pos_ok():
                    self.point(force=True)
        return self._trl

    def pos_ok(self):
        return len(self.ready) > 0

    def wake(self, t):
        if t.state == "wait":
            t.state = "ready"
            t.woken = True
            if t.timer is not None:
                t.timer[2] = None
                t.timer = None
            self.ready.append(t)

    def interrupt(self, t):
        """SIGINT: the main thread of a Python process gets it while it waits for its queue."""
        t.intr = True
        if t.state == "wait" and t.obj == "queue":
            self.wake(t)

    def _timeout(self, t):
        t.timer = None
        t.state = "ready"
        t.woken = False
        self.ready.append(t)

    def block(self, timeout=None):
        """The current task waits until it is woken up (True) or for a time in ns (False)."""
        if self.killing:
            raise Kill()
        t = self.current
        t.state = "wait"
        if timeout is not None:
            t.timer = self.after(max(0, int(timeout)), lambda: self._timeout(t))
        self._switch(t)
        return t.woken

    def sleep(self, ns):
        self.block(ns)

    def point(self, force=False):
        """A call of the implementation: time passes, another task may run first."""
        if self.killing:
            raise Kill()
        self.steps += 1
        self.now += 2000
        if self.steps > MAXSTEPS:
            self.fail("STEPS", "the run does not end: %d steps" % self.steps)
        self._due()
        if self.ready and self.preempt and (self.choose(2, self.preempt) if not force else self.choose(2)):
            t = self.current
            t.state = "ready"
            self.ready.append(t)
            self._switch(t, True)

    def _due(self):
        ev = self.events
        while ev and (ev[0][2] is None or ev[0][0] <= self.now):
            f = heapq.heappop(ev)[2]
            if f:
                f()

    def _next(self, avoid=None):
        ev = self.events
        while True:
            self._due()
            if self.ready:
                n = len(self.ready)
                if avoid is not None and n > 1:
                    return self.ready.pop(self.choose(n - 1, 100))
                return self.ready.pop(self.choose(n, 100))
            if not ev:
                return None
            self.steps += 1
            if self.steps > MAXSTEPS * 2:
                return None
            if ev[0][0] > self.now:
                self.now = ev[0][0]

    def _switch(self, t, avoid=False):
        n = self._next(t if avoid else None)
        if n is None:
            if self.viol is None:
                self.viol = ("HANG", "nothing can run any more: " + self.where())
            self._end()
            raise Kill()
        if n is not t:
            self.switches += 1
            self.current = n
            n.state = "run"
            n.lock.release()
            t.lock.acquire()
        t.state = "run"
        if self.killing:
            raise Kill()

    def _exit_switch(self, t):
        if self.killing:
            self._kill_next()
            return
        try:
            n = self._next()
        except Kill:
            self._kill_next()
            return
        if n is None:
            live = [x for x in self.tasks if x.state != "dead"]
            if live and self.viol is None:
                self.viol = ("HANG", "nothing can run any more: " + self.where())
            self.killing = True
            self._kill_next()
            return
        self.switches += 1
        self.current = n
        n.state = "run"
        n.lock.release()

    def where(self):
        r = []
        for x in self.tasks:
            if x.state == "wait":
                r.append("%s waits in %s" % (x.name, x.obj))
        return "; ".join(r[:12])

    def _end(self):
        """Ends the run: every task is unwound, one after the other."""
        self.killing = True

    def _kill_next(self):
        for x in self.tasks:
            if x.state != "dead":
                self.current = x
                x.lock.release()
                return
        self.done.release()

    def run(self, fn):
        Sim.cur = self
        self.spawn(fn, "main", None)
        t = self.ready.pop()
        self.current = t
        t.state = "run"
        t.lock.release()
        self._watch()
        Sim.cur = None
