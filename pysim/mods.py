"""The modules the implementation imports, over the simulator: threading, queue, time, socket."""
import errno
import os
import queue as _rq
import socket as _rs
import time as _rtime
import types

from core import Sim, Kill

MS = 1000000
SEC = 1000000000


def S():
    return Sim.cur


def _wait(waiters, what, timeout=None):
    """Blocks the current task in a list of waiters; True if woken up, False after the time."""
    s = Sim.cur
    t = s.current
    t.obj = what
    waiters.append(t)
    try:
        return s.block(None if timeout is None else timeout * SEC)
    finally:
        t.obj = None
        if t in waiters:
            waiters.remove(t)


def _wake_all(waiters):
    s = Sim.cur
    for t in list(waiters):
        s.wake(t)


# ---------------------------------------------------------------- threading
class Lock(object):
    _re = False

    def __init__(self):
        self.owner = None
        self.count = 0
        self.w = []

    def acquire(self, blocking=True, timeout=-1):
        s = Sim.cur
        if s.killing:
            return True
        s.point()
        me = s.current
        if self._re and self.owner is me:
            self.count += 1
            return True
        end = None if timeout is None or timeout < 0 else s.now + timeout * SEC
        while self.owner is not None:
            if not blocking or (end is not None and s.now >= end):
                return False
            _wait(self.w, "lock", None if end is None else (end - s.now) / SEC)
        self.owner = me
        self.count = 1
        return True

    def release(self):
        s = Sim.cur
        if s.killing:
            return
        if self.owner is None or (self._re and self.owner is not s.current):
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if self.w:
                s.wake(self.w[0])
        s.point()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner is Sim.cur.current


class RLock(Lock):
    _re = True


class Condition(object):
    def __init__(self, lock=None):
        self.lock = lock if lock is not None else RLock()
        self.acquire = self.lock.acquire
        self.release = self.lock.release
        self.w = []

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def wait(self, timeout=None):
        s = Sim.cur
        if s.killing:
            raise Kill()
        if self.lock.owner is not s.current:
            raise RuntimeError("cannot wait on un-acquired lock")
        n = self.lock.count
        self.lock.owner = None
        self.lock.count = 0
        if self.lock.w:
            s.wake(self.lock.w[0])
        r = _wait(self.w, "condition", timeout)
        while self.lock.owner is not None:
            _wait(self.lock.w, "lock")
        self.lock.owner = s.current
        self.lock.count = n
        return r

    def wait_for(self, predicate, timeout=None):
        s = Sim.cur
        end = None if timeout is None else s.now + timeout * SEC
        r = predicate()
        while not r:
            left = None if end is None else (end - s.now) / SEC
            if left is not None and left <= 0:
                break
            self.wait(left)
            r = predicate()
        return r

    def notify(self, n=1):
        s = Sim.cur
        if s.killing:
            return
        if self.lock.owner is not s.current:
            raise RuntimeError("cannot notify on un-acquired lock")
        for t in self.w[:n]:
            self.w.remove(t)
            s.wake(t)

    def notify_all(self):
        self.notify(len(self.w))

    notifyAll = notify_all


class Semaphore(object):
    _bound = None

    def __init__(self, value=1):
        if value < 0:
            raise ValueError("semaphore initial value must be >= 0")
        self.value = value
        self.w = []
        if self._bound is not None:
            self._bound = value

    def acquire(self, blocking=True, timeout=None):
        s = Sim.cur
        if s.killing:
            raise Kill()
        s.point()
        end = None if timeout is None else s.now + timeout * SEC
        while self.value == 0:
            if not blocking or (end is not None and s.now >= end):
                return False
            _wait(self.w, "semaphore", None if end is None else (end - s.now) / SEC)
        self.value -= 1
        return True

    def release(self, n=1):
        s = Sim.cur
        if s.killing:
            return
        if self._bound is not None and self.value + n > self._bound:
            raise ValueError("Semaphore released too many times")
        self.value += n
        for t in self.w[:n]:
            s.wake(t)
        s.point()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class BoundedSemaphore(Semaphore):
    _bound = 1


class Event(object):
    def __init__(self):
        self.flag = False
        self.w = []

    def is_set(self):
        return self.flag

    isSet = is_set

    def set(self):
        self.flag = True
        _wake_all(self.w)
        Sim.cur.point()

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        s = Sim.cur
        s.point()
        end = None if timeout is None else s.now + timeout * SEC
        while not self.flag:
            if end is not None and s.now >= end:
                break
            _wait(self.w, "event", None if end is None else (end - s.now) / SEC)
        return self.flag


class local(object):
    def _d(self):
        return Sim.cur.current.locals.setdefault(id(self), {})

    def __getattribute__(self, n):
        if n in ("_d", "__class__"):
            return object.__getattribute__(self, n)
        if n == "__dict__":
            return object.__getattribute__(self, "_d")()
        d = object.__getattribute__(self, "_d")()
        if n in d:
            return d[n]
        return object.__getattribute__(self, n)

    def __setattr__(self, n, v):
        self._d()[n] = v

    def __delattr__(self, n):
        d = self._d()
        if n not in d:
            raise AttributeError(n)
        del d[n]


class Thread(object):
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        s = Sim.cur
        self.daemon = bool(daemon)
        self._task = None
        p = s.current.proc
        p.nthreads += 1
        self.name = name or "%s.%d" % (p.name, p.nthreads)
        self._proc = p

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._task is not None:
            raise RuntimeError("threads can only be started once")
        s = Sim.cur
        if s.killing:
            raise Kill()
        self._task = s.spawn(self._boot, "%s.%s" % (self._proc.name, getattr(self._target, "__name__", "run").strip("_")), self._proc)
        self._proc.threads.append(self._task)
        s.point()

    def _boot(self):
        try:
            self.run()
        except Kill:
            raise
        except BaseException as ex:
            Sim.cur.scenario.thread_died(self, ex)

    def join(self, timeout=None):
        s = Sim.cur
        if s.killing:
            raise Kill()
        if self._task is None:
            raise RuntimeError("cannot join thread before it is started")
        if self._task is s.current:
            raise RuntimeError("cannot join current thread")
        s.point()
        end = None if timeout is None else s.now + timeout * SEC
        while self._task.state != "dead":
            if end is not None and s.now >= end:
                return
            _wait(self._task.waits, "join of " + self._task.name, None if end is None else (end - s.now) / SEC)

    def is_alive(self):
        return self._task is not None and self._task.state != "dead"

    isAlive = is_alive

    def setDaemon(self, d):
        self.daemon = d

    def getName(self):
        return self.name

    def setName(self, n):
        self.name = n

    @property
    def ident(self):
        return None if self._task is None else 1000 + Sim.cur.tasks.index(self._task)


class _Current(object):
    daemon = False

    def __init__(self, t):
        self._task = t
        self.name = t.name
        self.ident = 1000 + Sim.cur.tasks.index(t)

    def is_alive(self):
        return True

    def getName(self):
        return self.name

    def __eq__(self, o):
        return getattr(o, "_task", None) is self._task

    def __hash__(self):
        return hash(self.ident)


class Timer(Thread):
    def __init__(self, interval, function, args=None, kwargs=None):
        Thread.__init__(self)
        self.interval, self.function, self.args, self.kwargs = interval, function, args or (), kwargs or {}
        self.finished = Event()

    def cancel(self):
        self.finished.set()

    def run(self):
        if not self.finished.wait(self.interval):
            self.function(*self.args, **self.kwargs)


def _threading():
    m = types.ModuleType("threading")
    for n in ("Lock", "RLock", "Condition", "Semaphore", "BoundedSemaphore", "Event", "local", "Thread", "Timer"):
        setattr(m, n, globals()[n])
    m.current_thread = m.currentThread = lambda: _Current(Sim.cur.current)
    m.get_ident = lambda: 1000 + Sim.cur.tasks.index(Sim.cur.current)
    m.active_count = lambda: sum(1 for t in Sim.cur.tasks if t.state != "dead")
    m.TIMEOUT_MAX = 1e9
    return m


# ---------------------------------------------------------------- queue
class Queue(object):
    def __init__(self, maxsize=0):
        self.maxsize = maxsize
        self.q = []
        self.w = []
        self.wf = []
        self.unfinished = 0

    def qsize(self):
        return len(self.q)

    def empty(self):
        return not self.q

    def full(self):
        return 0 < self.maxsize <= len(self.q)

    def put(self, item, block=True, timeout=None):
        s = Sim.cur
        if s.killing:
            return
        s.point()
        end = None if timeout is None else s.now + timeout * SEC
        while self.full():
            if not block or (end is not None and s.now >= end):
                raise _rq.Full
            _wait(self.wf, "full queue", None if end is None else (end - s.now) / SEC)
        self._put(item)
        self.unfinished += 1
        if self.w:
            s.wake(self.w[0])
        s.point()

    def _put(self, item):
        self.q.append(item)

    def _get(self):
        return self.q.pop(0)

    def put_nowait(self, item):
        self.put(item, False)

    def get(self, block=True, timeout=None):
        s = Sim.cur
        if s.killing:
            raise Kill()
        if timeout is not None and timeout < 0:
            raise ValueError("'timeout' must be a non-negative number")
        s.point()
        end = None if timeout is None else s.now + timeout * SEC
        while not self.q or s.current.intr:
            if s.current.intr:
                s.current.intr = False
                s.log("interrupted")
                raise KeyboardInterrupt()
            if not block or (end is not None and s.now >= end):
                raise _rq.Empty
            _wait(self.w, "queue", None if end is None else (end - s.now) / SEC)
        r = self._get()
        if self.wf:
            s.wake(self.wf[0])
        return r

    def get_nowait(self):
        return self.get(False)

    def task_done(self):
        self.unfinished -= 1

    def join(self):
        while self.unfinished:
            Sim.cur.sleep(MS)


class LifoQueue(Queue):
    def _get(self):
        return self.q.pop()


def _queue():
    m = types.ModuleType("queue")
    m.Queue = m.SimpleQueue = Queue
    m.LifoQueue = LifoQueue
    m.Empty, m.Full = _rq.Empty, _rq.Full
    return m


# ---------------------------------------------------------------- time
def _time():
    m = types.ModuleType("time")
    for n in dir(_rtime):
        if not n.startswith("__"):
            setattr(m, n, getattr(_rtime, n))
    m.time = lambda: 1.6e9 + Sim.cur.now / SEC
    m.monotonic = m.perf_counter = lambda: 1000 + Sim.cur.now / SEC
    m.monotonic_ns = m.perf_counter_ns = lambda: 1000 * SEC + Sim.cur.now
    m.time_ns = lambda: 1600000000 * SEC + Sim.cur.now

    def sleep(t):
        s = Sim.cur
        s.point()
        s.sleep(t * SEC)
    m.sleep = sleep
    return m


# ---------------------------------------------------------------- socket
def err(e):
    return OSError(e, os.strerror(e))


class Net(object):
    """The network and the kernel's side of the sockets."""
    def __init__(self, s):
        self.s = s
        self.listeners = {}
        self.dgrams = {}
        self.port = 40000
        self.open = []          # every open socket
        self.cut = False        # partition
        self.held = []
        self.ends = []          # ends of servers
        self.pairs = 0
        self.lat = 5 * MS
        self.cap = 8192
        self.seg = 0
        self.nauto = 0

    def lingers(self, addr):
        """Old connections of a port keep it busy for a server that does not say that it reuses it."""
        self.ends = [e for e in self.ends if not e.dead and (not e.closed or e.until > self.s.now)]
        return any(e.local[1] == addr[1] for e in self.ends)

    def latency(self):
        if self.s.chance(60):
            return self.lat + self.s.choose(40) * MS
        return self.lat

    def deliver(self, t, fn):
        """Runs fn when what was sent arrives; a partition holds it."""
        def go():
            if self.cut:
                self.held.append(fn)
            else:
                fn()
        self.s.at(t, go)

    def heal(self):
        self.cut = False
        h, self.held = self.held, []
        for fn in h:
            fn()


class End(object):
    """One end of a stream connection."""
    def __init__(self, net, pair, side):
        self.net, self.pair, self.side = net, pair, side
        self.peer = None
        self.rx = bytearray()
        self.inflight = 0       # bytes on their way to this end
        self.eof = False        # the peer sent all
        self.err = None
        self.dead = False       # the connection does not exist any more
        self.shut_rd = self.shut_wr = False
        self.closed = False
        self.gone = False       # its machine lost power
        self.hadend = False     # an end or error was seen
        self.until = 0
        self.last = 0           # time of the last arrival at the peer
        self.w = []
        self.local = self.remote = None
        self.sent = 0
        self.sock = None

    def wake(self):
        _wake_all(self.w)

    def _send_ctl(self, fn):
        n = self.net
        self.last = max(self.last, n.s.now + n.latency())
        n.deliver(self.last, fn)

    def push(self, data):
        n = self.net
        p = self.peer
        p.inflight += len(data)
        self.sent += len(data)
        i = 0
        while i < len(data):
            k = len(data) - i
            if k > 1 and n.seg and n.s.chance(n.seg):
                k = 1 + n.s.choose(min(k, 2000))
            piece = bytes(data[i:i + k])
            i += k
            self.last = max(self.last + 1000, n.s.now + n.latency())
            n.deliver(self.last, lambda piece=piece: p.arrive(piece))

    def vanish(self):
        """Its machine loses power: nothing is sent any more, the peer's kernel finds out by its keepalive probes only."""
        n, p = self.net, self.peer
        if self.closed or self.dead or p.closed or p.dead or p.shut_wr:
            return False
        self.gone = self.dead = self.closed = True
        sk, sent = p.sock, p.sent
        o = sk.opts if sk is not None else {}
        get = lambda l, k, d: o.get((l, k), d)
        if sk is None:
            return False
        t = get(_rs.IPPROTO_TCP, _rs.TCP_KEEPIDLE, 7200) + get(_rs.IPPROTO_TCP, _rs.TCP_KEEPINTVL, 75) * get(_rs.IPPROTO_TCP, _rs.TCP_KEEPCNT, 9)

        def probe():
            if p.sent == sent and not self.inflight and not p.dead and sk.opts.get((_rs.SOL_SOCKET, _rs.SO_KEEPALIVE), 0):
                n.s.probe("keepalive ends a connection")
                p.dead = True
                p.err = errno.ETIMEDOUT
                p.wake()
        n.s.after(t * SEC, probe)
        return True

    def arrive(self, piece):
        if self.gone:
            return
        self.inflight -= len(piece)
        if self.dead:
            return
        if self.closed or self.shut_rd and self.closed:
            self.dead = True
            self._send_ctl(self.peer.reset)
            return
        self.rx += piece
        self.wake()

    def arrive_eof(self):
        self.eof = self.hadend = True
        self.wake()

    def reset(self):
        if self.dead:
            return
        self.dead = self.hadend = True
        self.err = errno.ECONNRESET
        self.wake()
        self.peer.wake()

    def shutdown_wr(self):
        if not self.shut_wr:
            self.shut_wr = True
            if not self.dead:
                self._send_ctl(self.peer.arrive_eof)
            self.wake()

    def close(self, rst=False):
        if self.closed:
            return
        self.closed = True
        if not self.eof:
            self.until = self.net.s.now + 60 * SEC     # it sent the first FIN: TIME_WAIT
        if self.dead:
            return
        if rst or self.rx:
            self.dead = True
            self._send_ctl(self.peer.reset)
        else:
            self.shutdown_wr()
        self.peer.wake()


class SimSocket(object):
    def __init__(self, family=-1, type=-1, proto=-1, fileno=None, _accepted=None):
        s = Sim.cur
        s.point()
        self.net = s.net
        self.family = _rs.AF_INET if family == -1 else family
        self.type = _rs.SOCK_STREAM if type == -1 else type
        self.proto = 0
        self._timeout = None
        self.end = None
        self.addr = None        # bound address
        self.state = "open"
        self.backlog = []
        self.nbacklog = 0
        self.w = []
        self.rxq = []           # datagrams
        self.shut = False
        self.opts = {}
        self.optfail = False
        self.proc = s.current.proc
        if _accepted is None and s.fault("socket", s.scenario.psys):
            raise err(errno.EMFILE)
        self.net.open.append(self)
        self.proc.socks.append(self)
        if _accepted is not None:
            self.end = _accepted
            self.end.sock = self
            self.state = "connected"

    # helpers
    def _chk(self):
        s = Sim.cur
        s.point()
        if self.state == "closed":
            raise err(errno.EBADF)

    def _block(self, w, what, end):
        """Waits for a change; raises the timeout of the socket."""
        s = Sim.cur
        if end is not None and s.now >= end:
            if self._timeout == 0:
                raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
            raise _rs.timeout("timed out")
        _wait(w, what, None if end is None else (end - s.now) / SEC)

    def _deadline(self):
        return None if self._timeout is None else Sim.cur.now + self._timeout * SEC

    def _key(self, addr):
        if self.family == _rs.AF_UNIX:
            return (self.family, addr if isinstance(addr, str) else bytes(addr).decode("latin1"))
        return (self.family, addr[0], addr[1])

    def _auto(self):
        if self.addr is None and self.family != _rs.AF_UNIX:
            self.net.port += 1
            self.addr = ("127.0.0.1", self.net.port) if self.family == _rs.AF_INET else ("::1", self.net.port, 0, 0)
        return self.addr

    # options
    def settimeout(self, t):
        if t is not None and t < 0:
            raise ValueError("Timeout value out of range")
        self._timeout = t

    def gettimeout(self):
        return self._timeout

    timeout = property(gettimeout)

    def setblocking(self, b):
        self._timeout = None if b else 0

    def getblocking(self):
        return self._timeout != 0

    def fileno(self):
        return -1 if self.state == "closed" else 3 + self.net.open.index(self)

    def setsockopt(self, level, opt, val, *a):
        self._chk()
        if level == _rs.IPPROTO_TCP and (self.family == _rs.AF_UNIX or self.type != _rs.SOCK_STREAM):
            raise err(errno.EOPNOTSUPP)
        s = Sim.cur
        if s.fault("setsockopt", s.scenario.psys // 2):
            self.optfail = True
            raise err(errno.ENOBUFS)
        self.opts[(level, opt)] = val

    def getsockopt(self, level, opt, *a):
        self._chk()
        return self.opts.get((level, opt), 0)

    def getsockname(self):
        self._chk()
        if self.end is not None:
            return self.end.local
        if self.addr is not None:
            return self.addr
        return "" if self.family == _rs.AF_UNIX else ("0.0.0.0", 0) if self.family == _rs.AF_INET else ("::", 0, 0, 0)

    def getpeername(self):
        self._chk()
        if self.end is None or (self.end.dead and self.family != _rs.AF_UNIX):
            raise err(errno.ENOTCONN)
        return self.end.remote

    # set up
    def bind(self, addr):
        self._chk()
        s = Sim.cur
        if s.now < s.scenario.addr_late and self.family != _rs.AF_UNIX:
            s.faults["address late"] = s.faults.get("address late", 0) + 1
            raise err(errno.EADDRNOTAVAIL)
        if s.fault("bind", s.scenario.psys):
            raise err(errno.EADDRINUSE)
        if self.type == _rs.SOCK_STREAM and self.family != _rs.AF_UNIX and not self.opts.get((_rs.SOL_SOCKET, _rs.SO_REUSEADDR)) and self.net.lingers(addr):
            s.probe("address in use by old connections")
            raise err(errno.EADDRINUSE)
        if self.family != _rs.AF_UNIX and addr[1] == 0:
            self._auto()
            return
        k = self._key(addr)
        if self.type == _rs.SOCK_DGRAM:
            if k in self.net.dgrams and self.family == _rs.AF_UNIX:
                raise err(errno.EADDRINUSE)
            self.net.dgrams[k] = self
        elif k in self.net.listeners:
            raise err(errno.EADDRINUSE)
        self.addr = addr if self.family != _rs.AF_INET6 else (addr[0], addr[1], 0, 0)
        s.log("bind", k)

    def listen(self, backlog=128):
        self._chk()
        s = Sim.cur
        k = self._key(self.addr)
        if k in self.net.listeners or s.fault("listen", s.scenario.psys // 2):
            raise err(errno.EADDRINUSE)
        self.net.listeners[k] = self
        self.nbacklog = backlog + 1
        self.state = "listening"
        s.scenario.on_listen(self)
        s.log("listen", k)

    def accept(self):
        self._chk()
        s = Sim.cur
        end = self._deadline()
        while True:
            if self.state == "closed":
                raise err(errno.EBADF)
            if self.state != "listening":
                raise err(errno.EINVAL)
            if self.backlog:
                break
            self._block(self.w, "accept", end)
        if s.fault("accept", s.scenario.psys):
            if s.chance(128):
                raise err(errno.EMFILE)
            self.backlog.pop(0).close(True)
            raise err(errno.ECONNABORTED)
        e = self.backlog.pop(0)
        _wake_all(self.w)
        c = SimSocket(self.family, self.type, _accepted=e)
        s.log("accept", e.pair)
        return c, e.remote

    def connect(self, addr):
        self._chk()
        s = Sim.cur
        if self.type == _rs.SOCK_DGRAM:
            self.dest = addr
            return
        if self.state == "connected":
            raise err(errno.EISCONN)
        end = self._deadline()
        unix = self.family == _rs.AF_UNIX
        s.scenario.on_connect(self, addr)
        s.log("connect", addr)
        if s.fault("connect", s.scenario.psys):
            raise err([errno.ENETUNREACH, errno.ETIMEDOUT, errno.ECONNREFUSED, errno.EHOSTUNREACH][s.choose(4)])
        kend = s.now + 127 * SEC
        self.state = "connecting"
        first = True
        while True:
            # one SYN and its answer
            if not unix:
                d = self.net.latency() * 2
                if end is not None and s.now + d > end:
                    _wait(self.w, "connect", max(0, end - s.now) / SEC)
                    if s.now >= end:
                        self.state = "open" if self.state == "connecting" else self.state
                        raise _rs.timeout("timed out")
                else:
                    _wait(self.w, "connect", d / SEC)
            if self.state == "aborted":
                self.state = "open"
                raise err(errno.ECONNRESET)
            if self.state == "closed":
                raise err(errno.EBADF)
            if unix or not self.net.cut:
                l = self.net.listeners.get(self._key(addr))
                if l is None or l.state != "listening":
                    self.state = "open"
                    raise err(errno.ECONNREFUSED)
                if len(l.backlog) < l.nbacklog:
                    break
            if not unix and s.now > kend:
                self.state = "open"
                raise err(errno.ETIMEDOUT)
            if unix:
                self._block(l.w, "connect", end)
            elif not first and s.chance(128):
                s.probe("syn again")
            first = False
        self._auto()
        n = self.net
        n.pairs += 1
        a, b = End(n, n.pairs, 0), End(n, n.pairs, 1)
        a.peer, b.peer = b, a
        a.local, a.remote = (self.addr if self.addr is not None else ""), l.addr
        b.local, b.remote = l.addr, a.local
        self.end = a
        a.sock = self
        self.state = "connected"
        l.backlog.append(b)
        if not unix:
            n.ends.append(b)
        s.scenario.on_pair(a, b, self, l)
        _wake_all(l.w)
        s.log("established", a.pair)

    def connect_ex(self, addr):
        try:
            self.connect(addr)
            return 0
        except OSError as e:
            return e.errno

    # data
    def _stream(self):
        self._chk()
        if self.end is None:
            raise err(errno.ENOTCONN)
        return self.end

    def recv(self, n, flags=0):
        if self.type == _rs.SOCK_DGRAM:
            return self.recvfrom(n)[0]
        e = self._stream()
        s = Sim.cur
        end = self._deadline()
        while True:
            if self.state == "closed":
                raise err(errno.EBADF)
            if e.rx:
                k = min(n, len(e.rx))
                if k > 1 and s.chance(s.scenario.short):
                    k = 1 + s.choose(k)
                r = bytes(e.rx[:k])
                del e.rx[:k]
                e.peer.wake()
                s.scenario.on_recv(e, r)
                s.log("recv", e.pair, e.side, k)
                return r
            if e.err:
                x, e.err = e.err, None
                s.log("recv", e.pair, e.side, "error", x)
                raise err(x)
            if e.eof or e.dead or e.shut_rd:
                s.log("recv", e.pair, e.side, "end")
                return b""
            if s.fault("recv error", s.scenario.perr):
                e.err = errno.ETIMEDOUT
                e.dead = True
                e.net.deliver(s.now + e.net.latency(), e.peer.reset)
                continue
            self._block(e.w, "recv of %d" % e.pair, end)

    def recv_into(self, b, n=0, flags=0):
        d = self.recv(n or len(b), flags)
        b[:len(d)] = d
        return len(d)

    def send(self, data, flags=0):
        if self.type == _rs.SOCK_DGRAM:
            return self.sendto(data, self.dest)
        e = self._stream()
        s = Sim.cur
        end = self._deadline()
        data = memoryview(data)
        while True:
            if self.state == "closed":
                raise err(errno.EBADF)
            if e.err:
                x, e.err = e.err, None
                raise err(x)
            if e.shut_wr or e.dead:
                raise err(errno.EPIPE)
            room = e.net.cap - len(e.peer.rx) - e.peer.inflight
            if room > 0 or not len(data):
                k = min(room, len(data))
                if k > 1 and s.chance(s.scenario.short):
                    k = 1 + s.choose(k)
                s.log("send", e.pair, e.side, k)
                if k:
                    s.scenario.on_send(e, bytes(data[:k]))
                    e.push(bytes(data[:k]))
                return k
            s.probe("send buffer full")
            self._block(e.w, "send of %d" % e.pair, end)

    def sendall(self, data, flags=0):
        data = memoryview(data)
        while len(data):
            k = self.send(data, flags)
            data = data[k:]

    def sendto(self, data, *a):
        addr = a[-1]
        self._chk()
        s = Sim.cur
        if self.shut:
            raise err(errno.EPIPE)
        if addr is None:
            raise TypeError("sendto(): AF_INET address must be tuple, not NoneType")
        if len(data) > 65507:
            raise err(errno.EMSGSIZE)
        self._auto()
        k = self._key(addr)
        src = self.addr if self.addr is not None else None
        s.log("sendto", k, len(data))
        data = bytes(data)
        s.scenario.on_sendto(self, k, data)
        if s.fault("sendto", s.scenario.psys):
            raise err([errno.ENETUNREACH, errno.ENOBUFS, errno.EPERM][s.choose(3)])
        if self.family == _rs.AF_UNIX:
            d = self.net.dgrams.get(k)
            if d is None:
                raise err(errno.ECONNREFUSED)
        n = self.net
        times = 1
        if s.fault("datagram lost", s.scenario.ploss):
            times = 0
        elif s.fault("datagram twice", s.scenario.ploss):
            times = 2
        for i in range(times):
            lat = n.latency()
            if s.fault("datagram late", s.scenario.ploss):
                lat += s.choose(200) * MS

            def arrive(k=k, data=data, src=src):
                d = n.dgrams.get(k)
                if d is None or d.state == "closed" or d.shut or n.cut or sum(len(x[0]) for x in d.rxq) > 65536:
                    return
                d.rxq.append((data, src))
                _wake_all(d.w)
            s.after(lat, arrive)
        return len(data)

    def recvfrom(self, n, flags=0):
        self._chk()
        s = Sim.cur
        if self.type == _rs.SOCK_STREAM:
            return self.recv(n), None
        end = self._deadline()
        while True:
            if self.state == "closed":
                raise err(errno.EBADF)
            if self.rxq:
                d, src = self.rxq.pop(0)
                s.log("recvfrom", len(d), src)
                s.scenario.on_recvfrom(self, d[:n], src)
                return d[:n], src
            if self.shut:
                return b"", None
            self._block(self.w, "recvfrom", end)

    # end
    def shutdown(self, how):
        self._chk()
        s = Sim.cur
        s.log("shutdown", self.state, self.end.pair if self.end else "")
        if self.type == _rs.SOCK_DGRAM:
            self.shut = True
            _wake_all(self.w)
            raise err(errno.ENOTCONN)
        if self.state == "listening":
            self._unlisten()
            return
        if self.state == "connecting":
            self.state = "aborted"
            _wake_all(self.w)
            return
        if self.end is None or self.end.dead:
            raise err(errno.ENOTCONN)
        e = self.end
        if how != _rs.SHUT_WR:
            e.shut_rd = True
        if how != _rs.SHUT_RD:
            e.shutdown_wr()
        e.wake()

    def _unlisten(self):
        k = self._key(self.addr)
        if self.net.listeners.get(k) is self:
            del self.net.listeners[k]
        self.state = "unlistened"
        for e in self.backlog:
            e.close(True)
        self.backlog = []
        _wake_all(self.w)

    def close(self):
        s = Sim.cur
        if s.killing or self.state == "closed":
            return
        s.point()
        if self.state == "closed":
            return
        s.log("close", self.end.pair if self.end else "")
        if self.state == "listening":
            self._unlisten()
        if self.type == _rs.SOCK_DGRAM and self.addr is not None:
            k = self._key(self.addr)
            if self.net.dgrams.get(k) is self:
                del self.net.dgrams[k]
        self.state = "closed"
        if self.end is not None:
            self.end.close()
        self.net.open.remove(self)
        self.proc.socks.remove(self)

    def detach(self):
        raise NotImplementedError()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _socket():
    m = types.ModuleType("socket")
    for n in dir(_rs):
        if not n.startswith("__"):
            setattr(m, n, getattr(_rs, n))
    m.socket = m.SocketType = SimSocket

    def create_connection(address, timeout=None, source_address=None):
        c = SimSocket(_rs.AF_INET, _rs.SOCK_STREAM)
        c.settimeout(timeout)
        c.connect(address)
        return c
    m.create_connection = create_connection
    return m


# ---------------------------------------------------------------- logging
class Logger(object):
    """What is logged goes to the scenario."""
    def _log(self, lvl, fmt, args):
        s = Sim.cur
        if lvl >= s.loglevel and not s.killing:
            try:
                t = str(fmt) % args if args else str(fmt)
            except Exception:       # as the real module: what cannot be formatted is not logged
                t = str(fmt)
            s.scenario.on_log(lvl, t)

    def setLevel(self, lvl):
        Sim.cur.loglevel = lvl

    def isEnabledFor(self, lvl):
        return lvl >= Sim.cur.loglevel

    def addHandler(self, h):
        pass


def _logging():
    m = types.ModuleType("logging")
    root = Logger()
    m.getLogger = lambda name=None: root
    m.Logger = Logger
    m.basicConfig = lambda **k: Logger.setLevel(root, k.get("level", 30))
    m.addLevelName = lambda *a: None
    for i, n in enumerate(("DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL")):
        setattr(m, n, 10 * (i + 1))

        def mk(lvl):
            return lambda self, fmt, *args, **k: self._log(lvl, fmt, args)
        setattr(Logger, n.lower(), mk(10 * (i + 1)))
    Logger.warn, Logger.exception, Logger.fatal = Logger.warning, Logger.error, Logger.critical
    for n in ("debug", "info", "warning", "warn", "error", "critical", "exception", "fatal"):
        setattr(m, n, getattr(root, n))
    return m


_mods = {}


def modules():
    if not _mods:
        _mods.update(_modules())
    return _mods


def _modules():
    return {"threading": _threading(), "queue": _queue(), "time": _time(), "socket": _socket(), "logging": _logging()}
