"""Scenarios over the Python implementation and their oracles."""
import socket as rs
import struct

import mods
import ref
from core import Sim, Kill
from mods import MS, SEC

POMP = {}       # the modules of the implementation (see psim.load)


class Proc(object):
    def __init__(self, name):
        self.name = name
        self.threads = []
        self.socks = []
        self.nthreads = 0
        self.node = None


class Rec(object):
    """What is known of one connection of the implementation."""
    def __init__(self, node, end):
        self.node, self.end = node, end
        self.conn = None
        self.wire = bytearray()     # what has to be written
        self.ends = []              # where its messages end
        self.off = 0                # what was written
        self.dec = ref.RefDec()     # what was read
        self.got = 0
        self.state = "new"
        self.local = False          # ended by this side
        self.session = None


class Common(object):
    psys = perr = ploss = short = addr_late = 0

    def on_listen(self, sock):
        pass

    def on_connect(self, sock, addr):
        pass

    def on_pair(self, a, b, sock, l):
        pass

    def on_recv(self, e, data):
        pass

    def on_send(self, e, data):
        pass

    def on_sendto(self, sock, k, data):
        pass

    def on_recvfrom(self, sock, data, src):
        pass

    def on_log(self, lvl, text):
        pass

    def thread_died(self, th, ex):
        import traceback
        f = traceback.extract_tb(ex.__traceback__)
        Sim.cur.fail("THREAD", "a thread of the implementation died: %s: %s (%s)" % (type(ex).__name__, ex, " < ".join("%s:%s" % (x.filename.rsplit("/", 1)[-1], x.name) for x in reversed(f[-3:]))))

    def guard(self, what, fn, *a):
        """A call of the implementation that has no reason to raise."""
        try:
            return fn(*a)
        except Exception as ex:
            import traceback
            f = traceback.extract_tb(ex.__traceback__)
            Sim.cur.fail("RAISE", "%s raised %s: %s (%s)" % (what, type(ex).__name__, ex, " < ".join("%s:%s" % (x.filename.rsplit("/", 1)[-1], x.name) for x in reversed(f[-3:]))))


def gen_msg(s, big=False):
    specs = [ref.SPECS[s.choose(len(ref.SPECS))] for _ in range(s.choose(5))]
    args = [ref.gen_arg(s, f, big) for f in specs]
    return "".join(specs) if specs or s.choose(2) else None, specs, args


def app_conn_end(conn):
    for v in vars(conn).values():
        if isinstance(v, mods.SimSocket):
            return v
    return None


# ---------------------------------------------------------------- streams
class Node(Proc):
    def __init__(self, sc, name, server, addrs):
        Proc.__init__(self, name)
        self.sc, self.server, self.addrs = sc, server, addrs
        self.addr = addrs[0]
        self.ctx = None
        self.recs = []          # connected, in order
        self.all = []
        self.started = False
        self.session = 0
        self.node = self
        self.cb = 0
        self.done = False
        self.msgid = 0
        self.incb = self.indisc = 0
        self.quiet = True
        self.stopping = False
        self.tstart = 0

    # -- operations
    def start(self):
        if self.started:
            return
        s = Sim.cur
        self.session += 1
        self.started = True
        self.tstart = s.now
        s.ops += 1
        if not self.sc.final:
            self.addr = self.addrs[s.choose(len(self.addrs), 40)]
        s.log("start", self.addr[1])
        if self.server:
            self.sc.guard("listen", self.ctx.listen, self.addr[0], self.addr[1])
        else:
            self.sc.guard("connect", self.ctx.connect, self.addr[0], self.addr[1])

    def stop(self):
        if not self.started or self.stopping:
            return
        s = Sim.cur
        s.ops += 1
        self.stopping = True
        s.log("stop")
        for r in self.recs:
            r.local = True
        t = s.now
        n = len(self.recs)
        self.sc.guard("stop", self.ctx.stop)
        if s.now - t > (3 + n) * SEC:
            s.fail("STOP", "stop took %.1f s" % ((s.now - t) / SEC))
        self.stopping = False
        self.started = False
        s.log("stopped")
        if self.recs:
            s.fail("EVENTS", "%d connections without a disconnection after stop" % len(self.recs))
        # the threads of a connection that was never announced do not exist; all others have ended
        live = [x.name for x in self.threads if x.state != "dead"]
        if len(live) > 2 * self.indisc:
            s.fail("THREADS", "threads left after stop: " + " ".join(live))

    def send(self, r):
        s = Sim.cur
        s.ops += 1
        fmt, specs, args = gen_msg(s)
        self.msgid += 1
        m = ref.message(self.msgid, specs, args)
        r.wire += m
        r.ends.append(len(r.wire))
        s.log("app send", r.end.pair, self.msgid, len(m))
        if s.chance(128):
            self.sc.guard("send", r.conn.send, self.msgid, fmt, *args)
        else:
            msg = POMP["Message"]()
            self.sc.guard("write", msg.write, self.msgid, fmt, *args)
            self.sc.guard("sendMsg", r.conn.sendMsg, msg)

    def broadcast(self):
        s = Sim.cur
        s.ops += 1
        fmt, specs, args = gen_msg(s)
        self.msgid += 1
        m = ref.message(self.msgid, specs, args)
        for r in self.recs:
            r.wire += m
            r.ends.append(len(r.wire))
        s.log("app broadcast", self.msgid, len(m))
        self.sc.guard("send", self.ctx.send, self.msgid, fmt, *args)

    def op(self, incb=False):
        s = Sim.cur
        c = s.choose(12)
        if c < 5:
            if self.recs:
                self.send(self.recs[s.choose(len(self.recs))])
        elif c == 5:
            if self.started and not self.stopping:
                self.broadcast()
        elif c == 6:
            if self.recs and s.chance(80):
                r = self.recs[s.choose(len(self.recs))]
                r.local = True
                s.ops += 1
                s.log("app disconnect", r.end.pair)
                self.sc.guard("disconnect", r.conn.disconnect)
        elif c == 7 and s.chance(100):
            if self.started:
                if not incb or s.chance(self.sc.stopcb):
                    self.stop()
        elif c == 8 or not self.started and not self.stopping and s.chance(80):
            if not self.stopping:
                self.start()

    # -- events
    def find(self, conn):
        for r in self.all:
            if r.conn is conn:
                return r
        return None

    def callback(self):
        s = Sim.cur
        self.incb += 1
        if not self.sc.ending and self.incb < 3 and s.chance(self.sc.incb):
            s.probe("calls in callback")
            for _ in range(1 + s.choose(3)):
                self.op(True)
        self.incb -= 1

    def onConnected(self, ctx, conn):
        s = Sim.cur
        sk = app_conn_end(conn)
        if sk is None or sk.end is None:
            s.fail("EVENTS", "a connection without a socket is announced")
        r = sk.end.rec
        s.log("connected", r.end.pair)
        if self.find(conn) is not None or r.state != "new":
            s.fail("EVENTS", "a connection is announced twice")
        if not self.started or self.stopping or r.session != self.session:
            s.fail("EVENTS", "a connection of a context that was stopped is announced")
        if not self.server and self.recs:
            s.fail("EVENTS", "a client has two connections")
        r.conn = conn
        r.state = "up"
        self.recs.append(r)
        self.all.append(r)
        fam = self.addr[0]
        if tuple(conn.getPeerAddr()) != (fam, r.end.remote) or tuple(conn.getLocalAddr()) != (fam, r.end.local):
            s.fail("ADDR", "wrong addresses of a connection")
        if not conn_in(ctx, conn):
            s.fail("LIST", "the connection announced is not in the list of connections")
        self.callback()

    def onDisconnected(self, ctx, conn):
        s = Sim.cur
        r = self.find(conn)
        if r is None or r.state != "up":
            s.fail("EVENTS", "a disconnection that no connection precedes")
        s.log("disconnected", r.end.pair)
        r.state = "down"
        self.recs.remove(r)
        if not r.local and not r.dec.fuzzy:
            self.sc.all_delivered(r, "when the peer's end was notified")
        self.indisc += 1    # its threads end after the notification
        self.callback()
        self.indisc -= 1

    def recvMessage(self, ctx, conn, msg):
        s = Sim.cur
        r = self.find(conn)
        if r is None or r.state != "up":
            s.fail("EVENTS", "a message for a connection that is not announced or ended")
        self.sc.delivered(r, msg)
        self.callback()

    # -- life
    def check_list(self):
        s = Sim.cur
        l = self.ctx.getConnections()
        if [self.find(c) for c in l] != self.recs:
            s.fail("LIST", "the list of connections has %d entries, %d connections are announced" % (len(l), len(self.recs)))
        c = self.ctx.getConnection()
        if c is not (self.recs[0].conn if self.recs else None):
            s.fail("LIST", "the first connection is wrong")

    def main(self):
        s = Sim.cur
        sc = self.sc
        looper = POMP["looper"]
        looper.prepareLoop()

        class H(POMP["EventHandler"]):
            def onConnected(h, ctx, conn):
                self.onConnected(ctx, conn)

            def onDisconnected(h, ctx, conn):
                self.onDisconnected(ctx, conn)

            def recvMessage(h, ctx, conn, msg):
                self.recvMessage(ctx, conn, msg)
        self.ctx = POMP["Context"](H())
        self.start()
        while not sc.ending:
            for _ in range(s.choose(3)):
                self.op()
            self.check_list()
            self.step(1 + s.choose(6), [0.01, 0.05, 0.2, 0.002][s.choose(4)])
            if s.chance(10):
                s.probe("application stalled")
                s.sleep(s.choose(3000) * MS)
        if not self.started:
            self.start()
        self.settled = True
        while not sc.final:
            self.step(32, 0.1)
        self.check_list()
        if sc.probing:
            for r in list(self.recs):
                self.send(r)
            while not sc.stopall:
                self.step(32, 0.1)
        if not s.chance(60):
            self.stop()
        else:
            while self.recs:
                self.recs[0].local = True
                self.sc.guard("disconnect", self.recs[0].conn.disconnect)
                self.step(32, 0.1)
                self.step(32, 0.1)
            self.stop()
        for _ in range(8):
            self.step(100, 0.02)
        live = [x.name for x in self.threads if x.state != "dead"]
        if live:
            s.fail("THREADS", "threads left at the end: " + " ".join(live))
        if self.socks:
            s.fail("LEAK", "%d sockets left open at the end" % len(self.socks))
        self.done = True

    def step(self, n, t):
        self.sc.guard("stepLoop", POMP["looper"].stepLoop, n, t)


def conn_in(ctx, conn):
    return any(c is conn for c in ctx.getConnections())


class Streams(Common):
    def __init__(self, s):
        self.s = s
        self.ending = self.final = self.stopall = self.probing = False
        self.nodes = []
        self.raws = []
        self.alive_until = 0
        s.net = mods.Net(s)
        c = s.choose
        if c(3):
            self.psys = [6, 20, 40][c(3)]
            self.perr = [0, 4][c(2)]
        self.short = [0, 60, 200][c(3)]
        self.incb = [0, 60, 140][c(3)]
        self.stopcb = [0, 128][c(2)]
        s.preempt = [10, 40, 100][c(3)]
        s.net.seg = [0, 60, 200][c(3)]
        s.net.cap = [8192, 2048, 65536][c(3)]
        s.net.lat = [1, 5, 100][c(3)] * MS
        if c(4) == 3:
            s.linegap = [20, 60, 200][c(3)]
        fams = [rs.AF_INET, rs.AF_INET6, rs.AF_UNIX]

        def mkaddr(i):
            f = fams[c(3)]
            return (f, ("127.0.0.1", 5000 + i)) if f == rs.AF_INET else (f, ("::1", 5000 + i)) if f == rs.AF_INET6 else (f, "\0addr%d" % i)
        self.addrs = [mkaddr(0)]
        if c(3) == 2:
            self.addrs.append(mkaddr(1))
        self.nodes.append(Node(self, "server", True, self.addrs))
        for i in range(c(3)):
            self.nodes.append(Node(self, "client%d" % i, False, self.addrs))
        if c(3) == 2:
            self.late()
        self.nraw = c(3)
        self.hurry = c(10) == 9     # many short connections
        if self.hurry:
            self.nraw = 1 + c(6)
        self.rawsrv = len(self.nodes) == 1 and c(2) or c(6) == 5
        self.rawaddr = mkaddr(7)
        if self.rawsrv:
            self.nodes.append(Node(self, "rclient", False, [self.rawaddr]))
        self.dur = (300 + c(8) * 700) * MS

    def late(self):
        self.addr_late = self.s.choose(4000) * MS

    # -- kernel's view
    def on_listen(self, sock):
        sock.session = sock.proc.session if sock.proc.node else None
        if sock.proc.node and not sock.proc.started:
            self.s.fail("LATE", "a stopped context listens")

    def on_connect(self, sock, addr):
        n = sock.proc.node
        if n is not None:
            if n.server or not n.started:
                self.s.fail("LATE", "a stopped client connects") if not n.stopping and not n.server and not n.started else None
            if addr != n.addr[1]:
                self.s.fail("ADDR", "connection to %r, %r was asked for" % (addr, n.addr[1]))
            if not n.server and n.recs and n.started:
                self.s.fail("EVENTS", "a connected client connects again")

    def on_pair(self, a, b, sock, l):
        a.rec, b.rec = Rec(sock.proc.node, a), Rec(l.proc.node, b)
        a.rec.session = getattr(sock.proc, "session", None)
        b.rec.session = getattr(l, "session", None)

    def on_recv(self, e, data):
        e.rec.dec.feed(data)

    def on_send(self, e, data):
        r = e.rec
        if r.node is None:
            return
        if r.wire[r.off:r.off + len(data)] != data:
            w = next((i for i in range(len(data)) if r.off + i >= len(r.wire) or r.wire[r.off + i] != data[i]), 0)
            self.s.fail("WIRE", "what is written differs from the messages sent at byte %d (of %d)" % (r.off + w, len(r.wire)))
        r.off += len(data)

    # -- deliveries
    def delivered(self, r, msg):
        s = self.s
        data = msg.buf.getData()
        s.log("message", r.end.pair, msg.msgid, len(data))
        if r.dec.fuzzy:
            return
        while r.got < len(r.dec.out):
            b, must = r.dec.out[r.got]
            r.got += 1
            if b == data:
                break
            if must:
                s.fail("ORDER", "message %d of %d bytes delivered, message %d of %d bytes is next" % (msg.msgid, len(data), struct.unpack("<I", b[4:8])[0], len(b)))
        else:
            s.fail("ORDER", "message %d of %d bytes delivered, which was not received (or again)" % (msg.msgid, len(data)))
        if msg.msgid != struct.unpack("<I", b[4:8])[0]:
            s.fail("ORDER", "wrong message id")
        if must:
            self.guard("dump", msg.dump)

    def all_delivered(self, r, when):
        for b, must in r.dec.out[r.got:]:
            if must:
                self.s.fail("LOST", "a message of %d bytes that was read from the socket was not delivered %s" % (len(b), when))

    # -- peers that are not the implementation
    def raw_conn(self, sk, mine):
        """Talks on a connection until it ends or the run does."""
        s = self.s
        sk.settimeout(0.3)
        dec = ref.RefDec()
        rest = b""
        garbage = s.choose(3)
        n = s.choose(3 if self.hurry else 12)
        reads = s.choose(5)
        while not self.stopall:
            try:
                if n and not self.ending or rest:
                    if not rest:
                        n -= 1
                        if garbage == 2:
                            rest = ref.hostile(s)
                        else:
                            _, specs, args = gen_msg(s)
                            rest = ref.message(s.choose(1 << 32), specs, args)
                    k = len(rest)
                    if k > 1 and s.chance(100):
                        k = 1 + s.choose(k)
                    k = sk.send(rest[:k])
                    rest = rest[k:]
                    if s.chance(40):
                        s.sleep(s.choose(300) * MS)
                elif not self.ending and s.chance(200 if self.hurry else 30):
                    break
            except rs.timeout:
                pass
            if reads or self.ending:
                try:
                    d = sk.recv(1 + s.choose(5000))
                    if not d:
                        break
                except rs.timeout:
                    pass
            else:
                s.sleep(100 * MS)
        if not self.stopall and s.chance(60):
            s.probe("peer resets")
            sk.end.close(True)
        elif not self.ending and sk.family != rs.AF_UNIX and s.chance(160):
            self.power_loss(sk.end)
        sk.close()

    def power_loss(self, e):
        """The peer's machine vanishes: its connection has to end all the same, unless data are on their way to it."""
        s = self.s
        p = e.peer
        sk = p.sock
        if sk is None or p.rec.state != "up" or s.net.cut or not e.vanish():
            return
        s.faults["power loss of a peer"] = s.faults.get("power loss of a peer", 0) + 1
        sent, busy = p.sent, e.inflight
        self.alive_until = s.now + 16 * SEC

        def judge():
            if p.sent == sent and not busy and not sk.optfail and p.rec.state == "up":
                s.fail("KEEPALIVE", "the machine of the peer of connection %d lost power 15 s ago, the connection has not ended" % p.pair)
        s.after(15 * SEC, judge)

    def raw_client(self):
        s = self.s
        for _ in range(1 + s.choose(12 if self.hurry else 3)):
            a = self.addrs[s.choose(len(self.addrs))]
            s.sleep(s.choose(50 if self.hurry else 500) * MS)
            if self.ending:
                break
            sk = None
            try:
                sk = mods.SimSocket(a[0], rs.SOCK_STREAM)
                sk.settimeout(2)
                sk.connect(a[1])
                if s.chance(128 if self.hurry else 30):
                    s.probe("peer vanishes at once")
                    sk.end.close(True)
                else:
                    self.raw_conn(sk, True)
            except OSError:
                pass
            if sk is not None:
                sk.close()

    def raw_server(self):
        s = self.s
        p = s.current.proc
        a = self.rawaddr
        while not self.stopall:
            l = None
            try:
                l = mods.SimSocket(a[0], rs.SOCK_STREAM)
                l.opts[(rs.SOL_SOCKET, rs.SO_REUSEADDR)] = 1
                l.bind(a[1])
                l.listen(1)
                l.settimeout(0.5)
                end = s.now + (s.choose(5000) + 200) * MS
                while not self.stopall and (s.now < end or self.ending):
                    try:
                        c, _ = l.accept()
                    except rs.timeout:
                        continue
                    if s.chance(30) and not self.ending:
                        c.end.close(True)
                        c.close()
                    else:
                        def talk(c=c):
                            try:
                                self.raw_conn(c, True)
                            except OSError:
                                pass
                            c.close()
                        s.spawn(talk, "raw.talk", p)
            except OSError:
                pass
            if l is not None:
                l.close()
            s.sleep((1 + (0 if self.ending else s.choose(2500))) * MS)

    # -- the run
    def main(self):
        s = self.s
        me = Proc("main")
        s.current.proc = me
        for n in self.nodes:
            s.spawn(n.main, n.name, n)
        for i in range(self.nraw):
            p = Proc("raw%d" % i)
            s.spawn(self.raw_client, p.name, p)
        if self.rawsrv:
            p = Proc("rawsrv")
            s.spawn(self.raw_server, p.name, p)
        end = s.now + self.dur
        while s.now < end:
            s.sleep((20 + s.choose(400)) * MS)
            if not s.net.cut and s.fault("partition", 40):
                s.net.cut = True
                s.after(s.choose(3000) * MS, s.net.heal)
        s.faulty = False
        self.psys = self.perr = 0
        self.addr_late = 0
        s.net.heal()
        self.ending = True
        # recovery: each started client has to be connected to a server that listens
        limit = s.now + 40 * SEC
        while True:
            s.sleep(SEC)
            ok = all(getattr(n, "settled", False) for n in self.nodes)
            if ok and all(n.server or self.expect_up(n) for n in self.nodes):
                break
            if s.now > limit:
                bad = [n.name for n in self.nodes if not getattr(n, "settled", False)]
                if bad:
                    s.fail("STUCK", "the main thread of %s does not come back" % " ".join(bad))
                s.fail("RECOVER", "%s is not connected 40 s after the last fault" % " ".join(n.name for n in self.nodes if not n.server and not self.expect_up(n)))
        while s.now < self.alive_until:
            s.sleep(SEC)
        self.probing = True
        self.final = True
        s.sleep(12 * SEC)
        for n in self.nodes:
            for r in n.recs:
                p = r.end.peer.rec
                if r.end.dead or r.end.peer.dead or r.end.peer.closed or r.end.closed or p.state == "new":
                    continue
                if p.node is not None and r.off != len(r.wire):
                    s.fail("LOST", "%d of %d bytes written to a connection that works" % (r.off, len(r.wire)))
                if p.node is not None and (r.end.inflight or r.end.rx):
                    s.fail("LOST", "%d bytes that arrived are not read" % len(r.end.rx))
                if not r.dec.fuzzy:
                    self.all_delivered(r, "though the connection works")
        self.stopall = True
        limit = s.now + 60 * SEC
        while not all(n.done for n in self.nodes):
            s.sleep(SEC)
            if s.now > limit:
                s.fail("STUCK", "%s does not end" % " ".join(n.name for n in self.nodes if not n.done) + ": " + s.where())
        s._end()

    def expect_up(self, n):
        """A client is connected, or nobody listens where it connects to."""
        if n.recs:
            return True
        for m in self.nodes:
            if m.server and m.addr == n.addr:
                return False
        return not (self.rawsrv and n.addr == self.rawaddr)


# ---------------------------------------------------------------- datagrams
class DNode(Proc):
    def __init__(self, sc, name, addr):
        Proc.__init__(self, name)
        self.sc, self.addr = sc, addr
        self.node = self
        self.started = self.stopping = self.done = self.settled = False
        self.conn = None
        self.sock = None
        self.queue = []         # accepted sends: (address or the possible ones, bytes)
        self.expect = []        # datagrams read: (bytes, must)
        self.got = 0
        self.msgid = 0
        self.peers = []
        self.incb = self.indisc = 0

    def start(self):
        s = Sim.cur
        if self.started:
            return
        s.ops += 1
        self.started = True
        s.log("start", self.addr)
        self.sc.guard("bind", self.ctx.bind, self.addr[0], self.addr[1])

    def stop(self):
        s = Sim.cur
        if not self.started or self.stopping:
            return
        s.ops += 1
        self.stopping = True
        self.local = True
        s.log("stop")
        t = s.now
        self.sc.guard("stop", self.ctx.stop)
        if s.now - t > 4 * SEC:
            s.fail("STOP", "stop took %.1f s" % ((s.now - t) / SEC))
        self.started = self.stopping = False
        if self.conn is not None:
            s.fail("EVENTS", "no disconnection after stop")
        live = [x.name for x in self.threads if x.state != "dead"]
        if len(live) > 2 * self.indisc:
            s.fail("THREADS", "threads left after stop: " + " ".join(live))

    def send(self):
        s = Sim.cur
        s.ops += 1
        fmt, specs, args = gen_msg(s)
        self.msgid += 1
        m = ref.message(self.msgid, specs, args)
        s.log("app send", self.msgid, len(m))
        if self.peers and self.conn.getPeerAddr() is not None and s.chance(100):
            self.queue.append((None, m))
            self.sc.guard("send", self.conn.send, self.msgid, fmt, *args)
        else:
            to = self.sc.targets[s.choose(len(self.sc.targets))]
            self.queue.append((to[1], m))
            msg = POMP["Message"]()
            self.sc.guard("write", msg.write, self.msgid, fmt, *args)
            self.sc.guard("sendMsgTo", self.conn.sendMsgTo, msg, to[1])

    def op(self, incb=False):
        s = Sim.cur
        c = s.choose(8)
        if c < 5:
            if self.conn is not None:
                self.send()
        elif c == 5 and s.chance(60):
            if not incb or s.chance(self.sc.stopcb):
                self.stop()
        elif c == 6:
            if not self.started and not self.stopping:
                self.start()
        elif c == 7 and s.chance(50):
            if self.conn is not None:
                s.log("app disconnect")
                self.local = True
                self.sc.guard("disconnect", self.conn.disconnect)

    def callback(self):
        s = Sim.cur
        self.incb += 1
        if not self.sc.ending and self.incb < 3 and s.chance(self.sc.incb):
            for _ in range(1 + s.choose(2)):
                self.op(True)
        self.incb -= 1

    def onConnected(self, ctx, conn):
        s = Sim.cur
        s.log("connected")
        if not self.started or self.stopping or self.conn is not None:
            s.fail("EVENTS", "an unexpected connection is announced")
        self.sock = app_conn_end(conn)
        if self.sock is None or self.sock.addr is None or tuple(conn.getLocalAddr()) != (self.addr[0], self.sock.addr) or self.sock.addr[:2] != self.addr[1]:
            s.fail("ADDR", "wrong local address")
        self.conn = conn
        self.queue = []
        self.expect = []
        self.got = 0
        self.peers = []
        self.local = False
        if hasattr(self.sock, "early"):
            for d in self.sock.early:
                self.feed(d)
        self.callback()

    def onDisconnected(self, ctx, conn):
        s = Sim.cur
        s.log("disconnected")
        if conn is not self.conn or conn is None:
            s.fail("EVENTS", "a disconnection that no connection precedes")
        if not self.local:
            s.fail("EVENTS", "a disconnection that nobody asked for")
        self.conn = None
        self.indisc += 1
        self.callback()
        self.indisc -= 1

    def feed(self, data):
        d = ref.RefDec()
        d.feed(data)
        if d.fuzzy:
            self.expect.append((None, False))
        self.expect.extend(d.out)

    def recvMessage(self, ctx, conn, msg):
        s = Sim.cur
        data = msg.buf.getData()
        s.log("message", msg.msgid, len(data))
        if conn is not self.conn or conn is None:
            s.fail("EVENTS", "a message for a connection that is not announced or ended")
        while self.got < len(self.expect):
            b, must = self.expect[self.got]
            if b is None:       # from here on readings differ
                break
            self.got += 1
            if b == data:
                break
            if must:
                s.fail("DGRAM", "message %d of %d bytes delivered, one of %d bytes is next" % (msg.msgid, len(data), len(b)))
        else:
            s.fail("DGRAM", "message %d of %d bytes delivered, which was not received (or again)" % (msg.msgid, len(data)))
        self.callback()

    def main(self):
        s = Sim.cur
        sc = self.sc
        looper = POMP["looper"]
        looper.prepareLoop()

        class H(POMP["EventHandler"]):
            def onConnected(h, ctx, conn):
                self.onConnected(ctx, conn)

            def onDisconnected(h, ctx, conn):
                self.onDisconnected(ctx, conn)

            def recvMessage(h, ctx, conn, msg):
                self.recvMessage(ctx, conn, msg)
        self.ctx = POMP["Context"](H())
        step = lambda n, t: sc.guard("stepLoop", looper.stepLoop, n, t)
        self.start()
        while not sc.ending:
            for _ in range(s.choose(3)):
                self.op()
            step(1 + s.choose(6), [0.01, 0.05, 0.2, 0.002][s.choose(4)])
        self.start()
        self.settled = True
        while not sc.final:
            step(32, 0.1)
        if self.conn is not None:
            self.send()
        while not sc.stopall:
            step(32, 0.1)
        self.stop()
        for _ in range(8):
            step(100, 0.02)
        if self.socks:
            s.fail("LEAK", "%d sockets left open at the end" % len(self.socks))
        live = [x.name for x in self.threads if x.state != "dead"]
        if live:
            s.fail("THREADS", "threads left at the end: " + " ".join(live))
        self.done = True


class Dgrams(Common):
    def __init__(self, s):
        self.s = s
        self.ending = self.final = self.stopall = False
        s.net = mods.Net(s)
        c = s.choose
        if c(3):
            self.psys = [6, 20, 40][c(3)]
        self.ploss = [0, 30, 80][c(3)]
        self.incb = [0, 60, 140][c(3)]
        self.stopcb = [0, 128][c(2)]
        s.preempt = [10, 40, 100][c(3)]
        s.net.lat = [1, 5, 100][c(3)] * MS
        if c(4) == 3:
            s.linegap = [20, 60, 200][c(3)]
        f = [rs.AF_INET, rs.AF_INET6][c(2)]
        a = lambda i: (f, ("127.0.0.1" if f == rs.AF_INET else "::1", 6000 + i))
        self.nodes = [DNode(self, "d%d" % i, a(i)) for i in range(1 + c(2))]
        self.raw = a(9)
        self.targets = [n.addr for n in self.nodes] + [self.raw]
        self.dur = (300 + c(8) * 500) * MS
        if c(3) == 2:
            self.addr_late = c(4000) * MS

    def on_sendto(self, sock, k, data):
        n = sock.proc.node
        if n is None:
            return
        s = self.s
        q = n.queue
        for i, (to, m) in enumerate(q):
            if m == data:
                if i:
                    s.probe("sends skipped")
                if to is not None and k[1:] != to[:2] or to is None and k[1:] not in [p[:2] for p in n.peers]:
                    s.fail("DEST", "a datagram for %r is sent to %r" % (to, k))
                if i:
                    s.fail("DGRAM", "%d accepted datagrams are skipped" % i)
                del q[:i + 1]
                return
        s.fail("DGRAM", "a datagram of %d bytes is sent that no call asked for" % len(data))

    def on_recvfrom(self, sock, data, src):
        n = sock.proc.node
        if n is None:
            return
        if n.sock is not sock:
            if not hasattr(sock, "early"):
                sock.early = []
            sock.early.append(data)
            return
        n.peers.append(src)
        n.feed(data)

    def raw_peer(self):
        s = self.s
        sk = mods.SimSocket.__new__(mods.SimSocket)
        f, s.faulty = s.faulty, False
        sk.__init__(self.raw[0], rs.SOCK_DGRAM)
        late, self.addr_late = self.addr_late, 0
        sk.bind(self.raw[1])
        self.addr_late = late
        s.faulty = f
        while not self.ending:
            s.sleep(s.choose(200) * MS)
            t = self.nodes[s.choose(len(self.nodes))].addr
            c = s.choose(8)
            d = ref.hostile(s)
            if c == 1:
                d = d[:s.choose(len(d) + 1)]
            elif c == 2:
                d += ref.hostile(s)
            elif c == 3:
                d = b""
            elif c == 4:
                d = ref.message(s.choose(1 << 32), ["%p"], [b"x" * (4000 + s.choose(200))])
            elif c == 5:
                s.sleep(s.choose(500) * MS)
            try:
                sk.sendto(d, t[1])
            except OSError:
                pass

    def main(self):
        s = self.s
        s.current.proc = Proc("main")
        for n in self.nodes:
            s.spawn(n.main, n.name, n)
        p = Proc("raw")
        s.spawn(self.raw_peer, "raw", p)
        s.sleep(self.dur)
        s.faulty = False
        self.psys = self.ploss = 0
        self.addr_late = 0
        self.ending = True
        limit = s.now + 20 * SEC
        while not all(n.settled and n.conn is not None for n in self.nodes):
            s.sleep(SEC)
            if s.now > limit:
                s.fail("RECOVER", "no bound socket 20 s after the last fault")
        self.final = True
        s.sleep(4 * SEC)
        for n in self.nodes:
            if n.conn is None:
                s.fail("EVENTS", "the connection is gone")
            if n.queue:
                s.fail("LOST", "%d accepted datagrams are not sent" % len(n.queue))
            if not n.sock.rxq and not any(b is None for b, _ in n.expect):
                for b, must in n.expect[n.got:]:
                    if must:
                        s.fail("LOST", "a message of %d bytes that was read from the socket was not delivered" % len(b))
            if n.sock.rxq:
                s.fail("LOST", "datagrams are not read")
        self.stopall = True
        limit = s.now + 30 * SEC
        while not all(n.done for n in self.nodes):
            s.sleep(SEC)
            if s.now > limit:
                s.fail("STUCK", "a node does not end: " + s.where())
        s._end()


# ---------------------------------------------------------------- messages
class Codec(Common):
    """No schedule: messages written, read, streamed and damaged."""
    def __init__(self, s):
        self.s = s
        s.net = mods.Net(s)

    def main(self):
        s = self.s
        s.current.proc = Proc("main")
        M = POMP["Message"]
        prot = POMP["Protocol"]()
        dec = ref.RefDec()
        stream = bytearray()
        got = []
        want = []
        old = None
        for _ in range(1 + s.choose(8)):
            s.ops += 1
            n = s.choose(12)
            specs = [ref.SPECS[s.choose(len(ref.SPECS))] for _ in range(n)]
            args = [ref.gen_arg(s, f, True) for f in specs]
            if s.choose(4) == 3:
                args = [str(a) if f[-1] in "dui" else repr(a) if f[-1] in "fFeEgG" and a == a else a for f, a in zip(specs, args)]
            vals = [int(a) if f[-1] in "dui" else float(a) if f[-1] in "feEgG" else a for f, a in zip(specs, args)]
            mid = [s.choose(100), 0xffffffff, 0, 0x504d4f50][s.choose(4)]
            fmt = "".join(specs)
            b = ref.message(mid, specs, vals)
            if old is not None and s.choose(4) == 3:
                m = old         # written again
                if s.choose(2):
                    self.guard("clear", m.clear)
            else:
                m = M()
            old = m
            self.guard("write", m.write, mid, fmt if n or s.choose(2) else None, *args)
            s.log("message", mid, fmt, len(b))
            if m.buf.getData() != b or m.msgid != mid:
                s.fail("ENCODE", "%s: encoded differently from protocol.txt (%d bytes, %d expected)" % (fmt, len(m.buf.getData()), len(b)))
            self.read_only(m)
            for _ in range(2):
                r = self.guard("read", m.read, fmt)
                if tuple(r) != tuple(vals):
                    s.fail("DECODE", "%s: read back differently" % fmt)
            d = self.guard("dump", m.dump)
            if d != self.ref_dump(mid, specs, vals):
                s.fail("DUMP", "%s: wrong dump %s" % (fmt, d[:80]))
            if n:
                # shorter formats are fine, longer and other ones are not
                k = s.choose(n + 1)
                r = self.guard("read", m.read, "".join(specs[:k]))
                if tuple(r) != tuple(vals[:k]):
                    s.fail("DECODE", "%s: the first %d arguments are read back differently" % (fmt, k))
                self.refused(m, "".join(specs) + ref.SPECS[s.choose(len(ref.SPECS))], "an argument that does not exist")
                i = s.choose(n)
                o = ref.SPECS[s.choose(len(ref.SPECS))]
                if ref.enc_arg(o, ref.gen_arg(s, o, False))[0] != ref.enc_arg(specs[i], vals[i])[0]:
                    self.refused(m, "".join(specs[:i]) + o, "an argument of another type")
                self.refused(m, "".join(specs[:i]) + ["x", "%z", "%hf", "%llf"][s.choose(4)], "an invalid format")
            # a damaged copy: what is cut cannot be read
            if n:
                cut = 12 + s.choose(len(b) - 12)
                c = M()
                c.init(mid)
                c.buf.skip(12)
                c.buf.write(b[12:cut])
                c.finish()
                self.refused(c, fmt, "a message cut at byte %d of %d" % (cut, len(b)))
            # refused arguments
            if s.choose(4) == 3:
                bad = [("x", ()), ("%z", (1,)), ("%d", ("abc",)), ("%f", ("abc",)), ("%u", ("",)), ("%hf", (1.0,)), ("%s", ("y" * 65535,)), ("%s", ("y" * 70000,))][s.choose(8)]
                try:
                    M().write(1, bad[0], *bad[1])
                    s.fail("ENCODE", "format %s with invalid arguments accepted" % bad[0])
                except Exception:
                    pass
            c = s.choose(6)
            stream += b
            if c == 4:
                stream += ref.hostile(s)
            elif c == 5:
                stream = stream[:len(stream) - s.choose(len(b))] if s.choose(4) == 3 else stream
        self.addresses()
        # the stream in pieces
        i = 0
        stream = bytes(stream)
        dec.feed(stream)
        while i < len(stream):
            k = [1 + s.choose(20), 1, len(stream) - i, 1 + s.choose(4096)][s.choose(4)]
            piece = stream[i:i + k]
            i += k
            off = 0
            while off < len(piece):
                r = self.guard("decode", prot.decode, piece, off)
                if not off < r[0] <= len(piece):
                    s.fail("STREAM", "decoding does not advance")
                off = r[0]
                if r[1] is not None:
                    got.append(r[1])
                    self.read_only(r[1])
        if not dec.fuzzy:
            a = [(x.buf.getData(), x.msgid) for x in got]
            e = [(x, struct.unpack("<I", x[4:8])[0]) for x, _ in dec.out]
            if a != e:
                must = [x for x, y in zip(e, dec.out) if y[1]]
                it = iter(a)
                if not all(x in it for x in must) or not all(x in e for x in a):
                    s.fail("STREAM", "%d messages decoded from a stream of %d" % (len(a), len(e)))
        s._end()

    def addresses(self):
        s = self.s
        h = ["127.0.0.1", "10.0.0.%d" % s.choose(256), "::1", "fe80::%x" % s.choose(65536), "host.example", ""][s.choose(6)]
        p = [1, 65535, s.choose(65536)][s.choose(3)]
        n = "".join(chr(97 + s.choose(26)) for _ in range(1 + s.choose(20)))
        for t, want in (("inet:%s:%d" % (h, p), (rs.AF_INET, (h, p))), ("inet6:%s:%d" % (h, p), (rs.AF_INET6, (h, p))), ("unix:/tmp/" + n, (rs.AF_UNIX, "/tmp/" + n)), ("unix:@" + n, (rs.AF_UNIX, "\0" + n + "\0" * (107 - len(n))))):
            r = self.guard("parseAddr", POMP["parseAddr"], t)
            if tuple(r) != want:
                s.fail("ADDR", "%s is parsed as %r" % (t, r))
        for t in (n, "inet:" + n, "inet:%s:x%s" % (h, n), "inet6:", ""):
            try:
                POMP["parseAddr"](t)
                s.fail("ADDR", "%r is accepted as an address" % t)
            except Exception:
                pass

    def read_only(self, m):
        """A message that is complete cannot be changed."""
        d = m.buf.getData()
        try:
            m.buf.write(b"x")
            self.s.fail("READONLY", "a complete message can be written to")
        except Exception:
            pass
        if m.buf.getData() != d:
            self.s.fail("READONLY", "a complete message was changed")

    def refused(self, m, fmt, what):
        s = self.s
        try:
            m.read(fmt)
            s.fail("DECODE", "%s: %s is accepted" % (fmt, what))
        except Exception:
            pass

    @staticmethod
    def ref_dump(mid, specs, vals):
        r = "{ID:%u" % mid
        for f, v in zip(specs, vals):
            k = f[1:]
            if k in ref.INTS:
                bits, sg = ref.INTS[k]
                r += ", %s%d:%d" % ("I" if sg else "U", bits, v)
            elif k == "s":
                r += ", STR:'%s'" % v
            elif k == "p":
                r += ", BUF:'%s'" % repr(v)
            elif k[0] == "l":
                r += ", F64:%s" % repr(v)
            else:
                r += ", F32:%s" % repr(v)
        return r + "}"


SCEN = {"PYS": Streams, "PYD": Dgrams, "PYC": Codec}
