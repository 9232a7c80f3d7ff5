"""The Python command line tool, python/pompcli.py, in a simulated process, and its oracle."""
import io
import socket as rs
import sys

import mods
import ref
import scen
from core import Sim
from mods import MS, SEC

LATE = 8 * SEC


class Tool(scen.Common):
    def __init__(self, s):
        self.s = s
        c = s.choose
        s.net = mods.Net(s)
        s.preempt = [10, 40, 100][c(3)]
        s.net.seg = [0, 60, 200][c(3)]
        s.net.lat = [1, 5, 100][c(3)] * MS
        s.net.cap = 65536
        if c(3):
            self.psys = [6, 20, 40][c(3)]
        self.short = [0, 60, 200][c(3)]
        if c(4) == 3:
            s.linegap = [20, 60, 200][c(3)]
        if c(4) == 3:
            self.addr_late = c(4000) * MS
        f = [rs.AF_INET, rs.AF_INET6, rs.AF_UNIX][c(3)]
        self.kind = ["client", "server", "udp"][c(3)]
        if self.kind == "udp" and f == rs.AF_UNIX:
            f = rs.AF_INET

        def addr(i):
            if f == rs.AF_INET:
                return "inet:127.0.0.1:%d" % (7000 + i), (f, ("127.0.0.1", 7000 + i))
            if f == rs.AF_INET6:
                return "inet6:::1:%d" % (7000 + i), (f, ("::1", 7000 + i))
            n = "tool%d" % i
            return "unix:@" + n, (f, "\0" + n + "\0" * (107 - len(n)))
        self.text, self.addr = addr(0)
        self.totext, self.to = addr(1)
        self.dump = bool(c(2))
        self.hasmsg = not self.dump or bool(c(2))
        self.timeout = [None, 0, 1, 3, 10][c(5)]
        self.verbose = c(3)
        self.quiet = c(6) == 5
        self.msg = None
        self.build()
        self.proc = scen.Proc("tool")
        self.proc.node = None
        self.printed = []
        self.texts = {}
        self.first = None           # the connection that gets the message
        self.nconn = 0
        self.sent = {}
        self.deadline = None
        self.near = []              # deadlines that were cancelled
        self.must = None            # from here on it has to end
        self.why = ""
        self.code = None
        self.ended = self.stopping = self.over = False
        self.dur = (500 + c(8) * 1500) * MS

    def build(self):
        """The command line."""
        s = self.s
        c = s.choose
        o = []
        if self.kind == "server":
            o.append(["-s", "--server"][c(2)])
        elif self.kind == "udp":
            o.append(["-u", "--udp"][c(2)])
        elif c(4) == 3:
            o.append(["-c", "--client"][c(2)])
        if self.dump:
            o.append(["-d", "--dump"][c(2)])
        if self.timeout is not None:
            o += [["-t", str(self.timeout)], ["--timeout", str(self.timeout)], ["--timeout=%d" % self.timeout], ["-t%d" % self.timeout]][c(4)]
        if self.quiet:
            o.append(["-q", "--quiet"][c(2)])
        o += ["-v"] * self.verbose
        a = [self.text]
        if self.hasmsg:
            if self.kind == "udp":
                a.append(self.totext)
            mid = [c(100), 0xffffffff, 0][c(3)]
            specs, args, vals = [], [], []
            for _ in range(c(6)):
                f = [x for x in ref.SPECS if x != "%p"][c(len(ref.SPECS) - 2)]
                v = ref.gen_arg(s, f, False)
                specs.append(f)
                vals.append(v)
                args.append(repr(v) if isinstance(v, float) else str(v))
            a.append(str(mid))
            if specs or c(2):
                a.append("".join(specs))
            a += args
            self.msg = ref.message(mid, specs, vals)
        if any(x.startswith("-") for x in a):
            o.append("--")
        self.argv = o + a
        self.bad = c(20) == 19
        if self.bad:
            k = c(6)
            if k > 3 and self.kind == "udp":
                self.argv = o + a[:1] + (["tcp:nowhere", "12"] if k == 4 else [self.totext])
            elif k == 0:
                self.argv = o
            elif k == 1:
                self.argv = o + ["tcp:nowhere"] + a[1:]
            elif k == 2:
                self.argv = [x for x in o if x not in ("-d", "--dump")] + a[:1]
                if self.kind == "udp":
                    self.argv = [x for x in self.argv if x not in ("-u", "--udp")]
            else:
                self.argv = o + a[:1] + ["x12"]

    # -- what the tool does
    def on_log(self, lvl, text):
        if self.s.current is not None and self.s.current.proc is self.proc:
            self.s.log("tool prints", text[:200])
            self.printed.append(text)

    def on_listen(self, sock):
        if sock.proc is self.proc and (self.kind != "server" or sock._key(self.addr[1]) != sock._key(sock.addr)):
            self.s.fail("ROLE", "the tool listens on %r (arguments %s)" % (sock.addr, " ".join(self.argv)[:100]))

    def on_connect(self, sock, addr):
        if sock.proc is self.proc and (self.kind != "client" or addr != self.addr[1]):
            self.s.fail("ROLE", "the tool connects to %r (arguments %s)" % (addr, " ".join(self.argv)[:100]))

    def on_pair(self, a, b, sock, l):
        a.tool, b.tool = sock.proc is self.proc, l.proc is self.proc

    def on_send(self, e, data):
        if not e.tool:
            return
        s = self.s
        if self.msg is None:
            s.fail("SENT", "%d bytes are sent, there is no message" % len(data))
        if self.first is None or e is not self.first:
            s.fail("SENT", "the message is sent on another connection than the first one")
        x = self.sent.get(e.pair, b"") + data
        self.sent[e.pair] = x
        if not self.msg.startswith(x):
            s.fail("SENT", "what is sent is not the message of the command line, once (%d bytes, message of %d)" % (len(x), len(self.msg)))

    def on_sendto(self, sock, k, data):
        if sock.proc is not self.proc:
            return
        s = self.s
        if self.msg is None or data != self.msg or self.sent:
            s.fail("SENT", "a datagram is sent that is not the message of the command line, once (%d bytes)" % len(data))
        if tuple(k[1:]) != tuple(self.to[1]):
            s.fail("SENT", "the message is sent to %r, %r was asked for" % (k, self.to[1]))
        self.sent[0] = data

    def arm(self):
        if self.timeout is not None:
            self.deadline = self.s.now + self.timeout * SEC

    def end_due(self, why):
        if self.must is None:
            self.must, self.why = self.s.now, why

    def check_early(self):
        """The tool ends: there has to be a reason."""
        s = self.s
        if self.must is not None:
            return
        d = [x for x, y in self.near if abs(x - s.now) < SEC // 5 and abs(x - y) < SEC // 5]
        if self.deadline is not None and s.now >= self.deadline - 2 * MS:
            self.end_due("timeout")
        elif d:
            self.end_due("timeout at the time of a connection")
        else:
            s.fail("EARLY", "the tool ends without a reason (arguments %s)" % " ".join(self.argv)[:100])

    def wrap(self):
        """The events of the tool's context pass the harness."""
        sc = self
        pomp = scen.POMP["pomp"]
        base = pomp.Context

        class Proxy(scen.POMP["EventHandler"]):
            def __init__(h, inner):
                h.inner = inner

            def onConnected(h, ctx, conn):
                s = sc.s
                s.log("connected")
                s.ops += 1
                if sc.nconn == 0 and sc.kind != "udp":
                    sk = scen.app_conn_end(conn)
                    sc.first = sk.end
                sc.nconn += 1
                if sc.deadline is not None:
                    sc.near.append((sc.deadline, s.now))
                    if s.now > sc.deadline + SEC // 5:
                        sc.end_due("timeout")
                    sc.deadline = None
                sc.guard("onConnected", h.inner.onConnected, ctx, conn)
                if not sc.dump:
                    sc.end_due("connected")

            def onDisconnected(h, ctx, conn):
                sc.s.log("disconnected")
                sc.guard("onDisconnected", h.inner.onDisconnected, ctx, conn)
                if not sc.stopping:
                    if sc.deadline is not None:
                        sc.near.append((sc.deadline, sc.s.now))
                    sc.arm()

            def recvMessage(h, ctx, conn, msg):
                n = len(sc.printed)
                b = msg.buf.getData()
                sc.s.log("message", len(b))
                sc.guard("recvMessage", h.inner.recvMessage, ctx, conn, msg)
                new = [x for x in sc.printed[n:]]
                if b in sc.texts:
                    want = ["MSG: " + sc.texts[b]] if sc.dump and not sc.silent() else []
                    if [x for x in new if x.startswith("MSG")] != want:
                        sc.s.fail("DUMP", "message of %d bytes: %r is printed, %r expected" % (len(b), str(new)[:80], str(want)[:80]))

        class Wrapped(base):
            def __init__(c, handler, *a, **k):
                sc.arm_time = sc.s.now
                base.__init__(c, Proxy(handler), *a, **k)

            def stop(c, *a, **k):
                if not sc.stopping:
                    sc.check_early()
                    sc.stopping = True
                return base.stop(c, *a, **k)
        pomp.Context = Wrapped

    def silent(self):
        return self.quiet

    def tool(self):
        s = self.s
        self.task = s.current
        self.wrap()
        argv, se = sys.argv, sys.stderr
        sys.argv = ["pompcli.py"] + self.argv
        sys.stderr = io.StringIO()
        s.log("tool", " ".join(self.argv)[:200])
        self.arm()
        try:
            scen.POMP["tool"].main()
            self.code = 0
        except SystemExit as ex:
            self.code = 0 if ex.code is None else ex.code
        except KeyboardInterrupt:
            s.fail("DIED", "the tool is ended by an interruption without cleaning up")
        except Exception as ex:
            import traceback
            f = traceback.extract_tb(ex.__traceback__)
            s.fail("DIED", "the tool died: %s: %s (%s)" % (type(ex).__name__, ex, " < ".join("%s:%s" % (x.filename.rsplit("/", 1)[-1], x.name) for x in reversed(f[-3:]))))
        finally:
            sys.argv, sys.stderr = argv, se
            self.task.intr = False
        self.over = True
        s.log("tool ends", self.code)

    # -- peers
    def talk(self, sk):
        s = self.s
        sk.settimeout(0.3)
        n = s.choose(6)
        rest = b""
        hostile = s.choose(3) == 2
        reads = s.choose(6)
        while not self.ended:
            try:
                if n or rest:
                    if not rest:
                        n -= 1
                        rest = ref.hostile(s) if hostile else self.gen()
                    k = len(rest)
                    if k > 1 and s.chance(100):
                        k = 1 + s.choose(k)
                    rest = rest[sk.send(rest[:k]):]
                    if s.chance(60):
                        s.sleep(s.choose(600) * MS)
                elif s.chance(60):
                    break
            except rs.timeout:
                pass
            if reads:
                try:
                    if not sk.recv(1 + s.choose(5000)):
                        break
                except rs.timeout:
                    pass
            else:
                s.sleep(100 * MS)
        if s.chance(60):
            sk.end.close(True)
        sk.close()

    def gen(self):
        s = self.s
        _, specs, args = scen.gen_msg(s)
        mid = s.choose(1 << 32)
        b = ref.message(mid, specs, args)
        self.texts[b] = scen.Codec.ref_dump(mid, specs, args)
        return b

    def client(self):
        s = self.s
        for _ in range(1 + s.choose(4)):
            s.sleep(s.choose(4000) * MS)
            if self.ended:
                break
            sk = None
            try:
                sk = mods.SimSocket(self.addr[0], rs.SOCK_STREAM)
                sk.settimeout(2)
                sk.connect(self.addr[1])
                self.talk(sk)
            except OSError:
                pass
            if sk is not None:
                sk.close()

    def server(self):
        s = self.s
        p = s.current.proc
        s.sleep(s.choose(2) * s.choose(5000) * MS)
        while not self.ended:
            l = None
            try:
                l = mods.SimSocket(self.addr[0], rs.SOCK_STREAM)
                l.opts[(rs.SOL_SOCKET, rs.SO_REUSEADDR)] = 1
                l.bind(self.addr[1])
                l.listen(1)
                l.settimeout(0.5)
                end = s.now + (s.choose(8000) + 200) * MS
                while not self.ended and s.now < end:
                    try:
                        c, _ = l.accept()
                    except rs.timeout:
                        continue

                    def go(c=c):
                        try:
                            self.talk(c)
                        except OSError:
                            pass
                        c.close()
                    s.spawn(go, "raw.talk", p)
            except OSError:
                pass
            if l is not None:
                l.close()
            s.sleep(s.choose(5000) * MS + MS)

    def dgram(self):
        s = self.s
        sk = None
        try:
            sk = mods.SimSocket(self.to[0], rs.SOCK_DGRAM)
            sk.bind(self.to[1])
        except OSError:
            pass
        while not self.ended and sk is not None:
            s.sleep(s.choose(800) * MS)
            try:
                sk.sendto(self.gen() if s.choose(3) else ref.hostile(s), self.addr[1])
            except OSError:
                pass

    # -- the run
    def main(self):
        s = self.s
        s.current.proc = scen.Proc("main")
        t = s.spawn(self.tool, "tool", self.proc)
        p = scen.Proc("raw")
        if self.kind == "client":
            s.spawn(self.server, "raw", p)
        elif self.kind == "server":
            for i in range(1 + s.choose(3)):
                s.spawn(self.client, "raw%d" % i, p)
        else:
            s.spawn(self.dgram, "raw", p)
        end = s.now + self.dur
        sig = None
        if s.choose(4) == 3:
            sig = s.now + s.choose(int(self.dur // MS)) * MS
        heal = None
        limit = s.now + 400 * SEC
        while True:
            s.sleep((50 + s.choose(200)) * MS)
            if s.faulty and not s.net.cut and s.fault("partition", 10):
                s.net.cut = True
                s.after(s.choose(3000) * MS, s.net.heal)
            if s.now >= end:
                s.faulty = False
                self.psys = 0
                self.addr_late = 0
            live = [x for x in self.proc.threads if x.state != "dead"]
            if self.over and not live:
                break
            if self.bad and s.now > SEC and (not self.over or live):
                s.fail("REFUSE", "the command line %s is not refused" % " ".join(self.argv)[:100])
            if self.deadline is not None and s.now > self.deadline + SEC // 5 and not self.stopping:
                self.end_due("timeout")
            if sig is not None and s.now >= sig and not self.stopping and self.must is None and t.state != "dead":
                s.faults["signal"] = s.faults.get("signal", 0) + 1
                s.interrupt(t)
                self.end_due("signal")
            if s.now >= end + 12 * SEC and sig is None:
                sig = s.now
            if self.must is not None and s.now > self.must + LATE:
                s.fail("LATE", "the tool has not ended %d s after it had to (%s): %s (arguments %s)" % (LATE // SEC, self.why, s.where() if not self.over else "threads left", " ".join(self.argv)[:60]))
            if s.now > limit:
                s.fail("LATE", "the tool does not end: " + s.where())
        self.ended = True
        if self.bad:
            if self.code == 0:
                s.fail("REFUSE", "the command line %s ends with success" % " ".join(self.argv)[:100])
            if self.sent:
                s.fail("REFUSE", "something is sent though the command line is refused")
        else:
            if not self.stopping:
                s.fail("EARLY", "the tool ends without having run (status %r, arguments %s)" % (self.code, " ".join(self.argv)[:100]))
            if self.code != 0:
                s.fail("STATUS", "the tool ends with status %r" % self.code)
            if self.msg is not None and self.nconn:
                self.check_sent()
        s._end()

    def check_sent(self):
        s = self.s
        if self.kind == "udp":
            if self.sent.get(0) != self.msg:
                s.fail("UNSENT", "the message is not sent")
            return
        e = self.first
        x = self.sent.get(e.pair, b"")
        if x == self.msg:
            return
        # the peer may have ended the connection
        if e.err or e.dead or e.eof or e.peer.closed or e.hadend:
            return
        s.fail("UNSENT", "%d of %d bytes of the message are sent" % (len(x), len(self.msg)))
