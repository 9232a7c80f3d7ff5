"""Reference model of the wire format, written from protocol.txt."""
import struct

MAGIC = b"POMP"


def varint(v):
    r = bytearray()
    while True:
        b = v & 0x7f
        v >>= 7
        r.append(b | (0x80 if v else 0))
        if not v:
            return bytes(r)


def zigzag(v, bits):
    m = (1 << bits) - 1
    return ((v << 1) & m) if v >= 0 else (~(v << 1)) & m


# specifier -> type, encoder of the data
def enc_arg(f, v):
    k = f[1:]
    if k in ("hhd", "hhi"):
        return b"\x01" + struct.pack("<b", v)
    if k == "hhu":
        return b"\x02" + struct.pack("<B", v)
    if k in ("hd", "hi"):
        return b"\x03" + struct.pack("<h", v)
    if k == "hu":
        return b"\x04" + struct.pack("<H", v)
    if k in ("d", "i"):
        return b"\x05" + varint(zigzag(v, 32))
    if k == "u":
        return b"\x06" + varint(v)
    if k in ("lld", "lli"):
        return b"\x07" + varint(zigzag(v, 64))
    if k == "llu":
        return b"\x08" + varint(v)
    if k == "s":
        b = v.encode("ascii") + b"\0"
        return b"\x09" + varint(len(b)) + b
    if k == "p":
        return b"\x0a" + varint(len(v)) + bytes(v)
    if k in ("f", "F", "e", "E", "g", "G"):
        return b"\x0b" + struct.pack("<f", v)
    return b"\x0c" + struct.pack("<d", v)


def message(msgid, specs, args):
    p = b"".join(enc_arg(f, v) for f, v in zip(specs, args))
    return MAGIC + struct.pack("<II", msgid, 12 + len(p)) + p


INTS = {"hhd": (8, 1), "hhi": (8, 1), "hhu": (8, 0), "hd": (16, 1), "hi": (16, 1), "hu": (16, 0), "d": (32, 1), "i": (32, 1), "u": (32, 0), "lld": (64, 1), "lli": (64, 1), "llu": (64, 0)}
SPECS = ["%" + k for k in INTS] + ["%s", "%s", "%p", "%p", "%f", "%lf", "%e", "%lg"]


def gen_arg(s, spec, big):
    """A value of a specifier, drawn from the choices of simulation s."""
    k = spec[1:]
    if k in INTS:
        bits, sg = INTS[k]
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
        c = s.choose(6)
        if c == 0:
            return s.choose(100)
        if c == 1:
            return lo
        if c == 2:
            return hi
        v = (1 << (7 * s.choose(10))) + s.choose(3) - 1 if c == 3 else (1 << s.choose(bits)) + s.choose(3) - 1 if c == 4 else (s.choose(1 << 32) << 32 | s.choose(1 << 32)) >> s.choose(64)
        if sg and s.choose(2):
            v = -v
        return v if lo <= v <= hi else lo + (v - lo) % (hi - lo + 1)
    if k == "s" or k == "p":
        n = s.choose(20)
        if s.choose(2, 60):
            n = [0, 1, 126, 127, 128, 129, 300, 16382, 16383, 16384, 65533, 65534][s.choose(12)] if big else s.choose(3000)
        x = s.choose(256)
        if k == "s":
            return "".join(chr(1 + (x + i * 7) % 127) for i in range(min(n, 200))) + "x" * max(0, n - 200)
        return bytes((x + i * 7) & 255 for i in range(min(n, 200))) + b"\x50" * max(0, n - 200)
    if k in ("f", "F", "e", "E", "g", "G"):
        return struct.unpack("<f", struct.pack("<f", [0.0, 1.5, -2.25, 1e30, -1e-30, float("inf"), 3.14159][s.choose(7)]))[0]
    return [0.0, 1.5, -2.25, 1e300, -1e-300, float("-inf"), 3.141592653589793][s.choose(7)]


def walk(m):
    """0: malformed arguments, 1: well formed, 2: something the two implementations may read differently."""
    i = 12
    res = 1
    n = len(m)

    def var(i):
        v = sh = 0
        while True:
            if i >= n:
                return None, i
            b = m[i]
            i += 1
            v |= (b & 0x7f) << sh
            sh += 7
            if not b & 0x80:
                return v, i
    while i < n:
        t = m[i]
        i += 1
        need = 0
        if t in (1, 2):
            need = 1
        elif t in (3, 4):
            need = 2
        elif t in (5, 6, 7, 8):
            v, i = var(i)
            if v is None:
                return 0
            if v >= 1 << (32 if t < 7 else 64):
                res = 2
        elif t == 9:
            v, i = var(i)
            if v is None or v == 0:
                return 0
            if v > 0xffff:
                res = 2
            if i + v > n or m[i + v - 1] != 0:
                return 0
            if any(c > 127 or c == 0 for c in m[i:i + v - 1]):
                res = 2
            i += v
        elif t == 10:
            v, i = var(i)
            if v is None:
                return 0
            if v >= 1 << 32:
                res = 2
            need = v
        elif t == 11:
            need = 4
        elif t == 12:
            need = 8
        elif t == 13:
            need, res = 4, 2
        else:
            return 0
        if need > n - i:
            return 0
        i += need
    return res


class RefDec(object):
    """Reference decoder of a byte stream: the messages in it, (bytes, must be delivered)."""
    def __init__(self):
        self.st = 0
        self.h = bytearray()
        self.m = None
        self.size = 0
        self.out = []
        self.fuzzy = False      # from here on readings differ

    def feed(self, data):
        i = 0
        n = len(data)
        while i < n and not self.fuzzy:
            if self.st < 4:
                c = data[i]
                i += 1
                if c == MAGIC[self.st]:
                    self.h.append(c)
                    self.st += 1
                elif c == 0x50:
                    self.h = bytearray(b"P")
                    self.st = 1
                else:
                    self.h = bytearray()
                    self.st = 0
                continue
            if self.st == 4:
                self.h.append(data[i])
                i += 1
                if len(self.h) < 12:
                    continue
                self.size = struct.unpack("<I", self.h[8:12])[0]
                if self.size < 12:
                    if 0x50 in self.h[4:]:
                        self.fuzzy = True
                    self.st = 0
                    self.h = bytearray()
                    continue
                self.m = bytearray(self.h)
                self.st = 5
            k = min(n - i, self.size - len(self.m))
            self.m += data[i:i + k]
            i += k
            if len(self.m) == self.size:
                r = walk(self.m)
                self.out.append((bytes(self.m), r == 1))
                self.m = None
                self.h = bytearray()
                self.st = 0


def hostile(s):
    """A piece of a stream as a hostile peer writes it."""
    c = s.choose(12)
    if c > 9:
        # something like a header, then the rest of a message
        m = message(s.choose(1 << 32), ["%u"], [7])
        return bytes(b"POMPXM"[s.choose(6)] for _ in range(1 + s.choose(6))) + m[s.choose(5):]
    if c < 4:
        specs = [SPECS[s.choose(len(SPECS))] for _ in range(s.choose(5))]
        return message(s.choose(1 << 32), specs, [gen_arg(s, f, False) for f in specs])
    if c == 4:
        return bytes(s.choose(256) for _ in range(1 + s.choose(12)))
    if c == 5:
        return [b"P", b"PO", b"POM", b"PPOMP", b"POPOMP", b"POMPOMP", b"POMPPOMP", b"PP"][s.choose(8)]
    if c == 6:
        return MAGIC + struct.pack("<II", s.choose(100), s.choose(12))
    if c == 7:
        body = bytes([s.choose(16)]) + bytes(s.choose(256) for _ in range(s.choose(12)))
        return MAGIC + struct.pack("<II", s.choose(100), 12 + len(body)) + body
    if c == 8:
        return MAGIC + struct.pack("<II", s.choose(100), 12)
    m = bytearray(message(s.choose(1 << 32), ["%s", "%p", "%u"], ["hello", b"world", 77777]))
    m[12 + s.choose(len(m) - 12)] ^= 1 << s.choose(8)
    return bytes(m)
