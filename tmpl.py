"""Input templates (the counterpart of harness/src/tmpl.rs)."""
import struct


def _enc(x):
    if isinstance(x, bytes):
        return b"L" + struct.pack("<H", len(x)) + x if x else b""
    if isinstance(x, str):
        return _enc(x.encode())
    if isinstance(x, (list, tuple)):
        return b"".join(_enc(y) for y in x)
    return x.enc()


class S:
    """one symbolic byte over a set of ASCII characters"""

    def __init__(self, chars):
        self.c = sorted(set(chars.encode() if isinstance(chars, str) else chars))
        assert all(b < 128 for b in self.c)

    def enc(self):
        m = bytearray(32)
        for b in self.c:
            m[b // 8] |= 1 << (b % 8)
        return b"S" + bytes(m)

    def __sub__(self, o):
        return S(bytes(b for b in self.c if b not in (o.encode() if isinstance(o, str) else o.c)))

    def __add__(self, o):
        return S(bytes(self.c) + (o.encode() if isinstance(o, str) else bytes(o.c)))


class ByteSet:
    """one symbolic byte over a set of byte values (not only ASCII)"""

    def __init__(self, vals):
        self.c = sorted(set(vals))
        self.name = "any byte" if len(self.c) == 256 else "bytes %02x..%02x" % (self.c[0], self.c[-1])

    def enc(self):
        m = bytearray(32)
        for b in self.c:
            m[b // 8] |= 1 << (b % 8)
        return b"S" + bytes(m)


class C:
    """one symbolic non-ASCII character; widths among 2, 3, 4"""

    def __init__(self, *widths):
        self.m = sum(1 << (w - 1) for w in (widths or (2, 3, 4)))

    def enc(self):
        return b"C" + bytes([self.m])


class R:
    """between lo and hi repetitions"""

    def __init__(self, lo, hi, *t):
        self.lo, self.hi, self.t = lo, hi, t

    def enc(self):
        b = _enc(self.t)
        return b"R" + bytes([self.lo, self.hi]) + struct.pack("<H", len(b)) + b


class A:
    """one of several alternatives"""

    def __init__(self, *alts):
        self.a = alts

    def enc(self):
        o = b"A" + bytes([len(self.a)])
        for a in self.a:
            b = _enc(a)
            o += struct.pack("<H", len(b)) + b
        return o


class X:
    """n concrete copies of one byte (padding)"""

    def __init__(self, n, b):
        self.n, self.b = n, ord(b)

    def enc(self):
        return b"X" + struct.pack("<H", self.n) + bytes([self.b])


class Raw:
    """verbatim argument bytes, for entries with their own argument format"""

    def __init__(self, b):
        self.b = b

    def enc(self):
        return self.b


def T(*t):
    return _enc(t)


ANY = S(bytes(range(128)))
PRINT = S(bytes(range(0x20, 0x7F)))
# one representative per class of characters the scanner distinguishes, plus
# neighbours of the class boundaries
STRUCT = S("a: -\n?[]{},#&*!|>'\"%\\\t.")
CH = A(ANY, C(2, 3, 4))


def describe(x):
    if isinstance(x, (list, tuple)):
        return " ".join(describe(y) for y in x)
    if isinstance(x, bytes):
        return repr(x)[1:]
    if isinstance(x, str):
        return repr(x)
    if isinstance(x, S):
        return "[any ASCII]" if len(x.c) == 128 else "[%s]" % repr(bytes(x.c))[2:-1]
    if isinstance(x, ByteSet):
        return "<%s>" % x.name
    if isinstance(x, C):
        return "<non-ASCII char of %s bytes>" % "/".join(str(w) for w in (2, 3, 4) if x.m >> (w - 1) & 1)
    if isinstance(x, R):
        return "(%s){%d..%d}" % (describe(x.t), x.lo, x.hi)
    if isinstance(x, A):
        return "(%s)" % " | ".join(describe(a) for a in x.a)
    if isinstance(x, X):
        return "%r*%d" % (chr(x.b), x.n)
    return "arg " + x.b.hex()
