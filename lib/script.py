"""Scripts for harness/driver.c: tensors, values, calls."""
import math
import random
import struct

INTS = [0, 1, 2, 3, 4, 5, 6, 7]
FLOATS = [8, 9]
ALL = INTS + FLOATS
SIGNED = {0, 2, 4, 6}
SIZE = [1, 1, 2, 2, 4, 4, 8, 8, 4, 8]
FMT = ["b", "B", "h", "H", "i", "I", "q", "Q", "f", "d"]
BITS = [8, 8, 16, 16, 32, 32, 64, 64]


def lo(dt):
    return -(1 << (BITS[dt] - 1)) if dt in SIGNED else 0


def hi(dt):
    return (1 << (BITS[dt] - 1)) - 1 if dt in SIGNED else (1 << BITS[dt]) - 1


def enc(dt, values):
    return struct.pack("<%d%s" % (len(values), FMT[dt]), *values)


def prod(dims):
    p = 1
    for d in dims:
        p *= d
    return p


def f32(x):
    """x rounded to float; infinities where it does not fit."""
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def bits32(u):
    return struct.unpack("<f", struct.pack("<I", u & 0xFFFFFFFF))[0]


def bits64(u):
    return struct.unpack("<d", struct.pack("<Q", u & 0xFFFFFFFFFFFFFFFF))[0]


SPECIAL32 = [0x00000000, 0x80000000, 0x3F800000, 0xBF800000, 0x00000001, 0x80000001, 0x007FFFFF,
             0x00800000, 0x7F7FFFFF, 0xFF7FFFFF, 0x3F800001, 0x3F7FFFFF, 0x4B800000, 0x4B000001,
             0x4F000000, 0xCF000000, 0x5F000000, 0x3EAAAAAB, 0x40490FDB, 0xC2AE0000, 0x42B00000]
SPECIAL64 = [0x0000000000000000, 0x8000000000000000, 0x3FF0000000000000, 0xBFF0000000000000,
             0x0000000000000001, 0x8000000000000001, 0x000FFFFFFFFFFFFF, 0x0010000000000000,
             0x7FEFFFFFFFFFFFFF, 0xFFEFFFFFFFFFFFFF, 0x3FF0000000000001, 0x3FEFFFFFFFFFFFFF,
             0x4340000000000000, 0x4330000000000001, 0x41E0000000000000, 0xC1E0000000000000,
             0x43E0000000000000, 0x3FD5555555555555, 0x400921FB54442D18, 0xC085E00000000000,
             0x4086100000000000, 0x47EFFFFFE0000000, 0x47EFFFFFF0000000, 0x36A0000000000000,
             0x3690000000000000, 0x3690000000000001, 0x380FFFFFC0000000]


def wide_int(r, dt):
    k = r.randrange(10)
    if k < 2:
        return r.choice([lo(dt), hi(dt), lo(dt) + 1, hi(dt) - 1])
    if k < 4:
        return max(lo(dt), r.choice([0, 1, -1, 2, -2, 3, 7, 10]))
    if k < 6:
        v = 1 << r.randrange(BITS[dt])
        v += r.choice([-1, 0, 1])
        if dt in SIGNED and r.randrange(2):
            v = -v
        return min(hi(dt), max(lo(dt), v))
    return r.randint(lo(dt), hi(dt))


def wide_float(r, dt, finite=True, nan=False, lim=None):
    """lim: largest magnitude, as an exponent of 2"""
    while True:
        k = r.randrange(12)
        if dt == 8:
            if k < 2:
                v = bits32(r.choice(SPECIAL32))
            elif k < 5:
                v = f32(r.uniform(-10, 10))
            elif k < 7:
                v = float(r.randint(-1000, 1000))
            elif k == 7 and not finite:
                v = bits32(r.choice([0x7F800000, 0xFF800000] + ([0x7FC00000, 0xFFC00001, 0x7F800001] if nan else [])))
            elif k == 8:
                v = bits32(r.getrandbits(32))
            else:
                v = f32(math.ldexp(r.uniform(-1, 1), r.randint(-40, 40)))
        else:
            if k < 2:
                v = bits64(r.choice(SPECIAL64))
            elif k < 5:
                v = r.uniform(-10, 10)
            elif k < 7:
                v = float(r.randint(-1000, 1000))
            elif k == 7 and not finite:
                v = bits64(r.choice([0x7FF << 52, 0xFFF << 52] +
                                    ([0x7FF8 << 48, (0xFFF8 << 48) + 1, (0x7FF << 52) + 1] if nan else [])))
            elif k == 8:
                v = bits64(r.getrandbits(64))
            else:
                v = math.ldexp(r.uniform(-1, 1), r.randint(-60, 60))
        if math.isnan(v) and not nan:
            continue
        if math.isinf(v) and finite:
            continue
        if lim is not None and v != 0 and math.isfinite(v) and not (2.0 ** -lim <= abs(v) <= 2.0 ** lim):
            continue
        return v


def small_vals(r, dt, n, mag=9):
    a = -mag if dt in SIGNED or dt >= 8 else 0
    if dt >= 8:
        return [float(r.randint(a, mag)) for _ in range(n)]
    return [r.randint(a, mag) for _ in range(n)]


def rand_bytes(r, dt, n):
    return r.randbytes(n * SIZE[dt])


class Gen:
    """One script: segments of calls."""

    def __init__(self, rng):
        self.r = rng
        self.lines = []
        self.segs = 0
        self.calls = 0
        self.touch = None

    def seg(self, kind):
        self.segs += 1
        self.kind = kind
        self.slot = 0
        self.lines.append("seg %d %s" % (self.segs, kind))
        return self

    def new(self):
        self.slot += 1
        assert self.slot <= 24
        return self.slot - 1

    def free_slots(self):
        return 24 - self.slot

    def raw(self, **kw):
        out = []
        for k, v in kw.items():
            if v is None:
                continue
            if isinstance(v, bytes):
                if not v:
                    continue
                v = v.hex()
            elif isinstance(v, (list, tuple)):
                if not v:
                    continue
                v = ",".join(str(x) for x in v)
            elif isinstance(v, float):
                v = struct.pack("<d", v).hex()
            out.append("%s=%s" % (k, v))
        self.lines.append(" ".join(out))
        self.calls += 1

    def call(self, c, **over):
        """Issues call c (a dict); gives it a fresh output slot."""
        c = dict(c)
        c.update(over)
        if "o" not in c and c["op"] not in NO_OUTPUT:
            c["o"] = self.new()
        self.raw(**c)
        return c.get("o")

    def tensor(self, dt, dims, values=None, data=None, dv=0, di=0, **kw):
        """creates a tensor holding the values (or raw data); returns its slot"""
        if self.touch and values is not None:
            k, fn = self.touch
            self.touch = (k - 1, fn)
            if k == 0:
                dt, dims, values = fn(dt, dims, values)
        if data is None:
            data = enc(dt, values) if values is not None else None
        o = self.new()
        if data is not None and len(data) == 0:
            data = None
        self.raw(op="create", o=o, dt=dt, dv=dv or None, di=di or None, dims=dims, x=data,
                 len=len(data) if data is not None else None, **kw)
        return o

    def auto(self, dt, dims, dv=0, di=0, mag=9, **kw):
        """a tensor with values that suit the segment's kind"""
        n = prod(dims)
        r = self.r
        if self.kind == "s":
            return self.tensor(dt, dims, small_vals(r, dt, n, mag), dv=dv, di=di)
        if self.kind == "h":
            return self.tensor(dt, dims, data=rand_bytes(r, dt, n), dv=dv, di=di)
        if dt >= 8:
            return self.tensor(dt, dims, [wide_float(r, dt, **kw) for _ in range(n)], dv=dv, di=di)
        return self.tensor(dt, dims, [wide_int(r, dt) for _ in range(n)], dv=dv, di=di)

    def text(self):
        return "\n".join(self.lines) + "\n"


NO_OUTPUT = {"destroy", "destroynull", "resolve", "inspect", "setitem", "poke", "index", "bcast",
             "sizes", "wbcast", "wsizes", "windex", "typed", "castto", "alloc", "srand", "fill", "rand", "rdonly", "dropstat", "scribble"}


def rdims(r, ndlo=0, ndhi=5, maxn=200, zero=False, long=0.1):
    nd = r.randint(ndlo, ndhi)
    while True:
        d = []
        for _ in range(nd):
            k = r.random()
            if zero and k < 0.15:
                d.append(0)
            elif k > 1 - long / max(nd, 1):
                d.append(r.choice([17, 31, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300]))
            else:
                d.append(r.choice([1, 1, 2, 2, 3, 3, 4, 5, 7]))
        if prod(d) <= maxn:
            return d
