"""What each property's check runs: scripts of calls, by property and tier."""
import random

import auto
import parts
import scen
from script import (ALL, FLOATS, INTS, SIGNED, SIZE, Gen, enc, hi, lo, prod, rdims, small_vals, wide_float,
                    wide_int)

FUNC = ["status", "meta", "data"]


class Plan:
    def __init__(self, prop, tier, seed, work="/tmp"):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.shards = []          # (name, text, aspects, scope)
        self.segs = 0
        self.models = []          # (distinct states, transitions, what), from generating

    def k(self, quick, thorough=None):
        """a count, by tier"""
        if self.tier == "quick":
            return quick
        return thorough if thorough is not None else quick * 8

    def gen(self, name):
        return Gen(random.Random("%s/%s/%s" % (self.prop, name, self.seed)))

    def add(self, name, g, aspects=FUNC, scope="all"):
        if g.segs:
            self.shards.append((name, g.text(), list(aspects), scope))


def calls(g, op, kind, n, bad=None, **kw):
    for _ in range(n):
        g.seg(kind)
        g.call(scen.scenario(g, op, bad, **kw))


def functional(plan, ops, kinds, per, aspects=FUNC, **kw):
    """accepted and rejected calls of each operation"""
    for op in ops:
        g = plan.gen("fun-" + op)
        for kind in kinds:
            calls(g, op, kind, plan.k(per), **kw)
        for bad in scen.BAD[op]:
            for kind in kinds[:1]:
                calls(g, op, kind, plan.k(max(40, per // 2), max(150, per)), bad)
        plan.add(op, g, aspects)


OPERANDS = {"batch_norm": 5, "add": 2, "sub": 2, "mul": 2, "div": 2, "matmul": 2, "dot": 2, "conv": 2, "conv2d": 2, "conv3d": 2}


def near(plan, ops, per, name="near"):
    """calls next to accepted ones: one extent, axis, type or argument is another (what the status is then is
    the specification's to say)"""
    g = plan.gen(name)
    r = g.r

    def other(dt, dims, values):
        dims, how = list(dims), r.randrange(8)
        if how < 4 and dims:
            i = r.randrange(len(dims))
            dims[i] = max(1, dims[i] + r.choice([1, 1, -1, -1, 2, 256 if prod(dims) < 20 else 1]))
        elif how == 4 and dims:
            r.shuffle(dims)
        elif how == 5:
            dims.insert(r.randint(0, len(dims)), r.choice([1, 1, 2]))
        elif how == 6 and dims:
            dims.pop(r.randrange(len(dims)))
        else:
            dt = r.choice(ALL)
            values = [abs(v) if dt not in SIGNED else v for v in values]
            values = [float(v) if dt >= 8 else int(v) for v in values]
        n = prod(dims)
        return dt, dims, [values[i % len(values)] for i in range(n)] if values else [1.0 if dt >= 8 else 1] * n

    for op in ops:
        for _ in range(plan.k(per)):
            g.seg("s")
            args = r.random() < (0.25 if op in OPERANDS else 1)
            g.touch = None if args else (r.randrange(OPERANDS[op]), other)
            c = scen.scenario(g, op)
            g.touch = None
            have = [k for k in ("a", "b", "c", "d", "n", "dims") if c.get(k) and (op, k) != ("squeeze", "n")]
            if args and have:
                k = r.choice(have)
                v = list(c[k])
                i = r.randrange(len(v))
                v[i] = min(2 ** 31 - 1, v[i] + r.choice([1, 1, -1, -1, 2, -2]))
                if not (op == "reshape" and sum(x < 0 for x in v) > 1):
                    c[k] = v
            g.call(c)
    plan.add(name, g)


def iota(dt, n):
    """distinct (as far as the type allows) small values"""
    if dt >= 8:
        return [float(i - 3) for i in range(n)]
    m = hi(dt) - lo(dt) + 1
    return [lo(dt) + (i + 7) % m if dt in SIGNED and BITS_SMALL(dt) else i % min(m, 2 ** 31) for i in range(n)]


def BITS_SMALL(dt):
    return dt in (0, 2)


# ------------------------------------------------------------------------ P01

def p01(plan):
    g = plan.gen("construct")
    r = g.r
    for _ in range(plan.k(300)):
        g.seg(r.choice("shw"))
        c = scen.scenario(g, "create", None)
        o = g.call(c, h=r.choice([0, 1]))
        for _ in range(r.randint(1, 3)):
            probe(g, o, c)
        if r.random() < 0.5:
            g.call(dict(op="destroy", t=[o]))
        g.call(dict(op="destroynull"))
    plan.add("construct", g, FUNC + ["handle", "frame", "args"])
    g = plan.gen("reject")
    for _ in range(plan.k(150)):
        g.seg(r.choice("shw"))
        g.call(scen.scenario(g, "create", "len"), h=r.choice([0, 1]))
    for kind in "sw":
        for dt in ALL:
            for _ in range(plan.k(8)):
                g.seg(kind)
                c = scen.scenario(g, "full", None, dt=dt)
                o = g.call(c)
                probe(g, o, c)
    for dt in ALL:      # zeros of both signs, and what else a value could be mistaken for
        g.seg("w")
        for v in (0.0, -0.0, 1.0, 5e-324, -5e-324, 2.0 ** -149, -2.0 ** -150) if dt >= 8 else (0.0, -0.0, 1.0, 0.25, -0.25):
            g.call(dict(op="full", dt=dt, dims=[r.randint(1, 3)] * r.randint(0, 2), xd=v))
    plan.add("reject-full", g, FUNC + ["handle", "frame", "args"])
    # every data type and device, ndim 0..8, each buffer length around the right one
    g = plan.gen("types")
    for dt in ALL:
        for dv in (0, 1):
            for nd in range(0, 9):
                g.seg("h")
                dims = [r.choice([1, 2, 3] if nd < 5 else [1, 2]) for _ in range(nd)]
                o = g.auto(dt, dims, dv=dv, di=r.choice([0, 1, 5, -1, 2147483647]))
                for op in ("resolve", "inspect"):
                    g.call(dict(op=op, t=[o]))
                n = prod(dims)
                for i in {0, n - 1, n // 2}:
                    g.call(dict(op="setitem", t=[o], n=[i], dt=dt, x=r.randbytes(SIZE[dt])))
                g.call(dict(op="destroy", t=[o]))
    for dt in ALL:
        for n in (0, 1, 2, 3, 5):
            for ln in range(0, SIZE[dt] * (n + 2)):
                if ln % 20 == 0 or ln == 0:
                    g.seg("h")
                if g.free_slots() == 0:
                    g.seg("h")
                g.call(dict(op="create", o=g.new(), dt=dt, dims=[n] if n != 1 else [], x=r.randbytes(ln), len=ln))
    for d in ([2 ** 31, 0], [0, 2 ** 32], [2 ** 40 + 3, 0], [1, 2 ** 33 + 1, 0], [0, 2 ** 32 + 1], [2 ** 62, 0]):
        g.seg("h")      # extents beyond 32 bits, of an empty tensor
        dt = r.choice(ALL)
        o = g.call(dict(op="create", dt=dt, dims=d))
        g.call(dict(op="resolve", t=[o]))
        o = g.call(dict(op="create", dt=dt, dims=d, x=b"abcdefgh"[:SIZE[dt] - 1], len=SIZE[dt] - 1))
        g.call(dict(op="full", dt=dt, dims=d, xd=3.0))
    # elements that count as many as the buffer holds in their low bits only
    for n in (0, 1, 2, 6, 120, 255, 256):
        g.seg("h")
        dt = r.choice([0, 1, 3, 9])
        for dims in wrapping(r, n, plan.k(8, 20)):
            g.call(dict(op="create", o=g.new(), dt=dt, dims=dims, x=r.randbytes(max(1, n * SIZE[dt])), len=n * SIZE[dt]))
    # a value in each of many places
    for n in (255, 256, 257, 32768, 32769, 65535, 65536, 65543, 70001):
        g.seg("h")
        dt = r.choice(ALL)
        o = g.call(dict(op="full", dt=dt, dims=r.choice([[n], [1, n]]), xd=float(r.randint(1, 99))))
        g.call(dict(op="inspect", t=[o]))
    for nd in (9, 12, 16, 17, 25, 33, 50):
        g.seg("h")
        d = [1] * nd
        for i in r.sample(range(nd), 4):
            d[i] = r.choice([2, 3])
        o = g.auto(r.choice(ALL), d)
        q = g.call(dict(op="full", dt=r.choice(ALL), dims=d, xd=3.0))
        for op in ("resolve", "inspect"):
            for t in (o, q):
                g.call(dict(op=op, t=[t]))
    for dims in ([70000], [300, 301], [2, 40000], [1, 1, 65537]):
        g.seg("h")
        for dt in (1, 3, 9):
            g.auto(dt, dims)
        for o in range(3):
            g.call(dict(op="inspect", t=[o]))
            g.call(dict(op="setitem", t=[o], n=[prod(dims) - 1], dt=(1, 3, 9)[o], x=r.randbytes(SIZE[(1, 3, 9)[o]])))
    plan.add("types", g, FUNC + ["handle", "frame", "args"])
    # sizes near the limits of int
    g = plan.gen("huge")
    for dims in ([65536, 16384], [3, 5, 7, 11, 13, 17, 19, 23], [1 << 30], [1 << 15, 1 << 15], [2147483, 1000]):
        g.seg("h")
        o = g.tensor(r.choice([0, 1]), dims)
        g.call(dict(op="inspect", t=[o]))
        g.call(dict(op="resolve", t=[o]))
        g.call(dict(op="destroy", t=[o]))
    plan.add("huge", g, FUNC + ["handle", "frame", "args"])


def probe(g, o, c):
    r = g.r
    n = prod(c["dims"])
    k = r.randrange(4)
    if k == 0:
        g.call(dict(op="resolve", t=[o]))
    elif k == 1:
        g.call(dict(op="inspect", t=[o]))
    elif n and c.get("x") is not None:
        if k == 2:
            g.call(dict(op="setitem", t=[o], n=[r.choice([0, n - 1, r.randrange(n)])], dt=c["dt"],
                        x=scen.vals(g, c["dt"], 1)))
        else:
            g.call(dict(op="poke", t=[o], dt=c["dt"], x=scen.vals(g, c["dt"], n)))
    else:
        g.call(dict(op="inspect", t=[o]))


# ------------------------------------------------------------------------ P07

def p07(plan):
    g = plan.gen("exhaustive")
    shapes = [[]]
    for nd in range(1, 5):
        top = {1: 6, 2: 4, 3: 3, 4: 2}[nd] if plan.tier == "quick" else {1: 12, 2: 7, 3: 4, 4: 3}[nd]
        cur = [[]]
        for _ in range(nd):
            cur = [d + [e] for d in cur for e in range(1, top + 1)]
        shapes += cur
    for i in range(0, len(shapes), 20):
        g.seg("h")
        for d in shapes[i:i + 20]:
            o = g.tensor(1, d)
            g.call(dict(op="index", t=[o]))
            g.call(dict(op="inspect", t=[o]))
    plan.add("exhaustive", g, FUNC + ["args", "frame"])
    g = plan.gen("random")
    r = g.r
    for _ in range(plan.k(60)):
        g.seg("h")
        for _ in range(4):
            d = rdims(r, 0, r.choice([4, 8, 12]), 600, long=0.5)
            o = g.tensor(r.choice(ALL), d)
            g.call(dict(op="index", t=[o]))
            g.call(dict(op="inspect", t=[o]))
    plan.add("random", g, FUNC + ["args", "frame"])
    # tensors in the place of earlier ones
    g = plan.gen("reuse")
    r = g.r
    for nd in range(1, 9):
        for how in range(3):
            g.seg("h")
            for _ in range(8):
                o = g.tensor(r.choice([0, 9]), [r.choice([1, 2, 3, 5] if nd < 4 else [1, 2]) for _ in range(nd)])
                if how < 2 or r.random() < 0.6:
                    g.call(dict(op="index", t=[o]))
                if how != 1 or r.random() < 0.6:
                    g.call(dict(op="inspect", t=[o]))
                g.call(dict(op="destroy", t=[o]))
                g.slot = 0
    plan.add("reuse", g, FUNC + ["args", "frame"])
    # few indices of tensors with very many elements
    g = plan.gen("sparse")
    for _ in range(plan.k(40)):
        while True:
            nd = r.randint(1, 9)
            d = [r.choice([1, 2, 3, 7, 100, 127, 128, 255, 256, 1000, 4096, 32767, 32768, 65535, 65536, 65537, 1000000])
                 for _ in range(nd)]
            if 100000 < prod(d) < 2 ** 31 - 1:
                break
        n = prod(d)
        g.seg("h")
        o = g.tensor(1, d)
        idx = {0, n - 1, 1, n - 2, n // 2}
        for k in range(8):
            idx.add(r.randrange(n))
            idx.add(min(n - 1, max(0, (1 << r.randint(3, 31)) + r.choice([-1, 0, 1]))))
        for k in range(1, nd):
            s = prod(d[k:])
            idx |= {min(n - 1, s), s - 1}
        g.call(dict(op="index", t=[o], a=sorted(idx)[:60]))
        g.call(dict(op="inspect", t=[o]))
        g.call(dict(op="destroy", t=[o]))
    for _ in range(plan.k(60)):
        g.seg("h")
        for _ in range(5):
            while True:
                d = [r.choice([0, 1, 2, 3, 5, 7, 100, 255, 1000, 40000] if r.random() < 0.3 else [1, 2, 3, 5])
                     for _ in range(r.randint(0, 10))]
                p = prod([max(1, x) for x in d])
                if p < 2 ** 31 - 1:
                    break
            g.call(dict(op="sizes", dims=d))
    # products beyond 32 bits
    for _ in range(plan.k(60)):
        g.seg("h")
        for _ in range(4):
            while True:
                d = [r.choice([1, 2, 3, 1000, 65535, 65536, 70000, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 2, 2 ** 40 + 1])
                     for _ in range(r.randint(1, 6))]
                if prod(d) < 2 ** 63 and max(prod(d), *d) > 2 ** 31:
                    break
            if r.random() < 0.1:
                d[r.randrange(len(d))] = 0
            g.call(dict(op="wsizes", dims=d))
    # tensors whose elements 31, or (nearly) 32, bits do not count
    for _ in range(plan.k(40)):
        g.seg("h")
        for _ in range(3):
            while True:
                nd = r.randint(1, 6)
                d = [r.choice([1, 2, 3, 7, 255, 256, 1000, 4096, 46341, 65535, 65536, 65537, 1000000, 2 ** 31 - 1, 2 ** 31,
                               2 ** 31 + 1, 2 ** 32 - 1]) for _ in range(nd)]
                if 2 ** 31 - 2 < prod(d) < 2 ** 32:
                    break
            n = prod(d)
            idx = {0, n - 1, n - 2, n // 2, min(n - 1, 2 ** 31), 2 ** 31 - 1 if n > 2 ** 31 - 1 else 0, n // 3}
            for k in range(1, nd):
                s = prod(d[k:])
                idx |= {min(n - 1, s), s - 1, n - s}
            for k in range(6):
                idx.add(r.randrange(n))
                idx.add(min(n - 1, (1 << r.randint(24, 32)) + r.choice([-1, 0, 1])))
            g.call(dict(op="windex", dims=d, dt=r.choice([0, 1]), a=sorted(idx)[:50], n=[n]))
    for d, dt in (([65536, 32767, 1], 2), ([3, 65535, 65537 // 9], 3), ([1 << 29, 1], 9), ([1 << 30], 8), ([23170, 46341], 4)):
        n = prod(d)
        if n * SIZE[dt] < 2 ** 32:
            g.seg("h")
            g.call(dict(op="windex", dims=d, dt=dt, a=[0, n - 1, n // 2, n - prod(d[1:])], n=[n * SIZE[dt]]))
    plan.add("sparse", g, FUNC + ["args", "frame"])


# ------------------------------------------------------------------------ P08

def p08(plan):
    g = plan.gen("exhaustive")
    ext, top = (3, 3) if plan.tier == "quick" else (3, 4)
    shapes = [[]]
    cur = [[]]
    for _ in range(top):
        cur = [d + [e] for d in cur for e in range(1, ext + 1)]
        shapes += cur
    for a in shapes:
        g.seg("h")
        for b in shapes:
            g.call(dict(op="bcast", a=a, b=b, n=[max(len(a), len(b))]))
    plan.add("exhaustive", g, FUNC + ["args", "frame", "ledger"])
    g = plan.gen("random")
    r = g.r
    for _ in range(plan.k(200)):
        g.seg("h")
        for _ in range(5):
            n = r.randint(0, 20)
            base = [r.choice([1, 2, 3, 4, 7, 127, 128, 255, 256, 257, 65536, 65537, 2147483646]) for _ in range(n)]
            a = [x if r.random() < 0.7 else 1 for x in base]
            b = [x if r.random() < 0.7 else 1 for x in base]
            k = r.randint(0, n)
            if r.random() < 0.5:
                a = a[k:]
            else:
                b = b[k:]
            if r.random() < 0.35 and a and b:
                i = r.randint(1, min(len(a), len(b)))
                a[-i] = r.choice([2, 3, 257, 511])
                b[-i] = r.choice([a[-i] + 1, a[-i] + 256, a[-i] * 2, 5])
            g.call(dict(op="bcast", a=a, b=b, n=[max(len(a), len(b))]))
            g.call(dict(op="bcast", a=b, b=a, n=[max(len(a), len(b))]))
    # extents beyond 32 bits, and pairs that differ only there
    for _ in range(plan.k(100)):
        g.seg("h")
        for _ in range(5):
            n = r.randint(1, 8)
            base = [r.choice([1, 2, 5, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 32 + 5, 2 ** 40,
                              2 ** 53 + 1, 2 ** 62, 2 ** 63 - 1]) for _ in range(n)]
            a = [x if r.random() < 0.7 else 1 for x in base]
            b = [x if r.random() < 0.7 else 1 for x in base][r.randint(0, n - 1):]
            if r.random() < 0.4:
                i = r.randint(1, len(b))
                a[-i], b[-i] = r.choice([(2 ** 32 + 1, 1), (2 ** 32 + 1, 2 ** 33 + 1), (2 ** 32 + 2, 2), (2 ** 33, 2 ** 32),
                                         (2 ** 53 + 1, 2 ** 53), (2 ** 63 - 1, 2 ** 31 - 1), (2 ** 32, 1)])
            if r.random() < 0.5:
                a, b = b, a
            g.call(dict(op="wbcast", a=a, b=b, n=[max(len(a), len(b))]))
    plan.add("random", g, FUNC + ["args", "frame", "ledger"])


# ------------------------------------------------------------------------ P09

def p09(plan):
    functional(plan, ["slice", "duplicate"], "h", 300)
    near(plan, ["slice"], 300)
    # all arguments of one axis, and of two short ones
    g = plan.gen("exhaustive")
    batch = []
    r = g.r

    def flush(dims):
        if not batch:
            return
        g.seg("h")
        t = g.tensor(3, dims, data=enc(3, [257 * i + 1 for i in range(prod(dims))]))
        for a, b, c in batch:
            g.call(dict(op="slice", t=[t], a=a, b=b, c=c))
        batch.clear()

    def axis(e):
        return [(a, b, c) for a in range(-1, e + 1) for b in range(-1, e + 2) for c in range(0, e + 2)]
    for e in range(1, plan.k(6, 9)):
        for a, b, c in axis(e):
            batch.append(([a], [b], [c]))
            if len(batch) == 20:
                flush([e])
        flush([e])
    for e in range(1, plan.k(3, 4)):
        for f in range(1, plan.k(3, 4)):
            pts = [(x, y) for x in axis(e) for y in axis(f)]
            for x, y in (pts if len(pts) < 3000 else r.sample(pts, 3000)):
                batch.append(([x[0], y[0]], [x[1], y[1]], [x[2], y[2]]))
                if len(batch) == 20:
                    flush([e, f])
            flush([e, f])
    plan.add("exhaustive", g)
    g = plan.gen("types")
    for dt in ALL:
        for nd in range(0, 9):
            dims = [r.choice([1, 2, 3] if nd < 5 else [1, 2, 2]) for _ in range(nd)]
            g.seg("h")
            g.call(scen.scenario(g, "slice", None, dt=dt, dims=dims))
            g.call(scen.scenario(g, "duplicate", None, dt=dt, dims=dims))
    for dims in ([70000], [300, 301], [2, 3, 12000], [257, 257], [41, 43, 37], [16, 16, 16, 17]):
        for dt in (r.choice([0, 1, 2, 3]), r.choice([4, 5, 8]), r.choice([6, 7, 9])):
            g.seg("h")
            c = scen.scenario(g, "slice", None, dt=dt, dims=dims)
            g.call(c)
            g.call(dict(op="duplicate", t=c["t"]))
    # no elements at all: nothing to copy
    for dims in ([0], [2, 0], [0, 3], [1, 0, 4], [3, 1, 0], [0, 0]):
        for dt in (r.choice(ALL), r.choice(ALL)):
            g.seg("h")
            g.call(dict(op="duplicate", t=[g.auto(dt, dims)]))
    # more axes than a fixed table might have
    for nd in (9, 10, 12, 16, 17, 24, 33, 40):
        for _ in range(plan.k(3)):
            dims = [1] * nd
            for i in r.sample(range(nd), min(nd, r.randint(4, 7))):
                dims[i] = r.choice([2, 2, 3])
            g.seg("h")
            c = scen.scenario(g, "slice", None, dt=r.choice(ALL), dims=dims, maxn=10 ** 6)
            g.call(c)
            g.call(dict(c, c=[1] * nd, a=[0] * nd, b=dims))
            g.call(dict(c, c=[1] * nd, a=[0] * nd, b=dims[:-1] + [0]))
            g.call(dict(op="duplicate", t=c["t"]))
    # steps and sizes near the largest int, from every begin
    for e in (1, 2, 3, 5, 8):
        for st in (2147483647, 2147483646, 1 << 30, (1 << 30) - 1, 65536, 1431655765):
            g.seg("h")
            t = g.auto(r.choice(ALL), [e, 2])
            for x in range(e):
                g.call(dict(op="slice", t=[t], a=[x, 0], b=[e - x, 2], c=[st, r.choice([1, st])]))
                g.call(dict(op="slice", t=[t], a=[x, 1], b=[r.randint(1, e - x), 1], c=[st, st]))
    # extents no float can tell apart: the counts of the result
    for e, y, z in ((16777217, 16777217, 16777216), (16777219, 16777219, 3), (2 ** 25 + 3, 2 ** 25 + 3, 2 ** 25 + 2),
                    (16777217, 16777217, 1), (33554433, 33554432, 2)):
        g.seg("h")
        t = g.tensor(1, [e])
        g.call(dict(op="slice", t=[t], a=[0], b=[y], c=[z]))
        g.call(dict(op="slice", t=[t], a=[e - y], b=[y - 1], c=[z]))
    plan.add("types", g)


# ------------------------------------------------------------------------ P10

def wrapping(r, n, count):
    """extents below 2^31 whose product is n modulo 2^8, 2^16, 2^31 or 2^32, but not n"""
    out = []
    while len(out) < count:
        m = n + (r.choice([1, 1, 2, 3, r.randint(1, 1000)]) << r.choice([8, 16, 31, 32, 32, 32]))
        f, k, p = [], m, 2
        while p * p <= k and p < 70000:
            while k % p == 0:
                f.append(p)
                k //= p
            p += 1
        f += [k] * (k > 1)
        if max(f) >= 2 ** 31 - 1:
            continue
        r.shuffle(f)
        dims = [1] * r.choice([2, 2, 3, 4])
        for x in f:
            i = r.randrange(len(dims))
            for i in list(range(i, len(dims))) + list(range(i)):
                if dims[i] * x < 2 ** 31 - 1:
                    dims[i] *= x
                    break
        if prod(dims) == m:
            out.append(dims)
    return out


def p10(plan):
    functional(plan, ["reshape", "squeeze"], "h", 300)
    near(plan, ["reshape", "squeeze"], 250)
    g = plan.gen("exhaustive")
    # every small shape against every small shape
    shapes = [[]]
    cur = [[]]
    for _ in range(3):
        cur = [d + [e] for d in cur for e in range(0, 4)]
        shapes += cur
    if plan.tier == "quick":
        shapes = shapes[:21] + g.r.sample(shapes[21:], 25)
    for d in shapes:
        for i in range(0, len(shapes), 20):
            g.seg("h")
            t = g.auto(3, d) if prod(d) else g.tensor(3, d)
            for e in shapes[i:i + 20]:
                g.call(dict(op="reshape", t=[t], dims=e))
    plan.add("reshape-all", g)
    # numbers of elements that agree with the tensor's in their low bits only
    g = plan.gen("alike")
    r = g.r
    for n in (0, 1, 2, 6, 120, 255, 256, 65536, 98304):
        g.seg("h")
        t = g.auto(r.choice([0, 1, 9] if n < 1000 else [0, 1]), [n])
        for dims in wrapping(r, n, plan.k(12, 22)):
            g.call(dict(op="reshape", t=[t], dims=dims))
    plan.add("alike", g)
    g = plan.gen("squeeze-all")
    r = g.r
    shapes = [[]]
    cur = [[]]
    for _ in range(plan.k(3, 4)):
        cur = [d + [e] for d in cur for e in (1, 2)]
        shapes += cur
    for d in shapes:
        n = len(d)
        lists = [[]]
        cur = [[]]
        for _ in range(2):
            cur = [x + [a] for x in cur for a in range(-1, n + 1)]
            lists += cur
        lists += [[a for a in range(n) if m >> a & 1] for m in range(1 << n)]
        for i in range(0, len(lists), 20):
            g.seg("h")
            t = g.auto(5, d)
            for a in lists[i:i + 20]:
                g.call(dict(op="squeeze", t=[t], a=a, n=[len(a)]))
    for dims in ([70000], [1, 70000, 1], [1, 257, 1, 257]):
        g.seg("h")
        t = g.auto(8, dims)
        g.call(dict(op="squeeze", t=[t], n=[0]))
        g.call(dict(op="reshape", t=[t], dims=[1, prod(dims), 1]))
    for nd in (9, 12, 17, 33, 40):
        for _ in range(plan.k(3)):
            g.seg("h")
            d = [1] * nd
            for i in r.sample(range(nd), r.randint(1, 6)):
                d[i] = r.choice([2, 3])
            t = g.auto(r.choice(ALL), d)
            ones = [i for i in range(nd) if d[i] == 1]
            g.call(dict(op="squeeze", t=[t], n=[0]))
            for _ in range(3):
                a = r.sample(range(nd), r.randint(1, nd))
                g.call(dict(op="squeeze", t=[t], a=a, n=[len(a)]))
                a = r.sample(ones, r.randint(1, len(ones)))
                g.call(dict(op="squeeze", t=[t], a=a, n=[len(a)]))
            g.call(dict(op="reshape", t=[t], dims=[x for x in d if x > 1]))
            g.call(dict(op="reshape", t=[t], dims=r.sample(d, nd)))
            g.call(dict(op="reshape", t=[t], dims=r.sample(d, nd)[:nd - 1] + [5]))
    plan.add("squeeze-all", g)


# ------------------------------------------------------------------------ P11

def p11(plan):
    functional(plan, ["cast"], "ws", 60)
    r = plan.gen("x").r
    for part, froms in enumerate(([0, 1, 2, 3, 4], [5, 6, 7], [8, 9])):
        g = plan.gen("pairs%d" % part)
        for dt in froms:
            for to in ALL:
                for _ in range(plan.k(2, 12)):
                    g.seg("w")
                    g.call(scen.scenario(g, "cast", None, dt=dt, to=to, maxn=plan.k(60, 120)))
        plan.add("pairs%d" % part, g)
    # integers next to the points half way between two floats, or two doubles
    g = plan.gen("halfway")
    for dt in (4, 5, 6, 7):
        for to in FLOATS:
            vs = []
            p = 24 if to == 8 else 53
            for e in range(p, 64):
                for _ in range(plan.k(2)):
                    u = 1 << (e - p)
                    m = (1 << e) + r.randrange(1 << (p - 1)) * 2 * u + r.choice([1, 1, 3]) * u
                    for v in (m, m - 1, m + 1):
                        for w in (v, -v):
                            if lo(dt) <= w <= hi(dt):
                                vs.append(w)
            for i in range(0, len(vs), 100):
                g.seg("w")
                t = g.tensor(dt, [len(vs[i:i + 100])], vs[i:i + 100])
                g.call(dict(op="cast", t=[t], dt=to))
    for to in ALL:
        nothing(g, "cast", [x for x in ALL if x != to], dt=to)
    plan.add("halfway", g)
    g = plan.gen("all8")
    for dt in (0, 1):
        g.seg("s")
        t = g.tensor(dt, [256], list(range(lo(dt), hi(dt) + 1)))
        for to in ALL:
            g.call(dict(op="cast", t=[t], dt=to))
    for dt in (2, 3):
        for to in (0, 1, 2, 3, 4, 8):
            g.seg("s")
            t = g.tensor(dt, [65536], list(range(lo(dt), hi(dt) + 1)))
            g.call(dict(op="cast", t=[t], dt=to))
    for dt in ALL:
        g.seg("s")
        t = g.tensor(dt, [70000] if dt % 2 else [300, 240], [x % 97 for x in range(70000 if dt % 2 else 72000)])
        g.call(dict(op="cast", t=[t], dt=g.r.choice(ALL)))
    plan.add("all8", g)
    g = plan.gen("full")
    for nd in (9, 13, 17, 33):
        for op in ("cast", "full"):
            d = [1] * nd
            for i in g.r.sample(range(nd), 5):
                d[i] = g.r.choice([2, 3])
            g.seg("s")
            if op == "cast":
                g.call(dict(op="cast", t=[g.auto(g.r.choice(ALL), d)], dt=g.r.choice(ALL)))
            else:
                g.call(dict(op="full", dt=g.r.choice(ALL), dims=d, xd=5.0))
    for kind in "ws":
        for dt in ALL:
            for _ in range(plan.k(14)):
                g.seg(kind)
                g.call(scen.scenario(g, "full", None, dt=dt, maxn=12))
                for _ in range(6):
                    v = scen.full_value(g.r, dt) if kind == "w" else float(g.r.randint(0, 99))
                    g.call(dict(op="castto", dt=dt, xd=float(v)))
        for dt in ALL if kind == "w" else []:
            g.seg(kind)
            for v in (0.0, -0.0):
                g.call(dict(op="full", dt=dt, dims=[g.r.randint(1, 3)] * g.r.randint(0, 2), xd=v))
                g.call(dict(op="castto", dt=dt, xd=v))
    for dt in ALL:
        g.seg("s")
        g.call(dict(op="full", dt=dt, dims=[300, 257], xd=7.0))
    plan.add("full", g)
    g = plan.gen("typed")
    for dt in ALL:
        for which in range(4):
            g.seg("h")
            for n in (1, 2, 3, 5, 9, 300):
                for i in sorted({0, n - 1, n // 2, min(n - 1, 130)}):
                    g.call(dict(op="typed", dt=dt, x=g.r.randbytes(SIZE[dt] * (n + 1)), n=[i, which]))
    plan.add("typed", g, FUNC + ["args"])


# ------------------------------------------------------------------------ P12

def p12(plan):
    functional(plan, ["add", "sub", "mul", "div"], "ws", 60)
    near(plan, ["add", "sub", "mul", "div"], 60)
    for dt in (0, 1):
        g = plan.gen("all8-%d" % dt)
        v = list(range(lo(dt), hi(dt) + 1))
        g.seg("s")
        a = g.tensor(dt, [256, 256], [x for x in v for _ in v])
        b = g.tensor(dt, [256, 256], [y for _ in v for y in v])
        for op in ("add", "sub", "mul"):
            g.call(dict(op=op, t=[a, b]))
        g.seg("s")
        nz = [y for y in v if y]
        a = g.tensor(dt, [256, 255], [x for x in v for _ in nz])
        b = g.tensor(dt, [256, 255], [y for _ in v for y in nz])
        g.call(dict(op="div", t=[a, b]))
        plan.add("all8-%d" % dt, g)
    for part, ops in enumerate((("add", "sub"), ("mul", "div"))):
        g = plan.gen("types%d" % part)
        for dt in ALL:
            for op in ops:
                for kind, n in (("w", plan.k(3, 30)), ("s", plan.k(2, 12))):
                    for _ in range(n):
                        g.seg(kind)
                        g.call(scen.scenario(g, op, None, dt=dt, maxn=plan.k(90, 200)))
        plan.add("types%d" % part, g)
    g = plan.gen("edges")
    r = g.r
    # a single bad pair anywhere; the extremes against each other
    for dt in ALL:
        ext = [lo(dt), lo(dt) + 1, 0, 1, hi(dt) - 1, hi(dt)] + ([-1] if dt in SIGNED else []) if dt < 8 else None
        if ext:
            for op in ("add", "sub", "mul", "div"):
                ps = [(x, y) for x in ext for y in ext]
                if op == "div":
                    ps = [p for p in ps if p[1] != 0 and not (p[1] == -1 and p[0] == lo(dt))]
                g.seg("w")
                a = g.tensor(dt, [len(ps)], [p[0] for p in ps])
                b = g.tensor(dt, [len(ps)], [p[1] for p in ps])
                g.call(dict(op=op, t=[a, b]))
            for n in (1, 2, 5, 130):
                for bad in ((5, 0), (lo(dt), -1)) if dt in SIGNED else ((5, 0),):
                    for i in {0, n - 1, r.randrange(n)}:
                        g.seg("w")
                        x = [7] * n
                        y = [2] * n
                        x[i], y[i] = bad
                        g.call(dict(op="div", t=[g.tensor(dt, [n], x), g.tensor(dt, [n], y)]))
        for dims in ([], [0], [3, 0, 2], [0, 0], [1, 1, 1, 1, 1, 1, 1, 2]):
            for op in ("add", "sub", "mul", "div"):
                g.seg("s")
                x = small_vals(r, dt, prod(dims))
                y = [max(1, abs(v)) for v in small_vals(r, dt, prod(dims))]
                if dt >= 8:
                    y = [float(v) for v in y]
                g.call(dict(op=op, t=[g.tensor(dt, dims, x), g.tensor(dt, dims, y)]))
    # two errors at once: the first check decides
    for op in ("add", "sub", "mul", "div"):
        for m in range(1, 16):
            g.seg("s")
            a = g.tensor(4, [2, 3], [1] * 6, dv=m & 1)
            b = g.tensor(5 if m & 2 else 4, [3, 2] if m & 4 else [2, 3], [0 if m & 8 else 1] * 6)
            g.call(dict(op=op, t=[a, b]))
            g.call(dict(op=op, t=[b, a]))
    # one axis differs
    for op in ("add", "sub", "mul", "div"):
        for nd in range(1, 6):
            for i in range(nd):
                for by in (1, -1, 2, 256):
                    dims = [r.choice([2, 3]) if nd > 2 else r.choice([2, 3, 5]) for _ in range(nd)]
                    if by == 256:
                        dims = [1] * nd
                    d2 = list(dims)
                    d2[i] += by
                    dt = r.choice(ALL)
                    g.seg("s")
                    g.call(dict(op=op, t=[g.auto(dt, dims), g.tensor(dt, d2, scen.nonzero(g, dt, prod(d2)))]))
    # many axes; a zero divisor far into many elements
    for nd in (9, 13, 17, 33):
        for op in ("add", "sub", "mul", "div"):
            g.seg("s")
            dims = [1] * nd
            for i in r.sample(range(nd), 4):
                dims[i] = r.choice([2, 3])
            dt = r.choice(ALL)
            a, b = g.auto(dt, dims), g.tensor(dt, dims, scen.nonzero(g, dt, prod(dims)))
            g.call(dict(op=op, t=[a, b]))
            k = r.choice([i for i in range(nd) if dims[i] > 1])
            j = r.choice([i for i in range(nd) if dims[i] == 1])
            d2 = list(dims)
            d2[k], d2[j] = d2[j], d2[k]
            g.call(dict(op=op, t=[a, g.tensor(dt, d2, scen.nonzero(g, dt, prod(dims)))]))
    for dt in INTS:
        for n in r.sample([1025, 4097, 5000, 8193, 16385, 20000], 2) + [70000] * (dt in (r.choice(INTS), 4)):
            y = scen.nonzero(g, dt, n)
            y[r.choice([n - 1, n // 2, r.randrange(n), n - n // 7])] = 0
            g.seg("s")
            g.call(dict(op="div", t=[g.tensor(dt, [n], small_vals(r, dt, n)), g.tensor(dt, [n], y)]))
    for dt in (4, 6):
        n = 5000
        g.seg("w")
        x, y = [5] * n, [1] * n
        i = r.randrange(4200, n)
        x[i], y[i] = lo(dt), -1
        g.call(dict(op="div", t=[g.tensor(dt, [n], x), g.tensor(dt, [n], y)]))
    plan.add("edges", g)
    g = plan.gen("large")
    for dt in ALL:
        op = r.choice(["add", "sub", "mul", "div"])
        g.seg("s")
        dims = r.choice([[70000], [257, 257], [3, 25000]])
        a = g.tensor(dt, dims, small_vals(r, dt, prod(dims)))
        b = g.tensor(dt, dims, scen.nonzero(g, dt, prod(dims)))
        g.call(dict(op=op, t=[a, b]))
    plan.add("large", g)


# ------------------------------------------------------------------- P13, P14

def p13(plan):
    functional(plan, ["matmul"], "sw", 200)
    near(plan, ["matmul"], 250)
    g = plan.gen("types")
    for dt in ALL:
        for shape in range(6):
            for kind in "sw":
                for _ in range(plan.k(2, 12)):
                    g.seg(kind)
                    g.call(scen.scenario(g, "matmul", None, dt=dt, shape=shape))
    plan.add("types", g)
    g = plan.gen("edges")
    r = g.r
    for m, k, n in ((1, 300, 1), (2, 257, 3), (17, 16, 18), (33, 5, 31), (64, 64, 3), (5, 130, 129), (128, 2, 129)):
        for dt in (r.choice([0, 1, 2, 3]), r.choice([4, 5, 6, 7]), 8, 9):
            g.seg("s")
            mag = 9 if dt not in (0, 1) else 9
            a = g.tensor(dt, [m, k], small_vals(r, dt, m * k, mag))
            b = g.tensor(dt, [k, n], small_vals(r, dt, k * n, mag))
            g.call(dict(op="matmul", t=[a, b]))
    # more rows, columns, batches or products than sixteen bits count
    for d1, d2 in (([66000, 1], [1]), ([66000, 1], [1, 1]), ([1], [1, 66000]), ([1, 1], [1, 66000]), ([66000], [66000]),
                   ([66000, 1, 1], [1, 1]), ([1, 1], [66000, 1, 1]), ([260, 1], [1, 260]), ([1, 260, 1, 1], [260, 1, 1, 1])):
        g.seg("s")
        dt = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9])
        a = g.tensor(dt, d1, small_vals(r, dt, prod(d1), 1))
        b = g.tensor(dt, d2, small_vals(r, dt, prod(d2), 1))
        g.call(dict(op="matmul", t=[a, b]))
    # broadcast batches, every pattern of 1 and 2/3 in up to 3 batch axes
    pats = [[]]
    cur = [[]]
    for e in (2, 3):
        cur = [d + [x] for d in cur for x in (1, e)]
        pats += cur
    pats += [[2], [3], [3, 2], [1, 2, 3], [2, 2, 3], [2, 1, 1], [4]]
    for p in pats:
        for q in pats:
            g.seg("s")
            d1, d2 = p + [2, 3], q + [3, 2]
            dt = r.choice(ALL)
            a = g.tensor(dt, d1, small_vals(r, dt, prod(d1)))
            b = g.tensor(dt, d2, small_vals(r, dt, prod(d2)))
            g.call(dict(op="matmul", t=[a, b]))
    for nd in list(range(3, 9)) + [10, 13, 18, 34]:
        g.seg("s")
        d1 = [r.choice([1, 2]) if nd < 9 or r.random() < 5 / nd else 1 for _ in range(nd - 2)] + [2, 3]
        d2 = d1[:-2] + [3, 2]
        if nd > 9:
            d2 = [x if r.random() < 0.7 else 1 for x in d2[:-2]][r.randint(0, 3):] + [3, 2]
        a = g.tensor(9, d1, small_vals(r, 9, prod(d1)))
        b = g.tensor(9, d2, small_vals(r, 9, prod(d2)))
        g.call(dict(op="matmul", t=[a, b]))
    plan.add("edges", g)


def p14(plan):
    functional(plan, ["dot"], "sw", 200)
    near(plan, ["dot"], 250)
    g = plan.gen("types")
    for dt in ALL:
        for kind in "sw":
            for _ in range(plan.k(8, 60)):
                g.seg(kind)
                g.call(scen.scenario(g, "dot", None, dt=dt))
    # scalars with 64-bit values that no double holds
    r = g.r
    for dt in (6, 7):
        for _ in range(plan.k(6)):
            g.seg("w")
            n = r.randint(1, 5)
            s = g.tensor(dt, [], [r.choice([1, 3, 2 ** 31 + 1, 5])])
            v = g.tensor(dt, [n], [r.choice([2 ** 53 + 1, 2 ** 60 + 3, 2 ** 29 + 1, hi(dt) // 7]) // r.choice([1, 2, 9]) for _ in range(n)])
            g.call(dict(op="dot", t=[s, v]))
            g.call(dict(op="dot", t=[v, s]))
    plan.add("types", g)
    g = plan.gen("edges")
    for d1, d2 in (([300], [300]), ([70000], [70000]), ([40, 30], [30, 41]), ([130, 2], [2, 131]), ([], [70000]),
                   ([257, 257], []), ([100, 129], [129]), ([3, 4, 65], [65]), ([2, 3, 70], [2, 70, 3]),
                   ([2, 3, 4], [5, 4, 3]), ([2, 2, 2, 3], [2, 3, 3, 2]), ([1, 1, 2], [2, 1, 2, 2]),
                   ([66000, 1], [1]), ([66000, 1], [1, 1]), ([260, 1], [1, 260]), ([1], [66000, 1, 1]),
                   ([2, 1, 2, 1, 2, 3], [3, 1, 1, 3, 2]), ([1] * 10 + [2, 3], [1] * 8 + [3, 2]),
                   ([1, 2] * 5 + [2], [2]), ([2] + [1] * 16 + [2], [1] * 9 + [2, 1, 2, 3]), ([], [1, 2] * 10)):
        for dt in (r.choice([0, 1, 2, 3]), r.choice([4, 5, 6, 7]), r.choice([8, 9])):
            g.seg("s")
            a = g.tensor(dt, d1, small_vals(r, dt, prod(d1), 3))
            b = g.tensor(dt, d2, small_vals(r, dt, prod(d2), 3))
            g.call(dict(op="dot", t=[a, b]))
    # every pair of ranks
    for n in range(0, 5):
        for m in range(0, 5):
            for v in range(3):
                g.seg("s")
                k = r.choice([1, 2, 3])
                d1 = [r.choice([1, 2, 3]) for _ in range(max(0, n - 1))] + [k] * min(1, n)
                d2 = [r.choice([1, 2, 3]) for _ in range(m)]
                if m:
                    d2[max(0, m - 2)] = k if v else k + 1
                dt = r.choice(ALL)
                a = g.tensor(dt, d1, small_vals(r, dt, prod(d1)))
                b = g.tensor(dt, d2, small_vals(r, dt, prod(d2)))
                g.call(dict(op="dot", t=[a, b]))
    plan.add("edges", g)


# ------------------------------------------------------------------- P15, P16

def p15(plan):
    functional(plan, ["conv", "conv2d", "conv3d"], "sw", 90)
    near(plan, ["conv", "conv2d", "conv3d"], 150)
    g = plan.gen("one-axis")
    r = g.r
    # all windows over one spatial axis
    for e in range(1, plan.k(5, 7)):
        for k in range(1, plan.k(4, 5)):
            for s in (1, 2, 3):
                for p in (0, 1, 2):
                    for d in (1, 2, 3):
                        g.seg("s")
                        a = g.tensor(8, [1, 2, e], small_vals(r, 8, 2 * e))
                        b = g.tensor(8, [2, 2, k], small_vals(r, 8, 4 * k))
                        g.call(dict(op="conv", t=[a, b], a=[s], b=[p], c=[d], n=[1]))
    plan.add("one-axis", g)
    g = plan.gen("asymmetric")
    for _ in range(plan.k(60)):
        # stride, padding, dilation different on every axis; groups
        ns = r.choice([2, 3])
        grp = r.choice([1, 2, 3])
        op = r.choice(["conv", "conv2d" if ns == 2 else "conv3d"])
        sp = r.sample([3, 4, 5, 6, 7], ns) if ns == 2 else r.sample([2, 3, 4, 5], ns)
        k = [r.choice([1, 2, 3]) for _ in range(ns)]
        d = [r.choice([1, 2]) for _ in range(ns)]
        p = r.sample([0, 1, 2, 3], ns)
        s = r.sample([1, 2, 3, 4], ns)
        if any(d[i] * (k[i] - 1) + 1 > sp[i] + 2 * p[i] for i in range(ns)):
            continue
        g.seg("s")
        n, cg, og = r.choice([1, 2]), r.choice([1, 2]), r.choice([1, 2])
        d1 = [n, cg * grp] + sp
        d2 = [og * grp, cg] + k
        a = g.tensor(8, d1, small_vals(r, 8, prod(d1)))
        b = g.tensor(8, d2, small_vals(r, 8, prod(d2)))
        g.call(dict(op=op, t=[a, b], a=s, b=p, c=d, n=[grp]))
    plan.add("asymmetric", g)
    g = plan.gen("large")
    for d1, d2, grp in (([1, 3, 20, 21], [4, 3, 3, 3], 1), ([2, 16, 5, 5], [8, 4, 2, 3], 4), ([1, 1, 300], [2, 1, 129], 1),
                        ([3, 130, 2], [1, 130, 2], 1), ([130, 2, 3], [2, 2, 2], 1), ([1, 4, 4, 5, 6], [6, 2, 2, 1, 3], 2),
                        ([1, 6, 3], [6, 1, 2], 6), ([1, 1, 66000], [1, 1, 1], 1), ([1, 1, 260, 260], [1, 1, 1, 1], 1),
                        ([66000, 1, 1], [1, 1, 1], 1), ([1, 1, 1], [66000, 1, 1], 1), ([1, 66000, 1], [1, 66000, 1], 1),
                        ([1, 300, 2], [300, 1, 1], 300), ([2, 2, 2, 3, 2, 3], [2, 2, 1, 2, 2, 2], 1)):
        g.seg("s")
        ns = len(d1) - 2
        a = g.tensor(8, d1, small_vals(r, 8, prod(d1)))
        b = g.tensor(8, d2, small_vals(r, 8, prod(d2)))
        g.call(dict(op="conv", t=[a, b], a=[r.choice([1, 2]) for _ in range(ns)], b=[r.choice([0, 1]) for _ in range(ns)],
                    c=[1] * ns, n=[grp]))
    for ns in (5, 6, 8, 11, 17):
        for grp in (1, 2):
            g.seg("s")
            sp = [1] * ns
            for i in r.sample(range(ns), min(ns, 5)):
                sp[i] = 2
            k = [r.choice([1, e]) for e in sp]
            d1, d2 = [1, 2] + sp, [2, 2 // grp] + k
            a = g.tensor(8, d1, small_vals(r, 8, prod(d1)))
            b = g.tensor(8, d2, small_vals(r, 8, prod(d2)))
            g.call(dict(op="conv", t=[a, b], a=[r.choice([1, 2]) for _ in range(ns)],
                        b=[0 if r.random() < 1 - 2 / ns else 1 for _ in range(ns)], c=[1] * ns, n=[grp]))
    # extents that no float tells apart
    for e, k, s in ((33554432, 1, 33554432), (33554433, 1, 33554432), (33554433, 2, 33554431), (16777217, 1, 16777216),
                    (16777219, 3, 5592406)):
        g.seg("s")
        a = g.tensor(8, [1, 1, e])
        b = g.tensor(8, [1, 1, k], [1.0] * k)
        g.call(dict(op="conv", t=[a, b], a=[s], b=[0], c=[1], n=[1]))
    # int arguments near the limits
    for s, p, d, k in ((2147483647, 0, 1, 2), (1, 0, 2147483647, 1), (1, 0, 2147483647, 2), (1, 1000, 1000, 2),
                       (2147483647, 1, 3, 1)) + FAR_WINDOWS:
        if k > 10:
            continue
        g.seg("s")
        a = g.tensor(8, [1, 1, 3], [1.0, 2.0, 3.0])
        b = g.tensor(8, [1, 1, k], [float(x + 1) for x in range(k)])
        g.call(dict(op="conv", t=[a, b], a=[s], b=[p], c=[d], n=[1]))
    plan.add("large", g)


# windows (stride, padding, dilation, size) whose reach and room pass 31 and 32 bits, with few positions
FAR_WINDOWS = tuple((s, p, d, k) for p, s, d, k in (
    (2 ** 30, 2 ** 30, 1, 1), (2 ** 30, 2 ** 30, 1, 3), (2 ** 30, 2 ** 29 + 1, 2 ** 30, 2), (2 ** 30 - 1, 2 ** 30, 2 ** 30 - 1, 3),
    (2 ** 31 - 1, 2 ** 31 - 1, 1, 1), (2 ** 31 - 1, 2 ** 31 - 1, 2 ** 31 - 1, 2), (2 ** 31 - 1, 2 ** 31 - 1, 2 ** 31 - 1, 3),
    (2 ** 31 - 1, 1, 2 ** 31 - 1, 3), (2 ** 31 - 1, 2, 2 ** 31 - 1, 4), (2 ** 27, 2 ** 27 - 1, 2 ** 26, 4),
    (2 ** 31 - 1, 2 ** 30, 2 ** 31 - 1, 4), (2 ** 30, 2 ** 30, 2 ** 30 + 2, 2), (2 ** 30, 2 ** 30, 2 ** 31 - 1, 2),
    (0, 1, 65536, 65537), (0, 1, 2 ** 30, 5), (1, 1, 2 ** 31 - 1, 3), (0, 1, 2 ** 30, 2 ** 30 + 1), (2, 1, 2 ** 31 - 1, 2 ** 31 - 1),
    (0, 2 ** 31 - 1, 2 ** 29, 9), (2 ** 31 - 1, 5, 46341, 2 ** 31 - 1), (2 ** 28, 3, 2 ** 30, 8)))


def p16(plan):
    functional(plan, ["pooling"], "sw", 250)
    near(plan, ["pooling"], 250)
    g = plan.gen("types")
    for dt in ALL:
        for mode in ("max", "avg"):
            for kind in "sw":
                for _ in range(plan.k(3, 20)):
                    g.seg(kind)
                    g.call(scen.scenario(g, "pooling", None, dt=dt, mode=mode))
    plan.add("types", g)
    g = plan.gen("one-axis")
    r = g.r
    for e in range(1, plan.k(5, 7)):
        for k in range(1, plan.k(4, 5)):
            for s in (1, 2, 3):
                for p in (0, 1, 2):
                    for d in (1, 2, 3):
                        g.seg("s")
                        dt = r.choice(ALL)
                        t = g.tensor(dt, [1, 2, e], small_vals(r, dt, 2 * e, 60))
                        for m in ("max", "avg"):
                            g.call(dict(op="pooling", t=[t], m=m, a=[k], b=[s], c=[p], d=[d]))
    plan.add("one-axis", g)
    g = plan.gen("asymmetric")
    for _ in range(plan.k(80)):
        ns = r.choice([2, 3])
        sp = r.sample([3, 4, 5, 6, 7], ns) if ns == 2 else r.sample([2, 3, 4, 5], ns)
        k = r.sample([1, 2, 3, 4], ns)
        d = [r.choice([1, 2]) for _ in range(ns)]
        p = r.sample([0, 1, 2, 3], ns)
        s = r.sample([1, 2, 3, 4], ns)
        if any(d[i] * (k[i] - 1) + 1 > sp[i] + 2 * p[i] for i in range(ns)):
            continue
        g.seg("s")
        dt = r.choice(ALL)
        d1 = [r.choice([1, 2]), r.choice([1, 2, 3])] + sp
        v = small_vals(r, dt, prod(d1), 100)
        if r.random() < 0.5 and (dt >= 8 or dt in SIGNED):
            v = [-abs(x) - 1 for x in v]
        t = g.tensor(dt, d1, v)
        for m in ("max", "avg"):
            g.call(dict(op="pooling", t=[t], m=m, a=k, b=s, c=p, d=d))
    # long windows, many channels, extremes of the types
    for d1, k in (([1, 1, 300], [257]), ([2, 1, 20, 20], [16, 17]), ([130, 2, 3], [2]), ([1, 130, 3, 2], [2, 2]),
                  ([1, 1, 7, 8, 9], [7, 8, 9])):
        for dt in (0, 1, 4, 8, 9):
            for m in ("max", "avg"):
                g.seg("s")
                t = g.tensor(dt, d1, small_vals(r, dt, prod(d1), 100))
                ns = len(k)
                g.call(dict(op="pooling", t=[t], m=m, a=k, b=[1] * ns, c=[0] * ns, d=[1] * ns))
    # many windows
    for d1, k, s in (([1, 1, 70000], [2], [1]), ([1, 1, 70000], [3], [4]), ([1, 2, 150, 150], [2, 1], [1, 1]),
                     ([300, 2, 20], [2], [2]), ([2, 300, 4, 5], [2, 3], [2, 1]), ([1, 1, 3, 300, 12], [1, 2, 2], [1, 2, 1]),
                     ([70000, 1, 1], [1], [1])):
        for m in ("max", "avg"):
            g.seg("s")
            dt = r.choice(ALL)
            ns = len(k)
            g.call(dict(op="pooling", t=[g.tensor(dt, d1, small_vals(r, dt, prod(d1), 100))], m=m, a=k, b=s,
                        c=[r.choice([0, 1]) if k[i] > 1 else 0 for i in range(ns)], d=[1] * ns))
    for s, p, d, k in FAR_WINDOWS:
        for m in ("max", "avg"):
            g.seg("s")
            t = g.tensor(4, [1, 1, 3], [r.choice([-5, 7]), 60, r.choice([-30, 9])])
            g.call(dict(op="pooling", t=[t], m=m, a=[k], b=[s], c=[p], d=[d]))
            t = g.tensor(4, [1, 1, 2, 3], [-9, 60, 9, 3, -30, 6])
            g.call(dict(op="pooling", t=[t], m=m, a=[2, k], b=[1, s], c=[1, p], d=[1, d]))
            g.call(dict(op="pooling", t=[t], m=m, a=[k, 2], b=[s, 1], c=[p, 0], d=[d, 1]))
    for dt in ALL:
        for v in ([lo(dt), hi(dt)] if dt < 8 else [-3.4e38 if dt == 8 else -1.7e308, 3.4e38 if dt == 8 else 1.7e308]):
            for p in (0, 1):
                g.seg("w")
                t = g.tensor(dt, [1, 2, 3], [v] * 6)
                g.call(dict(op="pooling", t=[t], m="max", a=[2], b=[1], c=[p], d=[1]))
                if dt < 4:
                    g.call(dict(op="pooling", t=[t], m="avg", a=[2], b=[1], c=[p], d=[1]))
    plan.add("asymmetric", g)


# ------------------------------------------------------------------------ P17

def p17(plan):
    near(plan, ["batch_norm"], 250)
    for part in range(3):
        g = plan.gen("fun%d" % part)
        calls(g, "batch_norm", "w", plan.k(30, 300))
        calls(g, "batch_norm", "s", plan.k(40, 300))
        plan.add("fun%d" % part, g)
    g = plan.gen("bad")
    for bad in scen.BAD["batch_norm"]:
        for kind in "sw":
            calls(g, "batch_norm", kind, plan.k(10), bad)
    plan.add("bad", g)
    g = plan.gen("types")
    r = g.r
    for dt in ALL:
        for nd in range(2, 6):
            for ax in {1, nd - 1}:
                g.seg("s" if dt < 8 else "w")
                # channels all different, extents all different
                dims = r.sample([1, 2, 3, 4, 5], nd) if nd < 4 else [r.choice([1, 2, 3]) for _ in range(nd)]
                nc = dims[ax]
                n = prod(dims)
                f = (lambda a, b: float(r.randint(a, b))) if dt >= 8 else r.randint
                sg = dt >= 8 or dt in SIGNED
                t = [g.tensor(dt, dims, [f(-9 if sg else 5, 30) for _ in range(n)])]
                t.append(g.tensor(dt, [nc], [f(1, 3) for _ in range(nc)]))
                t.append(g.tensor(dt, [nc], [f(0, 20) for _ in range(nc)]))
                t.append(g.tensor(dt, [nc], [f(0, 5) for _ in range(nc)]))
                t.append(g.tensor(dt, [nc], [f(1, 40) for _ in range(nc)]))
                g.call(dict(op="batch_norm", t=t, n=[ax], xd=0.0 if r.random() < 0.5 else 1.0))
    for dims in ([3, 130], [2, 3, 300], [200, 4, 2], [1, 257]):
        for ax in {1, len(dims) - 1}:
            g.seg("s")
            dt = r.choice(INTS)
            nc = dims[ax]
            t = [g.tensor(dt, dims, [r.randint(5, 30) for _ in range(prod(dims))])]
            t += [g.tensor(dt, [nc], [r.randint(*q) for _ in range(nc)]) for q in ((1, 3), (0, 20), (0, 5), (1, 40))]
            g.call(dict(op="batch_norm", t=t, n=[ax], xd=0.0))
    plan.add("types", g)
    # many elements of few values
    for dt in FLOATS:
        g = plan.gen("many%d" % dt)
        r = g.r
        for dims, ax in (([2, 3, 1500], 1), ([5000, 2], 1), ([40, 2, 11, 10], 1), ([70, 70, 2], 2), ([300, 3, 2, 2], 3), ([2, 300], 1),
                     ([2, 3, 12000], 1), ([35000, 2], 1)):
            nc = dims[ax]
            few = [r.uniform(-50, 50) for _ in range(4)]
            g.seg("w")
            t = [g.tensor(dt, dims, [r.choice(few) for _ in range(prod(dims))])]
            for a, b in ((-3, 3), (-20, 20), (-5, 5), (1, 40)):
                t.append(g.tensor(dt, [nc], [r.uniform(a, b) for _ in range(nc)]))
            g.call(dict(op="batch_norm", t=t, n=[ax], xd=r.choice([0.0, 0.25])))
        plan.add("many%d" % dt, g)
    # a channel without a variance, far into many
    g = plan.gen("far")
    r = g.r
    for dt in ALL:
        nc = r.choice([257, 1025, 5000, 9001])
        v = [1] * nc
        v[r.choice([nc - 1, nc - 2, nc // 2 + 100])] = -1 if dt >= 8 else 0
        for dims, ax in (([1, nc], 1),):
            g.seg("s")
            t = [g.tensor(dt, dims, [5] * nc)] + [g.tensor(dt, [nc], q) for q in ([1] * nc, [2] * nc, [3] * nc, v)]
            g.call(dict(op="batch_norm", t=t, n=[ax], xd=0.0))
    plan.add("far", g)


# ------------------------------------------------------------------------ P18

def nothing(g, op, dts, **kw):
    """tensors without elements"""
    for dt in dts:
        for d in ([0], [0, 3], [2, 0], [3, 0, 2], [0, 0], [1, 0]):
            g.seg("s")
            g.call(dict(op=op, t=[g.tensor(dt, d, dv=g.r.choice([0, 1]) if op == "relu" else 0)], **kw))


def many_few(g, call, plan, shapes=([300], [4097], [70, 70], [9001]), vals=None, dts=FLOATS):
    """many elements of few values (which the specification works out once each)"""
    r = g.r
    for dt in dts:
        for d in shapes if plan.tier == "quick" else list(shapes) * 3:
            few = vals or [r.choice([-1, 1]) * r.choice([0.0, 0.3, 1.0, 2.5, 20.0, 100.0]) * r.uniform(0.9, 1) for _ in range(5)]
            n = prod(d)
            v = [few[0]] * n
            for i in r.sample(range(n), min(n, 60)) + [0, n - 1, n // 2]:
                v[i] = r.choice(few)
            g.seg("w")
            call(dt, d, v)


def p18(plan):
    for op, n in (("relu", 120), ("sqrt", 120)):
        g = plan.gen(op)
        for kind in "ws":
            calls(g, op, kind, plan.k(n))
        for bad in scen.BAD[op]:
            for kind in "ws":
                calls(g, op, kind, plan.k(40), bad)
        for dt in ALL:
            for kind in "ws":
                for _ in range(plan.k(2)):
                    g.seg(kind)
                    g.call(scen.scenario(g, op, None, dt=dt, maxn=100))
        for dt in (0, 1, 2, 3):
            g.seg("s")
            a = lo(dt) if op == "relu" else 0
            n = hi(dt) - a + 1
            g.call(dict(op=op, t=[g.tensor(dt, [n], list(range(a, hi(dt) + 1)))]))
        for dt in (4, 5, 6, 7, 8, 9):
            g.seg("s")
            d = g.r.choice([[70000], [257, 257]])
            v = [abs(x) for x in small_vals(g.r, dt, prod(d), 2000)] if op == "sqrt" else small_vals(g.r, dt, prod(d), 2000)
            g.call(dict(op=op, t=[g.tensor(dt, d, v)]))
            # a negative element far into many
            n = g.r.choice([1025, 4097, 5000, 8193, 16385])
            v = [abs(x) + 1 for x in small_vals(g.r, dt, n, 2000)]
            if dt >= 8 or dt in SIGNED:
                v[g.r.choice([n - 1, n // 2, g.r.randrange(n)])] = -1
            g.seg("s")
            g.call(dict(op=op, t=[g.tensor(dt, [n], v)]))
        nothing(g, op, ALL)
        for nd in (9, 13, 17, 33):
            g.seg("s")
            d = [1] * nd
            for i in g.r.sample(range(nd), 5):
                d[i] = g.r.choice([2, 3])
            dt = g.r.choice(ALL)
            g.call(dict(op=op, t=[g.tensor(dt, d, [abs(x) for x in small_vals(g.r, dt, prod(d))])]))
        plan.add(op, g)
    for op in ("sigmoid", "tanh"):
        for part in range(2):
            g = plan.gen("%s%d" % (op, part))
            calls(g, op, "w", plan.k(70, 800), maxn=24)
            if part == 0:
                nothing(g, op, ALL)
                calls(g, op, "s", plan.k(24), "type")
                for dt in INTS:
                    g.seg("s")
                    g.call(dict(op=op, t=[g.auto(dt, [2])]))
            plan.add("%s%d" % (op, part), g)
        g = plan.gen(op + "-many")
        many_few(g, lambda dt, d, v: g.call(dict(op=op, t=[g.tensor(dt, d, v)])), plan,
                 ([300], [4097], [70, 70], [9001], [70001]))
        plan.add(op + "-many", g)


# ------------------------------------------------------------------------ P19

def p19(plan):
    for part in range(4):
        g = plan.gen("fun%d" % part)
        calls(g, "softmax", "w", plan.k(45, 600), maxn=18)
        plan.add("fun%d" % part, g)
    g = plan.gen("ints")
    calls(g, "softmax", "s", plan.k(30, 200), maxn=8)
    calls(g, "softmax", "s", plan.k(40), "axis")
    calls(g, "softmax", "w", plan.k(40), "axis")
    for dt in INTS:
        for dims in ([], [1], [2], [1, 3], [2, 1]):
            for ax in range(-1, len(dims)):
                g.seg("s")
                g.call(dict(op="softmax", t=[g.tensor(dt, dims, small_vals(g.r, dt, prod(dims), 100))], n=[ax]))
    plan.add("ints", g)
    # long groups in which one element, anywhere, stands out
    for i, n in enumerate((65, 129, 130, 200, 257, 300) if plan.tier == "quick" else range(64, 320, 5)):
        g = plan.gen("long%d" % i)
        for dt in FLOATS:
            v = [0.0] * n
            v[g.r.choice([n - 1, n - 1, 128 if n > 128 else n - 1, g.r.randrange(n // 2, n)])] = g.r.choice([1000.0, 1e30, 750.0])
            dims, ax = g.r.choice([([n], 0), ([1, n], 1), ([n], -1), ([n, 1], 0)])
            g.seg("w")
            g.call(dict(op="softmax", t=[g.tensor(dt, dims, v)], n=[ax]))
        plan.add("long%d" % i, g)
    for dt in FLOATS:
        for part, shapes in enumerate((([1025], [4097], [3, 700], [700, 3], [2, 300, 2], [5000]), ([23000, 3], [66000, 1]), ([1, 33000] if plan.tier == "quick" else [2, 35000],))):
            g = plan.gen("many%d-%d" % (dt, part))
            many_few(g, lambda dt, d, v: g.call(dict(op="softmax", t=[g.tensor(dt, d, v)], n=[g.r.randrange(-1, len(d))])), plan,
                     shapes, [0.0, 1.5, -2.0, 0.25], [dt])
            plan.add("many%d-%d" % (dt, part), g)
    g = plan.gen("axes")
    # distinct extents, every axis
    for nd in range(0, 5):
        for _ in range(plan.k(2, 10)):
            dims = g.r.sample([1, 2, 3, 4], nd) if nd <= 3 else [2, 1, 3, 2]
            for ax in range(-1, nd):
                g.seg("w")
                dt = g.r.choice(FLOATS)
                t = g.tensor(dt, dims, [g.r.uniform(-3, 3) for _ in range(prod(dims))])
                g.call(dict(op="softmax", t=[t], n=[ax]))
    for nd in (9, 12, 17, 33):
        for _ in range(2):
            dims = [1] * nd
            for i in g.r.sample(range(nd), 3):
                dims[i] = 2
            ax = g.r.choice([i for i in range(nd) if dims[i] == 2] + [nd - 1, -1])
            g.seg("w")
            dt = g.r.choice(FLOATS)
            g.call(dict(op="softmax", t=[g.tensor(dt, dims, [g.r.uniform(-3, 3) for _ in range(8)])], n=[ax]))
    for dims, ax in (([130], 0), ([2, 70], 1), ([70, 2], 0), ([130, 1], -1)):
        for dt in FLOATS:
            g.seg("w")
            g.call(dict(op="softmax", t=[g.tensor(dt, dims, [g.r.uniform(-3, 3) for _ in range(prod(dims))])], n=[ax]))
    plan.add("axes", g)


# ------------------------------------------------------------------------ P20

def p20(plan):
    functional(plan, ["dropout"], "hws", 120)
    g = plan.gen("types")
    r = g.r
    for dt in ALL:
        for rate in (0.0, 1.0, -0.0, 0.5, 1 - 2.0 ** -53, 2.0 ** -60):
            for dims in ([], [1], [3, 5], [2, 1, 9]):
                for mode in (0, 1, 2, 3):
                    if mode and r.random() < 0.6:
                        continue
                    g.seg("h")
                    g.raw(op="rand", n=[mode])
                    g.call(dict(op="dropout", t=[g.auto(dt, dims)], xd=rate))
    # special values are kept as they are
    for dt, pats in ((8, ["0000c07f", "0100807f", "0000807f", "000080ff", "00000080", "01000000"]),
                     (9, ["000000000000f87f", "010000000000f07f", "000000000000f07f", "0000000000000080",
                          "0100000000000000"])):
        for rate in (0.0, 0.5, 1.0):
            g.seg("h")
            g.call(dict(op="dropout", t=[g.tensor(dt, [len(pats)], data=bytes.fromhex("".join(pats)))], xd=rate))
    plan.add("types", g)
    # how often each element of a small tensor is dropped
    for part, dts in enumerate(([0, 3, 8], [1, 6, 9], [2, 4, 5, 7])):
        g = plan.gen("each%d" % part)
        r = g.r
        for dt in dts:
            for rate in (0.5, 0.25, 0.1, 0.9, 0.75, 0.29, 0.07, 0.995 if plan.tier != "quick" else 0.99):
                for dims in ([], [13], [2, 3, 4]):
                    if plan.tier == "quick" and dims != [13] and r.random() < 0.5:
                        continue
                    g.seg("h")
                    n = prod(dims)
                    t = g.tensor(dt, dims, [r.randint(1, 100) for _ in range(n)])
                    reps = plan.k(3000, 40000)
                    g.call(dict(op="dropstat", t=[t], n=[reps], xd=rate))
        plan.add("each%d" % part, g)
    # and how many of a large one
    for part, dts in enumerate(([0, 8], [9, 1, 4])):
        g = plan.gen("large%d" % part)
        r = g.r
        for dt in dts:
            for rate in (0.5, 0.02, 0.98, r.random(), 0.585, 0.005):
                g.seg("s")
                n = plan.k(8000, 60000)
                if rate == 0.5:
                    n = 70000
                dims = r.choice([[n], [n // 100, 100], [10, 10, n // 100]])
                t = g.tensor(dt, dims, [r.randint(1, 9) for _ in range(prod(dims))])
                g.call(dict(op="dropout", t=[t], xd=rate))
        plan.add("large%d" % part, g)


# ------------------------------------------------------- whole-system properties

OPS = list(scen.SC)
MEM = ["ledger", "raw"]


def handle(g, c, p=None):
    """a value for the output handle: sentinel, NULL, or an operand's variable"""
    r = g.r
    k = r.randrange(4)
    if k == 3 and c.get("t") and g.free_slots() > 1:
        return dict(h=2, o=c["t"][0], p=g.new())
    return dict(h=k % 2)


def histories(plan, name, num, depth, **kw):
    """histories drawn from the specification, with elements"""
    import histories as H
    r = plan.gen(name).r
    work = plan.work + "/gen-" + name
    return [H.concrete(h, r) for h in H.draw(work, num, depth, r.randrange(1 << 30), **kw)]


def split(plan, name, segs, aspects, scope="all", size=120):
    """segs: functions that emit a segment; shards of size segments"""
    for i in range(0, len(segs), size):
        g = plan.gen("%s-%d" % (name, i))
        for s in segs[i:i + size]:
            s(g)
        plan.add("%s-%d" % (name, i // size), g, aspects, scope)


def sizes_for(op):
    return dict(maxn=24) if op not in ("batch_norm",) else {}


def empties(r):
    """a call of each operation that tensors without elements can be given to: (op, operands' dims, arguments, types)"""
    out = []
    for d in ([0], [0, 3], [2, 0, 2]):
        for op in ("relu", "sqrt", "sigmoid", "tanh"):
            out.append((op, [d], {}, FLOATS if op in ("sigmoid", "tanh") else ALL))
        for op in ("add", "sub", "mul", "div"):
            out.append((op, [d, d], {}, ALL))
        out.append(("reshape", [d], dict(dims=[3, 0]), ALL))
        out.append(("squeeze", [d], dict(n=[0]), ALL))
        out.append(("duplicate", [d], {}, ALL))
        out.append(("slice", [d], dict(a=[0] * len(d), b=[min(e, 1) for e in d], c=[1] * len(d)), ALL))
        out.append(("dropout", [d], dict(xd=0.5), ALL))
        out.append(("cast", [d], dict(dt=9), [0, 3, 6, 8]))
    for ns in (1, 2, 3):
        one = [1] * ns
        for d1, d2 in (([0, 1], [1, 1]), ([0, 2], [3, 2])):
            out.append(("conv", [d1 + [3] * ns, d2 + [2] * ns], dict(a=one, b=[0] * ns, c=one, n=[1]), [8]))
        out.append(("conv", [[2, 1] + [3] * ns, [0, 1] + [2] * ns], dict(a=one, b=one, c=one, n=[1]), [8]))
        for d in ([0, 2], [2, 0], [0, 0]):
            for m in ("max", "avg"):
                out.append(("pooling", [d + [3] * ns], dict(m=m, a=[2] * ns, b=one, c=[0] * ns, d=one), ALL))
    for d1, d2 in (([0, 3], [3, 2]), ([2, 3], [3, 0]), ([0, 3], [3]), ([3], [3, 0]), ([0, 2, 3], [0, 3, 2]), ([2, 0, 3], [2, 3, 4])):
        out.append(("matmul", [d1, d2], {}, ALL))
    for d1, d2 in (([], [0]), ([0, 2], []), ([0, 3], [3]), ([0, 3], [3, 2]), ([2, 0, 3], [3])):
        out.append(("dot", [d1, d2], {}, ALL))
    for d, ax in (([0, 3], 1), ([0, 3, 2], 1), ([0, 3, 2], 2), ([0, 2, 2, 2], 1)):
        out.append(("batch_norm", [d] + [[d[ax]]] * 4, dict(n=[ax], xd=1.0), ALL))
    return out


def empty_call(g, item):
    op, dims, kw, dts = item
    dt = g.r.choice(dts)
    ts = [g.tensor(dt, d, [g.r.randint(1, 4) for _ in range(prod(d))]) for d in dims]
    return dict(op=op, t=ts, **kw)


# ------------------------------------------------------------------------ P02

def p02(plan):
    for part in range(3):
        g = plan.gen("calls%d" % part)
        r = g.r
        for op in OPS[part::3]:
            for bad in [None] * 4 + scen.BAD[op]:
                for custom in (0, 1):
                    for _ in range(plan.k(3)):
                        g.seg(r.choice("hsw"))
                        if custom:
                            g.raw(op="alloc", n=[1])
                        live = []
                        for _ in range(r.randint(1, 2)):
                            c = scen.scenario(g, op, bad)
                            hd = handle(g, c)
                            o = g.call(c, **hd)
                            live += c.get("t", []) + [o] + ([hd["p"]] if "p" in hd else [])
                        r.shuffle(live)
                        for t in live[:r.randint(0, len(live))]:
                            g.call(dict(op="destroy", t=[t]))
                        if r.random() < 0.3:
                            g.call(dict(op="destroynull"))
        plan.add("calls%d" % part, g, MEM)
    # sizes and ranks at which something could be forgotten
    g = plan.gen("shapes")
    r = g.r
    for nd in list(range(0, 12)) + [30]:
        for op in ("duplicate", "reshape", "squeeze", "slice", "relu", "cast", "add", "softmax", "dropout"):
            g.seg("h")
            if r.random() < 0.5:
                g.raw(op="alloc", n=[1])
            dims = [r.choice([1, 2, 3] if nd < 5 else [1, 1, 1, 2]) for _ in range(nd)]
            t = g.auto(r.choice([0, 3, 8, 9]), dims)
            c = dict(op=op, t=[t, t] if op == "add" else [t])
            if op == "reshape":
                c["dims"] = dims[::-1]
            elif op == "slice":
                c.update(a=[0] * nd, b=[r.choice([0, e]) for e in dims], c=[1] * nd)
            elif op == "squeeze":
                c["n"] = [0]
            elif op == "cast":
                c["dt"] = r.choice([1, 6])
            elif op == "softmax":
                c["n"] = [r.randrange(-1, nd)]
            elif op == "dropout":
                c["xd"] = 0.5
            g.call(c)
    for item in empties(r):
        for _ in range(plan.k(1, 6)):
            g.seg("s")
            if r.random() < 0.5:
                g.raw(op="alloc", n=[1])
            c = empty_call(g, item)
            o = g.call(c)
            for t in r.sample(c["t"] + [o], r.randint(0, len(c["t"]) + 1)):
                g.call(dict(op="destroy", t=[t]))
    plan.add("shapes", g, MEM)
    hs = histories(plan, "hist", plan.k(320), 30)
    segs = [lambda g, h=h, i=i: H_emit(g, h, custom=i % 2) for i, h in enumerate(hs)]
    split(plan, "hist", segs, MEM, size=80 if plan.tier == "quick" else 400)
    for name, ops, ranks in FOCUS:
        hs = histories(plan, name, plan.k(40), 20, ops=ops, ranks=ranks)
        split(plan, name, [lambda g, h=h, i=i: H_emit(g, h, custom=i % 2) for i, h in enumerate(hs)], MEM, size=400)


def H_emit(g, h, **kw):
    import histories as H
    H.emit(g, h, **kw)


FOCUS = [("focus-conv", ["create", "conv", "conv2d", "conv3d", "destroy"], [3, 4, 5]),
         ("focus-pool", ["create", "pooling", "batch_norm", "softmax", "destroy"], [2, 3, 4, 5]),
         ("focus-shape", ["create", "slice", "reshape", "squeeze", "duplicate", "cast", "destroy"], range(7)),
         ("focus-prod", ["create", "matmul", "dot", "add", "div", "destroy"], [0, 1, 2, 3])]


# ------------------------------------------------------------------------ P03

FAIL = ["handle", "frame", "ledger"]


def p03(plan):
    for part in range(3):
        g = plan.gen("calls%d" % part)
        r = g.r
        for op in OPS[part::3]:
            for bad in scen.BAD[op]:
                for kind in "sw":
                    for _ in range(plan.k(8)):
                        g.seg(kind)
                        # bystanders, before and after
                        for _ in range(r.randint(0, 2)):
                            g.auto(r.choice(ALL), rdims(r, 0, 3, 20))
                        c = scen.scenario(g, op, bad)
                        if r.random() < 0.3:
                            g.auto(r.choice(ALL), rdims(r, 0, 3, 20))
                        if r.random() < 0.3:
                            g.raw(op="alloc", n=[1])
                        for _ in range(r.choice([1, 1, 2])):
                            if g.free_slots() > 3:
                                g.call(c, **handle(g, c))
        plan.add("calls%d" % part, g, FAIL, "failed")
    # element-dependent failures: at every position
    g = plan.gen("positions")
    r = g.r
    for op in ("sqrt", "div"):
        for dt in ([0, 2, 4, 6, 8, 9] if op == "sqrt" else INTS):
            for n in (1, 2, 7):
                for i in range(n):
                    g.seg("s")
                    v = [r.randint(1, 9) for _ in range(n)]
                    v[i] = -1 if op == "sqrt" else 0
                    t = g.tensor(dt, [n], v)
                    c = dict(op=op, t=[t] if op == "sqrt" else [g.auto(dt, [n]), t])
                    g.call(c, **handle(g, c))
    for dt in ALL:
        for n in (1, 2, 5):
            for i in range(n):
                g.seg("s")
                x = g.tensor(dt, [2, n, 2], [r.randint(1, 9) for _ in range(4 * n)])
                p = g.tensor(dt, [n], [1] * n)
                v = [3] * n
                v[i] = (-1 if dt in SIGNED or dt >= 8 else 0) if r.random() < 0.8 or dt >= 8 else 0
                c = dict(op="batch_norm", t=[x, p, p, p, g.tensor(dt, [n], v)], n=[1], xd=0.0)
                g.call(c, **handle(g, c))
    plan.add("positions", g, FAIL, "failed")
    # as if it had never been called: the same calls with and without those that fail
    hs = histories(plan, "twins", plan.k(150), 24)
    segs = []
    for i, h in enumerate(hs):
        segs.append(lambda g, h=h, i=i: H_emit(g, h, key="t%d" % i))
        segs.append(lambda g, h=h, i=i: H_emit(g, h, key="t%d" % i, without_failing=True))
    split(plan, "twins", segs, FAIL + ["memo"], "failed", size=80 if plan.tier == "quick" else 400)
    g = plan.gen("after")
    r = g.r
    i = 0
    for op in OPS:
        for bad in scen.BAD[op]:
            for _ in range(plan.k(2)):
                i += 1
                state = r.getstate()
                for fails in (1, 0):
                    r.setstate(state)
                    g.seg("w")
                    c = scen.scenario(g, op, bad)
                    d = scen.scenario(g, op, None)
                    if fails:
                        g.call(c)
                        g.call(c, h=1)
                    else:
                        g.new(), g.new()
                    for k in range(2):
                        g.call(d, key="a%d.%d" % (i, k))
    plan.add("after", g, FAIL + ["memo"], "failed")


# ------------------------------------------------------------------------ P04

FAULT = ["fault", "status", "handle", "ledger", "frame", "data", "meta", "memo"]


def p04(plan):
    for part in range(6):
        g = plan.gen("calls%d" % part)
        r = g.r
        for op in OPS[part::6]:
            kinds = "w" if op in scen.WIDE_ONLY else "sw"
            for bad in [None] * plan.k(4, 24) + scen.BAD[op]:
                g.seg(r.choice(kinds))
                if r.random() < 0.4:
                    g.raw(op="alloc", n=[1])
                small = dict(maxn=8) if op in ("sigmoid", "tanh", "softmax", "dot", "matmul") else dict(maxn=16)
                c = scen.scenario(g, op, bad, **(small if op != "batch_norm" else {}))
                key = "f%d" % g.segs
                g.call(c, key=key)
                g.call(c, fk="*", key=key, h=r.choice([0, 1]))
                g.call(c, fk="*", fm=1, key=key, h=r.choice([0, 1]))
        plan.add("calls%d" % part, g, FAULT, "fault")
    # every rank, and shapes with extents 0 and 1
    g = plan.gen("ranks")
    r = g.r
    for nd in range(0, 7):
        for op in ("create", "full", "duplicate", "reshape", "squeeze", "slice", "relu", "cast", "mul", "softmax", "dropout"):
            g.seg("h")
            dims = [r.choice([1, 1, 2]) for _ in range(nd)]
            t = g.auto(8, dims)
            c = dict(op=op, t=[t, t] if op == "mul" else [t])
            if op in ("create", "full"):
                c = dict(op=op, dims=dims, dt=8, xd=1.5 if op == "full" else None)
                if op == "create" and r.random() < 0.5:
                    c.update(x=r.randbytes(4 * prod(dims)), len=4 * prod(dims))
            elif op == "reshape":
                c["dims"] = dims[::-1]
            elif op == "slice":
                c.update(a=[0] * nd, b=[r.choice([0, e]) for e in dims], c=[1] * nd)
            elif op == "squeeze":
                c["a"] = [k for k in range(nd) if dims[k] == 1][:r.randint(0, nd)]
                c["n"] = [len(c["a"])]
            elif op == "cast":
                c["dt"] = 3
            elif op == "softmax":
                c["n"] = [r.randrange(-1, nd)]
            elif op == "dropout":
                c["xd"] = 0.5
            key = "r%d" % g.segs if not (op == "create" and "x" not in c) else None
            g.call(c, key=key)
            g.call(c, fk="*", key=key)
            g.call(c, fk="*", fm=1, key=key)
    plan.add("ranks", g, FAULT, "fault")
    # every form of the operations which take one of several ways through the code
    g = plan.gen("forms")
    r = g.r
    two = [([3], [3]), ([2, 3], [3]), ([2, 2, 3], [3]), ([3], [3, 2]), ([3], [2, 3, 2]), ([2, 3], [3, 2]), ([2, 2, 3], [3, 2]),
           ([2, 3], [2, 3, 2]), ([2, 2, 3], [2, 3, 2]), ([2, 1, 2, 3], [3, 3, 2]), ([2, 2, 2, 3], [1, 2, 3, 1])]
    forms = [("matmul", d, {}) for d in two]
    forms += [("dot", d, {}) for d in two + [([], [3]), ([3], []), ([], []), ([], [2, 3]), ([2, 3, 3], [])]]
    for d in (([2, 3], [2, 3]), ([2, 3], [3]), ([3], [2, 3]), ([2, 1], [1, 3]), ([], [2]), ([2], []), ([2, 1, 2], [3, 1])):
        forms += [(op, d, {}) for op in ("add", "sub", "mul", "div")]
    for ns in (1, 2, 3):
        one = [1] * ns
        for ngr in (1, 2):
            forms.append(("conv", ([2, 2] + [3] * ns, [2, 2 // ngr] + [2] * ns), dict(a=one, b=one, c=one, n=[ngr])))
        for m in ("max", "avg"):
            forms.append(("pooling", ([1, 2] + [3] * ns,), dict(m=m, a=[2] * ns, b=one, c=[1] * ns, d=one)))
    for op, dims, kw in forms:
        dts = [r.choice([8, 9] if op != "conv" else [8])]
        if op != "conv":
            dts.append(r.choice(INTS))
        for dt in dts:
            g.seg("s")
            ts = [g.tensor(dt, d, [r.randint(1, 4) for _ in range(prod(d))]) for d in dims]
            key = "g%d" % g.segs
            c = dict(op=op, t=ts, **kw)
            g.call(c, key=key)
            g.call(c, fk="*", key=key)
            g.call(c, fk="*", fm=1, key=key)
    for i in range(plan.k(12)):
        g.seg("w")
        c = scen.scenario(g, "batch_norm", None)
        key = "g%d" % g.segs
        g.call(c, key=key)
        g.call(c, fk="*", key=key)
        g.call(c, fk="*", fm=1, key=key)
    for item in empties(r):
        g.seg("s")
        c = empty_call(g, item)
        key = "g%d" % g.segs
        g.call(c, key=key)
        g.call(c, fk="*", key=key)
        g.call(c, fk="*", fm=1, key=key)
    plan.add("forms", g, FAULT, "fault")
    # one refusal somewhere in a history
    hs = histories(plan, "hist", plan.k(150), 20)
    segs = []
    for h in hs:
        def emit(g, h=h):
            hit = {g.r.randrange(len(h)) for _ in range(5)}
            H_emit(g, h, custom=g.r.random() < 0.5, each=lambda i, c: dict(fk=g.r.randint(1, 8), fm=g.r.choice([0, 1]))
                   if i in hit and c.get("h") != 2 and c["op"] not in ("poke", "setitem", "inspect", "resolve", "destroy") else None)
        segs.append(emit)
    split(plan, "hist", segs, FAULT, "fault", size=75 if plan.tier == "quick" else 400)


# ------------------------------------------------------------------------ P05

SHARE = ["frame", "alias", "args"]


def p05(plan):
    for part in range(3):
        g = plan.gen("calls%d" % part)
        r = g.r
        for op in OPS[part::3]:
            for bad in [None] * plan.k(10) + scen.BAD[op] * plan.k(1, 3):
                g.seg(r.choice("hsw"))
                c = scen.scenario(g, op, bad)
                hd = handle(g, c)
                o = g.call(c, **hd)
                ts = sorted(set(c.get("t", []))) + [o]
                if g.free_slots() > 2:
                    ts.append(g.call(dict(op="duplicate", t=[o])))
                r.shuffle(ts)
                # writing to one, or dropping one, leaves the others alone
                for t in ts[:3]:
                    k = r.randrange(3)
                    if k == 0:
                        g.call(dict(op="destroy", t=[t]))
                    elif k == 1:
                        g.call(dict(op="scribble", t=[t]))
        plan.add("calls%d" % part, g, SHARE)
    g = plan.gen("same")
    r = g.r
    for op in OPS:
        for dt in ALL:
            for _ in range(plan.k(1, 4)):
                g.seg("h")
                c = scen.scenario(g, op, None, **({"dt": dt} if op not in ("sigmoid", "tanh") else {"dt": r.choice(FLOATS)}))
                n = len(c.get("t", []))
                if n < 1:
                    continue
                # one tensor as every operand, and as the holder of the result
                t = g.auto(dt, r.choice([[2, 2], [3], [1, 1, 1], [2, 2, 2], [1, 1, 1, 1]]))
                c["t"] = [t] * n
                g.call(c, **(dict(h=2, o=t, p=g.new()) if r.random() < 0.6 else {}))
                g.call(dict(op="scribble", t=[t]))
    plan.add("same", g, SHARE)
    # arrays and data in read-only memory; one array for several arguments, or a tensor's own dims
    g = plan.gen("readonly")
    r = g.r
    for op in OPS:
        for bad in [None] * plan.k(8) + scen.BAD[op] * plan.k(1, 3):
            g.seg(r.choice("hsw"))
            g.raw(op="rdonly", n=[r.choice([1, 2])])
            c = scen.scenario(g, op, bad)
            if r.random() < 0.3 and c.get("t") and bad is None and op not in ("matmul", "dot", "conv", "conv2d", "conv3d",
                                                                          "batch_norm"):
                c["t"] = [c["t"][0]] * len(c["t"])
            o = g.call(c, **handle(g, c))
            if g.free_slots() > 4 and bad is None and op not in ("resolve", "setitem", "destroy"):
                g.call(dict(op="duplicate", t=[o]))
                g.call(dict(op="scribble", t=[o]))
    for _ in range(plan.k(60)):
        g.seg("h")
        g.raw(op="rdonly", n=[2])
        d = rdims(r, 0, 6, 200)
        t = g.auto(r.choice(ALL), d)
        u = g.call(dict(op="reshape", t=[t], dims=d))
        v = g.call(dict(op="full", dt=r.choice(ALL), dims=d, xd=1.0))
        w = g.call(dict(op="create", dt=r.choice(ALL), dims=d))
        for x in r.sample([t, u, v, w], 3):
            g.call(dict(op=r.choice(["destroy", "scribble"]), t=[x]))
        g.call(dict(op="create", dt=r.choice(ALL), dims=d))
    plan.add("readonly", g, SHARE)
    hs = histories(plan, "hist", plan.k(250), 30)
    split(plan, "hist", [lambda g, h=h: H_emit(g, h) for h in hs], SHARE, size=80 if plan.tier == "quick" else 400)
    for name, ops, ranks in FOCUS:
        hs = histories(plan, name, plan.k(30), 20, ops=ops + ["poke", "setitem"], ranks=ranks)
        split(plan, name, [lambda g, h=h: H_emit(g, h) for h in hs], SHARE, size=400)


# ------------------------------------------------------------------------ P06

MEMO = ["memo"]
HEAVY = ("matmul", "dot", "conv", "conv2d", "conv3d", "batch_norm", "pooling", "softmax")


def p06(plan):
    # the same call in a fresh process, after other calls, after failing ones, in other memory
    r0 = plan.gen("calls").r
    items = []
    for op in OPS:
        if op == "dropout":
            continue
        for bad in [None] * plan.k(5) + scen.BAD[op]:
            items.append((op, bad, r0.choice("sw") if op not in scen.WIDE_ONLY else "w", r0.randrange(1 << 40)))

    def emit(g, item, key, before, fill):
        op, bad, kind, seed = item
        save = g.r
        g.seg(kind)
        g.r = random.Random(seed)
        c = scen.scenario(g, op, bad)
        g.r = save
        if fill is not None:
            g.raw(op="fill", n=[fill])
        for b in before:
            try:
                d = scen.scenario(g, b, save.choice([None] + scen.BAD[b]))
                g.call(d)
            except AssertionError:
                break
        if op == "create" and c.get("x") is None:
            return
        if g.free_slots() > 2:
            g.call(c, key=key)
            g.call(c, key=key, h=1)
    for part in range(3):
        g = plan.gen("history%d" % part)
        r = g.r
        mine = list(enumerate(items))[part::3]
        for rnd in range(plan.k(3, 8)):
            r.shuffle(mine)
            for k, item in mine:
                before = [] if rnd == 0 else [r.choice(OPS + [item[0]] * 8) for _ in range(r.randint(1, 3))]
                emit(g, item, "c%d" % k, before, [None, 0, 255, -1, 0x7F, 1, 0x3F, 0x80][rnd])
        plan.add("history%d" % part, g, MEMO)
    # a few calls of one operation in turn, each on operands of its own that then give way to the next
    for part in range(3):
        g = plan.gen("reuse%d" % part)
        r = g.r
        for op in (OPS + ["index"])[part::3]:
            if op == "dropout":
                continue
            for grp in range(plan.k(6)):
                kind = r.choice("sw") if op not in scen.WIDE_ONLY else "w"
                rank = r.randint(1, 4)
                seeds = [r.randrange(1 << 40) for _ in range(r.randint(2, 4))]
                order = [r.choice(range(len(seeds))) for _ in range(12)]
                how = r.randrange(4)
                g.seg(kind)
                for k in order:
                    save, g.r = g.r, random.Random(seeds[k])
                    if op == "index":
                        c = dict(op="index", t=[g.auto(3, [g.r.randint(1, 4) for _ in range(rank)])])
                    else:
                        c = scen.scenario(g, op, None)
                    g.r = save
                    if op == "create" and c.get("x") is None:
                        c.update(x=bytes(prod(c["dims"]) * SIZE[c["dt"]]), len=prod(c["dims"]) * SIZE[c["dt"]])
                    g.call(c, key="%s-%d-%d" % (op, grp, k))
                    live = list(range(g.slot))
                    if how == 1:
                        live.reverse()
                    elif how == 2:
                        r.shuffle(live)
                    for t in live:
                        g.call(dict(op="destroy", t=[t]))
                    g.slot = 0
        plan.add("reuse%d" % part, g, MEMO)
    # one call very many times over
    for part in range(3):
        g = plan.gen("often%d" % part)
        r = g.r
        for op in OPS[part::3]:
            if op in ("dropout", "destroy", "setitem", "poke"):
                continue
            for k, bad in enumerate([None] * plan.k(2) + r.sample(scen.BAD[op], min(plan.k(2), len(scen.BAD[op])))):
                g.seg("w" if op in scen.WIDE_ONLY else r.choice("sw"))
                c = tiny(g, op) if bad is None else scen.scenario(g, op, bad)
                if op == "create" and c.get("x") is None:
                    continue
                g.call(c, key="k", rep=(plan.k(4000 if op in HEAVY else 20000, 70000) if k == 0 else 1500))
        plan.add("often%d" % part, g, MEMO + ["ledger", "frame"])
    # two calls at a time: every place at which the first can be interrupted
    for part in range(4):
        g = plan.gen("pairs%d" % part)
        r = g.r
        for op in OPS[part::4]:
            for other in [op] * plan.k(3, 8) + [r.choice(OPS) for _ in range(plan.k(2, 8))]:
                g.seg(r.choice("sw") if not {op, other} & scen.WIDE_ONLY else "w")
                small = lambda o: dict(maxn=6) if o != "batch_norm" else {}
                if op == other:
                    c = tiny(g, op)
                    d = tiny(g, op) if r.random() < 0.7 else dict(c)
                else:
                    c, d = tiny(g, op), tiny(g, other)
                pair(g, c, d, "*")
            # both on operands of one type
            for _ in range(plan.k(1, 6)):
                g.seg("w" if op in scen.WIDE_ONLY else "s" if op == "batch_norm" else r.choice("sw"))
                dt = 8 if op.startswith("conv") else r.choice(FLOATS if op in ("sigmoid", "tanh", "softmax") else ALL)
                pair(g, tiny(g, op, dt=dt), tiny(g, op, dt=dt), "*")
        plan.add("pairs%d" % part, g, MEMO)
    scheds = schedules(plan)
    for part in range(2):
        g = plan.gen("sched%d" % part)
        r = g.r
        for op in OPS[part::2]:
            for _ in range(plan.k(2, 10)):
                g.seg("w" if op in scen.WIDE_ONLY else r.choice("sw"))
                c = scen.scenario(g, op, None)
                d = scen.scenario(g, op, None) if r.random() < 0.7 else scen.scenario(g, r.choice(OPS), None)
                if g.free_slots() < 3:
                    continue
                base(g, c, d)
                for s in r.sample(scheds, min(len(scheds), plan.k(4, 12))):
                    again(g, c, d, s)
        plan.add("sched%d" % part, g, MEMO)


def tiny(g, op, **kw):
    return scen.scenario(g, op, None, maxn=12 if op == "batch_norm" else 8, **kw)


def nokey(c):
    return c["op"] == "dropout" or (c["op"] == "create" and c.get("x") is None)


def base(g, c, d):
    """each call alone"""
    g.pairs = getattr(g, "pairs", 0) + 1
    g.o1, g.o2 = g.new(), g.new()
    for c0, o, k in ((c, g.o1, "x"), (d, g.o2, "y")):
        g.call(c0, o=o, key=None if nokey(c0) else "%s%d" % (k, g.pairs))
        g.call(dict(op="destroy", t=[o]))


def again(g, c, d, sched):
    """both at a time, twice: the other way round as well"""
    for (c0, o0, k0), (d0, o1, k1) in (((c, g.o1, "x"), (d, g.o2, "y")), ((d, g.o2, "y"), (c, g.o1, "x"))):
        g.call(c0, o=o0, key=None if nokey(c0) else "%s%d" % (k0, g.pairs), sw=sched)
        g.call(d0, o=o1, key=None if nokey(d0) else "%s%d" % (k1, g.pairs))


def pair(g, c, d, sched):
    base(g, c, d)
    again(g, c, d, sched)


def schedules(plan):
    """interleavings of two calls of four phases each, enumerated by TLC"""
    import engine
    out = engine.schedules(plan.work + "/sched")
    return [[-x for x in s] for s in out]


PLANS = {"P01": p01, "P02": p02, "P03": p03, "P04": p04, "P05": p05, "P06": p06, "P07": p07, "P08": p08, "P09": p09, "P10": p10, "P11": p11, "P12": p12, "P13": p13,
         "P14": p14, "P15": p15, "P16": p16, "P17": p17, "P18": p18, "P19": p19, "P20": p20,
         "P21": auto.p21, "P22": auto.p22, "P23": parts.p23}
# checks of auto_test, which has a driver and a trace specification of its own
AUTO = {"P21", "P22"}
