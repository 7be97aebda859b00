"""Scripts for harness/huge.c: tensors of more than 2^31 elements, by their quotients."""
import random

from script import Gen, enc, prod, small_vals

N31 = 2 ** 31


def nums(v):
    return ",".join(str(x) for x in v)


class Huge(Gen):
    def starts(self, n, k=6):
        """where runs start: 0, next to 2^31, near the end, anywhere"""
        r = self.r
        s = {0, 1, n - 1, N31 - 1, N31} | {r.randrange(n) for _ in range(k)}
        return sorted(x for x in s if 0 <= x < n)

    def runs(self, dt, dims, starts, values, qdims=None):
        o = self.tensor(dt, qdims or [len(starts)], values)
        self.lines.append("T t=%d dims=%s a=%s" % (o, nums(dims), nums(starts)))
        return o

    def grid(self, dt, dims, keep, values):
        o = self.tensor(dt, [len(k) for k in keep], values)
        self.lines.append("G t=%d dims=%s a=%s b=%s" % (o, nums(dims), nums(len(k) for k in keep),
                                                       nums(x for k in keep for x in k)))
        return o

    def both(self, real, quotient, dims, qdims, starts=None):
        """the call; real and quotient differ in their array arguments"""
        self.raw(**real)
        self.lines[-1] = "R " + self.lines[-1]
        self.lines.append("E dims=%s a=%s%s" % (nums(dims), nums(qdims), " b=" + nums(starts) if starts else ""))
        if not dims:
            self.lines[-1] = "E n=0"
        self.call(quotient)


def seg(g, kind="s"):
    g.seg(kind)
    return g.r


def extent(r):
    return N31 + r.choice([1, 2, 3, 5, 64, 1000])


def full(g, dt=0):
    r = seg(g)
    n, v = extent(r), float(r.randint(1, 100))
    o = g.slot
    g.both(dict(op="full", dt=dt, dims=[n], xd=v, o=o), dict(op="full", dt=dt, dims=[1], xd=v), [n], [1], [0])


def pointwise(g, op, dts, operands=1, spread=None, low=-9, kind="s", **kw):
    """one value of the result for each of the operands'"""
    r = seg(g, kind)
    n = extent(r)
    dims = [n]
    if spread:
        dims = spread(n)
        n = prod(dims)
    s = g.starts(n)
    qd = [len(s) if x == n else 1 for x in dims] if n in dims else [len(s)]
    dt = r.choice(dts)
    t = []
    for i in range(operands):
        v = [r.randint(max(low, 0 if dt in (1, 3, 5, 7) else low), 9) for _ in s]
        if op == "div" and i == 1:
            v = [x or 3 for x in v]
        else:                   # most of the first operand is zeros, which take no memory
            v = [0 if b - a > 1000 and not (op == "div" and i == 1) else x for a, b, x in zip(s, s[1:] + [n], v)]
        t.append(g.runs(dt, dims, s, [float(x) for x in v] if dt >= 8 else v, qd))
    o = g.slot
    q = dict(op=op, t=t, **kw)
    od = dims
    if op == "reshape":
        od = [1, n, 1]
        g.both(dict(q, dims=od, o=o), dict(q, dims=[1, len(s), 1]), od, [1, len(s), 1], s)
    elif op == "slice":
        g.both(dict(q, a=[0] * len(dims), b=dims, c=[1] * len(dims), o=o), dict(q, a=[0], b=[len(s)], c=[1]), dims, [len(s)], s)
    elif op == "squeeze":
        g.both(dict(q, o=o), q, [n], [len(s)], s)
    else:
        g.both(dict(q, o=o), q, od, qd, s)


def summed(g, op, shape):
    """sums of products, most of which are zero"""
    r = seg(g)
    n = extent(r)
    s = g.starts(n)
    s = sorted({x for p in s for x in (p, min(p + 1, n - 1))})
    v = [0 if b - a > 1 else r.randint(-5, 5) for a, b in zip(s, s[1:] + [n])]
    w = [r.randint(-5, 5) for _ in s]
    w = [0 if b - a > 1000 else x for a, b, x in zip(s, s[1:] + [n], w)]
    one, two = shape
    a = g.runs(0, [n if x == "n" else 1 for x in one], s, v, [len(s) if x == "n" else 1 for x in one])
    b = g.runs(0, [n if x == "n" else 1 for x in two], s, w, [len(s) if x == "n" else 1 for x in two])
    q = dict(op=op, t=[a, b])
    od = {"n.n": [1]}.get("%s.%s" % shape, [1] * (len(one) + len(two) - 2 if min(len(one), len(two)) < 3 else max(len(one), len(two))))
    g.both(dict(q, o=g.slot), q, od, od)


def scaled(g, op, shape, out):
    """an operand of one element against a huge one"""
    r = seg(g)
    n = extent(r)
    s = g.starts(n)
    v = [r.randint(-5, 5) if b - a < 1000 else 0 for a, b in zip(s, s[1:] + [n])]
    t = []
    for d in shape:
        if "n" in d:
            t.append(g.runs(0, [n if x == "n" else 1 for x in d], s, v, [len(s) if x == "n" else 1 for x in d]))
        else:
            o = g.tensor(0, [1] * len(d), [r.choice([-3, 2, 3])])
            g.lines.append("T t=%d dims=%s a=0" % (o, nums([1] * len(d))) if d else "T t=%d a=0" % o)
            t.append(o)
    q = dict(op=op, t=t)
    g.both(dict(q, o=g.slot), q, [n if x == "n" else 1 for x in out], [len(s) if x == "n" else 1 for x in out], s)


def sliced(g):
    """few elements, far from each other"""
    r = seg(g)
    dt = r.choice([0, 1, 3, 9])
    ext = r.choice([[3, 2 ** 30 + 7], [2, 3, 2 ** 29 + 5], [2 ** 29 + 3, 5], [2 ** 31 - 1, 2, 2]])
    begin, size, step, keep = [], [], [], []
    for e in ext:
        if e < 10:
            b = r.randrange(e)
            z = r.randint(1, e - b)
            st = r.choice([1, 1, 2])
        else:
            cnt = r.choice([2, 3])
            st = e // cnt - r.choice([0, 1, 2])
            b = r.randrange(min(5, st))
            z = min(e - b, st * cnt)
        begin.append(b), size.append(z), step.append(st)
        hits = list(range(b, b + z, st))
        keep.append(sorted(set(hits) | {x + d for x in hits for d in ((-1, 1) if e > 10 else ()) if 0 <= x + d < e}
                           | (set(range(e)) if e < 10 else set())))
    # in the quotient, the hits follow each other at one distance or are single
    qb, qz, qs = [], [], []
    for k, e in enumerate(ext):
        hits = list(range(begin[k], begin[k] + size[k], step[k]))
        if e >= 10:
            keep[k] = sorted(set(hits) | {h + 1 for h in hits if h + 1 < e})
            st = 2
            if len(keep[k]) < 2 * len(hits):     # the last has no neighbour
                pass
            qb.append(0), qs.append(st), qz.append(min(len(keep[k]), 2 * len(hits)))
        else:
            qb.append(begin[k]), qz.append(size[k]), qs.append(step[k])
    kd = [len(k) for k in keep]
    t = g.grid(dt, ext, keep, small_vals(r, dt, prod(kd), 90))
    od = [len(range(b, b + z, s)) for b, z, s in zip(begin, size, step)]
    g.both(dict(op="slice", t=[t], a=begin, b=size, c=step, o=g.slot), dict(op="slice", t=[t], a=qb, b=qz, c=qs), od, od)


def windows(g, op):
    """few windows, far from each other; they do not overlap"""
    r = seg(g)
    dt = 8 if op == "conv" else r.choice([0, 8, 2])
    lead = [r.choice([2, 3]), r.choice([1, 2])]
    e = r.choice([2 ** 30 + 11, 2 ** 29 + 1, 2 ** 30])
    other = r.choice([2, 3])
    first = r.random() < 0.5
    ext = [e, other] if first else [other, e]
    k, d, st = [], [], []
    for x in ext:
        if x > 10:
            k.append(r.choice([1, 2])), d.append(r.choice([1, 3, 2 ** 27])), st.append(x // 2 - 3)
        else:
            k.append(1), d.append(1), st.append(1)
    keep = [list(range(x)) for x in lead]
    pos = []
    for i, x in enumerate(ext):
        reach = d[i] * (k[i] - 1) + 1
        outs = (x - reach) // st[i] + 1
        pos.append(outs)
        keep.append([o * st[i] + j * d[i] for o in range(outs) for j in range(k[i])])
    qs = [k[i] if ext[i] > 10 else 1 for i in range(2)]
    kd = [len(x) for x in keep]
    v = small_vals(r, dt, prod(kd), 9)
    a = g.grid(dt, lead + ext, keep, v)
    if op == "pooling":
        m = r.choice(["max", "avg"])
        m = "max"
        od = lead + pos
        g.both(dict(op=op, m=m, t=[a], a=k, b=st, c=[0, 0], d=d, o=g.slot),
               dict(op=op, m=m, t=[a], a=k, b=qs, c=[0, 0], d=[1, 1]), od, od)
    else:
        oc = r.choice([1, 2])
        fd = [oc, lead[1]] + k
        b = g.grid(dt, fd, [list(range(x)) for x in fd], small_vals(r, dt, prod(fd), 5))
        od = [lead[0], oc] + pos
        g.both(dict(op=op, t=[a, b], a=st, b=[0, 0], c=d, n=[1], o=g.slot),
               dict(op=op, t=[a, b], a=qs, b=[0, 0], c=[1, 1], n=[1]), od, od)


def peak(g, dt, axis):
    """one element so large that the others do not count"""
    r = seg(g, "s" if dt < 8 else "w")
    n = extent(r)
    at = r.choice([n - 1, n - 2, N31, N31 - 1, r.randrange(n - 1)])
    s = [0, at, at + 1] if at < n - 1 else [0, at]
    v = [0, 120, 0] if dt < 8 else [0.0, 150.0, 0.0]
    t = g.runs(dt, [n], s, v[:len(s)])
    q = dict(op="softmax", t=[t], n=[axis])
    g.both(dict(q, o=g.slot), q, [n], [len(s)], s)


SPREAD = {"two": lambda n: [2, 2 ** 30 + 3], "col": lambda n: [n, 1], "unit": lambda n: [1, n]}


def segments(prop, part, g, tier):
    deep = tier != "quick"
    r = g.r
    if prop == "P09":
        if part == 0:
            for _ in range(12 if not deep else 60):
                sliced(g)
            pointwise(g, "duplicate", [0, 1])
            pointwise(g, "duplicate", [0], spread=SPREAD["two"])
        else:
            pointwise(g, "slice", [0, 1], spread=SPREAD["two"])
    elif prop == "P10":
        pointwise(g, "reshape", [0, 1])
        pointwise(g, "squeeze", [0, 1], spread=SPREAD[r.choice(["col", "unit"])], n=[0])
    elif prop == "P11":
        full(g, r.choice([0, 1]))
        pointwise(g, "cast", [0], dt=1, low=0)
        if deep:
            full(g, 2)
            pointwise(g, "cast", [1], dt=2, low=0)
            pointwise(g, "cast", [8], dt=0)
    elif prop == "P12":
        pointwise(g, ("add", "sub", "mul", "div")[part], [0, 1], 2, low=0)
    elif prop == "P13":
        if part == 0:
            summed(g, "matmul", ("n", "n"))
            summed(g, "matmul", ("1n", "n"))
            summed(g, "matmul", ("1n", "n1"))
            summed(g, "matmul", ("11n", "1n1"))
        if part == 1:
            scaled(g, "matmul", ("n1", "1"), "n")
            scaled(g, "matmul", ("n1", "11"), "n1")
            scaled(g, "matmul", ("11", "1n"), "1n")
        if part == 2:
            scaled(g, "matmul", ("1n1", "11"), "1n1")
            scaled(g, "matmul", ("11", "11n"), "11n")
    elif prop == "P14":
        if part == 0 or deep:
            summed(g, "dot", ("n", "n"))
        if part == 1 or deep:
            scaled(g, "dot", ("", "n"), "n")
        if deep:
            scaled(g, "dot", ("n", ""), "n")
    elif prop == "P15":
        for _ in range(40 if not deep else 400):
            windows(g, "conv")
    elif prop == "P16":
        for _ in range(60 if not deep else 600):
            windows(g, "pooling")
    elif prop == "P18":
        if part == 0:
            pointwise(g, "relu", [0])
            pointwise(g, "sqrt", [0], low=0)
        else:
            for op in ("tanh", "sigmoid"):
                pointwise(g, op, [8], kind="w")
        if deep:
            pointwise(g, "relu", [8])
    elif prop == "P19":
        peak(g, 0, -1)
        if deep:
            peak(g, 8, r.choice([-1, 0]))
        pointwise(g, "softmax", [0], spread=SPREAD["col"], n=[1])
        if deep:
            pointwise(g, "softmax", [8], spread=SPREAD["col"], kind="w", n=[1])
    elif prop == "P20":
        pointwise(g, "dropout", [0, 1], xd=float(part))


PARTS = {"P09": 2, "P12": 4, "P13": 3, "P14": 2, "P18": 2, "P20": 2}


def add(plan):
    for part in range(PARTS.get(plan.prop, 1)):
        g = Huge(random.Random("huge/%s/%s/%s" % (plan.prop, part, plan.seed)))
        segments(plan.prop, part, g, plan.tier)
        plan.add("huge%d" % part, g, ["status", "meta", "data"])
