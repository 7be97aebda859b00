"""Scenarios: for every operation, operands and one call of it, accepted or not.

scenario(g, op, bad) emits the operands into the current segment of g and
returns the call.  bad is None for an accepted call, or one of BAD[op].
What the call must do is not decided here but by the specification.
"""
from script import (ALL, FLOATS, INTS, SIGNED, bits64, enc, hi, lo, prod, rdims, small_vals, wide_float,
                    wide_int)

INT_MAX = 2147483647
INT_MIN = -2147483648


def dt_for(g, dts=None):
    return g.r.choice(dts or ALL)


def dev(g):
    return g.r.choice([(0, 0), (0, 0), (0, 3), (1, 0), (1, 2)])


# ---------------------------------------------------------------- construction

def sc_create(g, bad, dt=None, maxn=60):
    r = g.r
    dt = dt_for(g) if dt is None else dt
    dims = rdims(r, 0, 6, maxn, zero=r.random() < 0.2)
    n = prod(dims)
    dv, di = dev(g)
    c = dict(op="create", dt=dt, dims=dims, dv=dv, di=di)
    s = [1, 1, 2, 2, 4, 4, 8, 8, 4, 8][dt]
    if bad == "len":
        m = r.choice([n + 1, n + 2, max(0, n - 1), 2 * n + 1])
        if m == n:
            m = n + 1
        data = vals(g, dt, m)
        c.update(x=data, len=len(data) + (r.randrange(s) if s > 1 else 0))
        c["x"] = data + b"\0" * (c["len"] - len(data))
        return c
    if r.random() < 0.7:
        data = vals(g, dt, n)
        extra = r.choice([0, 0, 0, r.randrange(s)])
        c.update(x=data + b"\0" * extra, len=len(data) + extra)
    return c


def vals(g, dt, n, mag=9):
    r = g.r
    if g.kind == "s":
        return enc(dt, small_vals(r, dt, n, mag))
    if g.kind == "h":
        return r.randbytes(n * [1, 1, 2, 2, 4, 4, 8, 8, 4, 8][dt])
    return enc(dt, [wide_float(r, dt) if dt >= 8 else wide_int(r, dt) for _ in range(n)])


def full_value(r, dt):
    k = r.randrange(6)
    if dt >= 8:
        return wide_float(r, 9, finite=False, nan=True) if k else wide_float(r, 8)
    if k == 0:
        return float(r.choice([0.0, -0.0, 0.5, -0.5, 0.999, 1.999, -1.5]))
    top = min(hi(dt), 2 ** 53 if k < 4 else 2 ** 62)
    bot = max(lo(dt), -2 ** 53 if k < 4 else -2 ** 62)
    v = float(r.choice([top, bot, r.randint(bot, top), r.randint(-100, 100)]))
    if k == 2 and abs(v) < 2 ** 40:
        v += r.random() * (1 if v >= 0 else -1)
    if not (lo(dt) <= int(v) <= hi(dt)):
        v = float(r.randint(0, 100))
    return v


def sc_full(g, bad, dt=None, maxn=40):
    r = g.r
    dt = dt_for(g) if dt is None else dt
    dv, di = dev(g)
    v = float(r.randint(-9 if dt in SIGNED or dt >= 8 else 0, 9)) if g.kind == "s" else full_value(r, dt)
    return dict(op="full", dt=dt, dims=rdims(r, 0, 4, maxn, zero=r.random() < 0.15), dv=dv, di=di, xd=float(v))


# -------------------------------------------------------------------- movement

def sc_slice(g, bad, dt=None, dims=None, maxn=120):
    r = g.r
    dt = dt_for(g) if dt is None else dt
    if dims is None:
        dims = rdims(r, 1 if bad else 0, 6, maxn, long=0.3)
    dv, di = dev(g)
    t = g.auto(dt, dims, dv=dv, di=di)
    a, b, c = [], [], []
    for e in dims:
        x = r.randrange(e)
        y = r.choice([e - x, r.randint(0, e - x), r.randint(1, e - x), 0 if r.random() < 0.3 else e - x])
        a.append(x)
        b.append(y)
        c.append(r.choice([1, 1, 2, 3, 4, max(1, y), y + 1, y + 5, INT_MAX if r.random() < 0.1 else 1]))
    if bad:
        k = r.randrange(len(dims))
        e = dims[k]
        if bad == "begin_neg":
            a[k] = r.choice([-1, -e, INT_MIN])
        elif bad == "begin_big":
            a[k] = r.choice([e, e + 1, INT_MAX])
            b[k] = 0 if r.random() < 0.5 else b[k]
        elif bad == "size_neg":
            b[k] = r.choice([-1, -e, INT_MIN, INT_MIN + 1])
        elif bad == "size_big":
            b[k] = r.choice([e - a[k] + 1, e + 1, INT_MAX, INT_MAX - a[k]])
        elif bad == "overflow":
            a[k] = r.randrange(e) if e > 1 else 0
            b[k] = INT_MAX
        elif bad == "step":
            c[k] = r.choice([0, -1, INT_MIN])
    return dict(op="slice", t=[t], a=a, b=b, c=c)


def sc_duplicate(g, bad, dt=None, dims=None, maxn=120):
    r = g.r
    dt = dt_for(g) if dt is None else dt
    dv, di = dev(g)
    dims = dims if dims is not None else rdims(r, 0, 7, maxn, long=0.3)
    return dict(op="duplicate", t=[g.auto(dt, dims, dv=dv, di=di)])


def factor(r, n):
    d = []
    while n > 1:
        for p in (2, 3, 5, 7, 11, 13):
            if n % p == 0:
                break
        else:
            p = n
        if d and r.random() < 0.4:
            d[-1] *= p
        else:
            d.append(p)
        n //= p
    for _ in range(r.randrange(3)):
        d.insert(r.randint(0, len(d)), 1)
    r.shuffle(d)
    return d


def sc_reshape(g, bad, dt=None, maxn=120):
    r = g.r
    dt = dt_for(g) if dt is None else dt
    dv, di = dev(g)
    dims = rdims(r, 0, 5, maxn, zero=r.random() < 0.15, long=0.3)
    t = g.auto(dt, dims, dv=dv, di=di)
    n = prod(dims)
    if n == 0:
        new = rdims(r, 1, 4, maxn)
        new.insert(r.randint(0, len(new)), 0)
    else:
        new = factor(r, n)
    if bad:
        k = r.randrange(len(new) + 1)
        new = new[:k] + [r.choice([2, 3, 0])] + new[k:] if n else [r.choice([1, 2])]
    return dict(op="reshape", t=[t], dims=new)


def sc_squeeze(g, bad, dt=None, maxn=60):
    r = g.r
    dt = dt_for(g) if dt is None else dt
    dv, di = dev(g)
    while True:
        dims = [r.choice([1, 1, 1, 2, 3, 4]) for _ in range(r.randint(1 if bad else 0, 7))]
        if r.random() < 0.1 and dims:
            dims[r.randrange(len(dims))] = 0
        if prod(dims) <= maxn:
            break
    t = g.auto(dt, dims, dv=dv, di=di)
    nd = len(dims)
    if bad == "num_neg":
        return dict(op="squeeze", t=[t], a=[0], n=[r.choice([-1, -2, -2 ** 31, -2 ** 31 + 1])])
    axes = [r.randrange(nd) for _ in range(r.randint(0, nd + 2))] if nd else []
    if r.random() < 0.5:
        axes = sorted(set(axes))
    if bad == "axis":
        axes.insert(r.randint(0, len(axes)), r.choice([-1, nd, nd + 1, -nd, 2 ** 31 - 2]))
    return dict(op="squeeze", t=[t], a=axes, n=[len(axes)])


def sc_cast(g, bad, dt=None, to=None, maxn=60):
    r = g.r
    dt = dt_for(g) if dt is None else dt
    dv, di = dev(g)
    dims = rdims(r, 0, 5, maxn, zero=r.random() < 0.1)
    if bad:
        to = r.choice([10, 11, 77])
    elif to is None:
        to = dt_for(g)
    n = prod(dims)
    if g.kind == "w":
        v = []
        for _ in range(n):
            x = wide_float(r, dt) if dt >= 8 else wide_int(r, dt)
            if dt >= 8 and to < 8:
                x = to_int_range(r, dt, to, x)
            v.append(x)
        t = g.tensor(dt, dims, v, dv=dv, di=di)
    else:
        t = g.auto(dt, dims, dv=dv, di=di)
    return dict(op="cast", t=[t], dt=to)


def to_int_range(r, dt, to, x):
    """a float value whose truncation fits the target"""
    from script import f32
    for _ in range(20):
        if lo(to) <= int(x) <= hi(to):
            return x
        x = float(r.choice([r.uniform(max(lo(to), -1e6), min(hi(to), 1e6)), r.randint(lo(to), hi(to)),
                            lo(to), hi(to), hi(to) / 2, -0.75, 0.25]))
        if dt == 8:
            x = f32(x)
    return 0.0


# ----------------------------------------------------------------- binary, dot

def pair_types(g, bad, a, same):
    """device and type of the operands with the given fault"""
    r = g.r
    dt2 = a
    d1 = d2 = (0, r.choice([0, 0, 1]))
    if r.random() < 0.3:
        d2 = (0, r.choice([2, 3, -1, 2147483647]))
    if bad == "type":
        dt2 = r.choice([x for x in ALL if x != a])
    if bad == "device":
        k = r.randrange(3)
        d1 = (1, 0) if k != 1 else (0, 0)
        d2 = (1, 0) if k != 0 else (0, 0)
    return dt2, d1, d2


def sc_binary(op):
    def f(g, bad, dt=None, dims=None, maxn=40):
        r = g.r
        dt = dt_for(g) if dt is None else dt
        dt2, (dv1, di1), (dv2, di2) = pair_types(g, bad, dt, True)
        dims = dims if dims is not None else rdims(r, 0, 5, maxn, zero=not bad and r.random() < 0.1, long=0.2)
        d2 = list(dims)
        if bad == "dims":
            k = r.randrange(4)
            if not d2 or k == 0:
                d2.insert(r.randint(0, len(d2)), r.choice([1, 2]))
            elif k == 1:
                d2[r.randrange(len(d2))] += 1
            elif k == 2:
                d2.pop(r.randrange(len(d2)))
            else:
                i = r.randrange(len(d2))
                d2 = d2[:i] + [d2[i] + 1] + d2[i + 1:]
                if len(d2) > 1:
                    r.shuffle(d2)
                if d2 == list(dims):
                    d2.append(1)
        n = prod(d2)
        a = g.auto(dt, dims, dv=dv1, di=di1, **({"finite": False, "nan": True} if g.kind == "w" and dt >= 8 else {}))
        if op == "div" and dt2 < 8 and not (bad in ("device", "type", "dims")):
            v = nonzero(g, dt2, n)
            if bad == "zero" and n:
                v[r.randrange(n)] = 0
            b = g.tensor(dt2, d2, v, dv=dv2, di=di2)
        else:
            b = g.auto(dt2, d2, dv=dv2, di=di2,
                       **({"finite": False, "nan": True} if g.kind == "w" and dt2 >= 8 else {}))
        c = dict(op=op, t=[a, b])
        if not bad and r.random() < 0.15 and not (op == "div" and dt < 8):
            c["t"] = [b, b]
        return c
    return f


def nonzero(g, dt, n):
    r = g.r
    out = []
    for _ in range(n):
        v = small_vals(r, dt, 1)[0] if g.kind != "w" else wide_int(r, dt)
        out.append(v or 1)
    return out


def contraction_vals(g, dt, dims, **kw):
    """values whose sums of products stay comparable"""
    if g.kind != "w":
        return g.auto(dt, dims, mag=4, **kw)
    r = g.r
    n = prod(dims)
    if dt >= 8:
        lim = 40 if dt == 8 else 300
        return g.tensor(dt, dims, [wide_float(r, dt, lim=lim) for _ in range(n)], **kw)
    top = 2 ** 15 if dt == 4 else 2 ** 30 if dt == 6 else None
    if top:
        return g.tensor(dt, dims, [r.choice([r.randint(-top, top), r.randint(-9, 9), top - 1]) // 4 for _ in range(n)], **kw)
    return g.auto(dt, dims, **kw)


def sc_matmul(g, bad, dt=None, maxn=60, shape=None):
    r = g.r
    dt = dt_for(g) if dt is None else dt
    while True:
        m, k, n = (r.choice([1, 2, 3, 4, 5]) for _ in range(3))
        case = shape if shape is not None else r.randrange(6)
        if r.random() < 0.08:
            k = r.choice([17, 33, 64])
        b1 = [r.choice([1, 2, 3]) for _ in range(r.randint(0, 3))]
        b2 = [x if r.random() < 0.6 else 1 for x in b1]
        b1 = [x if r.random() < 0.7 else 1 for x in b1]
        cut = r.randint(0, len(b1)) if r.random() < 0.5 else 0
        if r.random() < 0.5:
            b1 = b1[cut:]
        else:
            b2 = b2[cut:]
        if case == 0:
            d1, d2 = [k], [k]
        elif case == 1:
            d1, d2 = [m, k], [k]
        elif case == 2:
            d1, d2 = [k], [k, n]
        elif case == 3:
            d1, d2 = b1 + [m, k], [k]
        elif case == 4:
            d1, d2 = [k], b2 + [k, n]
        else:
            d1, d2 = b1 + [m, k], b2 + [k, n]
        if bad == "rank0":
            if r.random() < 0.5:
                d1 = []
            else:
                d2 = []
        elif bad == "contract":
            i = len(d2) - 2 if len(d2) > 1 else 0
            d2[i] = r.choice([x for x in (1, 2, 3, k + 1, k + 2) if x != k])
        elif bad == "batch":
            d1, d2 = [2] + b1 + [m, k], [3] + b2 + [k, n]
            if len(b1) != len(b2):
                continue
        if prod(d1) <= maxn * 2 and prod(d2) <= maxn * 2:
            break
    return contraction(g, bad, "matmul", dt, d1, d2)


def contraction(g, bad, op, dt, d1, d2):
    dt2, (dv1, di1), (dv2, di2) = pair_types(g, bad, dt, True)
    if bad in ("type", "device"):
        a = g.auto(dt, d1, dv=dv1, di=di1)
        b = g.auto(dt2, d2, dv=dv2, di=di2)
    else:
        a = contraction_vals(g, dt, d1, dv=dv1, di=di1)
        b = contraction_vals(g, dt, d2, dv=dv2, di=di2) if d1 != d2 or g.r.random() < 0.7 else a
    return dict(op=op, t=[a, b])


def sc_dot(g, bad, dt=None, maxn=60):
    r = g.r
    dt = dt_for(g) if dt is None else dt
    while True:
        k = r.choice([1, 2, 3, 4, 5, 7])
        if r.random() < 0.08:
            k = r.choice([17, 33, 64])
        rd = lambda a, b: [r.choice([1, 2, 3, 4]) for _ in range(r.randint(a, b))]
        case = r.randrange(6)
        if bad == "ranks":
            d1, d2 = r.choice([([k], [k, 2]), ([2, k], [2, k, 3]), ([2, 3, k], [k, 4]), ([k], [2, k, 3]),
                               ([2, k], [2, 2, k, 1])])
        elif case == 0:
            d1, d2 = [k], [k]
        elif case == 1:
            d1, d2 = rd(1, 1) + [k], [k] + rd(1, 1)
        elif case == 2:
            d1, d2 = ([], rd(0, 4)) if r.random() < 0.5 else (rd(0, 4), [])
        elif case == 3:
            d1, d2 = rd(1, 4) + [k], [k]
        else:
            d1, d2 = rd(2, 3) + [k], rd(1, 3) + [k] + rd(1, 1)
        if bad == "contract":
            if not d1 or not d2:
                continue
            i = len(d2) - 2 if len(d2) > 1 else 0
            d2[i] = k + r.choice([1, 2, 5])
        if prod(d1) <= maxn and prod(d2) <= maxn and prod(d1) * prod(d2) // k <= 40 * maxn:
            break
    return contraction(g, bad, "dot", dt, d1, d2)


# -------------------------------------------------------------- windows

def window(r, e, kmax=3):
    """kernel, stride, padding, dilation that fit an extent"""
    while True:
        k, s, p, d = r.randint(1, kmax), r.choice([1, 1, 2, 3]), r.choice([0, 0, 1, 2]), r.choice([1, 1, 2, 3])
        if r.random() < 0.05:
            s = r.choice([7, 100])
        if r.random() < 0.05:
            p = r.randint(3, 5)
        if d * (k - 1) + 1 <= e + 2 * p:
            return k, s, p, d


def sc_conv(op):
    def f(g, bad, dt=None, maxn=90):
        r = g.r
        dt = 8
        while True:
            ns = {"conv2d": 2, "conv3d": 3}.get(op, r.choice([1, 2, 2, 3, 4]))
            if bad == "rank2d":
                ns = r.choice([x for x in (1, 2, 3) if x != {"conv2d": 2, "conv3d": 3}.get(op, 9)])
            grp = r.choice([1, 1, 1, 2, 3])
            cg, og = r.choice([1, 2, 3]), r.choice([1, 2])
            sp = [r.choice([1, 2, 3, 4, 5, 6]) for _ in range(ns)]
            w = [window(r, e) for e in sp]
            d1 = [r.choice([1, 2]), cg * grp] + sp
            d2 = [og * grp, cg] + [x[0] for x in w]
            s, p, d = ([x[i] for x in w] for i in (1, 2, 3))
            if prod(d1) <= maxn and prod(d2) <= maxn:
                break
        n = [grp]
        dt2 = dt
        di = lambda: r.choice([0, 0, 0, 0, 1, 3])
        i = r.randrange(ns)
        if bad == "stride":
            s[i] = r.choice([0, -1, -2])
        elif bad == "padding":
            p[i] = r.choice([-1, -2])
        elif bad == "dilation":
            d[i] = r.choice([0, -1])
        elif bad == "groups":
            n = [r.choice([0, -1])]
        elif bad == "groupdiv":
            if r.random() < 0.5:
                n, d1[1], d2[1] = [2], 3, r.choice([1, 2, 3])
                d2[0] = 2
            else:
                n, d1[1], d2[1], d2[0] = [2], 4, 2, 3
        elif bad == "channels":
            d2[1] = cg + 1
        elif bad == "rank":
            if r.random() < 0.5:
                d2.append(1)
            else:
                d2 = d2[:-1]
        elif bad == "type":
            dt2 = r.choice([x for x in ALL if x != dt])
        elif bad == "intinput":
            dt = dt2 = r.choice(INTS + [9])
        elif bad == "big":
            d2[2 + i] = sp[i] + 2 * p[i] + 1
        elif bad == "lowrank":
            d1, d2 = ([2, 2], [2, 2]) if r.random() < 0.6 else ([3], [3])
        v = lambda t, q: g.auto(t, q, mag=4, di=di()) if g.kind != "w" or t < 8 else g.tensor(
            t, q, [wide_float(r, t, lim=40 if t == 8 else 300) for _ in range(prod(q))], di=di())
        a = v(dt, d1)
        b = v(dt2, d2)
        return dict(op=op, t=[a, b], a=s, b=p, c=d, n=n)
    return f


def sc_pooling(g, bad, dt=None, maxn=90, mode=None):
    r = g.r
    dt = dt_for(g) if dt is None else dt
    dv, di = dev(g)
    while True:
        ns = r.choice([1, 2, 2, 3])
        sp = [r.choice([1, 2, 3, 4, 5, 6]) for _ in range(ns)]
        if r.random() < 0.05:
            sp[0] = r.choice([33, 64])
        w = [window(r, e) for e in sp]
        d1 = [r.choice([1, 2, 3]), r.choice([1, 2, 3])] + sp
        if prod(d1) <= maxn:
            break
    k, s, p, d = ([x[i] for x in w] for i in (0, 1, 2, 3))
    m = mode or r.choice(["max", "avg"])
    i = r.randrange(ns)
    if bad == "mode":
        m = r.choice(["min", "MAX", "maxx", "ma", "average", "av", "", "a", "m", "Avg", "sum"])
        m = m or "x"
    elif bad == "ksize":
        k[i] = r.choice([0, -1])
    elif bad == "stride":
        s[i] = r.choice([0, -1])
    elif bad == "padding":
        p[i] = -1
    elif bad == "dilation":
        d[i] = r.choice([0, -1])
    elif bad == "big":
        k[i] = sp[i] + 2 * p[i] + 1
    elif bad == "rank":
        d1 = r.choice([[2, 3], [4], [], [1, 1, 1, 2, 1, 2], [1, 1, 2, 1, 1, 1, 2]])
        k, s, p, d = ([1] * 5, [1] * 5, [0] * 5, [1] * 5)
    n = prod(d1)
    if g.kind == "w":
        sgn = r.randrange(3)
        if dt >= 8:
            x = [wide_float(r, dt, lim=60 if m == "avg" else None, finite=not (m == "max" and r.random() < 0.3))
                 for _ in range(n)]
        elif m == "avg" and dt in (6, 7):
            x = [r.randint(max(lo(dt), -2 ** 44), 2 ** 44) for _ in range(n)]
        else:
            x = [wide_int(r, dt) for _ in range(n)]
        if sgn == 0:
            x = [-abs(v) if dt >= 8 or (dt in SIGNED) else v for v in x]
        t = g.tensor(dt, d1, x, dv=dv, di=di)
    elif g.kind == "s":
        x = small_vals(r, dt, n, 100)
        if r.randrange(3) == 0 and (dt in SIGNED or dt >= 8):
            x = [-abs(v) - 1 for v in x]
        t = g.tensor(dt, d1, x, dv=dv, di=di)
    else:
        t = g.auto(dt, d1, dv=dv, di=di)
    return dict(op="pooling", t=[t], m=m, a=k, b=s, c=p, d=d)


def sc_batch_norm(g, bad, dt=None, maxn=60):
    r = g.r
    if dt is None:
        dt = r.choice(INTS) if g.kind == "s" else r.choice(FLOATS) if g.kind == "w" else dt_for(g)
    dv, di = 0, 0
    while True:
        nd = r.choice([2, 3, 3, 4, 5])
        dims = [r.choice([1, 2, 3, 4]) for _ in range(nd)]
        if prod(dims) <= maxn:
            break
    ax = r.choice([1, nd - 1])
    eps = r.choice([0.0, 1e-5, 1e-3, 0.5, 1.0]) if dt >= 8 else float(r.choice([0, 0.9, 1, 2]))
    if bad == "rank":
        dims = r.choice([[3], [], [1, 2, 1, 1, 1, 2]])
        ax = r.choice([0, 1])
        nd = len(dims)
    elif bad == "axis":
        c = [x for x in (-1, 0, 2, 3, nd, nd + 1) if x != 1 and x != nd - 1]
        ax = r.choice(c)
    nc = dims[ax] if 0 <= ax < nd else 2
    n = prod(dims)
    if dt >= 8:
        x = [wide_float(r, dt, lim=20) for _ in range(n)]
        sc, bi, me = ([wide_float(r, dt, lim=20) for _ in range(nc)] for _ in range(3))
        va = [abs(wide_float(r, dt, lim=20)) + 2.0 ** -20 for _ in range(nc)]
    else:
        sg = dt in SIGNED
        m = 20
        x = [r.randint(-m if sg else 5, m) for _ in range(n)]
        sc, bi, me = ([r.randint(-4 if sg else 0, 4) for _ in range(nc)] for _ in range(3))
        va = [r.randint(1, 30) for _ in range(nc)]
    if bad == "eps":
        eps = r.choice([-1e-5, -1.0, -0.5, -5e-324])
    elif bad == "math" and nc:
        # the offending channel may be the last one
        if dt >= 8:
            va[r.randrange(nc)] = -1.0
            eps = r.choice([0.0, 0.5])
        else:
            va[r.randrange(nc)] = 0
            eps = r.choice([0.0, 0.5])
    shapes = [[nc] for _ in range(4)]
    types = [dt] * 4
    ps = [sc, bi, me, va]
    if bad == "ptype":
        types[r.randrange(4)] = r.choice([y for y in ALL if y != dt])
    elif bad == "pshape":
        i = r.randrange(4)
        k = r.randrange(4)
        if k == 0:
            shapes[i] = [nc + 1]
            ps[i] = ps[i] + [ps[i][0] if ps[i] else 1]
        elif k == 1:
            shapes[i] = [nc, 1]
        elif k == 2:
            shapes[i] = [1, nc]
        elif nc > 1:
            shapes[i] = [nc - 1]
            ps[i] = ps[i][:-1]
        else:
            shapes[i] = []
    t = [g.tensor(dt, dims, x, dv=dv, di=di)]
    for i in range(4):
        v = ps[i]
        if types[i] != dt:
            v = [1] * len(v)
        t.append(g.tensor(types[i], shapes[i], v))
    return dict(op="batch_norm", t=t, n=[ax], xd=eps)


# ---------------------------------------------------------------- element-wise

def sc_relu(g, bad, dt=None, dims=None, maxn=60):
    r = g.r
    dt = dt_for(g) if dt is None else dt
    dv, di = dev(g)
    dims = dims if dims is not None else rdims(r, 0, 5, maxn, zero=r.random() < 0.1, long=0.2)
    return dict(op="relu", t=[g.auto(dt, dims, dv=dv, di=di, **({"finite": False} if dt >= 8 and g.kind == "w" else {}))])


def sc_sqrt(g, bad, dt=None, dims=None, maxn=40):
    r = g.r
    dt = (dt_for(g, [0, 2, 4, 6, 8, 9]) if bad else dt_for(g)) if dt is None else dt
    dv, di = dev(g)
    dims = dims if dims is not None else rdims(r, 0, 5, maxn, zero=not bad and r.random() < 0.1, long=0.2)
    n = prod(dims)
    if g.kind == "w":
        if dt >= 8:
            x = [abs(wide_float(r, dt, finite=False)) for _ in range(n)]
            if n and r.random() < 0.3:
                x[r.randrange(n)] = -0.0
        else:
            x = [abs(wide_int(r, dt)) for _ in range(n)]
            x = [min(v, hi(dt), 2 ** 52 - 1) for v in x]
            x = [v if r.random() < 0.6 else min(r.choice([k * k + e for k in (3, 11, 15, 181, 46340, 67108864)
                                                            for e in (-1, 0, 1)]), hi(dt), 2 ** 52 - 1) for v in x]
    else:
        x = [abs(v) for v in small_vals(r, dt, n, 100)]
    if bad == "neg" and n:
        # a negative element anywhere, often the last
        i = n - 1 if r.random() < 0.4 else r.randrange(n)
        x[i] = -1 if dt < 8 else (r.choice([-1.0, -5e-324 if dt == 9 else -1e-45, float("-inf")]) if g.kind == "w" else -1.0)
    return dict(op="sqrt", t=[g.tensor(dt, dims, x, dv=dv, di=di)])


def sig_vals(r, dt, n):
    out = []
    for _ in range(n):
        k = r.randrange(8)
        if k == 0:
            v = wide_float(r, dt, finite=False)
        elif k == 1:
            v = r.choice([87.0, 88.0, 88.8, 89.0, 103.0, 104.0, 709.0, 710.0, 745.0, 746.0, 0.0, -0.0,
                          44.0, 44.5, 354.0, 355.0, 400.0, 1e30]) * r.choice([1, -1])
        elif k == 2:
            v = r.uniform(-800, 800)
        elif k == 3:
            v = r.uniform(-1, 1) * 2.0 ** -r.randint(0, 40)
        else:
            v = r.uniform(-20, 20)
        out.append(v)
    return out


def sc_sigmoid(op):
    def f(g, bad, dt=None, dims=None, maxn=12):
        r = g.r
        dt = (r.choice(INTS) if bad else r.choice(FLOATS)) if dt is None else dt
        dv, di = dev(g)
        dims = dims if dims is not None else rdims(r, 0, 4, maxn, zero=r.random() < 0.1)
        n = prod(dims)
        if dt >= 8 and g.kind == "w":
            t = g.tensor(dt, dims, sig_vals(r, dt, n), dv=dv, di=di)
        else:
            t = g.auto(dt, dims, dv=dv, di=di)
        return dict(op=op, t=[t])
    return f


def sc_softmax(g, bad, dt=None, dims=None, maxn=14):
    r = g.r
    if dt is None:
        dt = r.choice(FLOATS) if g.kind == "w" and r.random() < 0.8 else dt_for(g)
    dv, di = dev(g)
    dims = dims if dims is not None else rdims(r, 0, 4, maxn)
    n = prod(dims)
    nd = len(dims)
    if bad:
        ax = r.choice([-2, -3, nd, nd + 1, nd + 5, INT_MAX, INT_MIN])
    else:
        ax = r.choice([-1] + list(range(nd)))
    if g.kind == "w":
        if dt >= 8:
            k = r.randrange(6)
            big = {0: 100.0, 1: 1000.0, 2: 1e30, 3: 0.01, 4: 5.0, 5: 20.0}[k]
            off = r.choice([0.0, 0.0, big, -big])
            x = [off + r.uniform(-big, big) if r.random() < 0.9 else off for _ in range(n)]
            if k == 2 and r.random() < 0.5:
                x = [wide_float(r, dt) for _ in range(n)]
        else:
            x = [wide_int(r, dt) for _ in range(n)]
        t = g.tensor(dt, dims, x, dv=dv, di=di)
    else:
        t = g.auto(dt, dims, dv=dv, di=di)
    return dict(op="softmax", t=[t], n=[ax])


def sc_dropout(g, bad, dt=None, dims=None, maxn=120):
    r = g.r
    dt = dt_for(g) if dt is None else dt
    dv, di = dev(g)
    dims = dims if dims is not None else rdims(r, 0, 5, maxn, long=0.3)
    rate = r.choice([0.0, 1.0, 0.5, 0.25, 0.9, 0.01, 0.99, r.random(), 5e-324, -0.0])
    if bad:
        rate = r.choice([-0.1, 1.1, -1.0, 2.0, bits64(0x3FF0000000000001), -5e-324, 1e300, float("inf"),
                         float("-inf")])
    return dict(op="dropout", t=[g.auto(dt, dims, dv=dv, di=di)], xd=rate)


SC = {"create": sc_create, "full": sc_full, "slice": sc_slice, "duplicate": sc_duplicate,
      "reshape": sc_reshape, "squeeze": sc_squeeze, "cast": sc_cast, "add": sc_binary("add"),
      "sub": sc_binary("sub"), "mul": sc_binary("mul"), "div": sc_binary("div"), "matmul": sc_matmul,
      "dot": sc_dot, "conv": sc_conv("conv"), "conv2d": sc_conv("conv2d"), "conv3d": sc_conv("conv3d"),
      "pooling": sc_pooling, "batch_norm": sc_batch_norm, "relu": sc_relu, "sqrt": sc_sqrt,
      "sigmoid": sc_sigmoid("sigmoid"), "tanh": sc_sigmoid("tanh"), "softmax": sc_softmax,
      "dropout": sc_dropout}

BIN = ["device", "type", "dims"]
CONV = ["stride", "padding", "dilation", "groups", "groupdiv", "channels", "rank", "type", "intinput",
        "big", "lowrank"]
BAD = {"create": ["len"], "full": [], "slice": ["begin_neg", "begin_big", "size_neg", "size_big",
                                                "overflow", "step"],
       "duplicate": [], "reshape": ["size"], "squeeze": ["num_neg", "axis"], "cast": ["code"],
       "add": BIN, "sub": BIN, "mul": BIN, "div": BIN + ["zero"],
       "matmul": ["device", "type", "contract", "rank0", "batch"],
       "dot": ["device", "type", "contract", "ranks"],
       "conv": CONV, "conv2d": CONV + ["rank2d"], "conv3d": CONV + ["rank2d"],
       "pooling": ["mode", "ksize", "stride", "padding", "dilation", "big", "rank"],
       "batch_norm": ["rank", "axis", "eps", "math", "ptype", "pshape"],
       "relu": [], "sqrt": ["neg"], "sigmoid": ["type"], "tanh": ["type"], "softmax": ["axis"],
       "dropout": ["rate"]}

# operations whose elements are only compared for the wide kind
WIDE_ONLY = {"sigmoid", "tanh"}


def scenario(g, op, bad=None, **kw):
    return SC[op](g, bad, **kw)
