"""Shapes and storages on their own (spec/Parts.tla): histories drawn from spec/PartsGen.tla, and longer ones."""
import json
import random

import engine
from script import ALL, SIZE, rdims

ASPECTS = ["status", "data", "handle", "frame", "args", "ledger", "raw", "fault"]
CFG = """SPECIFICATION Spec
VIEW State
CHECK_DEADLOCK FALSE
CONSTANT NShapes = %d
CONSTANT NStores = %d
CONSTANT MaxNdim = %d
"""


def every(work, shapes, stores, ndim):
    """one history per transition, and the states visited"""
    p = engine.tlc("PartsGen", CFG % (shapes, stores, ndim), "%s/parts-%d-%d" % (work, shapes, stores), timeout=600,
                   heap="4g")
    out = [json.loads(json.loads(x)[len("HISTORY "):]) for x in p.stdout.splitlines() if x.startswith('"HISTORY ')]
    if not out or "No error" not in p.stdout:
        raise engine.ToolError("PartsGen: " + p.stdout[-2000:])
    return out, engine.states_of(p.stdout)


def emit(g, c, r):
    kw = dict(op=c["op"], p=c["p"] - 1 if c["p"] else -1)
    if c["op"] in ("shape", "storage"):
        kw.update(fk=c["fk"] or None, fm=c["fm"] or None)
    if c["op"] == "shape":
        kw.update(dims=c["dims"], n=c["n"])
    elif c["op"] == "storage":
        kw.update(dt=c["dt"], dv=c["dv"], di=c["di"], n=c["n"])
        if c["given"]:
            kw.update(x=r.randbytes(max(1, c["n"][0]) * SIZE[c["dt"]]))
    elif c["op"] == "unstorage":
        kw.update(n=c["n"])
    if kw["p"] < 0 and c["op"] not in ("unshape", "unstorage"):
        return
    g.raw(**kw)


def shape(g, k, dims=None, lay=0, **kw):
    if dims is None:
        dims = rdims(g.r, 0, 8, 10 ** 9, True)
    g.raw(op="shape", p=k, dims=dims, n=[lay], **kw)


def storage(g, k, **kw):
    r = g.r
    dt, n = r.choice(ALL), r.choice([0, 1, 2, 3, 7, 64, 1000])
    x = r.randbytes(max(1, n) * SIZE[dt]) if r.random() < 0.5 and n <= 64 else None
    g.raw(op="storage", p=k, dt=dt, dv=r.choice([0, 1]), di=r.choice([0, 1, -1, 7, 2147483647]), n=[n], x=x, **kw)


def p23(plan):
    quick = plan.tier == "quick"
    for ns, nt, nd in ((2, 1, 2), (1, 2, 1)) if quick else ((2, 1, 3), (1, 2, 2), (2, 2, 1), (3, 1, 1)):
        hs, (d, gen) = every(plan.work, ns, nt, nd)
        plan.models.append((d, gen, "what %d shapes and %d storages hold" % (ns, nt)))
        r = random.Random("parts/%s" % plan.seed)
        r.shuffle(hs)
        if quick:
            hs = hs[:8000]
        size = 2000 if quick else 4000
        for i in range(0, len(hs), size):
            g = plan.gen("every%d%d.%d" % (ns, nt, i))
            for h in hs[i:i + size]:
                g.seg("h")
                if h["custom"]:
                    g.raw(op="alloc", n=[1])
                for c in h["cmds"]:
                    emit(g, c, r)
            plan.add("every%d%d.%d" % (ns, nt, i // size), g, ASPECTS)
    # long histories, among them the calls on tensors
    for part in range(plan.k(2, 8)):
        g = plan.gen("long%d" % part)
        r = g.r
        for _ in range(plan.k(40, 60)):
            g.seg("h")
            if r.random() < 0.5:
                g.raw(op="alloc", n=[1])
            live = []
            for _ in range(40):
                k, x = r.randrange(6), r.random()
                fault = dict(fk=r.choice(["*", "*", 1, 2, 3]), fm=r.choice([0, 1])) if r.random() < 0.3 else {}
                if x < 0.3:
                    shape(g, k, lay=r.choice([0, 0, 0, 0, 0, 1, 1, 2, -1]), **fault)
                elif x < 0.5:
                    storage(g, k, **fault)
                elif x < 0.65:
                    g.raw(op="unshape", p=r.choice([k, k, k, -1]))
                elif x < 0.75:
                    g.raw(op="unstorage", p=r.choice([k, k, k, -1]), n=[r.choice([0, 0, 1])])
                elif x < 0.85:
                    g.raw(op="lookshape", p=k)
                    g.raw(op="lookstorage", p=k)
                elif x < 0.95 and g.free_slots() > 3:
                    live.append(g.call(dict(op="duplicate", t=[g.auto(r.choice(ALL), rdims(r, 0, 3, 30))])))
                elif live:
                    g.call(dict(op="destroy", t=[live.pop()]))
        plan.add("long%d" % part, g, ASPECTS)
    # shapes and storages in the place of earlier ones
    g = plan.gen("reuse")
    r = g.r
    for how in range(plan.k(30)):
        g.seg("h")
        if r.random() < 0.5:
            g.raw(op="alloc", n=[1])
        nd, dt, n = r.randint(0, 4), r.choice(ALL), r.choice([0, 1, 2, 5])
        for _ in range(10):
            for k in range(r.randint(1, 3)):
                if how % 3 != 1:
                    shape(g, k, [r.choice([1, 2, 3]) for _ in range(nd if r.random() < 0.7 else r.randint(0, 4))])
                if how % 3 != 0:
                    m = n if r.random() < 0.7 else r.choice([0, 1, 2, 5])
                    g.raw(op="storage", p=k, dt=dt, dv=r.choice([0, 1]), di=r.choice([0, 1]), n=[m],
                          x=r.randbytes(max(1, m) * SIZE[dt]) if r.random() < 0.4 else None)
            for k in r.sample(range(3), 3):
                g.raw(op="unshape", p=k)
                g.raw(op="unstorage", p=k, n=[r.choice([0, 0, 0, 1])])
    plan.add("reuse", g, ASPECTS)
    # every number of dims, extents of every magnitude, every layout type there is
    g = plan.gen("dims")
    r = g.r
    for nd in list(range(0, 31)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 300]:
        for lay in (0, 1, r.choice([2, 7, -1, 255, 256, 2147483647])):
            g.seg("h")
            for k in range(3):
                shape(g, k, [r.choice([0, 1, 2, 127, 128, 255, 256, 65536, 2 ** 31 - 2, r.randrange(2 ** 31 - 2),
                                    2 ** 31, 2 ** 32, 2 ** 32 + 5, 2 ** 40 + 3, 2 ** 62, -1, -2 ** 31 - 7, -2 ** 63])
                             for _ in range(nd)], lay, fk="*" if k == 2 else None)
            for k in range(3):
                g.raw(op="lookshape", p=k)
            for k in r.sample(range(3), 3):
                for _ in range(r.choice([1, 2, 3])):
                    g.raw(op="unshape", p=k)
    for dt in ALL:
        for dv in (0, 1):
            g.seg("h")
            for n in (0, 1, 2, 5, 255, 256, 257, 65537):
                for given in (0, 1):
                    if given and n > 300:
                        continue
                    g.raw(op="storage", p=0, dt=dt, dv=dv, di=r.choice([0, 1, -1, 300]), n=[n],
                          x=r.randbytes(max(1, n) * SIZE[dt]) if given else None)
                    g.raw(op="lookstorage", p=0)
                    g.raw(op="unstorage", p=0, n=[r.choice([0, 0, 1])])
                    if r.random() < 0.5:
                        g.raw(op="unstorage", p=0, n=[0])
            # byte counts and numbers of elements past 31 and 32 bits
            g.seg("h")
            if r.random() < 0.5:
                g.raw(op="alloc", n=[1])
            for n in (2 ** 28 + 1, 2 ** 29 + 3, 2 ** 30 + 1, 2 ** 31 - 1, 2 ** 31 + 9, 2 ** 32 + 5, 2 ** 33):
                for given in (0, 1):
                    g.raw(op="storage", p=0, dt=dt, dv=dv, di=1, n=[n], x=r.randbytes(8) if given else None)
                    g.raw(op="lookstorage", p=0)
                    g.raw(op="unstorage", p=0, n=[r.choice([0, 0, 1])])
    plan.add("dims", g, ASPECTS)
