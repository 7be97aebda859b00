"""Histories of calls drawn from spec/Gen.tla by TLC's simulator, as scripts."""
import json
import os

import engine
from script import SIZE, enc

EVERY = ["create", "full", "slice", "duplicate", "reshape", "squeeze", "cast", "add", "sub", "mul", "div", "matmul",
         "dot", "conv", "conv2d", "conv3d", "pooling", "batch_norm", "relu", "sqrt", "sigmoid", "tanh", "softmax",
         "dropout", "setitem", "poke", "inspect", "resolve", "destroy"]
CFG = """SPECIFICATION GSpec
CONSTANT Depth = %d
CONSTANT Slots = %d
CONSTANT MaxSize = %d
CONSTANT Ranks = {%s}
CONSTANT Ops0 = {%s}
INVARIANT Printed
CHECK_DEADLOCK FALSE
"""


def draw(work, num, depth, seed, ops=EVERY, slots=12, size=150, ranks=range(6)):
    """num behaviours of depth calls: lists of calls"""
    cfg = CFG % (depth, slots, size, ", ".join(map(str, ranks)), ", ".join('"%s"' % o for o in ops))
    p = engine.tlc("Gen", cfg, work, timeout=600,
                   extra=["-simulate", "num=%d" % num, "-depth", str(depth + 2), "-seed", str(seed)])
    out = []
    for line in p.stdout.splitlines():
        if line.startswith('"HISTORY '):
            out.append(json.loads(json.loads(line)[len("HISTORY "):]))
    if len(out) != num:
        raise engine.ToolError("Gen: %d histories of %d\n%s" % (len(out), num, p.stdout[-2000:]))
    return out


def prod(d):
    p = 1
    for x in d:
        p *= x
    return p


def some_bytes(r, dt, n):
    """any bits; or nonnegative small values, on which every operation succeeds"""
    if r.random() < 0.5:
        return r.randbytes(n * SIZE[dt])
    return enc(dt, [r.randint(1, 9) for _ in range(n)])


def as_call(c, r, values=None):
    """one command of Gen.tla as a call of script.Gen; the elements are drawn here"""
    op = c["op"]
    d = dict(op=op)
    if c["o"] >= 0:
        d.update(o=c["o"], h=c["h"] or None)
        if c["h"] == 2:
            d["p"] = c["p"]
    for k in ("t", "dims", "a", "b", "c", "d", "n"):
        if c[k]:
            d[k] = c[k]
    if op in ("create", "full", "cast", "setitem", "poke") and c["dt"]:
        d["dt"] = c["dt"]
    if c["dv"]:
        d["dv"] = c["dv"]
    if c["m"]:
        d["m"] = c["m"]
    if c["rate"] != "":
        d["xd"] = float(c["rate"])
    values = values or (lambda dt, n: some_bytes(r, dt, n))
    if op == "poke":
        d["x"] = values(c["dt"], c["len"] // SIZE[c["dt"]])
    elif op == "create" and c["hasx"]:
        s = SIZE[c["dt"]]
        d["len"] = c["len"]
        d["x"] = values(c["dt"], c["len"] // s)
    elif op == "setitem":
        d["x"] = values(c["dt"], 1)
    return d


def concrete(history, r):
    """its calls, with elements"""
    return [dict(as_call(c, r), fails=c["fails"]) for c in history]


def emit(g, calls, kind="h", custom=False, key=None, without_failing=False, each=None):
    """appends the calls to the script g as a segment

    key: prefix of memo keys; without_failing: leaves out those that the
    specification rejects; each(i, call): more fields for a call, or None"""
    g.seg(kind)
    g.slot = 24
    if custom:
        g.raw(op="alloc", n=[1])
    for i, c in enumerate(calls):
        if c["fails"] and without_failing:
            continue
        d = {k: v for k, v in c.items() if k != "fails"}
        if key:
            d["key"] = "%s.%d" % (key, i)
        if each:
            d.update(each(i, c) or {})
        g.raw(**d)
