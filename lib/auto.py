"""auto_test: histories of its objects drawn from spec/SamplesGen.tla, and its generators."""
import json
import random

import engine

ASPECTS = ["reports", "moved", "share", "valid", "freed", "data"]
CFG = """SPECIFICATION Spec
VIEW Pattern
INVARIANT Sharing
INVARIANT Printed
CHECK_DEADLOCK FALSE
CONSTANT Vars = {%s}
CONSTANT Cls = {%s}
CONSTANT Domain = "able"
CONSTANT Depth = %d
"""


def histories(work, nvars, cls, depth=0, num=0, seed=1):
    """one history per transition (depth 0), or num random ones; and the states visited"""
    cfg = CFG % (", ".join(map(str, range(nvars))), ", ".join('"%s"' % c for c in cls), depth)
    if depth:
        cfg = cfg.replace("VIEW Pattern\n", "")
    extra = ["-simulate", "num=%d" % num, "-depth", str(depth + 2), "-seed", str(seed)] if depth else []
    p = engine.tlc("SamplesGen", cfg, "%s/hist-%s%d-%d" % (work, cls, nvars, depth), timeout=600, extra=extra)
    out = [json.loads(json.loads(x)[len("HISTORY "):]) for x in p.stdout.splitlines() if x.startswith('"HISTORY ')]
    if not out or (depth and len(out) != num) or (not depth and "No error" not in p.stdout):
        raise engine.ToolError("SamplesGen: " + p.stdout[-2000:])
    return out, engine.states_of(p.stdout)


def part(p):
    return "%s:%d:%d:%s" % (",".join(map(str, p["dims"])) or "e", p["dt"], p["dv"],
                            bytes(p["data"]).hex() or "n")


def line(c):
    f = ["op=" + c["op"]]
    for k in ("o", "p"):
        if c[k] >= 0:
            f.append("%s=%d" % (k, c[k]))
    if c["cls"] != "-":
        f.append("cls=" + c["cls"])
    for k in ("vec", "dev", "i"):
        if c[k]:
            f.append("%s=%d" % (k, c[k]))
    if c["parts"]:
        f.append("parts=" + ";".join(part(p) for p in c["parts"]))
    return " ".join(f)


def alive(history):
    s = set()
    for c in history:
        if c["op"] in ("new", "make", "copy", "move", "wrap"):
            s.add(c["o"])
        elif c["op"] == "destroy":
            s.discard(c["o"])
    return s


def text(hs, r, first=0):
    out = []
    for n, h in enumerate(hs, first):
        out.append("seg %d" % n)
        out += [line(c) for c in h]
        rest = sorted(alive(h))
        r.shuffle(rest)
        out += ["op=destroy o=%d" % o for o in rest]
    return "\n".join(out) + "\n"


def shards(plan, name, hs, size):
    r = random.Random("%s/%s" % (name, plan.seed))
    for i in range(0, len(hs), size):
        plan.shards.append(("%s.%d" % (name, i // size), text(hs[i:i + size], r, i), ASPECTS, "all"))


def p21(plan):
    quick = plan.tier == "quick"
    every = [(3, "U"), (3, "B"), (3, "R"), (2, "UX"), (2, "BY")] if quick else \
        [(4, "U"), (3, "B"), (4, "R"), (3, "RX"), (2, "UX"), (2, "BY")]
    for nvars, cls in every:
        hs, (d, g) = histories(plan.work, nvars, cls)
        if quick and cls[0] == "B":       # the same patterns as U: a part of them, other ones for another seed
            random.Random("b/%s" % plan.seed).shuffle(hs)
            hs = hs[:2500]
        plan.models.append((d, g, "sharing patterns of %d variables of %s" % (nvars, cls)))
        shards(plan, "every-%s%d" % (cls, nvars), hs, 900 if quick else 3000)
    for cls, nvars in (("UX", 4), ("BY", 4), ("RX", 4), ("UBRXY", 8), ("RXY", 6)):
        hs, _ = histories(plan.work, nvars, cls, 30, plan.k(40), plan.seed)
        shards(plan, "long-%s" % cls, hs, 100)
    text_ = "".join("seg %d\n%s" % (i, h) for i, h in enumerate(FINDINGS.split("@\n")))
    plan.shards.append(("finding", text_, ASPECTS, "strict"))


# what the library is known not to do: one history each, known-findings.txt has what becomes of it
FINDINGS = """op=make o=0 cls=U parts=2,3:8:0:0102
op=assign o=0 p=0
@
op=make o=0 cls=B parts=2,3:8:0:0102;4:1:0:03
op=assign o=0 p=0
@
op=make o=0 cls=U parts=2,3:8:0:0102
op=move o=1 p=0 cls=U
op=make o=2 cls=U parts=4:8:0:0102
op=assign o=0 p=2
@
op=make o=0 cls=U parts=2,3:8:0:0102
op=move o=1 p=0 cls=U
op=make o=2 cls=U parts=4:8:0:0102
op=assign o=2 p=0
@
op=make o=0 cls=U parts=2,3:8:0:0102
op=move o=1 p=0 cls=U
op=copy o=2 p=0 cls=U
@
op=new o=0 cls=R
op=move o=1 p=0 cls=R
op=copy o=2 p=0 cls=R
@
op=make o=0 cls=U parts=2,3:8:0:0102
op=make o=1 cls=U parts=4:8:0:0102
op=assign o=0 p=1
op=destroy o=0
op=destroy o=1
@
op=new o=0 cls=R
op=destroy o=0
@
op=new o=0 cls=R
op=new o=1 cls=R
op=assign o=0 p=1
@
op=new o=0 cls=R
op=setres o=0 parts=2:8:0:0102
op=setres o=0 parts=3:8:0:0304
@
op=new o=0 cls=R
op=copy o=1 p=0 cls=R
op=setres o=0 parts=2:8:0:0102
op=setres o=1 parts=3:8:0:0304
op=destroy o=0
op=destroy o=1
@
op=make o=0 cls=U parts=2,3:8:0:0102
op=wrap o=1 p=0 cls=X
op=move o=2 p=1 cls=X
"""


def p22(plan):
    r = random.Random("p22/%s" % plan.seed)
    for part_ in range(plan.k(5, 20)):
        out, seg = [], 0
        for dt in range(10):
            size = (1, 1, 2, 2, 4, 4, 8, 8, 4, 8)[dt]
            for op in ("natural", "random"):
                out.append("seg %d" % seg)
                out.append("op=tables")
                seg += 1
                lens = list(range(0, 3 * size + 2)) if part_ == 0 else []
                lens += [r.randint(0, 260 * size) for _ in range(3)] + [size * r.randint(200, 8000 // size)]
                if part_ == 1:
                    lens += [8000, 8001, 7999, 4096, 256 * size, 257 * size - 1]
                out += ["op=%s dt=%d len=%d" % (op, dt, n) for n in lens]
        plan.shards.append(("fill.%d" % part_, "\n".join(out) + "\n", ASPECTS, "all"))
