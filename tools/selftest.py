#!/usr/bin/env python3
"""Does the binding bite?  Records executions of the real library, changes one recorded observation in each
segment, and counts what TLC still accepts.   tools/selftest.py [PROP ...]"""
import collections
import json
import os
import random
import shutil
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import engine
import plans

SKIP = {"seg", "alloc", "fill", "srand", "rand", "crash", "scribble"}


def changes(e):
    """field -> the event with that field changed"""
    out = {}

    def put(name, **kw):
        out[name] = dict(e, **kw)
    tensor_op = "oh" in e and e["op"] in TENSOR
    if tensor_op:
        if not e.get("fired"):
            put("status", st=8 if e["st"] != 8 else 6)
            if e["st"]:
                put("success", st=0)
        put("handle", oh=1 - e["oh"])
    if "mem" in e:
        put("leak", mem=e["mem"] + [[1, 999999]])
        put("double free", mem=e["mem"] + [[2, 999998]])
        if e["op"] == "destroy" and e["mem"]:
            put("kept", mem=e["mem"][:-1])
        if e["mem"] and e["mem"][0][0] == 1:
            put("raw", mem=[[5, e["mem"][0][1]]] + e["mem"][1:])
        put("frame", chg=[1])
        put("alias", al=[1])
        put("args", ac=1)
        put("guard", gd=1)
    o = e.get("out") or {}
    if e.get("has") == 1 or (e["op"] in ("setitem", "poke") and o):
        for f in ("dt", "dv", "di", "sz", "lay", "ts"):
            put("out." + f, out=dict(o, **{f: o[f] + 1 if f != "dv" else 1 - o[f]}))
        if o["dims"]:
            d = list(o["dims"])
            d[-1] += 1
            put("out.dims", out=dict(o, dims=d))
        put("out.rank", out=dict(o, dims=o["dims"] + [1]))
        if o["data"] and (e["op"] != "create" or e["hasx"]) and e["op"] != "dropout":
            i = R.randrange(len(o["data"]))
            v = o["data"][i]
            if isinstance(v, str):
                v = ("1" if v[0] != "1" else "2") + v[1:]
            elif isinstance(v, list):
                v = v[:-1] + [v[-1] ^ 1]      # the top limb: sign, exponent
            else:
                v = v + 1
            put("out.data", out=dict(o, data=o["data"][:i] + [v] + o["data"][i + 1:]))
            if len(o["data"]) > 1:
                put("out.short", out=dict(o, data=o["data"][:-1]))
    if e.get("ret"):
        i = R.randrange(len(e["ret"]))
        v = e["ret"][i]
        if isinstance(v, int):
            put("ret", ret=e["ret"][:i] + [v + 1] + e["ret"][i + 1:])
    return out


TENSOR = set("create full cast matmul dot batch_norm dropout pooling softmax add sub mul div relu sqrt sigmoid tanh "
             "conv conv2d conv3d slice duplicate squeeze reshape".split())
R = random.Random(7)
tried, missed = collections.Counter(), collections.defaultdict(list)


def one(job):
    prop, name, text, work = job
    d = os.path.join(work, prop + "-" + name)
    os.makedirs(d)
    script, trace = d + "/script", d + "/trace"
    open(script, "w").write(text)
    engine.drive(os.path.join(work, "driver"), script, trace, timeout=600, reuse=name.startswith("reuse"))
    segs, cur = [], None
    for line in open(trace):
        e = json.loads(line)
        if e["op"] == "seg":
            cur = []
            segs.append(cur)
        cur.append(e)
    done = {}
    with open(trace, "w") as f:
        for s in segs:
            cand = [i for i, e in enumerate(s) if e["op"] not in SKIP and not e.get("key")]
            if cand:
                i = R.choice(cand)
                ch = changes(s[i])
                if ch:
                    k = R.choice(sorted(ch))
                    done[s[0]["seg"]] = (s[i]["op"], k, s[i])
                    s[i] = ch[k]
            for e in s:
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
    v = engine.validate(trace, engine.ALL_ASPECTS, d + "/tlc")
    got = {engine.seg_of_line(trace, r[0]) for r in v.rejects}
    for seg, (op, k, e) in done.items():
        tried[k] += 1
        if seg not in got:
            missed[k].append((prop, name, seg, op, e["st"] if "st" in e else None))
    shutil.rmtree(d)


def main():
    props = sys.argv[1:] or ["P%02d" % i for i in range(1, 21) if i != 6]
    with tempfile.TemporaryDirectory() as work:
        engine.build(work, "build.sh")
        jobs = []
        for p in props:
            plan = plans.Plan(p, "quick", 1, work)
            plans.PLANS[p](plan)
            jobs += [(p, n, t, work) for n, t, a, s in plan.shards]
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(one, jobs))
    for k in sorted(tried):
        print("%-12s changed %5d  accepted all the same %d  %s" % (k, tried[k], len(missed[k]), missed[k][:6]))
    print("total %d, accepted %d" % (sum(tried.values()), sum(map(len, missed.values()))))


main()
