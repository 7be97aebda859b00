"""One check: build, drive, validate, confirm, report."""
import json
import os
import shutil
import time
from concurrent.futures import ThreadPoolExecutor

import engine
import huge
import models
import plans
from engine import VERIF, ToolError

FINDINGS = os.path.join(VERIF, "known-findings.txt")


def known(prop):
    """lines "finding: property=<id> match=<text> | <what fails>" """
    out = []
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as f:
            for line in f:
                if line.startswith("finding:") and "property=%s " % prop in line:
                    m = line.split("match=", 1)[1].split("|", 1)
                    out.append((m[0].strip(), m[1].strip()))
    return out


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(VERIF, "build", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.violations = []   # (description, replay path)
        self.findings = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": 0,
                    "evaluations": 0}
        self.parts = []
        self.models = []
        auto = prop in plans.AUTO
        self.driver_name, self.script, self.module = \
            ("auto_driver", "build_auto.sh", "SamplesTrace") if auto else ("driver", "build.sh", "Trace")

    def path(self, *p):
        return os.path.join(self.work, *p)

    def replay_path(self, name):
        d = os.path.join(VERIF, "build", "replay")
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, name)

    def violation(self, what, replay):
        for match, desc in known(self.prop):
            if match in what:
                self.findings.append(desc)
                return
        self.violations.append((what, replay))

    # -- traces -------------------------------------------------------------

    def run_shard(self, shard):
        i, (name, text, aspects, scope) = shard
        d = self.path("s%02d-%s" % (i, name))
        os.makedirs(d)
        script, trace = os.path.join(d, "script"), os.path.join(d, "trace")
        with open(script, "w") as f:
            f.write(text)
        if name.startswith("huge"):
            engine.drive(self.huge(), script, trace, timeout=800 if self.tier == "quick" else 7200, seg_timeout=150)
        else:
            engine.drive(self.driver, script, trace, timeout=600, reuse=name.startswith("reuse"))
        v = engine.validate(trace, aspects, os.path.join(d, "tlc"), scope=scope, module=self.module)
        found = []
        for line, op, asp in v.rejects:
            found.append((engine.seg_of_line(trace, line), line, op, asp))
        return name, text, aspects, scope, d, trace, v, found

    def huge(self):
        """the harness for huge tensors"""
        if not os.path.exists(self.path("huge")):
            engine.build(self.work, "build_huge.sh")
        return self.path("huge")

    def traces(self, shards, workers=7):
        self.driver = self.path(self.driver_name)
        if not os.path.exists(self.driver):
            engine.build(self.work, self.script)
        if any(s[0].startswith("huge") for s in shards):
            self.huge()
        shards = sorted(enumerate(shards), key=lambda s: (not s[1][0].startswith("huge"), -len(s[1][1])))
        with ThreadPoolExecutor(workers) as ex:
            results = list(ex.map(self.run_shard, shards))
        for name, text, aspects, scope, d, trace, v, found in sorted(results, key=lambda r: r[4]):
            nseg = text.count("\nseg ") + text.startswith("seg ")
            self.cov["states"] += v.states
            self.cov["transitions"] += v.transitions
            self.cov["traces_validated_against_impl"] += nseg
            self.cov["samples"] += v.events
            self.parts.append("%s: %d traces, %d events" % (name, nseg, v.events))
            done = set()
            for seg, line, op, asp in found:
                if seg in done or len(done) >= (3 if name != "finding" else 99) or len(self.violations) >= 12:
                    continue
                if self.violations and time.time() - self.t0 > 300:
                    continue
                done.add(seg)
                self.confirm(name, text, aspects, scope, trace, seg, line, op, asp)
            if not found:
                shutil.rmtree(d, ignore_errors=True)

    def confirm(self, name, text, aspects, scope, trace, seg, line, op, asp):
        """replays the segment alone; keeps it as the counterexample"""
        ev = engine.event_at(trace, line)
        lines = engine.segments(text)[seg]
        base = self.replay_path("%s-%s-%d" % (self.prop, name, seg))
        alone = False
        with open(base + ".script", "w") as f:
            f.write("\n".join(lines) + "\n")
        if name.startswith("huge"):
            engine.drive(self.huge(), base + ".script", base + ".trace", timeout=300, seg_timeout=150)
        else:
            engine.drive(self.driver, base + ".script", base + ".trace", timeout=120, seg_timeout=20,
                         reuse=name.startswith("reuse"))
        v = engine.validate(base + ".trace", aspects, self.path("confirm"), scope=scope, module=self.module)
        alone = bool(v.rejects)
        if not alone:       # it takes the calls before it, too
            shutil.copy(os.path.join(os.path.dirname(trace), "script"), base + ".script")
            shutil.copy(trace, base + ".trace")
        with open(base + ".txt", "w") as f:
            f.write("property %s: segment %s, event %d, op %s violates %s\nreproduced by the segment alone: %s\n"
                    "replay: %s/tools/replay.sh %s.script\n\n%s\n" %
                    (self.prop, seg, line, op, ",".join(asp), alone, VERIF, base, json.dumps(ev)))
        self.violation("%s violates %s (shard %s, segment %s)" % (op, ",".join(asp), name, seg), base + ".txt")

    # -- models -------------------------------------------------------------

    def model(self, module, cfg, name, expect="holds", timeout=800, workers=2, heap="3g"):
        """an exhaustive model-checking run of the specification itself"""
        p = engine.tlc(module, cfg, self.path("mc-" + name), timeout=timeout, workers=workers, heap=heap)
        ok = "No error has been found" in p.stdout if expect == "holds" else "is violated" in p.stdout
        if not ok:
            raise ToolError("model %s, which should be %s: %s" % (name, expect, p.stdout[-3000:]))
        return name, expect, engine.states_of(p.stdout)

    def run_models(self, tier):
        if os.environ.get("VERIF_NOMODELS"):     # they do not depend on the code: tools/mutate.py leaves them out
            return
        quick, more = models.MODELS.get(self.prop, ([], []))
        with ThreadPoolExecutor(3) as ex:
            for name, expect, (distinct, gen) in ex.map(lambda m: self.model(*m),
                                                        quick + (more if tier == "thorough" else [])):
                self.cov["states"] += distinct
                self.cov["transitions"] += gen
                self.models.append("%s %s: %d distinct states" % (name, expect, distinct))

    # -- the end ------------------------------------------------------------

    def finish(self):
        wall = time.time() - self.t0
        cov = dict(self.cov)
        if not cov["evaluations"]:
            cov["evaluations"] = cov["samples"]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "wall_s": round(wall, 1), "violations": len(self.violations),
              "assumptions": ["traces: " + "; ".join(self.parts), "models: " + "; ".join(self.models),
                              "known findings met: %d" % len(self.findings)]}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for d in sorted(set(self.findings)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, d))
        for what, replay in self.violations:
            print("  " + what)
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
        print("%s %s: %d states, %d traces, %d events, %.0f s, %s" %
              (self.prop, self.tier, cov["states"], cov["traces_validated_against_impl"], cov["samples"], wall,
               "VIOLATED" if self.violations else "held"))
        if not self.violations:
            shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0


def check(prop, tier, seed):
    c = Check(prop, tier, seed)
    if prop in plans.PLANS:
        p = plans.Plan(prop, tier, seed, c.work)
        plans.PLANS[prop](p)
        huge.add(p)
        for distinct, gen, what in p.models:
            c.cov["states"] += distinct
            c.cov["transitions"] += gen
            c.models.append("%s: %d distinct states" % (what, distinct))
        c.traces(p.shards)
    c.run_models(tier)
    return c.finish()
