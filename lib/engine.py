"""Runs scripts through the driver and traces through TLC."""
import json
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ALL_ASPECTS = ["status", "meta", "data", "handle", "frame", "alias", "args", "ledger", "raw", "fault", "memo"]
DRIVER_ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:"
                  "detect_stack_use_after_return=0:handle_segv=1:max_allocation_size_mb=8192")


# freed memory goes into use again at once: a result must not depend on where its operands lie
REUSE_ENV = dict(DRIVER_ENV, ASAN_OPTIONS=DRIVER_ENV["ASAN_OPTIONS"] +
                 ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0")


class ToolError(Exception):
    pass


def run(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                              errors="replace", **kw)
    except subprocess.TimeoutExpired as e:
        raise ToolError("timeout: %s" % " ".join(cmd[:6])) from e


def tlc(module, cfg, workdir, env=None, timeout=600, heap="2g", extra=(), workers=1):
    """Runs TLC on spec/<module>.tla with the given configuration text."""
    os.makedirs(workdir, exist_ok=True)
    path = os.path.join(workdir, module + ".cfg")
    with open(path, "w") as f:
        f.write(cfg)
    meta = os.path.join(workdir, "meta-" + module)
    tmp = os.path.join(workdir, "tmp-" + module)
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(tmp, exist_ok=True)
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + tmp, "-cp", JARS, "tlc2.TLC",
           "-config", path, "-metadir", meta, "-workers", str(workers), "-lncheck", "final", "-noGenerateSpecTE", *extra,
           os.path.join(SPEC, module + ".tla")]
    p = run(cmd, timeout, cwd=workdir, env=dict(os.environ, **(env or {})))
    shutil.rmtree(meta, ignore_errors=True)
    shutil.rmtree(tmp, ignore_errors=True)
    return p


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def states_of(out):
    m = None
    for m in STATES.finditer(out):
        pass
    return (int(m.group(2)), int(m.group(1))) if m else (0, 0)


def build(outdir, script="build.sh", tries=1):
    p = run(["bash", os.path.join(VERIF, "harness", script), outdir], 300, env=dict(os.environ, REPO=REPO))
    if p.returncode:
        raise ToolError("the harness does not build:\n" + p.stdout[-3000:])


def drive(driver, script, trace, timeout=300, seg_timeout=60, reuse=False):
    p = run([driver, script, trace, str(seg_timeout)], timeout, env=REUSE_ENV if reuse else DRIVER_ENV)
    if p.returncode:
        raise ToolError("driver: exit %d\n%s" % (p.returncode, p.stdout[-2000:]))
    return p.stdout


TRACE_CFG = """SPECIFICATION TSpec
VIEW LineView
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
INVARIANT Consistent
CONSTANT Aspects = {%s}
CONSTANT Scope = "%s"
"""
AUTO_CFG = """SPECIFICATION TSpec
VIEW LineView
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANT Strict = %s
"""
REJECT = re.compile(r'<<"REJECT", (\d+), "(\w+)", \{([^}]*)\}>>')
READ = re.compile(r'<<"READ", (\d+), (\d+)>>')


class Verdict:
    def __init__(self):
        self.rejects = []   # (line, op, set of aspects)
        self.events = 0
        self.states = 0
        self.transitions = 0
        self.out = ""


def validate(trace, aspects, workdir, scope="all", module="Trace", timeout=800, heap="3g"):
    cfg = AUTO_CFG % ("TRUE" if scope == "strict" else "FALSE") if module == "SamplesTrace" else TRACE_CFG % (", ".join('"%s"' % a for a in aspects), scope)
    p = tlc(module, cfg, workdir, env={"TRACE": trace}, timeout=timeout, heap=heap)
    v = Verdict()
    v.out = p.stdout
    for m in REJECT.finditer(p.stdout):
        v.rejects.append((int(m.group(1)), m.group(2),
                          sorted(x.strip().strip('"') for x in m.group(3).split(","))))
    m = READ.search(p.stdout)
    if not m or m.group(1) != m.group(2) or "Error:" in p.stdout or p.returncode:
        raise ToolError("trace not read to its end (%s): %s" % (trace, p.stdout[-2500:]))
    v.events = int(m.group(2))
    v.states, v.transitions = states_of(p.stdout)
    return v


SCHEDULE = re.compile(r'<<"SCHEDULE", <<([0-9, ]+)>>>>')


def schedules(work, phases=4):
    """the interleavings of two calls, from Sched.tla"""
    cfg = ("SPECIFICATION Spec\nCONSTANT Phases = %d\nCONSTANT Shared = FALSE\nCONSTANT Show = TRUE\n"
           "INVARIANT Reentrant\nINVARIANT Printed\nCHECK_DEADLOCK FALSE\n" % phases)
    p = tlc("Sched", cfg, work)
    out = sorted({tuple(int(x) for x in m.group(1).split(",")) for m in SCHEDULE.finditer(p.stdout)})
    if "No error" not in p.stdout or not out:
        raise ToolError("Sched: " + p.stdout[-2000:])
    return out


def segments(text):
    """script text -> {segment number: its lines}"""
    out, cur = {}, None
    for line in text.splitlines():
        if line.startswith("seg "):
            cur = int(line.split()[1])
            out[cur] = []
        if cur is not None:
            out[cur].append(line)
    return out


def event_at(trace, line):
    with open(trace) as f:
        for i, l in enumerate(f, 1):
            if i == line:
                return json.loads(l)
    return {}


def seg_of_line(trace, line):
    seg = None
    with open(trace) as f:
        for i, l in enumerate(f, 1):
            if l.startswith('{"op":"seg"'):
                seg = json.loads(l)["seg"]
            if i == line:
                return seg
    return seg
