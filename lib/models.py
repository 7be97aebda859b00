"""Exhaustive model-checking runs of the specification itself, by property.

They do not depend on the code: they show that the specification which judges it means what the properties say,
that the design it describes keeps them, and that designs with a flaw do not (expect "violated")."""


def cfg(spec, invariants=(), constants=None, view=None, properties=(), constraint=None, post=None):
    out = ["SPECIFICATION " + spec, "CHECK_DEADLOCK FALSE"]
    out += ["INVARIANT " + i for i in invariants] + ["PROPERTY " + p for p in properties]
    if view:
        out.append("VIEW " + view)
    if constraint:
        out.append("CONSTRAINT " + constraint)
    if post:
        out.append("POSTCONDITION " + post)
    out += ["CONSTANT %s = %s" % kv for kv in (constants or {}).items()]
    return "\n".join(out) + "\n"


def tset(xs):
    return "{%s}" % ", ".join('"%s"' % x if isinstance(x, str) else str(x) for x in xs)


def quotients(n, v):
    return ("MCQuot", cfg("Spec", ["Runs", "Sums", "SumsNeedZeros", "Slices", "Windows"], {"MaxLen": n, "MaxVal": v}),
            "quotients-%d-%d" % (n, v), "holds")


def samples(n, cls, *flaws, domain="all", inv="Counts"):
    expect = "violated" if flaws and domain == "all" else "holds"
    return ("MCSamples", cfg("MSpec", [inv], {"Vars": tset(range(n)), "Cls": tset(cls), "Depth": "0",
                                              "Domain": '"%s"' % domain, "Flaws": tset(flaws)},
                             view="BView" if inv == "Buffers" else "MView"),
            "counting-%s%d-%s-%s" % (cls, n, "+".join(flaws) or "sound", domain), expect)


FLAWS = ("assign", "leak", "setres", "copy")


def view(rank, ext, stride, depth):
    return ("MCView", cfg("Spec", ["Whole", "InBounds", "InOrder", "SliceIsSelection", "SliceOfSlice", "SqueezeKeeps"],
                          {"MaxRank": rank, "MaxExt": ext, "MaxStride": stride, "Depth": depth}),
            "views-%d-%d-%d-%d" % (rank, ext, stride, depth), "holds")


def index(what, inv, rank, ext):
    return ("MCIndex", cfg("Spec", [inv], {"What": '"%s"' % what, "MaxRank": rank, "MaxExt": ext}),
            "%s-%d-%d" % (what, rank, ext), "holds")


NUM = {"small": "Small", "wide": "Wide", "wrap": "WrapOk", "round": "RoundOk", "exp": "ExpOk"}


def num(what, rich=False):
    return ("MCNum", cfg("Spec", [NUM[what]], {"What": '"%s"' % what, "Rich": "TRUE" if rich else "FALSE"}),
            "numbers-%s%s" % (what, "-rich" if rich else ""), "holds")


def heap(flaw="none", steps=4, scratch=1, calls=4, slots=2):
    return ("MCHeap", cfg("Spec", ["Balanced", "Sound"], {"Slots": tset(range(1, slots + 1)), "Steps": steps,
                                                          "Scratch": scratch, "Calls": calls, "Flaw": '"%s"' % flaw}),
            "heap-%s-%d-%d" % (flaw, steps, calls), "holds" if flaw == "none" else "violated")


def api(family, depth=2, timeout=800):
    return ("MCApi", cfg("Spec", ["Fine", "HeapConsistent", "TensorsWellFormed"],
                         {"Depth": depth, "Family": '"%s"' % family, "Slots": "{1, 2, 3}", "Aspects": tset(["data"])},
                         view="View", properties=["Untouched"], constraint="Modest"),
            "calls-%s-%d" % (family, depth), "holds", timeout)


def sched(shared, phases):
    return ("Sched", cfg("Spec", ["Reentrant"], {"Phases": phases, "Shared": "TRUE" if shared else "FALSE", "Show": "FALSE"}),
            "threads-%s-%d" % ("shared" if shared else "private", phases), "violated" if shared else "holds")


def parts(flaw="none", calls=4, n=2):
    return ("MCParts", cfg("Spec", ["Fine", "Books"], {"Flaw": '"%s"' % flaw, "Calls": calls, "NParts": n,
                                                       "Aspects": tset(["data"])}),
            "parts-%s-%d-%d" % (flaw, calls, n), "holds" if flaw == "none" else "violated")


PART_FLAWS = ["keepdims", "nonull", "early", "share", "order", "data"]
HEAP_FLAWS = ["forget", "keep", "twice", "input", "half"]
# property -> (quick models, more for the thorough tier)
MODELS = {
    "P01": ([api("moves")], []),
    "P02": ([heap()] + [heap(f) for f in HEAP_FLAWS], [heap(steps=6, scratch=2, calls=7), heap(slots=3, calls=6)]),
    "P03": ([api("products")], [api("products", 3, 3000)]),
    "P04": ([heap(steps=5, scratch=2, calls=5)], [heap(steps=8, scratch=3, calls=6)]),
    "P05": ([api("windows")], [api("moves", 3, 3000)]),
    "P06": ([sched(False, 4), sched(True, 4)], [sched(False, 7), sched(True, 7)]),
    "P07": ([index("index", "IndexBijection", 3, 3)], [index("index", "IndexBijection", 5, 3)]),
    "P08": ([index("bcast", "BroadcastLaws", 3, 2)], [index("bcast", "BroadcastLaws", 3, 3)]),
    "P09": ([view(2, 3, 2, 2), quotients(4, 1)], [quotients(6, 1), view(2, 4, 3, 3), view(3, 2, 2, 3)]),
    "P10": ([view(3, 2, 1, 2)], [view(4, 2, 1, 2)]),
    "P11": ([num("wrap"), num("round")], [num("wrap", True), num("round", True)]),
    "P12": ([num("small"), num("wide"), api("arith"), quotients(4, 1)], [quotients(4, 2), num("small", True), num("wide", True), api("arith", 3, 3000)]),
    "P13": ([api("products"), quotients(4, 1)], [quotients(6, 1)]),
    "P14": ([api("products"), quotients(4, 1)], [quotients(4, 2)]),
    "P15": ([index("window", "WindowCount", 3, 6), api("windows"), quotients(4, 1)], [index("window", "WindowCount", 3, 10)]),
    "P16": ([index("window", "WindowCount", 3, 6), api("windows"), quotients(4, 1)], [api("windows", 3, 3000)]),
    "P17": ([num("small")], [num("round", True)]),
    "P18": ([num("round")], [num("exp"), num("exp", True)]),
    "P19": ([num("exp")], [api("soft"), num("exp", True)]),
    "P21": ([samples(3, "U"), samples(3, "R"), samples(2, "UX"), samples(2, "BY"), samples(3, "U", "assign"),
             samples(2, "R", "leak"), samples(2, "R", "setres"), samples(2, "U", "copy"),
             samples(3, "U", *FLAWS, domain="able", inv="Buffers"),
             samples(3, "R", *FLAWS, domain="able", inv="Buffers"),
             samples(2, "BY", *FLAWS, domain="able", inv="Buffers")],
            [samples(4, "U"), samples(3, "B"), samples(4, "R"), samples(3, "RX"), samples(3, "UX")]),
    "P23": ([parts()] + [parts(f) for f in PART_FLAWS], [parts(calls=7), parts(calls=5, n=3)]),
}
