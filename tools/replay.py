import json
import os
import sys
import tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import engine

script = os.path.abspath(sys.argv[1])
aspects = sys.argv[2].split(",") if len(sys.argv) > 2 else engine.ALL_ASPECTS
name = os.path.basename(script)
huge = "-huge" in name
auto = name.startswith(("P21", "P22"))
scope = sys.argv[3] if len(sys.argv) > 3 else "strict" if name.startswith("P21-finding") else "all"
with tempfile.TemporaryDirectory() as d:
    engine.build(d, "build_auto.sh" if auto else "build_huge.sh" if huge else "build.sh")
    trace = os.path.join(d, "trace")
    engine.drive(os.path.join(d, "auto_driver" if auto else "huge" if huge else "driver"), script, trace,
                 seg_timeout=150 if huge else 60, reuse="-reuse" in name)
    v = engine.validate(trace, aspects, os.path.join(d, "tlc"), scope=scope, module="SamplesTrace" if auto else "Trace")
    for line, op, asp in v.rejects:
        print("segment %s, event %d: %s violates %s" % (engine.seg_of_line(trace, line), line, op, ", ".join(asp)))
        print("   " + json.dumps(engine.event_at(trace, line))[:3000])
    print("%d events, %d rejected" % (v.events, len(v.rejects)))
sys.exit(1 if v.rejects else 0)
