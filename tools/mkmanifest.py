#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import props
ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
na = dict(props.NOT_APPLICABLE)
m = {
    "version": 1,
    "setup_cmd": "python3 build.py",
    "hooks": {"guard": "none",
              "enable": "No hooks in /repo are needed: the seams are libstored's own (protocol layers, Config, Clock parameters), "
                        "linker --wrap of libc/libzmq calls, and a macro substitution of std::atomic in the harness' translation unit.",
              "source_commits": []},
    "checks": [], "not_applicable": [],
    "notes": "Every check builds its simulator from /repo's working tree, and searches seeds for a fixed time. DESIGN.md explains.",
}
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection: " + p.technique,
            "level": "exploration",
            "level_note": "Seeded search over schedules and faults; holds for the executions explored, not for all. "
                          "Real code: %s. Simulated: %s.%s" % ("; ".join(p.real), "; ".join(p.stubs),
                              " Assumes: " + "; ".join(p.assumptions) + "." if p.assumptions else "")})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "No check is registered (yet) for this property.")})
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
open(HERE + "/MANIFEST.json", "a").write("\n")
