#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
NA = {}
checks = []
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 run.py {i} quick", thorough_cmd=f"python3 run.py {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=c["technique"], level=c.get("level", "exploration"), level_note=c["note"]))
m = dict(version=1, setup_cmd="python3 run.py --setup",
    hooks=dict(guard="none: no hooks are compiled into the library; monitors attach by sanitizer instrumentation and by --wrap interposition at link time",
               enable="run.py compiles /repo/src with clang -fsanitize=... and links the drivers with -Wl,--wrap=malloc,...", source_commits=[]),
    checks=checks,
    not_applicable=[dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in PROPS],
    notes="Fixed defects and known findings are listed in known_findings.json; design in DESIGN.md.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1); open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
