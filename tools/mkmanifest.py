#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import checks
T = checks.TECH
NA = checks.NA
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="cd engine && cargo build --release --offline", checks=[], not_applicable=[],
    notes="Static analysis only: every check compiles /repo's current tree to LLVM IR (clang) and assembly listings (nasm, objdump) in a scratch directory and decides the property by abstract interpretation with the Rust engine in /verif/engine. No code of /repo is executed by any check. See DESIGN.md.")
for p in props:
    if p in checks.CHECKS:
        t, lvl, note = T[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p, evidence_file="evidence/%s.json" % p, technique=t, level=lvl, level_note=note))
    else:
        m["not_applicable"].append(dict(property=p, reason=NA[p]))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
