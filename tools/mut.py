#!/usr/bin/env python3
"""mut.py <file with MUTANTS> [ids]: run checks on scratch copies of /repo with small edits (bugs or benign refactorings).
MUTANTS: (id, properties, expected rc, [(file, old, new[, nth])...])"""
import os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
bad = 0
for mid, props, want, edits in ns["MUTANTS"]:
    if only and mid not in only and not any(mid.startswith(o.rstrip("*")) for o in only if o.endswith("*")): continue
    w = tempfile.mkdtemp(prefix="mut_")
    try:
        os.mkdir(w + "/r")
        subprocess.run("git -C /repo archive HEAD | tar -x -C %s/r" % w, shell=True, check=True)
        for e in edits:
            f, a, b = e[:3]
            p = os.path.join(w, "r", f)
            t = open(p).read()
            n = t.count(a)
            if len(e) > 3:
                parts = t.split(a); k = e[3]
                assert len(parts) > k + 1, (mid, "nth")
                t = a.join(parts[:k + 1]) + b + a.join(parts[k + 1:])
            else:
                assert n == 1, (mid, f, "count", n, a)
                t = t.replace(a, b)
            open(p, "w").write(t)
        os.makedirs(w + "/engine/target/release")
        shutil.copytree(V + "/lib", w + "/lib"); shutil.copy(V + "/check.py", w); shutil.copy(V + "/known-findings.txt", w)
        shutil.copy(V + "/engine/target/release/rfxai", w + "/engine/target/release/")
        for pr in props:
            t0 = time.time()
            p = subprocess.run(["python3", w + "/check.py", pr], env=dict(os.environ, VP_REPO=w + "/r"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            ok = p.returncode == want
            bad += not ok
            L = [l for l in p.stdout.splitlines() if not l.startswith("property ")]
            print("%s %-28s %s rc=%d %3ds %s" % ("ok  " if ok else "MISS", mid, pr, p.returncode, time.time() - t0, " | ".join(x.strip()[:200] for x in L[:2])), flush=True)
            if not ok and want == 0 or "-v" in sys.argv: print(p.stdout[-1500:])
            if not ok and want == 1:
                import json
                try:
                    for u in json.load(open(w + "/evidence/%s.json" % pr))["coverage"]["undischarged"][:6]: print("      open: " + u[:300])
                except Exception: pass
    finally: shutil.rmtree(w)
print("missed:", bad)
