#!/usr/bin/env python3
"""ref.py <diff> [properties]: the checks must stay quiet on a behaviour-preserving rewrite of /repo."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
diff = os.path.abspath(sys.argv[1])
props = sys.argv[2:] or [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
w = tempfile.mkdtemp(prefix="ref_")
try:
    os.mkdir(w + "/r")
    subprocess.run("git -C /repo archive HEAD | tar -x -C %s/r && patch -s -p1 -d %s/r < %s" % (w, w, diff), shell=True, check=True)
    os.makedirs(w + "/engine/target/release")
    shutil.copytree(V + "/lib", w + "/lib"); shutil.copy(V + "/check.py", w); shutil.copy(V + "/known-findings.txt", w)
    shutil.copy(V + "/engine/target/release/rfxai", w + "/engine/target/release/")
    for pr in props:
        t0 = time.time()
        p = subprocess.run(["python3", w + "/check.py", pr], env=dict(os.environ, VP_REPO=w + "/r"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        try: e = json.load(open(w + "/evidence/%s.json" % pr))["coverage"]
        except Exception: e = {}
        u = e.get("undischarged", [])
        print("%s %s %s rc=%d %3ds oblig=%s open=%d" % ("ok  " if p.returncode == 0 else "BAD ", os.path.basename(diff), pr, p.returncode, time.time() - t0, e.get("obligations"), len(u)), flush=True)
        if p.returncode: print(p.stdout[-1500:], flush=True)
        for x in u[:3]: print("      open: " + x[:240], flush=True)
finally: shutil.rmtree(w)
