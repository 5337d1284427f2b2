#!/usr/bin/env python3
"""seed.py <file with SEEDS list>: make, confirm and store planted bugs (works in a scratch worktree of /repo)."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# run with cwd = the repository, after its build
set -e
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
%s
'''
BUILD_C = 'gcc -w -g -O1 %s -Iinclude -Isrc -I"$D" -o "$W/demo" "$D/demo.c" src/*.c\n"$W/demo" %s'
BUILD_ASM = '''for f in src/amd64/*.asm; do nasm -f elf64 -DASM_ARCH_AMD64 -DPIC -Isrc/ "$f" -o "$W/$(basename "$f").o"; done
gcc -w -g -O1 %s -DSIMD_USE_ACCEL=1 -DRFX_USE_ACCEL_AMD64=1 -Iinclude -Isrc -I"$D" -o "$W/demo" "$D/demo.c" src/*.c src/amd64/*.c "$W"/*.o
"$W/demo" %s'''
def make(s):
    d = os.path.join(OUT, s["id"])
    tmp = tempfile.mkdtemp(prefix="seed_")
    try:
        assert sh("git -C /repo diff --quiet").returncode == 0, "/repo dirty"
        # patch
        for f, a, b in s["edits"]:
            p = os.path.join("/repo", f)
            t = open(p).read()
            assert t.count(a) >= 1, (s["id"], "text not found", f, a)
            n = s.get("nth", {}).get(a, None)
            if n is None:
                assert t.count(a) == 1, (s["id"], "ambiguous", a, t.count(a))
                t = t.replace(a, b)
            else:
                parts = t.split(a)
                t = a.join(parts[:n + 1]) + b + a.join(parts[n + 1:])
            open(p, "w").write(t)
        diff = sh("git -C /repo diff").stdout
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.c", "w").write(s["demo"])
        shutil.copy(os.path.join(HERE, "seedlib", "t.h"), d)
        body = s.get("script") or (BUILD_ASM if s.get("asm") else BUILD_C) % (s.get("cflags", ""), s.get("args", ">/dev/null"))
        open(d + "/demo.sh", "w").write(DEMO % body)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        r = sh("bash /opt/vp/build.sh")
        ok = r.returncode == 0
        msg = [] if ok else ["build fails: " + r.stdout[-300:]]
        sh("bash /opt/vp/test.sh %s/o.json" % tmp)
        res = json.load(open(tmp + "/o.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        bad = [x for x in base if x not in res["passed"]]
        if bad: msg.append("tests fail: %s" % bad[:3])
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        if r.returncode == 0: msg.append("demo passes with the bug")
        seen = r.stdout[-200:]
    finally:
        sh("git -C /repo checkout -- .")
        shutil.rmtree(tmp)
    sh("bash /opt/vp/build.sh")
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    if r.returncode != 0: msg.append("demo fails without the bug: " + r.stdout[-300:])
    print(s["id"], s["property"], "OK" if not msg else "BAD " + "; ".join(msg), "|", seen.strip().splitlines()[-1:] if seen.strip() else "")
    if msg: shutil.rmtree(d)
    return not msg
if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for s in ns["SEEDS"]:
        if not only or s["id"] in only: make(s)
