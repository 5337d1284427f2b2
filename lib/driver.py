"""Shared driver: build /repo's current tree to IR, run analysis jobs in parallel, judge, write evidence."""
import concurrent.futures, hashlib, json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import build
ENGINE = os.path.join(HERE, "engine", "target", "release", "rfxai")

class NoAnswer(Exception): pass

class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="rfxai_")
        self.built = {}
        self.runs = []
    def ensure(self, target):
        """(ir path, asm listing or None) of a target"""
        if target not in self.built:
            ll = build.ir(target, self.dir)
            dis = build.asm(target, self.dir) if build.TARGETS[target][2] else None
            self.built[target] = (ll, dis)
        return self.built[target]
    def inl(self, target):
        k = target + " inlined"
        if k not in self.built: self.built[k] = build.inlined(self.ensure(target)[0])
        return self.built[k]
    def flat(self, target):
        k = target + " flat"
        if k not in self.built: self.built[k] = build.inlined(self.ensure(target)[0], True)
        return self.built[k]
    def close(self): shutil.rmtree(self.dir, ignore_errors=True)

def engine_ok():
    if not os.path.exists(ENGINE):
        p = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(HERE, "engine"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 or not os.path.exists(ENGINE): raise NoAnswer("engine does not build: " + p.stdout[-800:])

class Job:
    """one engine run; sub = subcommand, args = further arguments"""
    def __init__(self, target, sub, *args, asm=True, group=None):
        self.target, self.sub, self.args, self.asm = target, sub, list(args), asm
    def name(self): return "%s %s %s" % (self.target, self.sub, " ".join(self.args))
    def cmd(self, ctx, extra=()):
        ll, dis = ctx.ensure(self.target)
        if self.sub in ("num", "alpha"): ll = ctx.inl(self.target)
        if self.sub == "same": return [ENGINE, self.sub, "--ir", ctx.flat("amd64-plain"), "--ir2", ctx.flat(self.target)] + self.args
        c = [ENGINE, self.sub, "--ir", ll]
        if dis and self.asm: c += ["--asm", dis]
        return c + self.args + list(extra)

def run_one(ctx, job, extra=(), timeout=840):
    t = time.time()
    left = max(30, timeout - (time.time() - ctx.t0))
    try:
        p = subprocess.run(job.cmd(ctx, extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=left)
        out, rc = p.stdout, p.returncode
        err = p.stderr
    except subprocess.TimeoutExpired:
        return dict(job=job.name(), rows=[], rc=124, secs=time.time() - t, err="time limit")
    rows = []
    for l in out.splitlines():
        if l.startswith("{"):
            try: rows.append(json.loads(l))
            except ValueError: pass
    return dict(job=job.name(), rows=rows, rc=rc, secs=round(time.time() - t, 1), err=err[-600:])

def run_jobs(ctx, jobs, extra=(), workers=8):
    for j in jobs:
        ctx.ensure(j.target)
        if j.sub in ("num", "alpha"): ctx.inl(j.target)
        if j.sub == "same": ctx.flat("amd64-plain"); ctx.flat(j.target)
    res = [None] * len(jobs)
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        fs = {ex.submit(run_one, ctx, j, extra): i for i, j in enumerate(jobs)}
        for f in concurrent.futures.as_completed(fs): res[fs[f]] = f.result()
    # runs ended for want of memory are repeated with fewer at a time
    again = [i for i, r in enumerate(res) if r["rc"] in (-9, -6, 137, 134)]
    if again and workers > 2 and time.time() - ctx.t0 < 400:
        for i, r in zip(again, run_jobs(ctx, [jobs[i] for i in again], extra, 2)): res[i] = r
        return res
    ctx.runs += res
    return res

def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop): out.append(l.split(" ", 2)[2])
    return out

def rel(f): return f.replace(build.REPO + "/", "") if f else f

def finish(ctx, level, coverage, findings, undischarged, assumptions):
    """findings: list of dicts with file, func, line, kind, msg"""
    prop = ctx.prop
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    known = known_findings(prop)
    real, quiet = [], []
    for f in findings:
        key = "%s %s %s" % (f["kind"], rel(f.get("file", "")), f.get("func", ""))
        (quiet if any(k.startswith(key) for k in known) else real).append(f)
    for f in quiet: print("KNOWN-FINDING: property=%s %s" % (prop, f["msg"]))
    ev = dict(property=prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=coverage, wall_s=round(time.time() - ctx.t0, 1), assumptions=assumptions,
              violations=[dict(kind=f["kind"], file=rel(f.get("file", "")), function=f.get("func", ""), line=f.get("line", 0), message=f["msg"], configuration=f.get("cfg", "")) for f in real])
    coverage["undischarged"] = undischarged[:60]
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh: json.dump(ev, fh, indent=1, sort_keys=True); fh.write("\n")
    if real:
        rp = os.path.join(HERE, "evidence", prop + ".violation.txt")
        with open(rp, "w") as fh:
            for f in real: fh.write("%s:%s: in %s: [%s] %s   (configuration: %s)\n" % (rel(f.get("file", "")), f.get("line", 0), f.get("func", ""), f["kind"], f["msg"], f.get("cfg", "")))
        for f in real[:12]: print("  %s:%s: in %s: [%s] %s   (%s)" % (rel(f.get("file", "")), f.get("line", 0), f.get("func", ""), f["kind"], f["msg"], f.get("cfg", "")))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("property %s: held on everything analysed (%s; %d item(s) undischarged)" % (prop, ", ".join("%s=%s" % (k, v) for k, v in coverage.items() if isinstance(v, (int, float))), len(undischarged)))
    return 0
