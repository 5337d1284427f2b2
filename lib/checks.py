"""Per-property job lists and judgement."""
from driver import *

# which kinds of finding decide which property
KINDS = {
    "oob-write-out": "C01", "size-out": "C01",
    "oob-write": "C02", "write-input": "C02", "write-const": "C02",
    "global-write": "C03", "terminates": "C03", "extern": "C03",
    "oob-read-in": "C22", "oob-read": "C22",
    "null": "C18", "uaf": "C18", "double-free": "C18", "bad-free": "C18", "leak": "C18",
    "null-call": "C19", "isa": "C19", "abi": "C19", "align": "C19", "asm-access": "C19",
    "uninit": "C25", "uninit-out": "C25", "uninit-coef": "C25", "uninit-branch": "C25",
}
PROCESS_STATE = set("setlocale signal sigaction setenv putenv unsetenv clearenv chdir fchdir umask fopen open creat unlink remove rename srand srandom srand48 rand random drand48 lrand48 mrand48 strtok localtime gmtime asctime ctime atexit on_exit exit _exit quick_exit abort raise kill fork execve system popen dlopen setrlimit pthread_create thrd_create tmpfile mkstemp freopen fclose setvbuf setbuf".split())

def enc(target, cfg, *more, asm=True): return Job(target, "encode", "--cfg", cfg, *more, asm=asm)
# configurations: format,create flags,cpu(0 none,1 sse2,2 sse4.1),encode flags,null quants,cx,cy
PLAIN = ["4,64,0,0,0", "4,1,2,0,0", "0,64,0,0,0", "0,64,0,1,0,33,17", "2,1,0,1,1,17,33", "4,64,0,1,0", "1,0,2,0,0,5,64", "3,1,1,0,1"]
PRO = ["4,128,0,256,0", "0,128,2,0,1"]
X86 = [("4,1,1,0,0", "12"), ("4,0,2,0,0", "0"), ("0,1,2,1,0", "8")]
DEEP = ["4,0,1,0,0", "4,65,0,0,1", "1,64,0,1,0", "3,0,2,1,0,64,1", "2,64,0,0,0,1,1", "0,0,1,1,1,7,63", "2,0,2,1,0,64,33", "1,1,1,1,0", "3,65,0,0,0,40,40", "4,0,2,1,1", "0,1,1,0,0,63,63"]
def jobs_mem(tier):
    js = [enc("amd64", c, "--closure") for c in PRO]
    js += [enc("amd64", c, "--closure") for c in PLAIN]
    js += [enc("x86", c, "--closure", "--align", al) for c, al in X86]
    # every format with and without alpha, from a new handle
    js += [enc("amd64", "%d,%d,0,%d,0%s" % (f, 64 + f % 2, a, z)) for f in range(4) for a in (0, 1) for z in ("", ",%d,%d" % (13 + 7 * f, 50 - 9 * f))]
    if tier == "thorough":
        js += [enc("amd64", c, "--closure") for c in DEEP]
        js += [enc("amd64", "4,129,1,256,1", "--closure")]
        js += [enc("x86", c, "--closure", "--align", "4") for c in DEEP[:4] + PRO]
        js += [enc(t, c, "--closure", asm=False) for t in ("aarch64", "s390x", "mips") for c in ("4,64,0,0,0", "0,64,0,1,0,33,17")]
    return js

def is_general(v): return True
def confirm(ctx, jobs, res, want):
    """findings of the summarised runs that also occur on explicitly enumerated first iterations"""
    hit, notes = [], []
    todo = []
    for j, r in zip(jobs, res):
        vs = [v for v in r["rows"] if v["t"] == "viol" and want(v)]
        for v in vs:
            # a valuation of the arguments alone, not connected to anything summarised, shows it
            if v.get("exact") and not any(h["func"] == v["func"] and h["kind"] == v["kind"] for h in hit): hit.append(dict(v))
        if vs: todo.append((j, vs))
    # one job per distinct finding is enough
    seen, pick = set(), []
    for j, vs in todo:
        ks = {(v["kind"], v["func"]) for v in vs}
        if not ks <= seen: pick.append((j, vs)); seen |= ks
    if not pick or hit: return hit, notes
    extra = lambda j: ["--peel", "1" if ",128," in j.name() or ",129," in j.name() else "2"]
    pj = []
    for j, _ in pick:
        k = Job(j.target, j.sub, *j.args, *extra(j), asm=j.asm)
        pj.append(k)
    pr = run_jobs(ctx, pj)
    conf = {}
    for r in pr:
        for v in r["rows"]:
            if v["t"] == "viol" and want(v): conf.setdefault((v["kind"], v["func"]), v)
    done = set()
    for j, vs in todo:
        for v in vs:
            k = (v["kind"], v["func"])
            if k in done: continue
            done.add(k)
            if k in conf: hit.append(dict(conf[k]))
            else: notes.append("not confirmed on the first iterations: %s in %s:%s: %s" % (v["kind"], v["func"], v["line"], v["msg"]))
    return hit, notes

def summary(res):
    st = [x for r in res for x in r["rows"] if x["t"] == "stats"]
    tot = lambda k: sum(s.get(k, 0) for s in st)
    fs = sorted({f for s in st for f in s.get("functions", [])})
    return dict(jobs=len(res), configurations=[r["job"] for r in res], functions_analysed=len(fs), functions=fs, obligations=tot("obligations"), abstract_final_states=tot("finals"), handle_classes=sum(len(s.get("classes", [])) for s in st),
                loop_summaries=tot("loops"), loops_unrolled=tot("unrolled"), invariants_proved=tot("invariants"), lp_queries=tot("lp"), instructions_interpreted=tot("steps"), external_functions=sorted({f for s in st for f in s.get("externs", [])}))
def unsupported(res):
    u, ok = [], 0
    for r in res:
        bad = [x for x in r["rows"] if x["t"] in ("unsup", "error")]
        if r["rc"] != 0 or not r["rows"]: bad.append(dict(msg="engine exit %s: %s" % (r["rc"], r["err"][-200:])))
        for x in bad: u.append("%s: %s" % (r["job"], x["msg"]))
        for x in r["rows"]:
            if x["t"] == "note": u.append("%s: %s" % (r["job"], x["msg"]))
        if not bad: ok += 1
    return u, ok

ASSUME = ["tile width and height are 1..64 and the tile lies inside the image; x and y are multiples of 64; quant values are 6..15", "num_regions, num_tiles <= 65535, num_quants <= 255", "an RLGR coder produces at most 16384 bytes per plane and fails only when given less than that (property C24, not decided here)",
          "clang's translation to LLVM IR and nasm's to machine code", "libc functions behave as documented"]
RULES = {
    "C01": "every store the encode call can reach that lands in the output object is entailed to lie in [0, *cdata_bytes) by the path's linear facts; each entropy coder and the alpha coder are entitled only to room the caller's capacity provides; the size stored on success is entailed to be at most the capacity",
    "C02": "every store reaches only the output, the size cell, the stack, or in-bounds memory of the handle and its heap objects; never an input object, constant data or out of the bounds of an object",
    "C03": "no reachable instruction stores to a module-level variable, and no external function that changes process-wide state is called",
    "C22": "every load from the tile list, region list, quant tables and pixel buffer is entailed to lie inside the extent the arguments describe; pixel loads lie inside the rectangle of the tile being encoded",
    "C18": "ownership analysis: allocation, table slots and release tracked over all handle histories; no null, freed or lost object is used, freed twice or left allocated",
    "C25": "definedness analysis: no branch, address, output byte or coefficient depends on a never-written byte",
    "C19": "instruction-set, register, stack-pointer and alignment rules checked on every instruction of each kernel in every calling configuration; kernel selection under every CPU feature report",
}
def want_kind(prop):
    def w(v):
        if v["kind"] == "extern":
            f = v["msg"].split("function ")[-1].split(" ")[0]
            return prop == "C03" and f.replace("llvm.", "") in PROCESS_STATE
        return KINDS.get(v["kind"]) == prop
    return w
def check_mem(ctx):
    jobs = jobs_mem(ctx.tier)
    if ctx.prop == "C19": jobs = jobs_isa(ctx.tier)
    res = run_jobs(ctx, jobs)
    und, ok = unsupported(res)
    if ok == 0: raise NoAnswer("no configuration could be analysed: " + "; ".join(und[:3]))
    hits, notes = confirm(ctx, jobs, res, want_kind(ctx.prop))
    cov = summary(res)
    cov["rule"] = RULES[ctx.prop]
    cov["discharged"] = cov["obligations"]
    cov["checker_cmd"] = "python3 /verif/check.py %s --tier %s" % (ctx.prop, ctx.tier)
    cov["trusted_base"] = ["/verif/engine (abstract interpreter)", "clang 18", "nasm", "objdump"]
    return finish(ctx, "proof", cov, hits, und + notes, ASSUME)
def jobs_isa(tier):
    js = [enc("amd64", "4,1,2,0,0"), enc("amd64", "4,0,2,0,0"), enc("amd64", "4,1,1,0,0"), enc("amd64", "4,0,1,0,0"), enc("amd64", "4,0,0,0,0"), enc("amd64", "4,1,0,0,0"), enc("amd64", "4,64,2,0,0"), enc("amd64", "4,128,2,0,0"),
          enc("amd64", "0,0,2,1,0"), enc("amd64", "4,0,2,1,0")]
    for al in ("0", "4", "8", "12"):
        js += [enc("x86", "4,1,2,0,0", "--align", al), enc("x86", "4,1,1,0,0", "--align", al)]
    js += [enc("x86", "4,0,2,0,0", "--align", "12"), enc("x86", "4,0,1,0,0", "--align", "12"), enc("x86", "4,0,0,0,0", "--align", "12"), enc("x86", "4,65,2,0,0", "--align", "12"), enc("x86", "4,128,2,0,0", "--align", "12")]
    js += [enc("amd64-plain", "4,0,2,0,0"), enc("amd64-plain", "4,1,2,0,0")]
    return js
WALK = ["4,1,2,0,0", "0,64,0,0,0", "0,64,0,1,0,33,17", "2,1,0,1,1,17,33", "4,64,0,1,0", "1,0,2,0,0,5,64", "3,1,1,0,1", "4,64,0,0,1"]
def jobs_walk(tier):
    js = [enc("amd64", c, "--closure", "--walk") for c in PRO]
    js += [enc("amd64", c, "--closure", "--walk") for c in WALK]
    js += [enc("amd64", "0,1,0,0,0", "--closure", "--walk", "--legacy"), enc("x86", "4,1,2,0,0", "--closure", "--walk", "--align", "8"), enc("amd64-plain", "2,0,0,0,1", "--closure", "--walk", asm=False)]
    js += [enc("amd64", "%d,%d,0,%d,%d,%d,%d" % (f, 64 + (f + a) % 2, a, f // 2, 13 + 7 * f, 50 - 9 * f), "--walk") for f in range(4) for a in (0, 1)]
    if tier == "thorough":
        js += [enc("amd64", c, "--closure", "--walk") for c in DEEP]
        js += [enc("amd64", "4,129,1,256,1", "--closure", "--walk")]
        js += [enc("x86", c, "--closure", "--walk", "--align", "4") for c in DEEP[:4] + PRO]
        js += [enc(t, c, "--closure", "--walk", asm=False) for t in ("aarch64", "s390x", "mips") for c in ("4,64,0,0,0", "0,64,0,1,0,33,17")]
    return js
def jobs_mode(tier):
    js = []
    for t, al in (("amd64", []), ("x86", ["--align", "8"])):
        for cf in (0, 1, 64, 65):
            for cpu in ((0, 1, 2) if cf < 64 else (2,)): js.append(enc(t, "4,%d,%d,0,0" % (cf, cpu), "--walk", *al))
        js += [enc(t, "0,1,2,1,0", "--walk", *al), enc(t, "3,0,2,0,0", "--walk", *al)]
    for cf in (0, 1, 64, 65): js.append(enc("amd64-plain", "4,%d,0,0,0" % cf, "--walk", asm=False))
    js += [enc("amd64", c, "--walk") for c in ("4,128,2,0,0", "4,129,2,0,0", "4,192,0,0,1")]
    if tier == "thorough":
        js += [enc(t, "%d,%d,%d,0,%d" % (f, cf, cpu, q), "--walk", *al) for t, al in (("amd64", []), ("x86", ["--align", "0"])) for f in (0, 1, 2, 3) for cf in (0, 1, 65) for cpu in (0, 1, 2) for q in (0, 1)]
        js += [enc(t, "4,%d,0,0,0" % cf, "--walk", asm=False) for t in ("aarch64", "s390x", "mips") for cf in (0, 1)]
    return js
WKINDS = ("C04", "C05", "C06", "C07", "C08", "C23")
def hits_prop(v, props): return any(k in props for k in v["kind"].split("+"))
def is_pro(j): return any(a.split(",")[1].isdigit() and int(a.split(",")[1]) & 128 for a in j.args if a.count(",") >= 3)
def peeled(j): return Job(j.target, j.sub, *j.args, "--peel", "1" if is_pro(j) else "2", asm=j.asm)
def walk_judge(ctx, jobs, props):
    """general runs; where they leave something open, explicitly enumerated first iterations decide"""
    res = run_jobs(ctx, jobs)
    und, ok = unsupported(res)
    hits, again = [], []
    for j, r in zip(jobs, res):
        vs = [v for v in r["rows"] if v["t"] == "viol" and hits_prop(v, props)]
        us = [v for v in r["rows"] if v["t"] == "unsure"]
        broken = r["rc"] != 0 or any(x["t"] in ("unsup", "error") for x in r["rows"])
        hits += [dict(v, target=j.target) for v in vs if v.get("ndep")]
        if vs or us or broken: again.append((j, vs, us, r["secs"]))
    if hits: again = []  # decided already
    pr, okp, did = [], 0, []
    again.sort(key=lambda a: (not a[1], a[3]))
    while again and not hits and time.time() - ctx.t0 < 420:
        # findings first, then the cheapest
        now, again = again[:8], again[8:]
        did += now
        rs = run_jobs(ctx, [peeled(a[0]) for a in now])
        pr += rs
        for (j, vs, us, _), r in zip(now, rs):
            c = [v for v in r["rows"] if v["t"] == "viol" and hits_prop(v, props)]
            hits += [dict(v, target=j.target) for v in c]
            if any(x["t"] == "walk" for x in r["rows"]): okp += 1
            if not c: und += ["not confirmed on the first iterations: %s in %s:%s: %s" % (v["kind"], v["func"], v["line"], v["msg"]) for v in vs if not v.get("ndep")]
    for j, vs, us, _ in did + again: und += ["%s: %s" % (j.name(), u["msg"]) for u in us]
    ok += okp
    seen, out = set(), []
    for h in hits:
        k = (h["kind"], h["func"], h["line"])
        if k not in seen: seen.add(k); out.append(h)
    return res, pr, out, und, ok
def walk_cov(res, pr):
    w = [x for r in res for x in r["rows"] if x["t"] == "walk"]
    tot = lambda k: sum(x.get(k, 0) for x in w)
    return dict(frames_walked=tot("frames"), tiles_walked=tot("tiles"), fields_compared=tot("fields"), loops_by_induction=tot("loops"), planes_traced=tot("planes"), explicit_reruns=len(pr))
def check_walk(ctx):
    jobs = jobs_mode(ctx.tier) if ctx.prop == "C06" else jobs_walk(ctx.tier)
    cr = []
    if ctx.prop == "C23":
        cr = [Job(t, "create", "--cfg", "0,0,%d" % cpu, *leg) for t in ("amd64", "x86") for cpu in (0, 1, 2) for leg in ([], ["--legacy"])] + [Job("amd64-plain", "create", "--cfg", "0,0,0", asm=False)]
        jobs = [enc("amd64", "%d,%d,0,%d,0" % (f, cf, a), "--walk") for f in range(5) for cf in (0, 1) for a in (0, 1)] + [enc("x86", "%d,0,2,0,0" % f, "--walk") for f in (0, 2, 3)] + [enc("amd64", "4,128,0,0,0", "--walk")]
    res, pr, hits, und, ok = walk_judge(ctx, jobs, [ctx.prop])
    if cr:
        rc = run_jobs(ctx, cr)
        u2, ok2 = unsupported(rc)
        und += u2
        hits += [v for r in rc for v in r["rows"] if v["t"] == "viol" and hits_prop(v, [ctx.prop])]
        res = res + rc
        ok += ok2
    if ok == 0: raise NoAnswer("no configuration could be analysed: " + "; ".join(und[:3]))
    cov = summary(res)
    cov.update(walk_cov(res, pr))
    if cr: cov["creation_paths"] = sum(x.get("paths", 0) for r in res for x in r["rows"] if x["t"] == "create")
    cov["rule"] = RULES[ctx.prop]
    cov["discharged"] = cov["fields_compared"]
    cov["obligations"] = cov["fields_compared"]
    cov["checker_cmd"] = "python3 /verif/check.py %s --tier %s" % (ctx.prop, ctx.tier)
    cov["trusted_base"] = ["/verif/engine (abstract interpreter)", "clang 18", "nasm", "objdump"]
    return finish(ctx, "proof", cov, hits, und, ASSUME)
RULES.update({
    "C04": "reading the abstract output log of every delivered frame back in protocol order: every type, constant, length and count field equals (as a term, under the path's facts) the value the protocol prescribes for the extents of unknown size; rectangle and tile lists by induction over the loop that writes them; nothing is overwritten afterwards and the last block ends at the reported size",
    "C05": "for every class of reachable handle states: the frame starts with the header blocks exactly if nothing was delivered before (or a key frame is asked for) and carries the number of frames delivered as its index",
    "C06": "for every creation flag set, CPU report, architecture and format: the coder invoked for each plane is the variant the properties words of the same frame announce, and both are the requested one",
    "C07": "the value returned equals the number of tile records in the frame; every record's planes were coded in place, successfully, in full room, in list order, and are intact at the end",
    "C08": "per tile record: position and quant index fields are the entry's; every pixel and quant leaf of the coefficients handed to the coder lies in that entry's rectangle and the plane's own table",
    "C23": "creation with unknown flags and size: succeeds for exactly the five formats unless an allocation failed; stores no handle on failure; announced width and height are the arguments; pixel addresses advance by the format's bytes per pixel",
})
# ---------------------------------------------------------------- relational checks
def coef(t, cfgs, al="8"): return Job(t, "rel", "--coef", ";".join(cfgs), "--align", al, asm=t in ("amd64", "x86"))
def padj(t, fmts, sizes=()): return Job(t, "rel", "--pad", ";".join("%d,%d" % f for f in fmts), "--sizes", ";".join("%d,%d" % z for z in sizes), asm=t in ("amd64", "x86"))
def proj(t, cfg, *more): return Job(t, "rel", "--pro", cfg, *more, asm=t in ("amd64", "x86"))
PACKED = [(f, a) for f in range(4) for a in (0, 1)]
PROAT = [[], ["--at", "0,0;1,0"], ["--at", "1,2;2,1"], ["--at", "0,0;0,0"], ["--room", "32768"], ["--room", "8000"]]
def sizes(tier):
    if tier == "thorough": return [(x, y) for x in range(1, 65) for y in range(1, 65)]
    # every width and every height
    z = [(x, (x * 37) % 64 + 1) for x in range(1, 65)]
    return [(1, 1), (1, 64), (64, 1), (63, 63), (64, 63), (63, 64), (2, 1), (1, 2)] + [q for q in z if q != (64, 64)]
def jobs_rel(prop, tier):
    deep = tier == "thorough"
    others = ["aarch64", "s390x", "mips"]
    if prop == "C09":
        zs = sizes(tier)
        n = 8 if deep else 1
        js = [padj("amd64", [f], zs[i::n]) for f in PACKED for i in range(n)]
        js += [coef("amd64", ["4,64,0,0,0", "4,1,2,0,0", "4,0,1,0,0"]), proj("amd64", "4,128,0,0,0")]
        if deep: js += [padj(t, PACKED, sizes("quick")) for t in ["x86", "mips"]]
        return js
    if prop in ("C10", "C11"):
        js = [padj(t, PACKED + [(4, 0), (4, 1)]) for t in ["amd64", "x86"] + others]
        if prop == "C10": js += [padj("amd64", [f], [(33, 17), (1, 1), (64, 5)]) for f in PACKED]
        if deep: js += [padj("amd64", [f], sizes("quick")) for f in PACKED] + [coef("amd64", ["%d,64,0,%d,0" % f, "%d,1,2,%d,0" % f]) for f in PACKED]
        return js
    if prop == "C12":
        js = [coef("amd64", ["4,64,0,0,0", "4,65,0,0,0", "4,64,0,0,1", "4,64,0,1,0", "4,0,0,0,0", "4,1,0,0,0"]), coef("x86", ["4,64,0,0,0", "4,65,0,0,1"]), coef("amd64-plain", ["4,0,0,0,0", "4,1,0,0,1"])] + [coef(t, ["4,0,0,0,0", "4,1,0,0,0"]) for t in others]
        js += [coef("amd64", ["0,64,0,0,0", "3,65,0,1,1"])]
        if deep: js += [coef("amd64", ["%d,%d,0,%d,%d" % (f, cf, a, q) for cf in (64, 65) for q in (0, 1)]) for f, a in PACKED + [(4, 0), (4, 1)]]
        return js
    if prop == "C13":
        js = [coef("amd64", ["4,64,0,0,0"] + ["4,%d,%d,0,0" % (cf, cpu)]) for cf in (0, 1) for cpu in (1, 2)]
        js += [coef("x86", ["4,64,0,0,0"] + ["4,%d,%d,0,0" % (cf, cpu)], al) for cf in (0, 1) for cpu, al in ((1, "0"), (2, "12"))]
        js += [coef("amd64", ["4,64,0,0,1", "4,0,2,0,1", "4,1,1,0,1"]), coef("amd64", ["0,64,0,1,0", "0,0,2,1,0", "2,1,1,0,0"]), coef("x86", ["4,64,0,0,1", "4,0,1,0,1", "4,1,2,0,1"], "4"), coef("x86", ["4,64,0,1,0", "4,1,2,1,0", "4,0,1,1,0"])]
        js += [Job("amd64", "contract", asm=False), Job("x86", "contract", asm=False)]
        if deep: js += [coef(t, ["%d,64,0,%d,%d" % (f, a, q), "%d,%d,%d,%d,%d" % (f, cf, cpu, a, q)], al) for t, al in (("amd64", "8"), ("x86", "0"), ("x86", "4"), ("x86", "8"), ("x86", "12")) for f, a in ((4, 0), (4, 1), (0, 1)) for cf in (0, 1) for cpu in (1, 2) for q in (0, 1)]
        return js
    if prop in ("C14", "C15"):
        js = [proj("amd64", c, *m) for m in PROAT for c in ("4,128,0,0,0", "4,128,0,256,0")]
        js += [proj("amd64", "4,128,2,0,1"), proj("amd64", "4,129,2,256,1")] + [proj(t, "4,128,0,0,0") for t in ["x86"] + others]
        js += [Job("amd64", "contract", asm=False)]
        if deep: js += [proj("amd64", "4,128,0,%d,%d" % (k, q), "--at", at, "--room", rm) for k in (0, 256) for q in (0, 1) for at in ("63,0;0,63", "0,63;63,63", "5,7;5,7", "2,0;0,2") for rm in ("1048576", "60000")]
        return js
def check_rel(ctx):
    jobs = jobs_rel(ctx.prop, ctx.tier)
    res = run_jobs(ctx, jobs)
    und, ok = unsupported(res)
    hits, seen, done = [], set(), 0
    for j, r in zip(jobs, res):
        for v in r["rows"]:
            if v["t"] == "viol" and hits_prop(v, [ctx.prop]):
                k = (v["kind"], v["func"], v["line"])
                if k not in seen: seen.add(k); hits.append(dict(v, cfg=j.target + " " + v["cfg"]))
            if v["t"] == "unsure": und.append("%s: %s" % (j.target, v["msg"]))
    rr = [x for r in res for x in r["rows"] if x["t"] == "rel"]
    tot = lambda k: sum(x.get(k, 0) for x in rr)
    fs = sorted({f for x in rr for f in x["functions"]})
    if ok == 0 or (tot("planes") == 0 and not hits): raise NoAnswer("no configuration could be analysed: " + "; ".join(und[:3]))
    cov = dict(jobs=len(res), configurations=[r["job"][:300] for r in res], functions_analysed=len(fs), functions=fs, planes_compared=tot("planes"), obligations=tot("compared"), discharged=tot("compared"), analyses=tot("runs"), instructions_interpreted=tot("steps"), rule=RULES[ctx.prop],
               checker_cmd="python3 /verif/check.py %s --tier %s" % (ctx.prop, ctx.tier), trusted_base=["/verif/engine (abstract interpreter)", "clang 18", "nasm", "objdump"])
    return finish(ctx, "proof", cov, hits, und, ASSUME)
RULES.update({
    "C09": "for every tile size: each of the samples that enter the transform, as a normal form over the tile's own pixels, equals that of the 64x64 tile in which the pixels beyond the edge are the nearest ones inside; no normal form has a leaf in the handle's scratch memory (which is made arbitrary beforehand) or outside the rectangle",
    "C10": "for every format, with and without the alpha flag: each sample that enters the transform has the same normal form over (row, column, channel) as for BGRA; the samples of the alpha plane are the alpha channel",
    "C11": "each sample that enters the transform has the normal form the colour transform prescribes over its own pixel's channels (the channel itself for planar input)",
    "C12": "the 4096 coefficients handed to the entropy coder, as normal forms over the plane's samples and the table's entries, equal those of the transform's definition (level shift, three lifting levels, per-band rounding, differencing), written independently in engine/src/rel.rs",
    "C13": "the coefficients handed to the entropy coder by each accelerated path (C dispatcher and assembly kernels) have the same normal forms as the portable path's",
    "C14": "the 4096 coefficients handed to the entropy coder for a progressive tile, as normal forms over samples, table entries and history, equal those of the reduce-extrapolate definition (minus history if the tile's flag says so), on every path through the difference decision",
    "C15": "on every path of a call: the history slots touched hold afterwards, for delivered tiles, the normal form a decoder computes from the coefficients and flag sent, and otherwise what they held; slot addresses are injective in the grid position; a key frame sees zero histories",
})
# ---------------------------------------------------------------- the entropy coders
CODERS = ["rfx_rlgr1_encode", "rfx_rlgr3_encode", "rfx_encode_diff_rlgr1", "rfx_encode_diff_rlgr3"]
def check_coder(ctx):
    ts = ["amd64", "x86", "s390x"] if ctx.tier == "quick" else ["amd64", "amd64-plain", "x86", "aarch64", "s390x", "mips"]
    jobs = [Job(t, "num", "--fn", f, *(["--try"] if ctx.tier == "thorough" else []), asm=False) for t in ts for f in CODERS]
    res = run_jobs(ctx, jobs)
    und, hits, seen = [], [], set()
    rows = [x for r in res for x in r["rows"]]
    for j, r in zip(jobs, res):
        if r["rc"] != 0: und.append("%s: %s" % (j.name(), r["err"][-200:] or "no result"))
        for v in r["rows"]:
            if v["t"] == "viol":
                k = (v["func"], v["line"], v["msg"].split(":")[0])
                if k not in seen: seen.add(k); hits.append(dict(v, cfg=j.target + " " + v["cfg"]))
            if v["t"] == "open": und.append("%s: %s %s:%s: %s" % (j.target, v["kind"], v["func"], v["line"], v["msg"]))
            if v["t"] == "unsup": und.append("%s: %s" % (j.target, v["msg"]))
    nm = [x for x in rows if x["t"] == "num"]
    tot = lambda k: sum(x.get(k, 0) for x in nm)
    if not nm: raise NoAnswer("no coder could be analysed: " + "; ".join(und[:3]))
    cov = dict(jobs=len(res), configurations=[r["job"] for r in res], functions_analysed=len({x["func"] for x in nm}), functions=sorted({x["func"] for x in nm}), obligations=tot("obligations"), discharged=tot("shown"), abstract_states=tot("states"), block_visits=tot("visits"), adaptation_parameters=tot("params"), rule=RULES["C16"],
               checker_cmd="python3 /verif/check.py C16 --tier %s" % ctx.tier, trusted_base=["/verif/engine/src/num.rs, oct.rs (octagon analysis)", "clang 18 and opt (inlining, SSA)"])
    return finish(ctx, "proof", cov, hits, und, ["at most 4096 differences are asked for", "the coefficient array has 4096 entries and does not overlap the buffer"])
RULES["C16"] = "octagon analysis of each coder (any coefficients, any buffer size): every shift amount inside its operand, adaptation parameters within 0..80 where they are scaled, every load inside the 4096 coefficients, every store at the next free byte and inside the buffer size, every byte taken whole from its accumulator, output words hold the bits put in them, the value returned equals the bytes written and all 4096 coefficients were read"
# ---------------------------------------------------------------- the alpha plane
def check_alpha(ctx):
    ts = ["amd64", "aarch64"] if ctx.tier == "quick" else ["amd64", "amd64-plain", "x86", "aarch64", "s390x", "mips"]
    jobs = [Job(t, "alpha", asm=False) for t in ts]
    al = [(f, 1) for f in range(5)]
    jobs += [padj("amd64", al), padj("x86", al), padj("amd64", [(0, 1), (1, 1)], [(33, 17), (1, 1), (64, 5), (63, 63)])]
    if ctx.tier == "thorough": jobs += [padj("amd64", [f], sizes("quick")) for f in al[:4]] + [padj(t, al) for t in ("aarch64", "s390x", "mips")]
    res = run_jobs(ctx, jobs)
    und, hits, seen = [], [], set()
    rows = [x for r in res for x in r["rows"]]
    for j, r in zip(jobs, res):
        if r["rc"] != 0: und.append("%s: %s" % (j.name(), r["err"][-200:] or "no result"))
        for v in r["rows"]:
            if v["t"] == "viol" and hits_prop(v, ["C21"]):
                k = (v["func"], v["line"], v["msg"].split(":")[0][:40])
                if k not in seen: seen.add(k); hits.append(dict(v, cfg=j.target + " " + v["cfg"]))
            if v["t"] == "open": und.append("%s: %s %s:%s: %s" % (j.target, v["kind"], v["func"], v["line"], v["msg"]))
            if v["t"] in ("unsup", "unsure"): und.append("%s: %s" % (j.target, v["msg"]))
    am = [x for x in rows if x["t"] == "alpha"]
    rr = [x for x in rows if x["t"] == "rel"]
    tot = lambda k: sum(x.get(k, 0) for x in am)
    if not am and not hits: raise NoAnswer("the alpha coder could not be analysed: " + "; ".join(und[:3]))
    fs = sorted({x["func"] for x in am} | {f for x in rr for f in x["functions"]})
    ob = tot("decoded") + tot("differences") + sum(x["compared"] for x in rr)
    cov = dict(jobs=len(res), configurations=[r["job"][:300] for r in res], functions_analysed=len(fs), functions=fs, abstract_states=tot("states"), splits=tot("forks"), samples_decoded=tot("decoded"), differences_tabulated=tot("differences"), alpha_samples_compared=sum(x["compared"] for x in rr), most_bytes_put_out=max([x["most"] for x in am] or [0]), returns_with_runs=tot("rle"), returns_uncompressed=tot("raw"), obligations=ob, discharged=ob - tot("bad"), rule=RULES["C21"],
               checker_cmd="python3 /verif/check.py C21 --tier %s" % ctx.tier, trusted_base=["/verif/engine/src/alpha.rs", "/verif/engine (abstract interpreter)", "clang 18 and opt (inlining, SSA)"])
    return finish(ctx, "proof", cov, hits, und, ["the output buffer does not overlap the plane or the handle"])
RULES["C21"] = "co-analysis of the alpha coder with an abstract decoder of its run-length code: the difference plane is 4096 unknown bytes, counters and pointers are exact, equality facts between neighbouring bytes are learnt at branches and intersected where paths meet; every byte put out goes to the decoder, each sample it reconstructs must provably be the one at its place, the plane must end after 4096 samples at the length returned; the differences are the defined function of a sample and the one above (tabulated over all values); the samples are the tile's alpha channel (normal forms)"
# ---------------------------------------------------------------- the same stream on every target
OTHER = ["aarch64", "s390x", "mips"]
def jobs_target(t, tier):
    """what is analysed on each target: (job, kinds of finding that concern the stream)"""
    W = ("C04", "C05", "C06", "C07", "C08", "C23")
    js = [(enc(t, c, "--closure", "--walk", asm=False), W) for c in ["4,64,0,0,0", "0,65,0,1,0,33,17"]]
    js += [(enc(t, c, "--walk", asm=False), W) for c in ["4,1,0,0,1", "2,0,0,1,1,17,33", "4,128,0,256,0"]]
    js += [(coef(t, ["4,0,0,0,0", "4,1,0,0,1", "0,64,0,1,0"]), ("C12",)), (padj(t, PACKED + [(4, 0), (4, 1)], [(33, 17), (1, 1)]), ("C09", "C10", "C11", "C21")), (proj(t, "4,128,0,0,0"), ("C14", "C15")), (proj(t, "4,128,0,256,0", "--at", "1,2;2,1"), ("C14", "C15")), (Job(t, "alpha", asm=False), ("C21",))]
    if tier == "thorough":
        js += [(enc(t, c, "--closure", "--walk", asm=False), W) for c in DEEP[:6] + PRO]
        js += [(proj(t, "4,128,0,0,0", *m), ("C14", "C15")) for m in PROAT[1:]] + [(padj(t, PACKED, sizes("quick")), ("C09", "C10", "C11", "C21"))]
    return js
BASE = "amd64-plain"
def check_targets(ctx):
    # a pointer-size pair for the layout-dependent parts, then each byte order and char signedness
    ts = OTHER + ["x86"]
    plan = [(t, j, k) for t in [BASE] + ts for j, k in jobs_target(t, ctx.tier) if t != "x86" or j.sub == "encode"]
    plan = [p for p in plan if not is_pro(p[1]) or p[1].sub != "encode" or p[0] in (BASE, "s390x", "aarch64") or ctx.tier == "thorough"]
    cod = [Job(t, "same", "--fn", ",".join(CODERS), asm=False) for t in ts]
    plan.sort(key=lambda p: 0 if p[1].sub == "alpha" else 1 if is_pro(p[1]) else 2)
    cres = run_jobs(ctx, cod)
    res = run_jobs(ctx, [p[1] for p in plan])
    und, ok = unsupported(res + cres)
    hits, seen = [], set()
    for j, r in zip(cod, cres):
        for v in r["rows"]:
            if v["t"] == "viol" and (v["func"], v["msg"][:60]) not in seen: seen.add((v["func"], v["msg"][:60])); hits.append(dict(v, cfg="%s against %s" % (j.target, BASE)))
            if v["t"] == "open": und.append("%s %s:%s: %s" % (j.target, v["func"], v["line"], v["msg"]))
    name = lambda j: " ".join([j.sub] + [a for a in j.args])
    whole = lambda r: r["rc"] == 0 and not any(x["t"] in ("unsup", "error") for x in r["rows"])
    finds = lambda r, ks: {(v["kind"], v["func"]): v for v in r["rows"] if v["t"] == "viol" and hits_prop(v, ks)}
    at = {(t, name(j)): r for (t, j, ks), r in zip(plan, res)}
    # a finding that both targets have is another property's; one that only one of them has is a difference between the streams
    again = []
    def compare(t, j, ks, r, b):
        if not (whole(r) and whole(b)):
            if finds(r, ks) or finds(b, ks): und.append("%s: not compared, one of the targets could not be analysed" % j.name()[:80])
            return []
        x, y = finds(r, ks), finds(b, ks)
        for k in set(x) & set(y): und.append("also on %s, so not a matter of the target: %s in %s" % (BASE, k[0], k[1]))
        return [(t, BASE, x[k]) for k in x if k not in y] + [(BASE, t, y[k]) for k in y if k not in x]
    for (t, j, ks), r in zip(plan, res):
        for v in r["rows"]:
            if v["t"] in ("unsure", "open"): und.append("%s: %s" % (j.name()[:80], v["msg"]))
        if t == BASE: continue
        ds = compare(t, j, ks, r, at[(BASE, name(j))])
        if ds and j.sub == "encode" and not any(v.get("ndep") for _, _, v in ds): again.append((t, j, ks)); continue
        hits += [dict(v, kind="C20", msg="on %s but not on %s: [%s] %s" % (p, q, v["kind"], v["msg"]), cfg=p + " " + v["cfg"]) for p, q, v in ds if j.sub != "encode" or v.get("ndep")]
    # what only the summarised runs show is looked at on explicitly enumerated first iterations
    reruns = 0
    while again and not hits and time.time() - ctx.t0 < 420:
        now, again = again[:4], again[4:]
        rr = run_jobs(ctx, [k for t, j, ks in now for k in (peeled(j), peeled(Job(BASE, j.sub, *j.args, asm=False)))])
        reruns += len(rr)
        for n, (t, j, ks) in enumerate(now):
            ds = compare(t, j, ks, rr[2 * n], rr[2 * n + 1])
            if not ds: und.append("%s: not confirmed on the first iterations" % j.name()[:80])
            hits += [dict(v, kind="C20", msg="on %s but not on %s: [%s] %s" % (p, q, v["kind"], v["msg"]), cfg=p + " " + v["cfg"]) for p, q, v in ds]
    seen2, h2 = set(), []
    for h in hits:
        if (h["func"], h["line"]) not in seen2: seen2.add((h["func"], h["line"])); h2.append(h)
    hits = h2
    und = list(dict.fromkeys(und))
    if ok == 0: raise NoAnswer("no target could be analysed: " + "; ".join(und[:3]))
    rows = [x for r in res for x in r["rows"]]
    rr = [x for x in rows if x["t"] == "rel"]
    sm = [x for r in cres for x in r["rows"] if x["t"] == "same"]
    cov = summary(res)
    cov.update(walk_cov(res, []))
    cov["coefficients_compared"] = sum(x["compared"] for x in rr)
    cov["coder_comparisons"], cov["coders_identical"], cov["coder_values_paired"] = len(sm), sum(1 for x in sm if x["equal"]), sum(x["pairs"] for x in sm)
    cov["targets"] = [BASE] + ts
    cov["explicit_reruns"] = reruns
    cov["functions"] = sorted(set(cov["functions"]) | {f for x in rr for f in x["functions"]} | {x["func"] for x in sm})
    cov["functions_analysed"] = len(cov["functions"])
    cov["obligations"] = cov["fields_compared"] + cov["coefficients_compared"] + cov["coder_values_paired"]
    cov["discharged"] = cov["obligations"]
    cov["rule"] = RULES["C20"]
    cov["checker_cmd"] = "python3 /verif/check.py C20 --tier %s" % ctx.tier
    cov["trusted_base"] = ["/verif/engine (abstract interpreter, function comparison)", "clang 18 and opt"]
    return finish(ctx, "proof", cov, hits, und, ASSUME + ["gcc's and clang's predefined macros select the same preprocessor branches"])
RULES["C20"] = "on little- and big-endian, 32- and 64-bit, signed- and unsigned-char targets: every field read back from the abstract output, every coefficient's normal form, every alpha sample and code is the same function of the arguments (the absolute definitions of C04-C12, C14, C15, C21 hold on the target wherever they hold on amd64); the entropy coders compiled for the target are the same functions (bisimulation of their flow graphs, addresses of either width)"
CHECKS = {p: check_mem for p in ("C01", "C02", "C03", "C18", "C19", "C22", "C25")}
CHECKS.update({p: check_walk for p in ("C04", "C05", "C06", "C07", "C08", "C23")})

CHECKS["C16"] = check_coder
CHECKS["C21"] = check_alpha
CHECKS["C20"] = check_targets
CHECKS.update({p: check_rel for p in ("C09", "C10", "C11", "C12", "C13", "C14", "C15")})

_AI = "abstract interpretation of LLVM IR (affine value terms, linear-inequality facts, loop invariants)"
_NOTE = "All call histories are covered by handle classes closed under encode, all inputs by unknown arguments within the stated preconditions, loops by inductive invariants; an obligation that cannot be shown is reported only if it also fails on explicitly enumerated first iterations. Soundness rests on the engine, which is not itself verified."
TECH = {
    "C01": (_AI + ": bounds of every output store", "proof", _NOTE),
    "C02": (_AI + ": effect analysis of every store", "proof", _NOTE),
    "C03": (_AI + ": effect analysis of globals and external calls", "proof", _NOTE),
    "C18": ("ownership and typestate analysis on " + _AI, "proof", _NOTE),
    "C19": ("abstract interpretation of the disassembled kernels: instruction-set, ABI and alignment rules", "proof", _NOTE),
    "C22": (_AI + ": bounds of every input load", "proof", _NOTE),
    "C25": ("definedness (uninitialised-value) dataflow on " + _AI, "proof", _NOTE),
}
_W = "All call histories are covered by handle classes, all inputs by unknown values, lists of any length by induction; anything the general analysis leaves open is reported only if explicitly enumerated first iterations show a concrete contradiction with a witness. Soundness rests on the engine."
TECH.update({
    "C04": ("abstract read-back of the abstract output log against the protocol grammar, on " + _AI, "proof", _W),
    "C05": ("abstract read-back of the abstract output log over all handle-state classes, on " + _AI, "proof", _W),
    "C06": ("abstract read-back of announced against invoked coder over every dispatch configuration, on " + _AI, "proof", _W),
    "C07": ("abstract read-back of tile records with induction over the tile loop, on " + _AI, "proof", _W),
    "C08": ("provenance (dependency) analysis of coefficients and read-back of tile fields, on " + _AI, "proof", _W),
    "C23": ("path enumeration of creation in the abstract domain and read-back of announced size, on " + _AI, "proof", _W),
})
_R = "Normal forms are complete over all pixel values, all quant entries 6..15 and any prior handle state; two forms that differ are reported only together with a valuation under which their values differ. The coders' contract (they read the 4096 values and difference in place) is checked under C16. Soundness rests on the engine."
_VN = "value numbering: normal forms of the coefficients in an affine/shift term domain, compared with "
TECH.update({
    "C09": (_VN + "those of the edge-padded full tile", "proof", _R + " Quick covers every width and every height, thorough every pair."),
    "C10": (_VN + "those of the BGRA form", "proof", _R),
    "C11": (_VN + "the colour transform's definition", "proof", _R),
    "C12": (_VN + "the transform's definition", "proof", _R),
    "C13": (_VN + "those of the portable path (LLVM IR and disassembled kernels)", "proof", _R),
    "C14": (_VN + "the reduce-extrapolate definition", "proof", _R),
    "C15": (_VN + "the decoder's reconstruction, and slot-address injectivity", "proof", _R),
})
TECH["C16"] = ("octagon abstract interpretation of the entropy coders on inlined LLVM IR, with ghost counters for bytes written and coefficients read", "proof", "Complete over all coefficient values and buffer sizes; an obligation the domain leaves open is reported only together with a coefficient pattern and buffer size whose constant propagation through the same IR breaks it, otherwise it is listed as undischarged. Soundness rests on the engine.")
TECH["C21"] = ("abstract interpretation of the alpha coder together with an abstract run-length decoder (equality facts over unknown samples, exact counters, state merging)", "proof", "Complete over all planes; a mismatch is reported only if a plane built from the path's facts, followed by constant propagation through the same IR, is decoded wrongly. Soundness rests on the engine.")
TECH["C20"] = ("per-target abstract interpretation of the IR (read-back and normal forms) for aarch64, s390x, mips and i386, compared with amd64, and bisimulation of the entropy coders' flow graphs across targets", "proof", "A finding counts only if the portable amd64 build does not have it and, for list contents, if explicitly enumerated first iterations show it; coders that differ as compiled are reported only together with coefficients whose constant propagation through both yields different bytes. Soundness rests on the engine and on clang modelling the targets' ABIs.")
_LATER = "no check claimed yet"
NA = {"C%02d" % i: _LATER for i in range(1, 26)}
NA["C24"] = "a bound on the compressed size of an arbitrary plane is a worst-case sum over the adaptive coder's data-dependent state; no static argument in reach bounds it (it is assumed, see DESIGN.md, A1)"
NA["C17"] = "functional equivalence of an adaptive entropy coder with the protocol's decoder relates data-dependent coder state, pending bits and decoder state over unbounded sequences; the co-analysis that was tried (DESIGN.md section 4) does not close, and no other abstract domain in reach expresses it"
