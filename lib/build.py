"""Compile /repo's current sources to LLVM IR and assembly listings (no code of /repo is ever run)."""
import glob, os, re, subprocess, sys
REPO = os.environ.get("VP_REPO", "/repo")

LAYOUT = r'''
#include <stddef.h>
#include <rfxcodec_encode.h>
#include "rfxcommon.h"
#include "rfxencode.h"
/* biased by one so that no member is a zero initialiser */
extern const long vp_layout[6];
const long vp_layout[6] = { offsetof(STREAM, p) + 1, offsetof(STREAM, data) + 1, offsetof(STREAM, size) + 1,
    sizeof(struct rfx_rb) + 1, sizeof(struct rfxencode) + 1, offsetof(struct rfxencode, dwt_buffer1) + 1 };
'''
TARGETS = {
    # name: (target triple, defines, arch source dir)
    "amd64": (None, ["-DSIMD_USE_ACCEL=1", "-DRFX_USE_ACCEL_AMD64=1"], "amd64"),
    "amd64-plain": (None, [], None),
    "x86": ("i386-pc-linux-gnu", ["-DSIMD_USE_ACCEL=1", "-DRFX_USE_ACCEL_X86=1"], "x86"),
    "aarch64": ("aarch64-linux-gnu", [], None),
    "s390x": ("s390x-linux-gnu", [], None),
    "mips": ("mips-linux-gnu", [], None),
}
class BuildError(Exception): pass
def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode != 0: raise BuildError(" ".join(cmd) + "\n" + p.stderr[-2000:])
    return p.stdout
def sources(arch):
    fs = sorted(glob.glob(REPO + "/src/*.c"))
    if arch: fs += sorted(glob.glob(REPO + "/src/%s/*.c" % arch))
    return fs
def asms(arch): return sorted(glob.glob(REPO + "/src/%s/*.asm" % arch)) if arch else []
# headers the cross targets need; only declarations, the analysis models the functions
STUBS = {
 "gnu/stubs-32.h": "", "gnu/stubs.h": "",
}
def ir(target, out):
    triple, defs, arch = TARGETS[target]
    d = os.path.join(out, target)
    os.makedirs(d, exist_ok=True)
    for n, t in STUBS.items():
        os.makedirs(os.path.dirname(os.path.join(d, "stubs", n)), exist_ok=True)
        open(os.path.join(d, "stubs", n), "w").write(t)
    lay = os.path.join(d, "vp_layout.c")
    open(lay, "w").write(LAYOUT)
    base = ["clang", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-emit-llvm", "-S", "-w"]
    if triple: base += ["-target", triple, "-isystem", os.path.join(d, "stubs"), "-isystem", "/usr/include/x86_64-linux-gnu", "-isystem", "/usr/include"]
    base += defs + ["-I" + REPO + "/include", "-I" + REPO + "/src"]
    objs, procs = [], []
    for i, f in enumerate(sources(arch) + [lay]):
        o = os.path.join(d, "%02d_%s.ll" % (i, os.path.basename(f)[:-2]))
        procs.append((f, o, subprocess.Popen(base + [f, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    for f, o, p in procs:
        _, err = p.communicate()
        if p.returncode != 0:
            if f == lay: continue
            raise BuildError("clang %s: %s" % (f, err[-1500:]))
        objs.append(o)
    allbc, allll = os.path.join(d, "all.bc"), os.path.join(d, "all.ll")
    run(["llvm-link" + SUF, "-S", "-o", allbc] + objs)
    run(["opt" + SUF, "-S", "-passes=sroa,mem2reg", "-o", allll, allbc])
    return allll
def inlined(ll, flat=False):
    """the same program with helpers inlined and, unless flat, common subexpressions merged (for the numeric analysis)"""
    o = ll[:-3] + (".flat.ll" if flat else ".inl.ll")
    keep = "simplifycfg<no-speculate-blocks;no-simplify-cond-branch;no-hoist-common-insts;no-sink-common-insts>"
    t = open(ll).read()
    open(o, "w").write("\n".join(l.replace(" noinline ", " ") if l.startswith("attributes #") else l for l in t.split("\n")))
    # flat: no pass whose outcome depends on the target's costs
    more = "," + keep.replace("<", "<no-keep-loops;") if flat else ",early-cse,%s,jump-threading,%s" % (keep, keep)
    run(["opt" + SUF, "-S", "-passes=cgscc(inline),function(sroa,mem2reg%s)" % more, "-inline-threshold=100000", o, "-o", o + ".tmp"])
    os.replace(o + ".tmp", o)
    return o
def asm(target, out):
    triple, defs, arch = TARGETS[target]
    d = os.path.join(out, target)
    os.makedirs(d, exist_ok=True)
    fmt = ["-f", "elf64", "-DASM_ARCH_AMD64", "-DPIC"] if arch == "amd64" else ["-f", "elf32", "-DASM_ARCH_I386", "-DPIC"]
    os_ = []
    for f in asms(arch):
        o = os.path.join(d, os.path.basename(f) + ".o")
        run(["nasm", "-g", "-F", "dwarf"] + fmt + ["-I" + REPO + "/src/", "-I" + REPO + "/src/%s/" % arch, f, "-o", o])
        os_.append(o)
    if not os_: return None
    elf, dis = os.path.join(d, "asm.elf"), os.path.join(d, "asm.dis")
    run(["ld"] + ([] if arch == "amd64" else ["-m", "elf_i386"]) + ["--unresolved-symbols=ignore-all", "-e", "0", "-o", elf] + os_)
    with open(dis, "w") as f:
        for c in (["-h"], ["-s"], ["-z", "-d", "-l", "-w", "-M", "intel"]): f.write(run(["objdump"] + c + [elf]))
    return dis
def suffix():
    from shutil import which
    for s in ("", "-18"):
        if which("llvm-link" + s) and which("opt" + s): return s
    return ""
SUF = suffix()
