"""Compiles /repo's current sources: LLVM IR for the proof, shared objects for replay."""
import subprocess, os, glob, shutil, tempfile
REPO = os.environ.get("ZVC_REPO", "/repo")
SRC = ["Vector", "String", "Bitset", "List", "Format", "ArgParse", "Allocator", "Zycore", "API/Memory", "API/Process", "API/Terminal", "API/Thread", "API/Synchronization"]
DEFS = ["-DZYCORE_STATIC_BUILD", "-D_GNU_SOURCE", "-D_CRT_SECURE_NO_WARNINGS"]
LENIENT = ["-Wno-error=" + x for x in ("int-conversion", "implicit-function-declaration", "implicit-int", "incompatible-function-pointer-types")]    # what gcc only warns about
def incs(): return ["-I" + REPO + "/include", "-I" + REPO + "/src"]
class BuildError(Exception): pass
def run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise BuildError(" ".join(cmd) + "\n" + p.stderr[-3000:])
    return p.stdout
def sources():
    """every C file of the library (new files included)"""
    s = sorted(glob.glob(REPO + "/src/**/*.c", recursive=True))
    return s
def to_ir(work, files, defs=(), name="all"):
    outs = []; procs = []
    for i, f in enumerate(files):
        o = os.path.join(work, "%s_%d.ll" % (name, i)); outs.append(o)
        procs.append((f, subprocess.Popen(["clang-18", "-std=gnu11", "-w"] + LENIENT + ["-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-fno-builtin-printf",
             "-emit-llvm", "-S"] + DEFS + list(defs) + incs() + [f, "-o", o], stderr=subprocess.PIPE, text=True)))
    for f, p in procs:
        e = p.communicate()[1]
        if p.returncode: raise BuildError("clang failed on %s:\n%s" % (f, e[-3000:]))
    l = os.path.join(work, name + "_l.ll"); o = os.path.join(work, name + ".ll")
    run(["llvm-link-18", "-S", "-o", l] + outs)
    run(["opt-18", "-passes=function(sroa,mem2reg,early-cse<memssa>,simplifycfg,loop-simplify)", "-S", l, "-o", o])
    return open(o).read()
SHIM = r'''
#include <Zycore/Allocator.h>
#include <stddef.h>
extern ZyanAllocator* zvc_real_default(void);
ZyanAllocator* zvc_default_override = NULL;
ZyanAllocator* ZyanAllocatorDefault(void) { return zvc_default_override ? zvc_default_override : zvc_real_default(); }
'''
def ext_stubs(work, name, exts):
    """stand-ins for system functions: every call goes to a recorder, never to the system"""
    p = os.path.join(work, "ext_%s.c" % name)
    with open(p, "w") as f:
        f.write("typedef unsigned long long u; u (*zvc_ext)(u, u, u, u, u, u);\n")
        for i, n in enumerate(exts): f.write("u %s(u a, u b, u c, u d) { return zvc_ext ? zvc_ext(%d, a, b, c, d, 0) : 0; }\n" % (n, i))
    return p
def to_so(work, files, defs=(), name="lib", extra=(), ubsan=True, shim_default=True):
    objs = []; procs = []
    shim = os.path.join(work, "shim.c"); open(shim, "w").write(SHIM)
    fl = ["-std=gnu11", "-w"] + LENIENT + ["-g", "-O1", "-fPIC", "-fno-omit-frame-pointer"]
    if ubsan: fl += ["-fsanitize=undefined", "-fno-sanitize=alignment,pointer-overflow,null,nonnull-attribute", "-fsanitize-trap=undefined"]
    for i, f in enumerate(list(files) + ([shim] if any(x.endswith("/Allocator.c") for x in files) and shim_default else []) + list(extra)):
        o = os.path.join(work, "%s_%d.o" % (name, i)); objs.append(o)
        d = ["-DZyanAllocatorDefault=zvc_real_default"] if f.endswith("/Allocator.c") and shim_default else []
        procs.append((f, subprocess.Popen(["clang-18"] + fl + (["-fno-builtin", "-ffreestanding"] if "/ext_" in f else []) + DEFS + d + list(defs) + incs() + ["-c", f, "-o", o], stderr=subprocess.PIPE, text=True)))
    for f, p in procs:
        e = p.communicate()[1]
        if p.returncode: raise BuildError("clang failed on %s:\n%s" % (f, e[-3000:]))
    so = os.path.join(work, name + ".so")
    run(["clang-18", "-shared", "-Wl,-Bsymbolic", "-o", so + ".part"] + objs + ["-lpthread", "-lm"]); os.replace(so + ".part", so)
    return so
