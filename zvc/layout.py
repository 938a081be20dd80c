"""Struct layouts by field name, obtained from the compiler on every run."""
import subprocess, os, re
TYPES = {
 "ZyanVector": ["allocator", "growth_factor", "shrink_threshold", "size", "capacity", "element_size", "destructor", "data"],
 "ZyanString": ["flags", "vector:ZyanVector"],
 "ZyanStringView": ["string:ZyanString"],
 "ZyanBitset": ["size", "bits:ZyanVector"],
 "ZyanList": ["allocator", "size", "element_size", "destructor", "head", "tail", "buffer", "capacity", "first_unused"],
 "ZyanListNode": ["prev", "next"],
 "ZyanAllocator": ["allocate", "reallocate", "deallocate"],
 "ZyanArgParseArg": ["def", "has_value", "value:ZyanStringView"],
 "ZyanArgParseDefinition": ["name", "boolean", "required"],
 "ZyanArgParseConfig": ["argv", "argc", "min_unnamed_args", "max_unnamed_args", "args"],
}
class Layout:
    def __init__(self, incs, defs, workdir):
        src = ["#include <stdio.h>", "#include <stddef.h>"]
        for h in ["Vector", "String", "Bitset", "List", "Allocator", "ArgParse"]: src.append("#include <Zycore/%s.h>" % h)
        src.append("int main(void){")
        for t, fs in TYPES.items():
            src.append('printf("T %s %%zu\\n", sizeof(%s));' % (t, t))
            for f in fs:
                n, _, sub = f.partition(":")
                src.append('printf("F %s %s %%zu %%zu %s\\n", offsetof(%s,%s), sizeof(((%s*)0)->%s));' % (t, n, sub or "-", t, n, t, n))
        src.append("return 0;}")
        c = os.path.join(workdir, "layout.c"); x = os.path.join(workdir, "layout.exe")
        open(c, "w").write("\n".join(src))
        subprocess.run(["clang-18", "-std=gnu11", "-w"] + defs + incs + [c, "-o", x], check=True)
        self.T = {}; self.F = {}
        for l in subprocess.run([x], capture_output=True, text=True, check=True).stdout.split("\n"):
            p = l.split()
            if not p: continue
            if p[0] == "T": self.T[p[1]] = int(p[2])
            else: self.F[(p[1], p[2])] = (int(p[3]), int(p[4]), None if p[5] == "-" else p[5])
    def size(self, t): return self.T[t]
    def field(self, t, path):
        off = 0
        parts = path.split(".")
        for q in parts:
            o, s, sub = self.F[(t, q)]; off += o; t = sub
        return off, s
    def sub(self, t, f):
        off = 0
        for q in f.split("."):
            o, s, sub = self.F[(t, q)]; off += o; t = sub
        return off, t
    def leaf_fields(self, t):
        r = []
        for (tt, f), (o, s, sub) in self.F.items():
            if tt != t: continue
            if sub: r += [f + "." + x for x in self.leaf_fields(sub)]
            else: r.append(f)
        return r
