"""C20: comparison generators, arithmetic macros, status and version macros of the public headers, through contracts/c/macros.c."""
import os
from zvc.registry import contract, HARNESS
from zvc import build
from zvc.spec import *
HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS["macros"] = ([HERE + "/c/macros.c", build.REPO + "/src/Zycore.c"], [])
W = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "bool": 8, "ptr": 64}
def lt(t, a, b): return slt(a, b, W[t]) if t[0] == "i" else ult(a, b)
def vals(h, t, *names):
    out = []
    for n in names: out.append(h.num(n, W[t], near=list(out) + [1 << (W[t] - 1)]))
    return out

@contract("C20", " ".join("%s_%s_%s" % (k, o, t) for t in W for k in ("gen", "fld", "def") for o in ("eq", "cmp") if k != "def" or t[0] in "ubp"), module="macros")
def comparisons(h):
    kind = h.choice("kind", ["gen", "fld", "def"]); op = h.choice("op", ["eq", "cmp"])
    t = h.choice("type", [t for t in W if kind != "def" or t[0] in "ubp"]); n = W[t] // 8
    a, b = vals(h, t, "left", "right")
    def cell(name, v):
        if kind != "fld": return h.raw(name, n, {0: (n, v)}, readonly=True)
        p, q = h.num(name + ".before", W[t]), h.num(name + ".after", W[t])
        return h.raw(name, 3 * n, {0: (n, p), n: (n, v), 2 * n: (n, q)}, readonly=True)
    l, r_ = cell("l", a), cell("r", b)
    def post(r):
        if op == "eq":
            r.ensure("C20", "equality function reports equality", eq(ne(r.ret, 0), eq(a, b)))
            r.ensure("C20", "a boolean is returned", Or(eq(r.ret, 0), eq(r.ret, 1)))
        else:
            r.ensure("C20", "negative exactly if left is less", eq(slt(r.ret, 0, 32), lt(t, a, b)))
            r.ensure("C20", "positive exactly if left is greater", eq(slt(0, r.ret, 32), lt(t, b, a)))
            r.ensure("C20", "zero exactly if both are equal", eq(eq(r.ret, 0), eq(a, b)))
    h.call("%s_%s_%s" % (kind, op, t), [l.ptr, r_.ptr], post)

@contract("C20", " ".join("%s_%s" % (o, t) for t in W if t[0] in "ui" for o in ("min", "max")) + " abs_i8 abs_i16 abs_i32 abs_i64 absi64", module="macros")
def min_max_abs(h):
    op = h.choice("op", ["min", "max", "abs", "absi64"])
    t = "i64" if op == "absi64" else h.choice("type", [t for t in W if t[0] in ("i" if op == "abs" else "ui")]); w = W[t]
    if op in ("abs", "absi64"):
        a, = vals(h, t, "a")
        if op == "abs": h.assume(ne(a, 1 << (w - 1)))
        neg = slt(a, 0, w)
        h.call("absi64" if op == "absi64" else "abs_" + t, [a], lambda r: r.ensure("C20", "absolute value", eq(r.ret, If8(neg, sub(0, a, w), a) if False else sel(neg, sub(0, a, w), a, w))))
        return
    a, b = vals(h, t, "a", "b"); c = lt(t, a, b)
    h.call("%s_%s" % (op, t), [a, b], lambda r: r.ensure("C20", "%simum of both values" % op, eq(r.ret, sel(c, a, b, w) if op == "min" else sel(c, b, a, w))))
def sel(c, a, b, w):
    if isinstance(c, bool): return a if c else b
    from zvc import terms as tt
    return tt.ite(c, a if not isinstance(a, int) else tt.bv(a, w), b if not isinstance(b, int) else tt.bv(b, w))

@contract("C20", " ".join("%s_%s" % (o, t) for t in ("u8", "u16", "u32", "u64") for o in ("pow2", "isal", "alup", "aldn", "div", "min3", "max3", "aldnx", "alupx", "pow2x")), module="macros")
def alignment(h):
    op = h.choice("op", ["pow2", "isal", "alup", "aldn", "div", "min3", "max3", "aldnx", "alupx", "pow2x"]); t = h.choice("type", ["u8", "u16", "u32", "u64"] if op != "div" else ["u64"]); w = W[t]
    x = h.num("x", w, near=[1 << (w - 1), 64]); y = None; f = op + "_" + t
    if op in ("pow2x", "alupx", "aldnx", "min3", "max3"): y = h.num("y", w)
    args = [x] + ([y] if y is not None else [])
    if op in ("min3", "max3"):
        z = h.num("z", w); q = bor(y, z, w) if op == "min3" else bxor(y, z, w)
        h.call(f, [x, y, z], lambda r: r.ensure("C20", "%simum with an expression argument" % op[:3], eq(r.ret, sel(ult(x, q), x, q, w) if op == "min3" else sel(ult(x, q), q, x, w)))); return
    v = bor(x, y, w) if y is not None else x
    if op in ("pow2", "pow2x"):
        h.call(f, args, lambda r: r.ensure("C20", "true exactly for zero and the powers of two", eq(ne(r.ret, 0), Or([eq(v, 0)] + [eq(v, 1 << i) for i in range(w)])))); return
    if op == "div":
        d = h.num("divisor", w); h.assume(ne(d, 0))
        h.call(f, [x, d], lambda r: r.ensure("C20", "quotient", eq(r.ret, udiv(x, d, w)))); return
    s = h.num("shift", w, dom=range(w)); h.assume(ult(s, w)); a = shl(1, s, w) if isinstance(s, int) or hasattr(s, "value") else shl_(s, w)
    floor = shl(lshr(v, s, w), s, w); aligned = eq(v, floor); up = sel(aligned, v, add(floor, a, w), w)
    def post(r):
        if op == "isal": r.ensure("C20", "true exactly for the multiples of the alignment", eq(ne(r.ret, 0), aligned))
        elif op in ("aldn", "aldnx"): r.ensure("C20", "largest multiple of the alignment not above the value", eq(r.ret, floor))
        else: r.ensure("C20", "smallest multiple of the alignment not below the value", Implies(ule(v, up), eq(r.ret, up)))
    h.call(f, args + [a], post)
def shl_(s, w):
    from zvc import terms as tt
    return tt.bv(1, w) << s

@contract("C20", "needs_bit bits_to_represent", module="macros")
def bits(h):
    op = h.choice("op", ["needs_bit", "bits_to_represent"]); n = h.num("n", 32, near=[1 << 31, 256])
    if op == "needs_bit":
        b = h.num("b", 32, dom=range(32)); h.assume(ult(b, 32))
        h.call(op, [n, b], lambda r: r.ensure("C20", "bit is needed exactly if the value is at least 2^b", eq(ne(r.ret, 0), ne(lshr(n, b, 32), 0)))); return
    def post(r):
        want = 0
        for i in range(32): want = sel(ne(lshr(n, i, 32), 0), i + 1, want, 32)
        r.ensure("C20", "number of bits up to the highest set one", eq(r.ret, want))
    h.call(op, [n], post)

@contract("C20", "st_make st_module st_code st_success st_failed st_check st_named st_module_user", module="macros")
def status(h):
    op = h.choice("op", ["make", "decode", "check", "named"])
    if op == "named":
        ids = h.choice("i", range(19)); j = h.choice("j", range(ids + 1)) if ids else 0
        def p1(r):
            a = r.ret
            r.ensure("C20", "success codes are not errors and error codes are", eq(ne(band(a, 0x80000000, 32), 0), ids >= 3))
            if not isinstance(a, int): a = a
            def p2(r2): r2.ensure("C20", "status codes are distinct", ne(a, r2.ret) if ids != j else eq(a, r2.ret))
            r.call("st_named", [j], p2)
        h.call("st_named", [ids], p1); return
    e, m, c = h.num("error", 32, dom=[0, 1]), h.num("module", 32, near=[0x7ff]), h.num("code", 32, near=[0xfffff])
    h.assume(And(ule(e, 1), ule(m, 0x7ff), ule(c, 0xfffff)))
    s = bor(bor(shl(e, 31, 32), shl(m, 20, 32), 32), c, 32)
    if op == "make": h.call("st_make", [e, m, c], lambda r: r.ensure("C20", "error flag in bit 31, module in bits 20 to 30, code below", eq(r.ret, s)))
    elif op == "check": h.call("st_check", [s], lambda r: r.ensure("C20", "failed statuses are returned to the caller, others are not", eq(r.ret, sel(eq(e, 1), s, 0x12345678, 32))))
    else:
        f = h.choice("f", ["module", "code", "success", "failed"])
        h.call("st_" + f, [s], lambda r: r.ensure("C20", "%s of a status" % f, eq(r.ret, m) if f == "module" else eq(r.ret, c) if f == "code" else eq(ne(r.ret, 0), eq(e, 0 if f == "success" else 1))))

@contract("C20", "ver_major ver_minor ver_patch ver_build ver_const ZycoreGetVersion", module="macros")
def version(h):
    f = h.choice("f", ["major", "minor", "patch", "build", "get"])
    if f == "get":
        def p(r):
            v = r.ret
            r.call("ver_const", [], lambda r2: r2.ensure("C20", "the version of the headers is returned", eq(v, r2.ret)))
        h.call("ZycoreGetVersion", [], p); return
    a, b, c, d = (h.num(n, 64, near=[65535]) for n in ("maj", "min", "pat", "bld"))
    h.assume(And([ule(x, 65535) for x in (a, b, c, d)]))
    v = bor(bor(shl(a, 48), shl(b, 32)), bor(shl(c, 16), d)); want = {"major": a, "minor": b, "patch": c, "build": d}[f]
    h.call("ver_" + f, [v], lambda r: r.ensure("C20", "version part", eq(zx(r.ret), want)))
