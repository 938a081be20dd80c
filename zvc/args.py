"""The command line handed to the argument parser: token strings, the array of tokens, the table of definitions, the vector of parsed
arguments, and the meaning of the command line as a recursion over the tokens.

Meaning.  D definitions, argc tokens.  FB: first malformed definition (D if none).  FL(i): first definition whose name is token i.
FS(c): first single-letter definition of letter c.  SJ(i): first letter of token i (from 1) that is not a boolean flag, or its length.
T(i): an argument starts at token i; then ACC(i) (dashed arguments are still accepted), UN(i) (unnamed arguments so far) and NP(i) (parsed
arguments so far) are the state in front of it.  SD, SH, SVi, SVk: definition, presence of a value and value (suffix of a token) of the
q-th parsed argument.  OUTCOME, FTOK: the status and the token reported.  FP(d): first parsed argument with definition d.  FM: first
required definition without one.  All of them are determined by the recursion; its equations are assumed at the terms that occur."""
import z3
from .terms import *
from .mem import *
from .ir import Unsupported
from . import spec as S

FSTR = {}
def fun(name, *ws):
    return z3.Function(name, *[BVS(w) for w in ws])
INVALID, NU, FEW, MANY, MV, REQ, OK = 0x80100004, 0x80300000, 0x80300001, 0x80300002, 0x80300003, 0x80300004, 0x00100000
LIM = 1 << 47
def Z(b): return S._zb(b)

class StrMem:
    """read-only strings: cell = number of the string, byte = position"""
    kind = "strings"; live = True; node = None
    def __init__(self, oid, ch, ln, learn, seen=(), chars=()): self.oid, self.ch, self.ln, self.learn, self.seen, self.chars = oid, ch, ln, learn, tuple(seen), tuple(chars)
    def copy(self): return StrMem(self.oid, self.ch, self.ln, self.learn, self.seen, self.chars)
    def changed(self, m): return set()
    def havoc(self, ctx, name, parts): return self.copy()
    def where(self, ctx, p): s = to_scaled(p.off, ctx.objs[p.obj].info["nodes"]); return z3.simplify(s.cell), z3.simplify(s.byte)
    def read(self, ctx, st, p, what="read"):
        i, k = self.where(ctx, p); ctx.oblige(st, "safety", "%s inside the string (%s)" % (what, ctx.where(st)), And(Not(beq(i, bv(-1))), ule(k, self.ln(i))))
        v = self.ch(i, k); m = st.w(self.oid)
        if not any(a.eq(i) and b.eq(k) for a, b in m.chars): m.chars += ((i, k),); self.learn(ctx, st, i, k)
        return v
    def load(self, ctx, st, p, ty, size):
        if size != 1: raise Unsupported("wide read of a string")
        return self.read(ctx, st, p)
    def store(self, ctx, st, p, ty, size, v): ctx.oblige(st, "safety", "no write to the argument strings (%s)" % ctx.where(st), F); return None
    def memcopy(self, ctx, st, d, s, n, o): raise Unsupported("copy over the argument strings")

class TableMem:
    """read-only array of records"""
    kind = "table"; live = True; node = None
    def __init__(self, oid, stride, cells, get, learn, seen=()): self.oid, self.stride, self.cells, self.get, self.learn, self.seen = oid, stride, cells, get, learn, tuple(seen)
    def copy(self): return TableMem(self.oid, self.stride, self.cells, self.get, self.learn, self.seen)
    def changed(self, m): return set()
    def havoc(self, ctx, name, parts): return self.copy()
    def load(self, ctx, st, p, ty, size):
        s = to_scaled(p.off, self.stride); c, b = z3.simplify(s.cell), z3.simplify(s.byte)
        if not is_c(b): raise Unsupported("symbolic offset into a table")
        ctx.oblige(st, "safety", "read inside %s (%s)" % (ctx.objs[self.oid].name, ctx.where(st)), ult(c, self.cells))
        m = st.w(self.oid)
        if not any(x.eq(c) for x in m.seen): m.seen += (c,); self.learn(ctx, st, c)
        v = self.get(c, cval(b), size)
        if v is None: raise Unsupported("read of part of a record")
        return v
    def store(self, ctx, st, p, ty, size, v): ctx.oblige(st, "safety", "no write to %s (%s)" % (ctx.objs[self.oid].name, ctx.where(st)), F); return None
    def memcopy(self, ctx, st, d, s, n, o): raise Unsupported("copy over a table")

INTS = {8: 1, 16: 1, 32: 1, 33: 1, 40: 8, 48: 8, 56: 8}; PTRS = (24, 64); ARG = 80
class ArgMem:
    """the elements of the vector of parsed arguments.  Growing the vector may move them: afterwards only the newest element is known by
    the pointer just obtained, until a pointer is asked for again"""
    kind = "parsed"; live = True; node = None
    def __init__(self, cl, oid, logs, facts=(), stable=False): self.cl, self.oid, self.logs, self.facts, self.stable = cl, oid, dict(logs), list(facts), stable
    def copy(self): return ArgMem(self.cl, self.oid, self.logs, self.facts, self.stable)
    def changed(self, m): return {k for k in self.logs if self.logs[k] is not m.logs[k]} | ({"stable"} if self.stable != m.stable else set())
    def havoc(self, ctx, name, parts):
        m = self.copy()
        for k in parts:
            if k == "stable": m.stable = False; continue
            f = fresh_fn("loopmem_%s" % k, BVS(64), BVS(64)); m.logs[k] = node_base(lambda c, b, f=f: f(c))
        return m
    def cell(self, ctx, st, p, what):
        s = to_scaled(p.off, ARG); c, b = z3.simplify(s.cell), z3.simplify(s.byte)
        if not is_c(b): raise Unsupported("symbolic offset into a parsed argument")
        n = self.cl.size(st)
        ctx.oblige(st, "safety", "%s of a parsed argument that is in the vector (%s)" % (what, ctx.where(st)), And(ult(c, n), T if self.stable else beq(badd(c, bv(1)), n)))
        for f in self.facts: st.assume(f(c))
        for d in st.mem[self.cl.defs].seen: st.assume(Implies_(ult(c, self.cl.FP(d)), Not(beq(self.cl.SD(c), d))))
        return c, cval(b)
    def get(self, k, c, ctx): return log_read(self.logs[k], c, bv(0), ctx)
    def load(self, ctx, st, p, ty, size):
        c, b = self.cell(ctx, st, p, "read"); cl = self.cl
        if b == 0 and size == 8: v = Ptr(cl.defs, Scaled(self.get("def", c, ctx), bv(0), 16)); return v if ty.k == "ptr" else ctx.ptr2int(v)
        if b == 72 and size == 8: v = Ptr(cl.strs, Scaled(self.get("vi", c, ctx), self.get("vk", c, ctx), cl.S)); return v if ty.k == "ptr" else ctx.ptr2int(v)
        if INTS.get(b) == size: return trunc(self.get(b, c, ctx), 8 * size) if size < 8 else self.get(b, c, ctx)
        raise Unsupported("read of part of a parsed argument")
    def put(self, ctx, st, c, b, size, v):
        cl = self.cl; m = st.w(self.oid); w = lambda k, x: m.logs.__setitem__(k, Node("store", m.logs[k], c, bv(0), x))
        null = isinstance(v, Ptr) and v.obj is None and is_c(flat(v.off)) and cval(flat(v.off)) == 0 or isinstance(v, z3.BitVecRef) and is_c(v) and cval(v) == 0
        if b == 0 and size == 8:
            if null: w("def", bv(-1))
            elif isinstance(v, Ptr) and v.obj == cl.defs and is_c(z3.simplify(to_scaled(v.off, 16).byte)) and cval(z3.simplify(to_scaled(v.off, 16).byte)) == 0: w("def", to_scaled(v.off, 16).cell)
            else: ctx.oblige(st, "safety", "the definition of a parsed argument is one of the table or null (%s)" % ctx.where(st), F); return None
        elif b == 72 and size == 8:
            if null: w("vi", bv(-1)); w("vk", bv(0))
            elif isinstance(v, Ptr) and v.obj == cl.strs: s = to_scaled(v.off, cl.S); w("vi", s.cell); w("vk", s.byte)
            else: ctx.oblige(st, "safety", "the value of a parsed argument lies in a token (%s)" % ctx.where(st), F); return None
        elif INTS.get(b) == size:
            if v is UNDEF: v = fresh_bv("undef", 8 * size)
            if not isinstance(v, z3.BitVecRef): raise Unsupported("pointer stored in an integer of a parsed argument")
            w(b, zext(v, 64))
        elif b in PTRS and size == 8: pass
        else: raise Unsupported("write of part of a parsed argument")
        return True
    def store(self, ctx, st, p, ty, size, v):
        c, b = self.cell(ctx, st, p, "write"); return self.put(ctx, st, c, b, size, v)
    def memfill(self, ctx, st, d, v, n):
        c, b = self.cell(ctx, st, d, "fill"); n = z3.simplify(flat(n))
        if b != 0 or not is_c(n) or cval(n) != ARG or not is_c(v) or cval(v) != 0: raise Unsupported("fill of part of a parsed argument")
        for o, s in INTS.items(): self.put(ctx, st, c, o, s, bv(0, 8 * s))
        for o in (0, 72): self.put(ctx, st, c, o, 8, NULL)
        return True
    def memcopy(self, ctx, st, d, s, n, ov):
        c, b = self.cell(ctx, st, d, "write"); n = z3.simplify(flat(n)); sm = st.mem[s.obj]
        if b != 0 or not is_c(n) or cval(n) != ARG or sm.kind != "struct": raise Unsupported("copy of part of a parsed argument")
        so = cval(z3.simplify(flat(s.off)))
        for o, size in list(INTS.items()) + [(0, 8), (72, 8)]:
            f = sm.fields.get(so + o)
            if f is not None and f[0] == size: v = f[1]
            elif f is None and not any(x < so + o + size and so + o < x + y for x, (y, _) in sm.fields.items()): v = UNDEF if size < 8 or o not in (0, 72) else NULL
            else:
                bs = [ctx.struct_byte(sm, so + o + i) for i in range(size)]
                if any(x is None for x in bs): raise Unsupported("copy of part of a parsed argument")
                v = z3.simplify(z3.Concat(*bs[::-1])) if size > 1 else bs[0]
            if self.put(ctx, st, c, o, size, v) is None: return None
        return True

class Cmdline:
    """h.cmdline(): the symbolic command line"""
    def __init__(self, h, null_defs):
        self.h = h; ctx = self.ctx = h.ctx; self.null_defs = null_defs
        ctx.strides_const = (8, 16, 80)
        self.argc, self.min, self.max = h.num("argc"), h.num("min unnamed"), h.num("max unnamed"); self.D = bv(0) if null_defs else h.num("definitions")
        h.assume(And(ult(self.argc, bv(LIM)), ult(self.D, bv(LIM)))); self.E = ite(beq(self.argc, bv(0)), bv(1), self.argc)
        self.S = z3.BitVec("string_stride", 64)
        f = fun
        self.LEN, self.CH, self.NLEN, self.NCH = f("len", 64, 64), f("char", 64, 64, 8), f("namelen", 64, 64), f("namechar", 64, 64, 8)
        self.BOOL, self.REQD, self.EQ = f("boolean", 64, 8), f("required", 64, 8), z3.Function("name_is_token", BVS(64), BVS(64), z3.BoolSort())
        self.FL, self.FS, self.SJ = f("FL", 64, 64), f("FS", 8, 64), f("SJ", 64, 64)
        self.T = z3.Function("T", BVS(64), z3.BoolSort()); self.ACC, self.UN, self.NP = f("ACC", 64, 8), f("UN", 64, 64), f("NP", 64, 64)
        self.SD, self.SVi, self.SVk = f("SD", 64, 64), f("SVi", 64, 64), f("SVk", 64, 64); self.SH = z3.Function("SH", BVS(64), z3.BoolSort())
        self.FP = f("FP", 64, 64); self.FB, self.FM, self.FTOK, self.OUT = z3.BitVec("FB", 64), z3.BitVec("FM", 64), z3.BitVec("FTOK", 64), z3.BitVec("OUTCOME", 32)
        new = ctx.new_obj
        o = new("strs", readonly=True); self.strs = o.id; o.info["nodes"] = self.S
        o = new("names", readonly=True); self.names = o.id; o.info["nodes"] = self.S
        o = new("defs", readonly=True); self.defs = o.id; o.info["nodes"] = 16
        o = new("argv", readonly=True); self.argv = o.id
        o = new("parsed arguments"); self.args = o.id; o.info["nodes"] = ARG
        mem = h.st.mem
        mem[self.strs] = StrMem(self.strs, self.CH, self.LEN, self.learn_char); mem[self.names] = StrMem(self.names, self.NCH, self.NLEN, self.learn_name)
        mem[self.argv] = TableMem(self.argv, 8, self.argc, lambda c, b, n: Ptr(self.strs, Scaled(c, bv(0), self.S)) if (b, n) == (0, 8) else None, self.learn_token)
        mem[self.defs] = TableMem(self.defs, 16, badd(self.D, bv(1)), self.definition, self.learn_def)
        logs = {k: node_base(lambda c, b, g=z3.Function("parsed_%s" % k, BVS(64), BVS(64)): g(c)) for k in ["def", "vi", "vk"] + list(INTS)}
        mem[self.args] = ArgMem(self, self.args, logs)
        self.parsed = h.struct("ZyanVector", {}, garbage="garb", name="parsed"); self.al = h.struct("ZyanAllocator", {}, name="allocator"); h.default_allocator(self.al)
        self.cfg = h.struct("ZyanArgParseConfig", {"argv": Ptr(self.argv, bv(0)), "argc": self.argc, "min_unnamed_args": self.min, "max_unnamed_args": self.max, "args": None if null_defs else Ptr(self.defs, Scaled(bv(0), bv(0), 16))}, readonly=True, name="cfg")
        h.ghost("vector", 0); self.q = h.forall("q")
        self.externals(); self.vector_contracts(); self.begin(); self.hook()
    # ---- the program's view
    def definition(self, c, b, n):
        if (b, n) == (0, 8): return Ptr(self.names, Scaled(ite(beq(c, self.D), bv(-1), c), bv(0), self.S))
        if (b, n) == (8, 1): return self.BOOL(c)
        if (b, n) == (9, 1): return self.REQD(c)
    def size(self, st): return st.mem[self.parsed.oid].fields[self.h.lay.field("ZyanVector", "size")[0]][1]
    # ---- the equations
    def A(self, st, *fs):
        for f in fs: st.assume(f)
    def yes(self, d): return Not(beq(self.BOOL(d), bv(0, 8)))
    def known(self, d): return ult(d, self.D)
    def flag(self, c): f = self.FS(c); return And(self.known(f), self.yes(f))
    def good(self, d): return And(ule(bv(2), self.NLEN(d)), beq(self.NCH(d, bv(0)), bv(45, 8)), Or(beq(self.NCH(d, bv(1)), bv(45, 8)), beq(self.NLEN(d), bv(2))))
    def letter(self, d, c): return And(beq(self.NLEN(d), bv(2)), beq(self.NCH(d, bv(0)), bv(45, 8)), beq(self.NCH(d, bv(1)), c))
    def begin(self):
        h = self.h; A = h.assume; D = self.D; bad = Or(ult(self.max, self.min), ult(self.FB, D)); self.bad = bad
        A(ule(self.FB, D)); A(Implies_(ult(self.FB, D), Not(self.good(self.FB)))); A(Implies_(bad, beq(self.OUT, bv(INVALID, 32))))
        self.zero_str(h.st, self.FB)
        one = bv(1); A(self.T(one)); A(beq(self.ACC(one), bv(1, 8))); A(beq(self.UN(one), bv(0))); A(beq(self.NP(one), bv(0)))
        E = self.E; end = And(Not(bad), self.T(E)); few = ult(self.UN(E), self.min); A(ule(self.FM, D))
        A(Implies_(end, beq(self.OUT, ite(few, bv(FEW, 32), ite(ult(self.FM, D), bv(REQ, 32), bv(OK, 32))))))
        A(Implies_(ult(self.FM, D), And(Not(beq(self.REQD(self.FM), bv(0, 8))), beq(self.FP(self.FM), self.NP(E)))))
        self.range_T(h.st, E)
    def range_T(self, st, i): self.A(st, Implies_(self.T(i), And(ult(self.UN(i), bv(LIM)), ult(self.NP(i), bv(1 << 56)))))
    def zero_str(self, st, d):
        """the string facts of a name at its first two characters"""
        for k in (0, 1): self.name_char(st, d, bv(k))
    def name_char(self, st, d, k): self.A(st, ult(self.NLEN(d), bv(LIM)), Implies_(ult(k, self.NLEN(d)), Not(beq(self.NCH(d, k), bv(0, 8)))), Implies_(beq(k, self.NLEN(d)), beq(self.NCH(d, k), bv(0, 8))))
    def tok_char(self, st, i, k): self.A(st, ult(self.LEN(i), bv(LIM)), Implies_(ult(k, self.LEN(i)), Not(beq(self.CH(i, k), bv(0, 8)))), Implies_(beq(k, self.LEN(i)), beq(self.CH(i, k), bv(0, 8))))
    def learn_name(self, ctx, st, d, k): self.name_char(st, d, k)
    def learn_def(self, ctx, st, d):
        self.zero_str(st, d); self.A(st, Implies_(ult(d, self.FB), self.good(d)))
        N = self.NP(self.E); fp = self.FP(d)
        self.A(st, Implies_(ult(d, self.FM), Or(beq(self.REQD(d), bv(0, 8)), ult(fp, N))), ule(fp, N), Implies_(ult(fp, N), beq(self.SD(fp), d)))
        for i in st.mem[self.argv].seen: self.def_token(st, d, i)
        for i, k in st.mem[self.strs].chars: self.def_char(st, d, i, k)
    def def_token(self, st, d, i): self.A(st, Implies_(ult(d, self.FL(i)), Not(self.EQ(d, i))))
    def def_char(self, st, d, i, k):
        if is_c(k) and cval(k) == 0: return
        c = self.CH(i, k); self.A(st, Implies_(ult(d, self.FS(c)), Not(self.letter(d, c))))
    def char_facts(self, st, c):
        f = self.FS(c); self.zero_str(st, f); self.A(st, ule(f, self.D), Implies_(ult(f, self.D), self.letter(f, c)))
    def learn_token(self, ctx, st, i):
        for k in (0, 1): self.tok_char(st, i, bv(k))
        f = self.FL(i); self.A(st, ule(f, self.D), Implies_(ult(f, self.D), self.EQ(f, i))); s = self.SJ(i)
        for d in st.mem[self.defs].seen: self.def_token(st, d, i)
        self.step(st, i)
    def learn_char(self, ctx, st, i, k):
        self.tok_char(st, i, k)
        if is_c(k) and cval(k) == 0: return
        c = self.CH(i, k); self.char_facts(st, c)
        for d in st.mem[self.defs].seen: self.def_char(st, d, i, k)
        self.letter_step(st, i, k)
    def shape(self, i):
        L = self.LEN(i); dash = bv(45, 8); acc = Not(beq(self.ACC(i), bv(0, 8))); two = ule(bv(2), L)
        long = And(acc, two, beq(self.CH(i, bv(0)), dash), beq(self.CH(i, bv(1)), dash)); short = And(acc, Not(long), two, beq(self.CH(i, bv(0)), dash)); return long, short
    def step(self, st, i):
        L = self.LEN(i); long, short = self.shape(i); stop = And(long, beq(L, bv(2))); lg = And(long, Not(beq(L, bv(2)))); unn = And(Not(long), Not(short)); fl = self.FL(i); s = self.SJ(i); cs = self.CH(i, s); fs = self.FS(cs)
        last = beq(i, bsub(self.argc, bv(1))); one = bv(1); c32 = lambda x: bv(x, 32)
        vl = And(self.known(fl), Not(self.yes(fl))); hit = ult(s, L); end = beq(badd(s, one), L)
        self.A(st, Implies_(short, And(ule(one, s), ule(s, L), Implies_(hit, Not(self.flag(cs)))))); self.tok_char(st, i, s); self.char_facts(st, cs)
        fail = ite(lg, ite(Not(self.known(fl)), c32(NU), ite(And(vl, last), c32(MV), c32(0))),
                   ite(short, ite(And(hit, Not(self.known(fs))), c32(NU), ite(And(hit, end, last), c32(MV), c32(0))),
                   ite(unn, ite(ult(self.max, badd(self.UN(i), one)), c32(MANY), c32(0)), c32(0))))
        here = And(self.T(i), ult(i, self.argc)); two = Or(And(lg, vl), And(short, hit, end)); nx = ite(two, badd(i, bv(2)), badd(i, one))
        cnt = ite(stop, bv(0), ite(short, ite(hit, s, bsub(L, one)), one))
        self.A(st, Implies_(And(Not(self.bad), here, Not(beq(fail, c32(0)))), And(beq(self.OUT, fail), beq(self.FTOK, i))))
        for n, g in ((badd(i, one), Not(two)), (badd(i, bv(2)), two)):
            self.A(st, Implies_(And(here, beq(fail, c32(0)), g), And(self.T(n), beq(self.ACC(n), ite(stop, bv(0, 8), self.ACC(i))), beq(self.UN(n), badd(self.UN(i), b2bv(unn, 64))), beq(self.NP(n), badd(self.NP(i), cnt))))); self.range_T(st, n)
        q = self.NP(i); nofail = beq(fail, c32(0))
        self.A(st, Implies_(And(here, lg, nofail), And(beq(self.SD(q), fl), self.SH(q) == vl, beq(self.SVi(q), badd(i, one)), beq(self.SVk(q), bv(0)))),
                   Implies_(And(here, unn, nofail), And(beq(self.SD(q), bv(-1)), self.SH(q), beq(self.SVi(q), i), beq(self.SVk(q), bv(0)))))
        self.range_T(st, i)
    def letter_step(self, st, i, j):
        long, short = self.shape(i); L = self.LEN(i); s = self.SJ(i); one = bv(1); c = self.CH(i, j); q = badd(self.NP(i), bsub(j, one)); inside = badd(j, one); f = self.FS(c)
        self.A(st, Implies_(And(short, ule(one, j), ult(j, s)), self.flag(c)))
        at = beq(j, s); here = And(self.T(i), ult(i, self.argc), short, ule(one, j), ule(j, s), ult(j, L), Or(Not(at), self.known(f)))
        self.A(st, Implies_(here, And(beq(self.SD(q), f), self.SH(q) == at, Implies_(at, And(beq(self.SVi(q), ite(ult(inside, L), i, badd(i, one))), beq(self.SVk(q), ite(ult(inside, L), inside, bv(0))))))))
    # ---- contracts of the C library and of the vector functions
    def externals(self):
        E = self.ctx.externals; self.eqs = []
        def strm(st, p): return st.mem[p.obj] if isinstance(p, Ptr) and p.obj in (self.strs, self.names) else None
        def strlen(ctx, st, args):
            m = strm(st, args[0])
            if m is None:
                if isinstance(args[0], Ptr) and args[0].obj is None: ctx.oblige(st, "safety", "string length of a valid pointer (%s)" % ctx.where(st), F); return []
                raise Unsupported("strlen")
            i, k = m.where(ctx, args[0]); ctx.oblige(st, "safety", "string length inside the string (%s)" % ctx.where(st), And(Not(beq(i, bv(-1))), ule(k, m.ln(i))))
            st.assume(ult(m.ln(i), bv(LIM))); return bsub(m.ln(i), k)
        def strcmp(ctx, st, args):
            a, b = args
            if isinstance(a, Ptr) and a.obj == self.strs: a, b = b, a
            ma, mb = strm(st, a), strm(st, b)
            if ma is None or mb is None or a.obj != self.names or b.obj != self.strs: raise Unsupported("strcmp")
            (d, x), (i, y) = ma.where(ctx, a), mb.where(ctx, b)
            if not (is_c(x) and is_c(y) and cval(x) == 0 and cval(y) == 0): raise Unsupported("comparison of parts of strings")
            ctx.oblige(st, "safety", "comparison of strings (%s)" % ctx.where(st), And(Not(beq(d, bv(-1))), Not(beq(i, bv(-1)))))
            r = fresh_bv("strcmp", 32); e = self.EQ(d, i); st.assume(beq(r, bv(0, 32)) == e)
            st.assume(Implies_(e, And(beq(self.NLEN(d), self.LEN(i)), *[beq(self.NCH(d, bv(k)), self.CH(i, bv(k))) for k in (0, 1)]))); return r
        def memcmp(ctx, st, args):
            n = z3.simplify(flat(args[2]))
            if not is_c(n) or cval(n) > 8: raise Unsupported("memcmp of %s bytes" % n)
            from .ir import INT
            eq = []
            for k in range(cval(n)):
                v = [ctx.load(st, Ptr(p.obj, num_add(p.off, bv(k))), INT(8)) for p in args[:2]]
                if v[0] is None or v[1] is None: return []
                eq.append(beq(v[0], v[1]))
            r = fresh_bv("memcmp", 32); st.assume(beq(r, bv(0, 32)) == And(*eq)); return r
        def strncmp(ctx, st, args):
            n = z3.simplify(flat(args[2]))
            if not is_c(n) or cval(n) > 4: raise Unsupported("strncmp")
            from .ir import INT
            # the characters up to the first difference or terminator
            eq = T; go = T; r = fresh_bv("strncmp", 32)
            for k in range(cval(n)):
                ps = [Ptr(p.obj, num_add(p.off, bv(k))) for p in args[:2]]; v = []
                for p in ps:
                    m = strm(st, p)
                    if m is None: x = ctx.load(st, p, INT(8))
                    else: i, kk = m.where(ctx, p); ctx.oblige(st, "safety", "comparison inside the string (%s)" % ctx.where(st), Implies_(And(eq, go), ule(kk, m.ln(i)))); x = m.ch(i, kk); m.learn(ctx, st, i, kk)
                    v.append(x)
                eq = And(eq, Or(Not(go), beq(v[0], v[1]))); go = And(go, Not(beq(v[0], bv(0, 8))))
            st.assume(beq(r, bv(0, 32)) == eq); return r
        E.update(strlen=strlen, strcmp=strcmp, memcmp=memcmp, strncmp=strncmp)
    def vector_contracts(self):
        ctx = self.ctx; h = self.h; V = self.parsed; lay = h.lay; O = ctx.override
        from .sym import _err_status, PTRTY, ITY
        def pre(st, what, ok): ctx.oblige(st, "pre", what, ok, h.props_of if hasattr(h, "props_of") else None)
        def mine(st, p, name):
            ok = isinstance(p, Ptr) and p.obj == V.oid and is_c(flat(p.off)) and cval(flat(p.off)) == 0
            pre(st, "%s is given the vector of parsed arguments, initialised" % name, And(T if ok else F, beq(st.ghost["vector"], bv(1)))); return ok
        def fail(st, k):
            s2 = st.copy(); code, c = _err_status("st_" + k); s2.assume(c); s2.events += ((k, {"ok": False, "status": code}),); return s2, code
        ok32 = bv(OK, 32); fld = lambda st, k, v: (st.w(V.oid), h.set_field(V, k, v, st=st))
        def init(ctx, st, args):
            p, es, cap, dtor, al, g, s = args if len(args) == 7 else list(args) + [bv(0, 8)] * 2
            good = isinstance(p, Ptr) and p.obj == V.oid and isinstance(al, Ptr) and al.obj == self.al.oid and isinstance(dtor, Ptr) and dtor.obj is None
            pre(st, "the vector is set up once, for parsed arguments without a destructor, with the given allocator", And(T if good else F, beq(st.ghost["vector"], bv(0)), beq(flat(es), bv(ARG)), T if len(args) < 7 else ule(bv(1, 8), g)))
            if not good: return []
            out = [fail(st, "allocate")]
            for k, v in (("allocator", al), ("growth_factor", g), ("shrink_threshold", s), ("size", bv(0)), ("capacity", self.capacity(st, bv(0))), ("element_size", bv(ARG)), ("destructor", NULL), ("data", Ptr(self.args, Scaled(bv(0), bv(0), ARG)))): fld(st, k, v)
            st.ghost["vector"] = bv(1); return out + [(st, ok32)]
        def grow(st, name):
            n = self.size(st); fld(st, "size", badd(n, bv(1))); fld(st, "capacity", self.capacity(st, badd(n, bv(1)))); m = st.w(self.args); m.stable = False
            return n, Ptr(self.args, Scaled(n, bv(0), ARG))
        def emplace(ctx, st, args):
            p, out, ctor = args
            if not mine(st, p, "emplacing"): return []
            pre(st, "no constructor", T if isinstance(ctor, Ptr) and ctor.obj is None else F); r = [fail(st, "reallocate")]
            n, e = grow(st, "emplace"); return r + ([(st, ok32)] if ctx.store(st, out, PTRTY, e) is not None else [])
        def push(ctx, st, args):
            p, x = args
            if not mine(st, p, "pushing"): return []
            r = [fail(st, "reallocate")]; n, e = grow(st, "push"); return r + ([(st, ok32)] if ctx.memcopy(st, e, x, bv(ARG), False) is not None else [])
        def size(ctx, st, args):
            if not mine(st, args[0], "asking for the size"): return []
            return ok32 if ctx.store(st, args[1], ITY(64), self.size(st)) is not None else []
        def pointer(get):
            def f(ctx, st, args):
                if not mine(st, args[0], "asking for an element"): return []
                i = flat(args[1]); n = self.size(st); out = []; inr = ult(i, n)
                if ctx.feasible(st, Not(inr)):
                    s2 = st.copy(); s2.assume(Not(inr)); out.append((s2, NULL if get else bv(0x80100008, 32)))
                if not ctx.feasible(st, inr): return out
                st.assume(inr); m = st.w(self.args); m.stable = True; e = Ptr(self.args, Scaled(i, bv(0), ARG))
                if get: return out + [(st, e)]
                return out + ([(st, ok32)] if ctx.store(st, args[2], PTRTY, e) is not None else [])
            return f
        def destroy(ctx, st, args):
            if not mine(st, args[0], "destroying"): return []
            s2, code = fail(st, "deallocate")
            for s in (s2, st): s.ghost["vector"] = bv(2)
            return [(s2, code), (st, ok32)]
        O.update(ZyanVectorInitEx=init, ZyanVectorEmplace=emplace, ZyanVectorPushBack=push, ZyanVectorGetSize=size, ZyanVectorGetPointer=pointer(False), ZyanVectorGetPointerMutable=pointer(False), ZyanVectorGet=pointer(True), ZyanVectorGetMutable=pointer(True), ZyanVectorDestroy=destroy)
        self.contracts = sorted(O)
    def capacity(self, st, n): c = fresh_bv("capacity", 64); st.assume(And(ule(bv(1), c), ule(n, c))); return c
    # ---- loops
    def match(self, st, c):
        m = st.mem[self.args]; g = lambda k: m.get(k, c, self.ctx); has = Not(beq(trunc(g(8), 8), bv(0, 8)))
        return And(beq(g("def"), self.SD(c)), has == self.SH(c), Implies_(self.SH(c), And(beq(g("vi"), self.SVi(c)), beq(g("vk"), self.SVk(c)), beq(g(40), badd(bsub(self.LEN(self.SVi(c)), self.SVk(c)), bv(1))))))
    def hook(self):
        ctx = self.ctx; one = bv(1); q = self.q.value if hasattr(self.q, "value") else self.q
        def hook(L):
            out = []; s0 = L.s0; toks = s0.mem[self.argv].seen[-3:]; chars = s0.mem[self.strs].chars[-3:]; ds = s0.mem[self.defs].seen[-3:]
            def add(n, f, *u): out.append((("args:" + n), f) + u)
            sz = lambda V: self.size(V.st); started = is_c(s0.ghost["vector"]) and cval(s0.ghost["vector"]) == 1
            for n, b in (("FB", self.FB), ("FM", self.FM), ("D", self.D)): add("t<=" + n, lambda V, b=b: ule(V.t, b))
            for x, i in enumerate(toks):
                add("t<=FL%d" % x, lambda V, i=i: ule(V.t, self.FL(i))); add("1+t<=SJ%d" % x, lambda V, i=i: ule(badd(V.t, one), self.SJ(i)))
                add("1+t<=LEN%d" % x, lambda V, i=i: ule(badd(V.t, one), self.LEN(i)))
                if started: add("size=NP%d+t" % x, lambda V, i=i: beq(sz(V), badd(self.NP(i), V.t)))
            for x, (i, k) in enumerate(chars):
                if not (is_c(k) and cval(k) == 0): add("t<=FS%d" % x, lambda V, i=i, k=k: ule(V.t, self.FS(self.CH(i, k))))
            for x, d in enumerate(ds): add("t<=FP%d" % x, lambda V, d=d: ule(V.t, self.FP(d)))
            vs = [v for v in L.vars if v.init is not UNDEF and isinstance(v.init, z3.BitVecRef)]
            for v in vs:
                if v.init.size() != 64: continue
                X = lambda V, v=v: V.vals[v.name]; n = v.name
                add("T(%s)" % n, lambda V, X=X: self.T(X(V))); add("%s in 1..E" % n, lambda V, X=X: And(ule(one, X(V)), ule(X(V), self.E)))
                if started: add("size=NP(%s)" % n, lambda V, X=X: beq(sz(V), self.NP(X(V))))
                for w in L.vars:
                    if w is v or w.init is UNDEF: continue
                    Y = lambda V, w=w: V.vals[w.name]
                    if isinstance(w.init, z3.BoolRef): add("ACC(%s)=%s" % (n, w.name), lambda V, X=X, Y=Y: Not(beq(self.ACC(X(V)), bv(0, 8))) == Y(V))
                    elif isinstance(w.init, z3.BitVecRef) and w.init.size() == 8: add("ACC(%s)=%s" % (n, w.name), lambda V, X=X, Y=Y: beq(self.ACC(X(V)), Y(V)))
                    elif isinstance(w.init, z3.BitVecRef) and w.init.size() == 64: add("UN(%s)=%s" % (n, w.name), lambda V, X=X, Y=Y: beq(self.UN(X(V)), Y(V)))
            if started and L.custom.get(self.args):
                f = lambda V, c: Implies_(ult(c, sz(V)), self.match(V.st, c)); add("content", lambda V: f(V, q), (self.args, f))
            return out
        ctx.loop_hooks.append(hook)
        def measures(L):
            ms = [("definitions left", lambda V: bsub(self.D, V.t))]
            for i in L.s0.mem[self.argv].seen[-3:]: ms.append(("characters left", lambda V, i=i: bsub(self.LEN(i), V.t)))
            for v in L.vars:
                if isinstance(v.init, z3.BitVecRef) and v.init.size() == 64: ms.append(("tokens left", lambda V, v=v: bsub(self.E, V.vals[v.name])))
            return ms
        ctx.measure_hooks.append(measures)
    # ---- the outcome
    def args_of(self, fn, tok): return [self.cfg.ptr, self.parsed.ptr, tok] + ([self.al.ptr] if fn.endswith("Ex") else [])
    def vector(self, r): return r.st.ghost["vector"]
    def outcome(self): return self.OUT
    def count(self): return self.NP(self.E)
    def parsed_size(self, r): return self.size(r.st)
    def element_ok(self, r): q = self.q.value if hasattr(self.q, "value") else self.q; return Implies_(ult(q, self.size(r.st)), self.match(r.st, q))
    def token(self): return Ptr(self.strs, Scaled(self.FTOK, bv(0), self.S))
    def missing(self): return Ptr(self.names, Scaled(self.FM, bv(0), self.S))

def Implies_(a, b): return Or(Not(a), b)
