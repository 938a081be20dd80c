"""Symbolic executor / VC generator over LLVM IR."""
import time, os, re, subprocess, tempfile, itertools
import z3
from .terms import *
from .mem import *
from . import ir
from .ir import Unsupported

class Frame:
    __slots__ = ("func", "block", "i", "regs", "uid", "dst", "prev", "allocas", "poison")
    def copy(self):
        f = Frame(); f.poison = dict(self.poison); f.func, f.block, f.i, f.uid, f.dst, f.prev = self.func, self.block, self.i, self.uid, self.dst, self.prev
        f.regs = dict(self.regs); f.allocas = list(self.allocas); return f

class State:
    __slots__ = ("pc", "frames", "mem", "ghost", "events", "counts", "ret", "trace", "models")
    def __init__(self):
        self.models = (); self.pc = []; self.frames = []; self.mem = {}; self.ghost = {}; self.events = (); self.counts = {}; self.ret = None; self.trace = ()
    def copy(self):
        s = State(); s.pc = list(self.pc); s.frames = self.frames[:-1] + [self.frames[-1].copy()] if self.frames else []
        s.mem = dict(self.mem); s.ghost = dict(self.ghost); s.events = self.events; s.counts = dict(self.counts); s.trace = self.trace; s.ret = self.ret; s.models = self.models
        # callers' frames are only mutated after a pop: copy all
        s.frames = [f.copy() for f in self.frames]
        return s
    def w(self, oid):
        m = self.mem[oid].copy(); self.mem[oid] = m; return m
    def assume(self, c):
        if not is_t(c): self.pc.append(c)

class Obligation:
    __slots__ = ("name", "kind", "props", "status", "backend", "secs", "model", "path", "detail", "goal", "pc")
    def __init__(self, name, kind, props): self.name, self.kind, self.props = name, kind, props; self.status = None; self.backend = ""; self.secs = 0; self.model = None; self.path = ""; self.detail = ""

class LimitExceeded(Exception): pass

def free_consts(fs):
    seen = set(); out = {}; stack = list(fs)
    while stack:
        x = stack.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (z3.is_bv(x) or z3.is_bool(x)): out[x.sexpr()] = x
        elif z3.is_app(x): stack.extend(x.children())
    return list(out.values())

class Loop:
    __slots__ = ("uid", "header", "body")
    def __init__(self, uid, header, body): self.uid, self.header, self.body = uid, header, body

class Ctx:
    def __init__(self, module, contract_name="", timeout_ms=10000, deadline=None):
        self.m = module; self.objs = {}; self.next_obj = 0; self.axioms = []; self.ax_ids = set()
        self.obls = []; self.dry = 0; self.externals = {}; self.override = {}; self.strides = []; self.maxcells = None
        self.timeout_ms = timeout_ms; self.deadline = deadline; self.globals = {}; self.init_mem = {}
        self.stats = {"sat_checks": 0, "sat_time": 0.0, "paths": 0, "forks": 0, "loops": 0, "inv_candidates": 0, "inv_kept": 0}
        self.tabdefs = {}; self.unroll = {}; self.default_unroll = None; self.try_unroll = 0; self.loop_hooks = []; self.measure_hooks = []; self.icmp_log = None; self.anchors = []
        self.contract_name = contract_name; self.safety_props = []; self.model_vars = {}; self.cover_hits = {}
        self.frame_uid = 0; self.max_paths = 4000; self.used_funcs = set(); self.used_externals = set(); self.loop_modset_hook = None
        from .lia import Lia
        self.const_cache = {}
        self.lia = Lia(); self.last_model = None; self.last_lia = None
        self.bad = 0; self.stop_props = None; self.funcname = ""; self.trivial = 0; self.disc = 0; self.call_hooks = {}

    # ------------------------------------------------------------------ solver
    def add_axiom(self, a):
        if is_t(a): return
        i = a.get_id()
        if i not in self.ax_ids:
            self.ax_ids.add(i); self.axioms.append(a)
    def check(self, fs, timeout=None, want=(), model=True):
        """'sat'/'unsat'/'unknown' of conj(fs) + axioms.  Portfolio: integer translation with z3, z3 on bit-vectors,
        cvc5 with bit-vectors as integers, then both at length.  Sets self.last_model / self.last_lia / self.last_backend."""
        self.last_model = None; self.last_lia = None
        for f in fs:
            if is_f(f): self.last_backend = "trivial"; return "unsat"
        if self.deadline and time.time() > self.deadline: raise LimitExceeded("time limit for this function")
        if self.tabdefs:    # reads of large constant tables: first without their contents
            have = set().union(*[self.consts(f) for f in fs]) if fs else set(); defs = []; done = set()
            todo = [n for n in have if n in self.tabdefs]
            while todo:
                n = todo.pop()
                if n in done: continue
                done.add(n); x, cell, tree, _ = self.tabdefs[n]; d = self.tabdefs[n][3] or x == tree(cell); self.tabdefs[n] = (x, cell, tree, d); defs.append(d); todo += [m for m in self.consts(d) if m in self.tabdefs]
            if defs:
                if self.check1(fs, 1000, (), "guess") == "unsat": return "unsat"
                fs = list(fs) + defs
        return self.check1(fs, timeout, want, model)
    def check1(self, fs, timeout=None, want=(), model=True):
        self.last_model = None; self.last_lia = None; t0 = time.time(); self.stats["sat_checks"] += 1
        timeout = int((timeout or self.timeout_ms) * self.time_scale); who = None; r = "unknown"; guess = []
        allf = self.relevant_axioms(fs) + list(fs)
        if self.use_lia:
            r, m, exact = self.lia.check(allf, min(timeout, int(self.lia_ms * self.time_scale)), self.lia_seed); self.last_backend = "z3 (integer arithmetic)"; lia_gave_up = r == "unknown"
            if r == "sat":
                self.last_lia = m
                if not exact and model != "guess" : r = "unknown"
                if r == "unknown" and model == "cand": return r
                elif model is True:
                    guess = self.lia.pins(m); s3 = z3.Solver(); s3.set("timeout", 1000); s3.add(*allf); s3.add(*guess)
                    if s3.check() == z3.sat: self.last_model = s3.model()
                    elif not exact: r = "unknown"
            lia_t = time.time() - t0
        if r == "unknown":
            s = z3.Solver(); s.set("timeout", min(timeout, self.z3_first_ms)); s.add(*allf)
            r = str(s.check()); self.last_backend = "z3"
            if r == "sat": self.last_model = s.model()
            if r == "unknown" and model != "guess":
                r, m = self.cvc5_run(s, want, ["--solve-bv-as-int=sum"], min(timeout, 5000))
                if r == "unknown": r, m = self.cvc5_run(s, want, [], timeout)
                if r != "unknown": self.last_backend = "cvc5"; self.last_model = m
                else:
                    s.set("timeout", timeout); r = str(s.check()); self.last_backend = "z3"
                    if r == "sat": self.last_model = s.model()
                for seed in (1, 2, 3) if r == "unknown" and model is True and self.use_lia and lia_gave_up else ():
                    # the first try may have lost to chance or to a busy machine
                    r = self.lia.check(allf, max(timeout, 3 * self.lia_ms), seed + (self.lia_seed or 0))[0]; self.last_backend = "z3 (integer arithmetic)"
                    if r == "unsat": break
                    r = "unknown"
        dt = time.time() - t0
        self.stats["sat_time"] += dt
        if os.environ.get("ZVC_DUMP") and dt > 1.0:
            s = z3.Solver(); s.add(*allf)
            Ctx.dumpn = getattr(Ctx, "dumpn", 0) + 1
            open(os.path.join(os.environ["ZVC_DUMP"], "%s_%d_%d_%s.smt2" % (self.contract_name, os.getpid(), Ctx.dumpn, r)), "w").write("(set-logic ALL)\n" + s.to_smt2())
        if os.environ.get("ZVC_SLOW") and dt > float(os.environ["ZVC_SLOW"]):
            print("SLOW", round(dt, 2), "lia", round(lia_t, 2) if self.use_lia else "", r, self.last_backend, self.contract_name, str(fs[-1])[:300].replace("\n", " "), flush=True)
        return r
    use_lia = True; lia_ms = 3000; time_scale = 1; lia_seed = None
    def consts(self, f):
        """names of the 0-ary symbols of f (cached)"""
        c = self.const_cache.get(f.get_id())
        if c is None:
            seen = set(); out = set(); stack = [f]
            while stack:
                x = stack.pop(); i = x.get_id()
                if i in seen: continue
                seen.add(i)
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
                else: stack.extend(x.children())
            c = (f, frozenset(out)); self.const_cache[f.get_id()] = c
        return c[1]
    def relevant_axioms(self, fs):
        """axioms (instances of assumed facts) all of whose fresh symbols occur in the query"""
        have = set().union(*[self.consts(f) for f in fs]) if fs else set()
        return [a for a in self.axioms if all(n in have or "!" not in n for n in self.consts(a))]
    z3_first_ms = 400
    def cvc5_run(self, s, want, extra, tlimit):
        """cvc5 on the same assertions; a 'sat' answer counts only if z3 confirms a model with cvc5's scalar values"""
        consts = free_consts(s.assertions())
        txt = s.to_smt2().rsplit("(check-sat)", 1)[0]
        txt = "(set-option :produce-models true)\n(set-logic ALL)\n" + txt + "(check-sat)\n"
        if consts: txt += "(get-value (%s))\n" % " ".join(c.sexpr() for c in consts)
        fd, fn = tempfile.mkstemp(suffix=".smt2"); os.write(fd, txt.encode()); os.close(fd)
        try:
            p = subprocess.run(["cvc5", "--tlimit=%d" % tlimit] + extra + [fn], capture_output=True, text=True, timeout=tlimit / 1000 + 5)
            out = p.stdout.strip().split("\n", 1)
        except subprocess.TimeoutExpired: return "unknown", None
        finally: os.unlink(fn)
        if out[0] == "unsat": return "unsat", None
        if out[0] != "sat" or len(out) < 2: return "unknown", None
        by = {c.sexpr(): c for c in consts}; pins = []
        for m in re.finditer(r"\((\|[^|]*\||[^\s()|]+)\s+(#x[0-9a-fA-F]+|#b[01]+|true|false)\)", out[1]):
            c = by.get(m.group(1)); v = m.group(2)
            if c is None: continue
            if v in ("true", "false"): pins.append(c == (v == "true"))
            else: pins.append(c == z3.BitVecVal(int(v[2:], 16 if v[1] == "x" else 2), c.size()))
        s3 = z3.Solver(); s3.set("timeout", 2000); s3.add(*s.assertions()); s3.add(*pins)
        if s3.check() == z3.sat: return "sat", s3.model()
        return "unknown", None
    def feasible(self, st, c):
        if is_t(c): return True
        if is_f(c): return False
        for p in st.pc:
            if p.eq(c): return True
        n = Not(c)
        for p in st.pc:
            if p.eq(n): return False
        # a model of an earlier query of this path that satisfies everything since then answers without the solver (too many 'feasible' are sound)
        left = []
        for n, m in st.models:
            if all(self.lia.holds(m, p) for p in st.pc[n:]):
                left.append((len(st.pc), m))
                if self.lia.holds(m, c): st.models = tuple(left) + tuple(x for x in st.models if x[0] >= n and x[1] is not m and all(x[1] is not y[1] for y in left)); self.stats["model_hits"] = self.stats.get("model_hits", 0) + 1; return True
        st.models = tuple(left[-3:])
        r = self.check(st.pc + [c], 3000, model="guess")
        if r == "sat" and self.last_lia is not None: st.models = ((len(st.pc), self.last_lia),) + st.models[:3]
        return r != "unsat"
    def provable(self, st, g):
        if is_t(g): return True
        for p in st.pc:
            if p.eq(g): return True
        return self.check(st.pc + [Not(g)], 4000, model=False) == "unsat"

    # ------------------------------------------------------------------ obligations
    def oblige(self, st, kind, name, goal, props=None, assume=True):
        """record obligation pc |- goal; afterwards assume it"""
        if self.dry:
            if assume: st.assume(goal)
            return True
        if props is None: props = self.safety_props
        o = Obligation(name, kind, tuple(props)); o.path = st.trace
        t0 = time.time()
        if is_t(goal):
            o.status, o.backend = "discharged", "trivial"
        else:
            hit = any(p.eq(goal) for p in st.pc)
            if hit: o.status, o.backend = "discharged", "hypothesis"
            else:
                r = self.check(st.pc + [Not(goal)], want=[flat(x) for x in self.model_vars.values()])
                if r == "unsat": o.status, o.backend = "discharged", self.last_backend
                elif r == "sat":
                    o.status, o.backend = "failed", self.last_backend; o.model = self.model_values(self.last_model) if self.last_model is not None else None
                else: o.status, o.backend = "unknown", "z3+cvc5"
        o.secs = time.time() - t0
        if o.status != "discharged" or os.environ.get("ZVC_GOALS"):
            o.goal = goal; o.detail = str(goal)[:2000]
        self.obls.append(o)
        if o.status != "discharged" and self.stop_props and set(o.props) & self.stop_props:
            self.bad += 1
            if self.bad >= 3: raise LimitExceeded("stopped after %d obligations that were not discharged" % self.bad)
        if assume: st.assume(goal)
        return o.status == "discharged"
    def model_values(self, m):
        out = {}
        for n, t in self.model_vars.items():
            try:
                v = m.eval(flat(t), model_completion=True)
                out[n] = v.as_long() if z3.is_bv_value(v) else str(v)
            except Exception: pass
        return out

    # ------------------------------------------------------------------ objects
    def new_obj(self, name, readonly=False, local=False):
        o = Obj(self.next_obj, name, readonly, local); self.next_obj += 1; self.objs[o.id] = o; return o
    def new_struct(self, st, name, size, fields=None, garbage=None, readonly=False, local=False):
        o = self.new_obj(name, readonly, local); st.mem[o.id] = StructMem(size, fields, True, garbage); return o
    def new_buf(self, st, name, cells, stride=1, fn=None, axioms=None, readonly=False, local=False):
        o = self.new_obj(name, readonly, local)
        if fn is None:
            if (not isinstance(stride, z3.ExprRef) and stride == 1):
                f = fresh_fn("mem_" + name, BVS(64), BVS(8)); fn = lambda c, b, f=f: f(c)
            else:
                f = fresh_fn("mem_" + name, BVS(64), BVS(64), BVS(8)); fn = lambda c, b, f=f: f(c, b)
        st.mem[o.id] = BufMem(cells, stride, node_base(fn, axioms)); o.info["base"] = fn
        return o

    # ------------------------------------------------------------------ globals
    def global_ptr(self, st, name):
        if name in self.m.funcs or name in self.m.decls: return FnPtr(name)
        if name in self.globals:
            oid = self.globals[name]
            if oid not in st.mem: st.mem[oid] = self.init_mem[oid]
            return Ptr(oid, bv(0))
        ty, init, const = self.m.globals[name]
        if ty is None: raise Unsupported("global " + name)
        o = self.new_obj("g_" + name, readonly=const); self.globals[name] = o.id
        o.info["global"] = name
        if init is None: raise Unsupported("external global " + name)
        mem = self.build_global(st, o, ty, init); st.mem[o.id] = mem; self.init_mem[o.id] = mem
        return Ptr(o.id, bv(0))
    def build_global(self, st, o, ty, init):
        rt = self.m.resolve(ty)
        if rt.k == "int" and rt.w == 8 or rt.k == "array" and self.m.resolve(rt.elems).k == "int":
            bs = self.const_bytes(rt, init)
            return BufMem(bv(len(bs)), 1, node_base(self.table_fn(o.name, bs)))
        fields = {}
        self.flatten_const(st, rt, init, 0, fields)
        return StructMem(self.m.sizeof(rt), fields)
    def table_fn(self, name, bs):
        def f(cell, byte):
            if is_c(cell):
                i = cval(cell); return bv(bs[i], 8) if i < len(bs) else fresh_bv("oob", 8)
            if SMALL:
                r = small_table(cell, bs)
                if r is not None: return r
            if len(bs) <= 32: return tree(cell)
            v = memo.get(cell.get_id())
            if v is None:
                x = fresh_bv("table", 8); memo[cell.get_id()] = v = (x, cell); self.tabdefs[x.decl().name()] = (x, cell, tree, None)
            return v[0]
        memo = {}
        def tree(cell):
            r = bv(0, 8)
            for i in range(len(bs) - 1, -1, -1):
                r = z3.If(cell == bv(i), bv(bs[i], 8), r) if not (i == len(bs) - 1) else bv(bs[i], 8)
            return r
        return f
    def const_bytes(self, ty, c):
        ty = self.m.resolve(ty)
        if c.k == "str": return list(c.v)
        if c.k in ("zero", "undef"): return [0] * self.m.sizeof(ty)
        if c.k == "int":
            n = self.m.sizeof(ty); v = c.v % (1 << (8 * n)); return [(v >> (8 * i)) & 255 for i in range(n)]
        if c.k == "agg":
            r = []
            for e in c.v: r += self.const_bytes(e.ty, e)
            return r
        raise Unsupported("const bytes " + c.k)
    def flatten_const(self, st, ty, c, off, fields):
        ty = self.m.resolve(ty)
        if ty.k == "int":
            n = self.m.sizeof(ty); v = 0 if c.k in ("zero", "undef") else c.v
            if c.k not in ("zero", "undef", "int"): raise Unsupported("const int " + c.k)
            fields[off] = (n, bv(v, 8 * n)); return
        if ty.k == "ptr":
            fields[off] = (8, NULL if c.k in ("zero", "null", "undef") else self.operand(st, None, c)); return
        if ty.k == "struct":
            offs, _ = self.m.layout(ty)
            for i, e in enumerate(ty.elems):
                sub = ir.Opnd("zero", None, e) if c.k in ("zero", "undef") else c.v[i]
                self.flatten_const(st, e, sub, off + offs[i], fields)
            return
        if ty.k == "array":
            s = self.m.sizeof(ty.elems)
            for i in range(ty.n):
                if c.k == "str": sub = ir.Opnd("int", c.v[i], ty.elems)
                else: sub = ir.Opnd("zero", None, ty.elems) if c.k in ("zero", "undef") else c.v[i]
                self.flatten_const(st, ty.elems, sub, off + i * s, fields)
            return
        raise Unsupported("const of type %r" % ty)

    # ------------------------------------------------------------------ operands
    def operand(self, st, fr, o):
        k = o.k
        if k == "reg":
            v = fr.regs[o.v]
            return v
        if k == "int":
            t = self.m.resolve(o.ty)
            if t.k == "int":
                if t.w == 1: return T if o.v & 1 else F
                return bv(o.v, t.w)
            raise Unsupported("int const of type %r" % t)
        if k == "null": return NULL
        if k == "global": return self.global_ptr(st, o.v[1:])
        if k == "undef": return UNDEF
        if k == "zero":
            t = self.m.resolve(o.ty)
            if t.k == "ptr": return NULL
            if t.k == "int": return bv(0, t.w) if t.w > 1 else F
        if k == "gep":
            bt, ops = o.v
            base = self.operand(st, fr, ops[0]); return self.gep(st, base, bt, [self.operand(st, fr, x) for x in ops[1:]])
        if k == "cast":
            op, v, t = o.v
            x = self.operand(st, fr, v)
            if op == "inttoptr": return Ptr(None, zext(x, 64))
            if op == "ptrtoint": return self.ptr2int(x)
        raise Unsupported("operand " + k)
    def null_of(self, oid):
        """the null value of a variable that otherwise points into the object"""
        i = self.objs[oid].info
        if "nodes" in i: return Ptr(oid, Scaled(bv(-1), bv(0), i["nodes"]))
        i["nullable"] = True; return Ptr(oid, NULLOFF)
    def node_null(self, p):
        s = to_scaled(p.off, self.objs[p.obj].info["nodes"])
        return beq(s.cell, bv(-1)) if is_c(s.byte) and cval(s.byte) == 0 else F
    def ptr2int(self, p):
        if isinstance(p, FnPtr): return z3.BitVec("fnaddr_" + p.name, 64)
        if p.obj is None: return flat(p.off)
        if "nodes" in self.objs[p.obj].info: return ite(self.node_null(p), bv(0), badd(self.objs[p.obj].base, flat(p.off)))
        if self.objs[p.obj].info.get("nullable"): return ite(beq(flat(p.off), NULLOFF), bv(0), badd(self.objs[p.obj].base, flat(p.off)))
        return badd(self.objs[p.obj].base, flat(p.off))
    def gep(self, st, base, ty, idx):
        if isinstance(base, FnPtr): raise Unsupported("gep on function")
        if base is UNDEF: raise Unsupported("gep on undef")
        off = base.off; t = ty; first = True
        for ix in idx:
            rt = self.m.resolve(t)
            if first:
                sz = self.m.sizeof(rt); first = False
                off = num_add(off, self.scale(st, ix, sz))
            elif rt.k == "struct":
                i = cval(ix); off = num_add(off, bv(self.m.layout(rt)[0][i])); t = rt.elems[i]
            elif rt.k == "array":
                t = rt.elems; off = num_add(off, self.scale(st, ix, self.m.sizeof(t)))
            else: raise Unsupported("gep into %r" % rt)
        return Ptr(base.obj, off)
    def scale(self, st, ix, sz):
        if isinstance(ix, Scaled):
            if sz == 1: return ix
            ix = flat(ix)
        if ix.size() < 64: ix = sext(ix, 64)
        if sz == 1: return ix
        if is_c(ix) and (cval(ix) == 0 or sz not in self.stride_alias): return bv(cval(ix) * sz)
        if sz in self.strides_const: return Scaled(ix, bv(0), sz)
        if sz in self.stride_alias: return Scaled(ix, bv(0), self.stride_alias[sz])
        return bmul(ix, bv(sz))
    strides_const = (); stride_alias = {}     # element size known to equal a symbolic stride

    # ------------------------------------------------------------------ memory access
    def getmem(self, st, p, what):
        if isinstance(p, FnPtr) or p is UNDEF: raise Unsupported("%s through %r" % (what, p))
        if p.obj is None:
            self.oblige(st, "safety", "%s through valid pointer (%s)" % (what, self.where(st)), F); return None
        if p.obj not in st.mem:
            if p.obj in self.init_mem: st.mem[p.obj] = self.init_mem[p.obj]
        mem = st.mem[p.obj]
        if not mem.live:
            self.oblige(st, "safety", "%s to released memory %s (%s)" % (what, self.objs[p.obj].name, self.where(st)), F); return None
        return mem
    def where(self, st):
        return st.frames[-1].func.name if st.frames else "?"
    def buf_off(self, st, mem, off):
        """-> (cell, byte)"""
        if isinstance(mem.stride, int) and mem.stride == 1: return flat(off), bv(0)
        s = to_scaled(off, mem.stride)
        return s.cell, s.byte
    def load(self, st, p, ty):
        """-> value or None (path dead)"""
        ty = self.m.resolve(ty); size = self.m.sizeof(ty)
        mem = self.getmem(st, p, "read")
        if mem is None: return None
        if hasattr(mem, "load"): return mem.load(self, st, p, ty, size)
        if mem.kind == "struct":
            off = flat(p.off)
            if not is_c(off): off = z3.simplify(off)
            if not is_c(off): raise Unsupported("symbolic offset into struct %s" % self.objs[p.obj].name)
            off = cval(off)
            if off + size > mem.size:
                self.oblige(st, "safety", "read inside %s (%s)" % (self.objs[p.obj].name, self.where(st)), F); return None
            f = mem.fields.get(off)
            if f and f[0] == size:
                v = f[1]
                if v is UNDEF:
                    self.oblige(st, "safety", "read of initialised data in %s (%s)" % (self.objs[p.obj].name, self.where(st)), F); return None
                if ty.k == "int" and isinstance(v, Ptr): v = self.ptr2int(v)
                if ty.k == "ptr" and isinstance(v, z3.BitVecRef): v = Ptr(None, v)
                if ty.k == "int" and ty.w == 1: return beq(trunc(v, 1), bv(1, 1))
                return v
            if f is None and not any(o < off + size and off < o + s for o, (s, _) in mem.fields.items()):
                if mem.garbage is None:
                    self.oblige(st, "safety", "read of initialised data in %s (%s)" % (self.objs[p.obj].name, self.where(st)), F); return None
                v = fresh_bv(mem.garbage, 8 * size)
                m2 = st.w(p.obj); m2.fields[off] = (size, v)
                return Ptr(None, v) if ty.k == "ptr" else v
            if ty.k == "int":
                # assemble from / extract of integer fields
                bs = [self.struct_byte(mem, off + i) for i in range(size)]
                if all(b is not None for b in bs): return z3.simplify(z3.Concat(*bs[::-1])) if size > 1 else bs[0]
            raise Unsupported("mixed-width read at %d of %s" % (off, self.objs[p.obj].name))
        if mem.kind == "buf":
            c, b = self.buf_off(st, mem, p.off)
            self.bounds(st, p, mem, c, bv(size) if mem_is1(mem) else bv(1), "read")
            if mem_is1(mem):
                bs = [log_read(mem.node, badd(c, bv(i)), bv(0), self) for i in range(size)]
                v = z3.Concat(*bs[::-1]) if size > 1 else bs[0]
                if ty.k == "ptr": return Ptr(None, v)
                return v
            self.inside_element(st, p, mem, b, size, "read")
            if size == 1: return log_read(mem.node, c, b, self)
            if ty.k == "ptr": raise Unsupported("pointer read from strided buffer")
            return z3.Concat(*[log_read(mem.node, c, badd(b, bv(i)), self) for i in range(size)][::-1])
        raise Unsupported("load from " + mem.kind)
    def struct_byte(self, mem, off):
        for o, (s, v) in mem.fields.items():
            if o <= off < o + s and isinstance(v, z3.BitVecRef):
                i = off - o; return z3.Extract(8 * i + 7, 8 * i, v) if s > 1 else v
        return None
    def bounds(self, st, p, mem, c, n, what):
        name = "%s within %s (%s)" % (what, self.objs[p.obj].name, self.where(st))
        self.oblige(st, "safety", name, And(ule(n, mem.cells), ule(c, bsub(mem.cells, n))))
    def inside_element(self, st, p, mem, b, size, what):
        """an access of single bytes stays inside of its element"""
        s = mem.stride if isinstance(mem.stride, z3.ExprRef) else bv(mem.stride)
        if size == 1 and below_stride(b): return
        self.oblige(st, "safety", "%s inside one element of %s (%s)" % (what, self.objs[p.obj].name, self.where(st)), And(ule(bv(size), s), ule(b, bsub(s, bv(size)))))
    def store(self, st, p, ty, v):
        ty = self.m.resolve(ty); size = self.m.sizeof(ty)
        mem = self.getmem(st, p, "write")
        if mem is None: return None
        if self.objs[p.obj].readonly:
            self.oblige(st, "safety", "no write to read-only %s (%s)" % (self.objs[p.obj].name, self.where(st)), F)
        if isinstance(v, Scaled): v = flat(v)
        if isinstance(v, z3.BoolRef): v = b2bv(v, 8)
        if hasattr(mem, "store"): return mem.store(self, st, p, ty, size, v)
        if mem.kind == "struct":
            off = flat(p.off)
            if not is_c(off): off = z3.simplify(off)
            if not is_c(off): raise Unsupported("symbolic offset into struct")
            off = cval(off)
            if off + size > mem.size:
                self.oblige(st, "safety", "write inside %s (%s)" % (self.objs[p.obj].name, self.where(st)), F); return None
            m2 = st.w(p.obj)
            self.struct_put(m2, off, size, v)
            return True
        if mem.kind == "buf":
            c, b = self.buf_off(st, mem, p.off)
            self.bounds(st, p, mem, c, bv(size) if mem_is1(mem) else bv(1), "write")
            m2 = st.w(p.obj)
            if v is UNDEF: v = fresh_bv("undef", 8 * size)
            if isinstance(v, (Ptr, FnPtr)): v = self.ptr2int(v)
            if mem_is1(mem):
                for i in range(size):
                    m2.node = Node("store", m2.node, badd(c, bv(i)), bv(0), byte_of(v, i) if size > 1 else v)
            else:
                self.inside_element(st, p, mem, b, size, "write")
                for i in range(size): m2.node = Node("store", m2.node, c, badd(b, bv(i)), byte_of(v, i) if size > 1 else v)
            return True
        raise Unsupported("store to " + mem.kind)
    def struct_put(self, m2, off, size, v):
        f = m2.fields.get(off)
        if f is None or f[0] != size:
            for o, (s, old) in list(m2.fields.items()):
                if o < off + size and off < o + s:
                    del m2.fields[o]
                    if isinstance(old, z3.BitVecRef):
                        for i in range(s):
                            if not (off <= o + i < off + size):
                                m2.fields[o + i] = (1, z3.simplify(z3.Extract(8 * i + 7, 8 * i, old)))
        m2.fields[off] = (size, v)
    def range_of(self, st, p, mem, n):
        """-> (cell, ncells) for a byte range of length n (Num) starting at p"""
        if mem_is1(mem): return flat(p.off), flat(n)
        c, b = self.buf_off(st, mem, p.off)
        s = to_scaled(n, mem.stride)
        for x in (b, s.byte):
            if not (is_c(x) and cval(x) == 0):
                if is_c(z3.simplify(x)) and cval(z3.simplify(x)) == 0: continue
                raise Unsupported("partial-element memory operation on %s" % self.objs[p.obj].name)
        return c, s.cell
    def memcopy(self, st, d, s, n, overlap_ok):
        """memcpy/memmove; True or None (dead)"""
        if isinstance(n, z3.BitVecRef) and is_c(n) and cval(n) == 0: return True
        if d is UNDEF or s is UNDEF: raise Unsupported("memcpy of undef pointer")
        zero = num_cmp(beq, n, bv(0))
        if d.obj is None or s.obj is None:
            # allowed only for length 0
            self.oblige(st, "safety", "memory copy through valid pointers (%s)" % self.where(st), zero); return True if not is_f(zero) else None
        dm = self.getmem(st, d, "write"); sm = self.getmem(st, s, "read")
        if dm is None or sm is None: return None
        if hasattr(dm, "memcopy"): return dm.memcopy(self, st, d, s, n, overlap_ok)
        if self.objs[d.obj].readonly:
            self.oblige(st, "safety", "no write to read-only %s (%s)" % (self.objs[d.obj].name, self.where(st)), zero)
        if dm.kind == "struct" or sm.kind == "struct":
            n = z3.simplify(flat(n))
            if not is_c(n): raise Unsupported("symbolic-length copy of struct")
            n = cval(n)
            if dm.kind == "struct" and sm.kind == "struct":
                do, so = cval(z3.simplify(flat(d.off))), cval(z3.simplify(flat(s.off)))
                if do + n > dm.size or so + n > sm.size:
                    self.oblige(st, "safety", "copy inside %s/%s (%s)" % (self.objs[d.obj].name, self.objs[s.obj].name, self.where(st)), F); return None
                m2 = st.w(d.obj)
                new = {}
                for o, (sz, v) in sm.fields.items():
                    if so <= o and o + sz <= so + n: new[o - so + do] = (sz, v)
                    elif o < so + n and so < o + sz: raise Unsupported("partial struct copy")
                for o, (sz, v) in list(m2.fields.items()):
                    if do <= o and o + sz <= do + n: del m2.fields[o]
                    elif o < do + n and do < o + sz: raise Unsupported("partial struct copy")
                m2.fields.update(new); return True
            # struct <-> bytes
            if dm.kind == "buf" and mem_is1(dm):
                c = flat(d.off); self.bounds(st, d, dm, c, bv(n), "write")
                so = cval(z3.simplify(flat(s.off)))
                bs = [self.struct_byte(sm, so + i) for i in range(n)]
                if any(b is None for b in bs): raise Unsupported("copy of non-integer struct data")
                m2 = st.w(d.obj)
                for i in range(n): m2.node = Node("store", m2.node, badd(c, bv(i)), bv(0), z3.simplify(bs[i]))
                return True
            if sm.kind == "buf" and mem_is1(sm):
                c = flat(s.off); self.bounds(st, s, sm, c, bv(n), "read")
                do = cval(z3.simplify(flat(d.off)))
                if do + n > dm.size:
                    self.oblige(st, "safety", "write inside %s (%s)" % (self.objs[d.obj].name, self.where(st)), F); return None
                bs = [log_read(sm.node, badd(c, bv(i)), bv(0), self) for i in range(n)]
                m2 = st.w(d.obj)
                f = m2.fields.get(do)
                self.struct_put(m2, do, n, z3.Concat(*bs[::-1]) if n > 1 else bs[0]) if n in (1, 2, 4, 8) else [self.struct_put(m2, do + i, 1, bs[i]) for i in range(n)]
                return True
            raise Unsupported("copy between struct and strided buffer")
        if not strides_eq(dm.stride, sm.stride):
            raise Unsupported("copy between buffers of different element size")
        dc, dn = self.range_of(st, d, dm, n); sc, sn = self.range_of(st, s, sm, n)
        self.oblige(st, "safety", "copy source within %s (%s)" % (self.objs[s.obj].name, self.where(st)), Or(zero, And(ule(sn, sm.cells), ule(sc, bsub(sm.cells, sn)))))
        self.oblige(st, "safety", "copy target within %s (%s)" % (self.objs[d.obj].name, self.where(st)), Or(zero, And(ule(dn, dm.cells), ule(dc, bsub(dm.cells, dn)))))
        if d.obj == s.obj and not overlap_ok:
            # same start is tolerated (every implementation handles it); otherwise the ranges must be disjoint
            self.oblige(st, "safety", "non-overlapping copy inside %s (%s)" % (self.objs[d.obj].name, self.where(st)),
                        Or(zero, beq(dc, sc), ule(dn, bsub(sc, dc)) if False else Or(And(ult(dc, sc), ule(dn, bsub(sc, dc))), And(ult(sc, dc), ule(dn, bsub(dc, sc))))))
        m2 = st.w(d.obj); m2.node = Node("copy", m2.node, dc, dn, sm.node, sc)
        return True
    def memfill(self, st, d, v, n):
        if d.obj is None:
            self.oblige(st, "safety", "memory fill through valid pointer (%s)" % self.where(st), num_cmp(beq, n, bv(0))); return True
        dm = self.getmem(st, d, "write")
        if dm is None: return None
        if self.objs[d.obj].readonly: self.oblige(st, "safety", "no write to read-only %s (%s)" % (self.objs[d.obj].name, self.where(st)), F)
        if hasattr(dm, "memfill"): return dm.memfill(self, st, d, v, n)
        if dm.kind == "struct":
            n = z3.simplify(flat(n))
            if not is_c(n): raise Unsupported("symbolic fill of struct")
            n = cval(n); o = cval(z3.simplify(flat(d.off))); m2 = st.w(d.obj)
            if o + n > dm.size:
                self.oblige(st, "safety", "write inside %s (%s)" % (self.objs[d.obj].name, self.where(st)), F); return None
            if is_c(v) and cval(v) == 0:
                for fo in [x for x in m2.fields if o <= x < o + n]: del m2.fields[fo]
                # zeroed fields are materialised lazily at byte granularity through 8-byte words when aligned
                i = o
                while i < o + n:
                    w = 8 if i % 8 == 0 and i + 8 <= o + n else 1
                    m2.fields[i] = (w, bv(0, 8 * w)); i += w
                return True
            for i in range(n): self.struct_put(m2, o + i, 1, v)
            return True
        c, k = self.range_of(st, d, dm, n)
        z = num_cmp(beq, n, bv(0))
        self.oblige(st, "safety", "fill within %s (%s)" % (self.objs[d.obj].name, self.where(st)), Or(z, And(ule(k, dm.cells), ule(c, bsub(dm.cells, k)))))
        m2 = st.w(d.obj); m2.node = Node("fill", m2.node, c, k, v); return True

    # ------------------------------------------------------------------ execution
    def push_call(self, st, name, args, dst):
        f = self.m.funcs[name]; self.used_funcs.add(name)
        if len(st.frames) > 24: raise Unsupported("call depth / recursion in " + name)
        fr = Frame(); fr.func = f; fr.block = f.entry; fr.i = 0; fr.prev = None; self.frame_uid += 1; fr.uid = self.frame_uid; fr.dst = dst; fr.regs = {}; fr.allocas = []; fr.poison = {}
        for (t, n, at), a in zip(f.params, args): fr.regs[n] = a
        fr.regs["%__varargs"] = args[len(f.params):]
        st.frames.append(fr)
    def call_function(self, st, name, args):
        """run `name` to completion from st; returns final states with .ret"""
        self.push_call(st, name, args, None)
        self.finals = []
        return self.explore([("run", st)], None)[2]

    def explore(self, items, loop):
        backs, exits, finals = [], [], []
        items = list(items)
        npaths = 0
        while items:
            it = items.pop()
            if self.deadline and time.time() > self.deadline: raise LimitExceeded("time limit for this function")
            if it[0] == "goto":
                _, st, frm, to = it
                fr = st.frames[-1]; f = fr.func
                if loop is not None and fr.uid == loop.uid:
                    if to == loop.header: backs.append((st, frm)); continue
                    if to not in loop.body: exits.append(it); continue
                if to in f.loops:
                    if frm not in f.loops[to]:
                        k = self.unroll_limit(f, to)
                        if k is None:
                            items.extend(self.handle_loop(st, frm, to)); continue
                        st.counts[(fr.uid, to)] = 0
                    else:
                        c = st.counts.get((fr.uid, to), 0) + 1; st.counts[(fr.uid, to)] = c
                        if c > self.unroll_limit(f, to):
                            if self.check(st.pc, 3000, model="guess") == "unsat": continue
                            self.oblige(st, "unwind", "loop in %s finishes within %d iterations" % (f.name, self.unroll_limit(f, to)), F); continue
                self.enter(st, frm, to); items.append(("run", st))
            elif it[0] == "run":
                st = it[1]; d = len(st.frames); uid = st.frames[-1].uid
                npaths += 1
                if npaths > self.max_paths: raise LimitExceeded("path limit")
                for o in self.exec(st):
                    if o[0] == "final": finals.append(o[1]); self.stats["paths"] += 1
                    elif o[0] == "ret" :
                        if loop is not None and o[2] == loop.uid: exits.append(("run", o[1]))
                        else: items.append(("run", o[1]))
                    else: items.append(o)
        return backs, exits, finals
    def unroll_limit(self, f, header):
        if f.name in self.unroll: return self.unroll[f.name]
        return self.default_unroll
    def phi_values(self, st, frm, to):
        fr = st.frames[-1]; out = {}
        for I in fr.func.blocks[to]:
            if I.op != "phi": break
            for v, l in I.a:
                if l == frm: out[I.dst] = self.operand(st, fr, v); break
            else: raise Unsupported("phi without edge")
        return out
    def enter(self, st, frm, to, phis=None):
        fr = st.frames[-1]
        pv = phis if phis is not None else self.phi_values(st, frm, to)
        fr.regs.update(pv); fr.prev = frm; fr.block = to; i = 0
        for I in fr.func.blocks[to]:
            if I.op != "phi": break
            i += 1
        fr.i = i

    def fork(self, st, c):
        """[(state, bool)] feasible branches on Bool c (st is consumed)"""
        if is_t(c): return [(st, True)]
        if is_f(c): return [(st, False)]
        t = self.feasible(st, c); n = not t or self.feasible(st, Not(c))      # (a state that is itself infeasible may go on: nothing is lost)
        out = []
        if t and n:
            self.stats["forks"] += 1
            s2 = st.copy(); s2.pc.append(Not(c)); st.pc.append(c)
            return [(st, True), (s2, False)]
        if t: return [(st, True)]
        if n: return [(st, False)]
        return []

    def exec(self, st):
        while True:
            fr = st.frames[-1]; blk = fr.func.blocks[fr.block]
            I = blk[fr.i]; fr.i += 1; op = I.op
            if fr.poison and op != "select": self.use_poison(st, fr, I)
            if op == "br":
                if I.a[0] is None: return [("goto", st, fr.block, I.a[1])]
                c = self.operand(st, fr, I.a[0])
                if c is UNDEF: raise Unsupported("branch on undef")
                frm = fr.block
                return [("goto", s, frm, I.a[1] if b else I.a[2]) for s, b in self.fork(st, c)]
            if op == "ret":
                v = self.operand(st, fr, I.a[0]) if I.a else None
                uid = fr.uid
                for oid in fr.allocas:
                    m = st.mem[oid].copy(); m.live = False; st.mem[oid] = m
                st.frames.pop()
                if not st.frames or fr.dst == "__final__":
                    st.ret = v; return [("final", st)]
                if fr.dst: st.frames[-1].regs[fr.dst] = v
                return [("ret", st, uid)]
            if op == "switch":
                v = self.operand(st, fr, I.a[0]); out = []; frm = fr.block; cur = st
                for c, l in I.a[2]:
                    cond = beq(v, self.operand(st, fr, c))
                    r = self.fork(cur, cond); cur = None
                    for s, b in r:
                        if b: out.append(("goto", s, frm, l))
                        else: cur = s
                    if cur is None: break
                if cur is not None: out.append(("goto", cur, frm, I.a[1]))
                return out
            if op == "unreachable": return []
            if op == "call":
                r = self.do_call(st, fr, I)
                if r is None: continue
                return r
            if op == "select":
                c = self.operand(st, fr, I.a[0]); a = self.operand(st, fr, I.a[1]); b = self.operand(st, fr, I.a[2])
                if fr.poison:
                    self.use_poison(st, fr, I.a[0])
                    ok = And(*[Implies(cc, fr.poison[o.v][0]) for cc, o in ((c, I.a[1]), (Not(c), I.a[2])) if o.k == "reg" and o.v in fr.poison])
                    nm = next((fr.poison[o.v][1] for o in I.a[1:3] if o.k == "reg" and o.v in fr.poison), "")
                    if not is_t(ok): fr.poison[I.dst] = (ok, nm)
                    else: fr.poison.pop(I.dst, None)
                if is_t(c) or is_f(c): fr.regs[I.dst] = a if is_t(c) else b; continue
                if isinstance(a, z3.BitVecRef) and isinstance(b, z3.BitVecRef) or isinstance(a, z3.BoolRef) and isinstance(b, z3.BoolRef):
                    fr.regs[I.dst] = ite(c, a, b); continue
                out = []
                for s, bb in self.fork(st, c):
                    s.frames[-1].regs[I.dst] = a if bb else b; out.append(("run", s))
                return out
            r = self.simple(st, fr, I)
            if r == "dead": return []
            if isinstance(r, list): return r

    def simple(self, st, fr, I):
        op = I.op
        if op == "load":
            p = self.operand(st, fr, I.a[0]); v = self.load(st, p, I.ty)
            if v is None: return "dead"
            if isinstance(v, ForkValue):
                out = []
                for cond, val in v.alts:
                    s2 = st.copy()
                    if self.feasible(s2, cond):
                        s2.assume(cond); s2.frames[-1].regs[I.dst] = val; out.append(("run", s2))
                return out
            fr.regs[I.dst] = v; return
        if op == "store":
            v = self.operand(st, fr, I.a[0]); p = self.operand(st, fr, I.a[1])
            if self.store(st, p, I.a[0].ty, v) is None: return "dead"
            return
        if op == "getelementptr":
            fr.regs[I.dst] = self.gep(st, self.operand(st, fr, I.a[0]), I.ty, [self.operand(st, fr, x) for x in I.a[1:]]); return
        if op == "alloca":
            t = self.m.resolve(I.ty)
            name = "l_" + I.dst[1:]
            if t.k == "int" and t.w == 8 or (t.k == "array" and self.m.resolve(t.elems).k == "int" and self.m.resolve(t.elems).w == 8):
                o = self.new_buf(st, name, bv(self.m.sizeof(t)), local=True)
            elif I.a and not (I.a[0].k == "int" and I.a[0].v == 1): raise Unsupported("variable alloca")
            else: o = self.new_struct(st, name, self.m.sizeof(t), local=True)
            fr.allocas.append(o.id); fr.regs[I.dst] = Ptr(o.id, bv(0)); return
        if op in ir.BINOPS:
            a = self.operand(st, fr, I.a[0]); b = self.operand(st, fr, I.a[1]); fr.regs[I.dst] = self.binop(st, I, a, b); return
        if op == "icmp":
            a = self.operand(st, fr, I.a[0]); b = self.operand(st, fr, I.a[1]); fr.regs[I.dst] = self.icmp(st, I.flags, a, b); return
        if op in ir.CASTS:
            a = self.operand(st, fr, I.a[0])
            if a is UNDEF: fr.regs[I.dst] = UNDEF; return
            if op in ("bitcast", "freeze"): fr.regs[I.dst] = a; return
            if op == "ptrtoint":
                fr.regs[I.dst] = trunc(self.ptr2int(a), I.ty.w) if I.ty.w != 64 else self.ptr2int_lazy(a); return
            if op == "inttoptr":
                fr.regs[I.dst] = a.p if isinstance(a, IntPtr) else a if isinstance(a, Ptr) else Ptr(None, flat(a)); return
            if isinstance(a, IntPtr): a = a.flat()
            w = I.ty.w
            if op == "zext": fr.regs[I.dst] = b2bv(a, w) if isinstance(a, z3.BoolRef) else zext(flat(a), w)
            elif op == "sext": fr.regs[I.dst] = ite(a, bv(-1, w), bv(0, w)) if isinstance(a, z3.BoolRef) else sext(flat(a), w)
            elif op == "trunc":
                a = flat(a)
                fr.regs[I.dst] = beq(trunc(a, 1), bv(1, 1)) if w == 1 else trunc(a, w)
            return
        if op == "fence": return
        if op in ("cmpxchg", "atomicrmw"):
            p = self.operand(st, fr, I.a[0]); xs = [self.operand(st, fr, a) for a in I.a[1:]]; ty = self.m.resolve(I.ty); size = self.m.sizeof(ty)
            xs = [self.ptr2int(x) if isinstance(x, Ptr) else x.flat() if isinstance(x, IntPtr) else flat(x) for x in xs]; w = 8 * size
            wrap = (lambda v: Ptr(None, v)) if ty.k == "ptr" else (lambda v: v)
            if op == "cmpxchg":
                sp = T if "weak" not in I.flags else beq(fresh_bv("spurious", 1), bv(0, 1))
                f = lambda old: (xs[1], And(beq(old, xs[0]), sp))
            else:
                k = I.flags[0]; x = xs[0]
                g = {"xchg": lambda o: x, "add": lambda o: badd(o, x), "sub": lambda o: bsub(o, x), "and": lambda o: o & x, "or": lambda o: o | x, "xor": lambda o: o ^ x}.get(k)
                if g is None: raise Unsupported("atomicrmw " + k)
                f = lambda old: (g(old), T)
            mem = self.getmem(st, p, "write")
            if mem is None: return "dead"
            if hasattr(mem, "rmw"): old, did = mem.rmw(self, st, p, size, f)
            else:
                old = self.load(st, p, I.ty)
                if old is None: return "dead"
                old = self.ptr2int(old) if isinstance(old, Ptr) else old; n, did = f(old); n = ite(did, n, old)
                if self.store(st, p, I.ty, wrap(n)) is None: return "dead"
            fr.regs[I.dst] = (wrap(old), did) if op == "cmpxchg" else wrap(old); return
        if op == "unsupported": raise Unsupported("%s: %s" % (I.a[0], I.text))
        if op == "extractvalue":
            v = self.operand(st, fr, I.a[0])
            for ix in I.a[1]: v = v[ix]
            fr.regs[I.dst] = v; return
        raise Unsupported("instruction " + op)

    def use_poison(self, st, fr, x):
        """an operation that may produce poison (signed overflow, shift amount) was executed speculatively: it matters where its value is used"""
        if isinstance(x, ir.Opnd):
            if x.k == "reg" and x.v in fr.poison:
                ok, nm = fr.poison.pop(x.v); self.oblige(st, "safety", nm, ok)
            elif isinstance(x.v, (list, tuple)): self.use_poison(st, fr, x.v)
        elif isinstance(x, (list, tuple)):
            for y in x: self.use_poison(st, fr, y)
        elif isinstance(x, ir.Instr):
            self.use_poison(st, fr, x.a)
            if x.op == "br" and fr.poison:      # values that reach a phi
                f = fr.func
                if not hasattr(f, "phi_regs"): f.phi_regs = {o.v for b in f.blocks.values() for J in b if J.op == "phi" for o, _ in J.a if o.k == "reg"}
                for d in [d for d in fr.poison if d in f.phi_regs]:
                    ok, nm = fr.poison.pop(d); self.oblige(st, "safety", nm, ok)
    def maybe_poison(self, st, I, nm, ok):
        fr = st.frames[-1]; f = fr.func
        fr.poison.pop(I.dst, None)
        if is_t(ok): return
        if not hasattr(f, "sel_regs"): f.sel_regs = {o.v for b in f.blocks.values() for J in b if J.op == "select" for o in J.a[1:3] if o.k == "reg"}
        if I.dst in f.sel_regs and not self.feasible_all(st, ok): fr.poison[I.dst] = (ok, nm)
        else: self.oblige(st, "safety", nm, ok)
    def feasible_all(self, st, ok): return self.provable(st, ok)
    def ptr2int_lazy(self, p):
        if isinstance(p, Ptr) and p.obj is not None: return IntPtr(p, self)
        return self.ptr2int(p)
    def binop(self, st, I, a, b):
        op = I.op; w = I.ty.w
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, IntPtr) or isinstance(b, IntPtr):
            if op == "sub" and isinstance(a, IntPtr) and isinstance(b, IntPtr) and a.p.obj == b.p.obj: return num_sub(a.p.off, b.p.off)
            a = a.flat() if isinstance(a, IntPtr) else a; b = b.flat() if isinstance(b, IntPtr) else b
        if w == 1:
            if isinstance(a, z3.BoolRef):
                if op == "and": return And(a, b)
                if op == "or": return Or(a, b)
                if op in ("xor", "add", "sub"): return Not(a) if is_t(b) else a if is_f(b) else z3.Xor(a, b)
            raise Unsupported("i1 " + op)
        if op == "mul" and w == 64 and not (isinstance(a, Scaled) or isinstance(b, Scaled)):
            for s in self.strides:
                if same(b, s) or same(a, s):
                    x = a if same(b, s) else b
                    if is_c(x) and cval(x) <= 1: return Scaled(x, bv(0), s)
                    self.oblige(st, "safety", "element offset does not overflow (%s)" % self.where(st), ule(x, self.maxcells))
                    return Scaled(x, bv(0), s)
            for x, y in ((a, b), (b, a)):
                if is_c(y) and cval(y) in self.strides_const and not is_c(x):
                    return Scaled(x, bv(0), cval(y))
        if isinstance(a, Scaled) or isinstance(b, Scaled):
            if op == "add": return num_add(a, b)
            if op == "sub": return num_sub(a, b)
            if op in ("udiv", "sdiv", "urem") and isinstance(a, Scaled) and not isinstance(b, Scaled):
                st_ = a.stride
                if (isinstance(st_, int) and is_c(b) and cval(b) == st_ or isinstance(st_, z3.ExprRef) and same(b, st_)) and is_c(a.byte) and cval(a.byte) == 0:
                    return bv(0) if op == "urem" else a.cell
            a, b = flat(a), flat(b)
        if op in ("udiv", "urem", "sdiv", "srem"):
            self.oblige(st, "safety", "division by non-zero (%s)" % self.where(st), Not(beq(b, bv(0, w))))
        if op in ("shl", "lshr", "ashr"):
            self.maybe_poison(st, I, "shift amount in range (%s)" % self.where(st), ult(b, bv(w, w)))
        if "nsw" in I.flags and op in ("add", "sub", "mul"):
            self.maybe_poison(st, I, "no signed overflow (%s)" % self.where(st), nsw_ok(op, a, b, w))
        return binop(op, a, b, w)
    def icmp(self, st, pred, a, b):
        if a is UNDEF or b is UNDEF: raise Unsupported("comparison with undef")
        if isinstance(a, IntPtr): a = a.p if isinstance(b, IntPtr) else a.flat()
        if isinstance(b, IntPtr): b = b.p if isinstance(a, Ptr) else b.flat()
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            return self.ptr_cmp(pred, a, b)
        if isinstance(a, z3.BoolRef):
            if pred == "eq": return b if is_t(a) else Not(b) if is_f(a) else (a if is_t(b) else Not(a) if is_f(b) else a == b)
            if pred == "ne": return Not(self.icmp(st, "eq", a, b))
            raise Unsupported("i1 compare")
        if self.icmp_log is not None: self.icmp_log.append((pred, a, b))
        return cmp_pred(pred, a, b)
    def ptr_cmp(self, pred, a, b):
        if pred in ("eq", "ne"):
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                e = T if isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name else F
            elif a.obj == b.obj:
                e = num_cmp(beq, a.off, b.off)
            elif a.obj is None or b.obj is None:
                n, o = (a, b) if a.obj is None else (b, a)
                e = F
                if o.obj is not None and "nodes" in self.objs[o.obj].info:
                    if is_c(flat(n.off)) and cval(flat(n.off)) == 0: e = self.node_null(o)
                elif o.obj is not None and self.objs[o.obj].info.get("nullable") and is_c(flat(n.off)) and cval(flat(n.off)) == 0: e = beq(flat(o.off), NULLOFF)
                elif not (is_c(flat(n.off))): e = F   # arbitrary integers never alias a modelled object
            elif self.objs[a.obj].info.get("nullable") and self.objs[b.obj].info.get("nullable"): e = And(beq(flat(a.off), NULLOFF), beq(flat(b.off), NULLOFF))
            else: e = F
            return e if pred == "eq" else Not(e)
        if isinstance(a, FnPtr) or isinstance(b, FnPtr): raise Unsupported("ordering of functions")
        if a.obj == b.obj and a.obj is not None:
            if self.icmp_log is not None: self.icmp_log.append((pred, a.off, b.off))
            return cmp_pred({"ult": "slt", "ule": "sle", "ugt": "sgt", "uge": "sge"}.get(pred, pred), a.off, b.off)
        return cmp_pred(pred, self.ptr2int(a), self.ptr2int(b))

    # ------------------------------------------------------------------ calls
    def do_call(self, st, fr, I):
        callee, aops = I.a
        if callee.k == "asm": raise Unsupported("inline asm")
        target = self.operand(st, fr, callee)
        args = [self.operand(st, fr, a) for a in aops]
        if isinstance(target, Ptr):
            if target.obj is None:
                self.oblige(st, "safety", "call through valid function pointer (%s)" % self.where(st), F)
                return []
            raise Unsupported("call of data pointer")
        name = target.name
        h = target.handler or self.override.get(name)
        if h is None and name in self.m.funcs:
            self.push_call(st, name, args, I.dst); return None
        if h is None: h = self.externals.get(name) or BUILTINS.get(name)
        if h is None and name.startswith("llvm."):
            for k, v in BUILTINS.items():
                if k.endswith("*") and name.startswith(k[:-1]): h = v
        if h is None: raise Unsupported("external function " + name)
        self.used_externals.add(name)
        res = h(self, st, args)
        if isinstance(res, list):
            out = []
            for s, v in res:
                if I.dst: s.frames[-1].regs[I.dst] = v
                out.append(("run", s))
            return out
        if I.dst: fr = st.frames[-1]; fr.regs[I.dst] = res
        return None

    # ------------------------------------------------------------------ loops: see loops.py
    def handle_loop(self, st, frm, header):
        from .loops import handle_loop
        if self.try_unroll:
            r = self.unroll_loop(st.copy(), frm, header, self.try_unroll)
            if r is not None: return r
        return handle_loop(self, st, frm, header)

    def unroll_loop(self, st, frm, header, limit):
        """complete unrolling of a loop whose number of iterations is (nearly) determined: exits, or None if it is not"""
        from .loops import Loop
        f = st.frames[-1].func; lp = Loop(st.frames[-1].uid, header, f.loops[header]); n = len(self.obls)
        work, exits, undecided = [(st, frm)], [], 0
        for _ in range(limit + 1):
            nxt = []; left = 0
            for s, b in work:
                self.enter(s, b, header); bs, ex, fin = self.explore([("run", s)], lp)
                if fin: del self.obls[n:]; return None
                nxt += bs; exits += ex; left += any(e[0] == "goto" for e in ex)
            nxt = [(s, b) for s, b in nxt if self.check(s.pc, 3000, model="guess") != "unsat"]
            if not nxt: return exits
            undecided += bool(left)
            if undecided > 3 or len(nxt) > 8: break
            work = nxt
        del self.obls[n:]; return None

class IntPtr:
    """integer that came from a pointer"""
    __slots__ = ("p", "ctx")
    def __init__(self, p, ctx): self.p, self.ctx = p, ctx
    def flat(self): return self.ctx.ptr2int(self.p)
class ForkValue:
    def __init__(self, alts): self.alts = alts

def byte_of(v, i):
    """byte i of a wide value; bitwise operations are taken apart"""
    k = v.decl().kind()
    if k in (z3.Z3_OP_BXOR, z3.Z3_OP_BAND, z3.Z3_OP_BOR):
        r = byte_of(v.arg(0), i)
        for j in range(1, v.num_args()): y = byte_of(v.arg(j), i); r = r ^ y if k == z3.Z3_OP_BXOR else r & y if k == z3.Z3_OP_BAND else r | y
        return z3.simplify(r)
    if k == z3.Z3_OP_BNOT: return z3.simplify(~byte_of(v.arg(0), i))
    return z3.simplify(z3.Extract(8 * i + 7, 8 * i, v))
def mem_is1(m): return not isinstance(m.stride, z3.ExprRef) and m.stride == 1
def strides_eq(a, b):
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return same(a, b)
    return not isinstance(a, z3.ExprRef) and not isinstance(b, z3.ExprRef) and a == b
def nsw_ok(op, a, b, w):
    if is_c(a) and is_c(b):
        x, y = sgn(cval(a), w), sgn(cval(b), w); r = x + y if op == "add" else x - y if op == "sub" else x * y
        return T if -(1 << (w - 1)) <= r < (1 << (w - 1)) else F
    k = w if op == "mul" else 1
    x, y = z3.SignExt(k, a), z3.SignExt(k, b)
    r = x + y if op == "add" else x - y if op == "sub" else x * y
    return r == z3.SignExt(k, r_trunc(r, w))
def r_trunc(r, w): return z3.Extract(w - 1, 0, r)
def cmp_pred(pred, a, b):
    if pred == "eq": return num_cmp(beq, a, b)
    if pred == "ne": return Not(num_cmp(beq, a, b))
    if pred == "ult": return num_cmp(ult, a, b)
    if pred == "ule": return num_cmp(ule, a, b)
    if pred == "ugt": return num_cmp(ult, b, a)
    if pred == "uge": return num_cmp(ule, b, a)
    if pred == "slt": return num_cmp(slt, a, b)
    if pred == "sle": return num_cmp(sle, a, b)
    if pred == "sgt": return num_cmp(slt, b, a)
    if pred == "sge": return num_cmp(sle, b, a)
    raise Unsupported("icmp " + pred)

# ---------------------------------------------------------------------- built-in externals
def _memcpy(ctx, st, args):
    if ctx.memcopy(st, args[0], args[1], args[2], False) is None: return []
    return args[0]
def _memmove(ctx, st, args):
    if ctx.memcopy(st, args[0], args[1], args[2], True) is None: return []
    return args[0]
def _memset(ctx, st, args):
    v = args[1]
    if v.size() > 8: v = trunc(v, 8)
    if ctx.memfill(st, args[0], v, args[2]) is None: return []
    return args[0]
def _assert_fail(ctx, st, args):
    try:
        ob = ctx.objs[args[0].obj]; g = ob.info.get("global"); txt = bytes(ctx.const_bytes(ctx.m.globals[g][0], ctx.m.globals[g][1])).rstrip(b"\0").decode()
    except Exception: txt = "?"
    ctx.oblige(st, "safety", "assertion '%s' (%s)" % (txt, ctx.where(st)), F)
    return []
def _nop(ctx, st, args): return None
def _strlen(ctx, st, args):
    p = args[0]
    if not isinstance(p, Ptr) or p.obj is None:
        ctx.oblige(st, "safety", "string length of a valid pointer (%s)" % ctx.where(st), F); return []
    m = ctx.getmem(st, p, "read")
    if m is None: return []
    n = ctx.objs[p.obj].info.get("cstr_len")
    if n is None or m.node is not ctx.objs[p.obj].info["cstr_node"]: raise Unsupported("strlen of %s" % ctx.objs[p.obj].name)
    ctx.oblige(st, "safety", "string length inside %s (%s)" % (ctx.objs[p.obj].name, ctx.where(st)), ule(flat(p.off), n))
    return bsub(n, flat(p.off))
def _overflow(op, signed):
    def f(ctx, st, args):
        a, b = flat(args[0]), flat(args[1]); w = a.size()
        if not signed:
            r = binop(op, a, b, w)
            if op == "add": o = ult(r, a)
            elif op == "sub": o = ult(a, b)
            else: o = And(Not(beq(b, bv(0, w))), ult(binop("udiv", bv(-1, w), b, w), a))
            return (r, o)
        x, y = z3.SignExt(w, a), z3.SignExt(w, b); r2 = x + y if op == "add" else x - y if op == "sub" else x * y
        r = z3.Extract(w - 1, 0, r2); return (r, Not(z3.SignExt(w, r) == r2))
    return f
def _minmax(lt, mx):
    def f(ctx, st, args):
        a, b = flat(args[0]), flat(args[1]); return ite(lt(a, b), b, a) if mx else ite(lt(a, b), a, b)
    return f
def _abs(ctx, st, args):
    a = args[0]; w = a.size(); return ite(slt(a, bv(0, w)), bsub(bv(0, w), a), a)
def _expect(ctx, st, args): return args[0]
def va_key(p):
    o = flat(p.off) if isinstance(p, Ptr) and p.obj is not None else None
    if o is None or not is_c(o): raise Unsupported("unknown argument list")
    return "va_list %d %d" % (p.obj, cval(o))
def _va_set(v):
    def f(ctx, st, args): st.ghost[va_key(args[0])] = bv(v); return None
    return f
def _va_copy(ctx, st, args): st.ghost[va_key(args[0])] = st.ghost.get(va_key(args[1]), bv(0)); return None
BUILTINS = {"llvm.va_start*": _va_set(1), "llvm.va_end*": _va_set(0), "llvm.va_copy*": _va_copy, "llvm.uadd.with.overflow*": _overflow("add", False), "llvm.usub.with.overflow*": _overflow("sub", False), "llvm.umul.with.overflow*": _overflow("mul", False),
            "llvm.sadd.with.overflow*": _overflow("add", True), "llvm.ssub.with.overflow*": _overflow("sub", True), "llvm.smul.with.overflow*": _overflow("mul", True),
            "llvm.umin*": _minmax(ult, False), "llvm.umax*": _minmax(ult, True), "llvm.smin*": _minmax(slt, False), "llvm.smax*": _minmax(slt, True), "llvm.abs*": _abs, "llvm.expect*": _expect, "llvm.memcpy*": _memcpy, "llvm.memmove*": _memmove, "llvm.memset*": _memset, "memcpy": _memcpy, "memmove": _memmove, "memset": _memset,
            "__assert_fail": _assert_fail, "llvm.lifetime*": _nop, "llvm.dbg*": _nop, "strlen": _strlen}
