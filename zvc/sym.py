"""Symbolic interpretation of contracts: builds the pre-state, calls the function under contract through the
engine and turns every clause into a proof obligation on every path."""
import z3
from . import terms as t
from . import spec as S
from .terms import *
from .mem import *
from .engine import Ctx, State, LimitExceeded, va_key
from .ir import Unsupported

class Buf:
    """handle to a byte buffer argument / vector data"""
    def __init__(self, h, oid, cells, stride): self.h, self.oid, self.cells, self.stride = h, oid, cells, stride
    def at(self, cell=0, byte=0):
        return Ptr(self.oid, self.h._off(cell, byte, self.stride))
    @property
    def ptr(self): return Ptr(self.oid, bv(0))
    def byte(self, st, cell, byte=0):
        cell = S.u(cell); byte = S.u(byte)
        if isinstance(cell, int): cell = bv(cell)
        if isinstance(byte, int): byte = bv(byte)
        return log_read(st.mem[self.oid].node, cell, byte, self.h.ctx)
    def pre(self, cell, byte=0): return self.byte(self.h.st0, cell, byte)

class Struct:
    def __init__(self, h, oid, tname, base=0): self.h, self.oid, self.tname, self.base = h, oid, tname, base
    @property
    def ptr(self): return Ptr(self.oid, bv(self.base))
    def sub(self, field): # embedded struct
        off, tn = self.h.lay.sub(self.tname, field)
        return Struct(self.h, self.oid, tn, self.base + off)

class Choice(Exception): pass

class SymH:
    mode = "sym"
    sym = True
    def __init__(self, module, layout, name, plan, opts):
        self.ctx = Ctx(module, name, opts.get("timeout_ms", 10000), opts.get("deadline"))
        self.lay = layout; self.st = State(); self.plan = plan; self.plan_i = 0; self.taken = []
        self.st0 = self.st; self.name = name; self.opts = opts; self.props_wanted = opts.get("props")
        self.covers = {}; self.called = []; self.kvars = []
        self.ctx.safety_props = opts.get("safety_props", []); self.ctx.partial = opts.get("partial", False)
    # ---- choices (case splits of the precondition)
    def choice(self, name, options):
        if self.plan_i < len(self.plan): i = self.plan[self.plan_i]
        else: i = 0; self.plan.append(0)
        self.plan_i += 1; self.taken.append((name, len(options), i))
        return options[i]
    def _lbl(self): return ",".join("%s" % (i,) for n, k, i in self.taken if k > 1)
    # ---- scalars
    def num(self, name, w=64, near=(), small=False, dom=None):
        x = z3.BitVec(name, w); self.ctx.model_vars[name] = x
        return x
    u64 = num
    def boolean(self, name):
        x = z3.Bool(name); return x
    def forall(self, name, w=64, dom=None, cell=True):
        x = z3.BitVec("k_" + name, w); self.ctx.model_vars["k_" + name] = x; self.kvars.append(x); return x
    def bounded(self, x, lo, hi):
        """x is assumed to lie in lo..hi and takes part in exact linear arithmetic"""
        self.assume(And(ule(bv(lo, x.size()), x), ule(x, bv(hi, x.size())))); SMALL[x.get_id()] = (x, lo, hi)
    def exact(self, x, lo, hi):
        """the sum x of bounded variables (as an integer) is assumed to lie in lo..hi; 2^w excess of the bounds is excluded by the precondition"""
        c, d = lin(x); EXACT[lin_key(c, d)] = (lo, hi); c, d = lin(bsub(bv(0, x.size()), x)); EXACT[lin_key(c, d)] = (-hi, -lo)
    def assume(self, c):
        if isinstance(c, bool): c = T if c else F
        self.st.assume(c)
    def given(self, f):
        """assumption on the universally quantified indices"""
        self.assume(f())
    def anchor(self, name, x): self.ctx.anchors.append((name, x if not isinstance(x, int) else bv(x)))
    def stride(self, name="es", const=None):
        e = self.num(name)
        if const is not None: self.assume(beq(e, bv(const))); self.ctx.stride_alias = {const: e}
        M = z3.BitVec("M", 64)
        self.ctx.strides.append(e); self.ctx.maxcells = M
        self.assume(And(ule(bv(1), e), ule(e, bv(1 << 47)), ule(M, bv(1 << 47)), ule(bv(1), M)))
        self.M = M
        return e
    def max_cells(self):
        if self.ctx.maxcells is None: self.ctx.maxcells = bv(1 << 47)
        return self.ctx.maxcells
    def _off(self, cell, byte, stride):
        cell, byte = S.u(cell), S.u(byte)
        if isinstance(cell, int): cell = bv(cell)
        if isinstance(byte, int): byte = bv(byte)
        if isinstance(stride, int) and stride == 1: return cell
        return Scaled(cell, byte, stride)
    # ---- memory
    def buf(self, name, cells, stride=1, readonly=False, content=None, fact=None, cap=None):
        """content(cell,byte)->BV8 fixes the initial bytes; fact(cell, byte, value)->Bool is assumed of every initial byte"""
        cells = S.u(cells); cells = bv(cells) if isinstance(cells, int) else cells
        ax = None
        if fact is not None: ax = lambda c, b, v: [fact(c, b, v)]
        o = self.ctx.new_buf(self.st, name, cells, stride, content, ax, readonly=readonly)
        return Buf(self, o.id, cells, stride)
    def cstring(self, name, n, fact=None):
        """read-only C string of length n"""
        n = S.u(n); n = bv(n) if isinstance(n, int) else n
        f = lambda c, b, v: And(Implies(ult(c, n), Not(beq(v, bv(0, 8)))), Implies(beq(c, n), beq(v, bv(0, 8))), fact(c, b, v) if fact else T)
        b = self.buf(name, badd(n, bv(1)), 1, readonly=True, fact=f)
        i = self.ctx.objs[b.oid].info; i["cstr_len"] = n; i["cstr_node"] = self.st.mem[b.oid].node
        return b
    def struct(self, tname, fields, readonly=False, garbage=None, name=None):
        sz = self.lay.size(tname); fm = {}
        o = self.ctx.new_struct(self.st, name or tname, sz, fm, garbage=garbage, readonly=readonly)
        s = Struct(self, o.id, tname)
        for k, v in fields.items(): self.set_field(s, k, v)
        return s
    def raw(self, name, size, fields, readonly=False):
        """an object with the given (offset: (size, value)) cells"""
        fm = {o: (n, NULL if v is None else v.ptr if isinstance(v, (Buf, Struct)) else bv(int(v), 8 * n) if isinstance(v, (int, bool)) else v) for o, (n, v) in fields.items()}
        o = self.ctx.new_struct(self.st, name, size, fm, readonly=readonly)
        s = Struct(self, o.id, None); s.size = size; return s
    def shared(self, name, size):
        """a cell other threads modify at any time"""
        from .shared import SharedMem
        o = self.ctx.new_struct(self.st, name, size, {}); self.st.mem[o.id] = SharedMem(size)
        s = Struct(self, o.id, None); s.size = size; return s
    def set_field(self, s, k, v, st=None):
        off, size = self.lay.field(s.tname, k)
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int): v = bv(v, 8 * size)
        if v is None: v = NULL
        (st or self.st).mem[s.oid].fields[s.base + off] = (size, v)
    def out(self, name, size=8, init=None, ptr=False):
        """an out-parameter cell with unspecified previous content"""
        if init is None:
            init = fresh_bv("prev_" + name, 8 * size)
            if ptr: init = Ptr(None, init)
        o = self.ctx.new_struct(self.st, name, size, {0: (size, init)})
        s = Struct(self, o.id, None); s.size = size; return s
    def formatter(self, fmt, variadic):
        """vsnprintf with the given format: the same text T of length W at every call, or a failure at any call"""
        W = self.num("W"); self.assume(ule(W, bv((1 << 31) - 1))); text = fresh_fn("T", BVS(64), BVS(8)); o = _Cmp()
        def handler(ctx, st, args):
            p, n, f, va = args; n = flat(n); key = va_key(va)
            ctx.oblige(st, "pre", "vsnprintf is given the format", ctx.ptr_cmp("eq", f, fmt.ptr))
            ctx.oblige(st, "pre", "vsnprintf is given a started argument list that no call has consumed", beq(st.ghost.get(key, bv(0)), bv(1))); st.ghost[key] = bv(2)
            def room(c): ctx.oblige(st, "pre", "vsnprintf writes inside its buffer", c)
            if not isinstance(p, Ptr) or p.obj is None: room(beq(n, bv(0))); c0 = None
            else:
                m = st.mem[p.obj]
                if m.kind != "buf" or ctx.objs[p.obj].readonly or not m.live: room(F); return []
                c0, b = ctx.buf_off(st, m, p.off); room(And(ule(c0, m.cells), ule(n, bsub(m.cells, c0))))
            out = []
            for ok in (True, False):
                s2 = st.copy(); g = fresh_fn("unspecified", BVS(64), BVS(8)); end = ite(ult(W, n), W, bsub(n, bv(1)))
                if c0 is not None:
                    cnt = ite(beq(n, bv(0)), n, badd(end, bv(1))) if ok else n
                    s2.w(p.obj).node = Node("fn", s2.mem[p.obj].node, c0, cnt, (lambda c, b, end=end: ite(beq(c, badd(c0, end)), bv(0, 8), text(bsub(c, c0)))) if ok else (lambda c, b, g=g: g(c)))
                r = trunc(W, 32)
                if not ok: r = fresh_bv("fmterr", 32); s2.assume(slt(r, bv(0, 32)))
                s2.events += (("format", {"ok": ok}),); out.append((s2, r))
            return out
        self.ctx.externals["vsnprintf"] = handler
        o.length = W; o.char = text; o.args = []; return o
    def nodes(self, es, n, hw, C, dyn, g):
        from .nodes import Nodes
        return Nodes(self, es, n, hw, C, dyn)
    def cmdline(self, null_defs):
        from .args import Cmdline
        return Cmdline(self, null_defs)
    def node_hook(self, l, p0=None, x=None):
        item = x.pre(0, l.b) if x is not None else None; l.nd.hook(l.size_of, l.g, l.b, p0, item)
    def text_function(self):
        """the text of a number (value, width, uppercase): its length and its characters, not interpreted further"""
        L = z3.Function("textlen", BVS(64), BVS(64), BVS(64)); C = z3.Function("textchar", BVS(64), BVS(64), z3.BoolSort(), BVS(64), BVS(8))
        def length(v, w):
            x = L(v, w); self.ctx.add_axiom(And(ule(bv(1), x), ule(w, x), ule(x, bv(255)))); return x
        return length, lambda v, w, up, i: C(v, w, z3.BoolVal(up) if isinstance(up, bool) else up, i)
    def append_contract(self, names, s, length, char):
        """the named functions f(string, ...) are replaced by their contract: they append the `length(args)` characters
        `char(args, i)` to the well-formed string s, or report an error and keep its text"""
        tn = "ZyanString"; off = lambda k: self.lay.field(tn, "vector." + k)[0]
        def handler(ctx, st, args):
            def pre(c): ctx.oblige(st, "pre", "a well-formed string is appended to", c)
            if not (isinstance(args[0], Ptr) and args[0].obj == s.s.oid): pre(F); return []
            f = {k: st.mem[s.s.oid].fields.get(off(k)) for k in ("size", "capacity", "data")}
            if any(v is None for v in f.values()) or not isinstance(f["data"][1], Ptr) or f["data"][1].obj is None: pre(F); return []
            size, cap, data = flat(f["size"][1]), flat(f["capacity"][1]), f["data"][1]; m = st.mem[data.obj]
            if m.kind != "buf": pre(F); return []
            last = bsub(size, bv(1)); fixed = s.v.alloc == "fixed"
            pre(And(T if m.live and ctx.objs[data.obj].readonly is False else F, num_cmp(beq, data.off, bv(0)), ule(bv(1), size), ule(size, cap), beq(m.cells, cap), beq(log_read(m.node, last, bv(0), ctx), bv(0, 8)), T if fixed or ctx.objs[data.obj].info.get("owner") is s.v.al else F))
            n = length(args); out = []
            for ok in (True, False):
                s2 = st.copy(); ns = fresh_bv("newsize", 64); g = fresh_fn("unspecified", BVS(64), BVS(8))
                if fixed: fits = ule(badd(size, n), cap); s2.assume(fits if ok else Not(fits)); p, nc, node = data, cap, m.node
                else:
                    nc = fresh_bv("newcapacity", 64); o = ctx.new_buf(s2, "heap", nc, 1); ctx.objs[o.id].info["owner"] = s.v.al; s2.w(data.obj).live = False; p = Ptr(o.id, bv(0)); s2.assume(ule(nc, self.max_cells())); node = Node("copy", s2.mem[o.id].node, bv(0), last, m.node, bv(0))
                s2.assume(And(ule(size, ns), ule(ns, nc))); end = bsub(ns, bv(1))
                if ok: s2.assume(beq(ns, badd(size, n))); v = lambda c, b, end=end, g=g: ite(ult(c, end), char(args, bsub(c, last)), ite(beq(c, end), bv(0, 8), g(c)))
                else: v = lambda c, b, end=end, g=g: ite(beq(c, end), bv(0, 8), g(c))
                s2.w(p.obj).node = Node("fn", node, last, bsub(nc, last), v)
                for k, x in (("size", ns), ("capacity", nc), ("data", p)): s2.w(s.s.oid).fields[off(k)] = (8, x)
                if ok: code = bv(0x100000, 32)
                elif fixed: code = bv(S.ST(1, 9, 1), 32)
                else: code, c = _err_status("st_append"); s2.assume(c); s2.events += (("reallocate", {"n": nc, "ok": False, "status": code, "old": p}),)
                out.append((s2, code))
            return out
        for x in names: self.ctx.override[x] = handler
    def fn(self, name, handler): return FnPtr("cb_" + name, handler)
    def fn_value(self, name):
        """an opaque function pointer that must not be called"""
        def handler(ctx, st, args):
            ctx.oblige(st, "pre", "callback %s is not called here" % name, F); return []
        return FnPtr("cb_" + name, handler)
    def override(self, name, handler): self.ctx.override[name] = handler
    def null(self): return NULL
    def ghost(self, name, init): self.st.ghost[name] = bv(init) if isinstance(init, int) else init
    # ---- stand-ins for system functions
    def ext(self, name, rw=32, dom=(), writes=(), ret=None, kind="any"):
        """a system function: any return value of its kind (any, neg: 0 or -1, errno: 0 or an error number, bool, ok: always 0);
        on zero it stores arbitrary values through the pointers `writes` = [(argument, size)]"""
        def handler(ctx, st, args):
            if ret is not None: return ret.ptr if isinstance(ret, (Buf, Struct)) else ret
            def rec(s, v, out): s.events += (("ext", {"name": name, "args": args, "ret": v, "out": out}),)
            if not rw: rec(st, None, {}); return None
            v = fresh_bv("ret_" + name, rw) if kind != "ok" else bv(0, rw)
            if kind == "neg": st.assume(Or(beq(v, bv(0, rw)), beq(v, bv(-1, rw))))
            elif kind in ("errno", "bool"): st.assume(ule(v, bv(4095 if kind == "errno" else 1, rw)))
            if not writes: rec(st, v, {}); return v
            s2 = st.copy(); s2.assume(Not(beq(v, bv(0, rw)))); rec(s2, v, {})
            st.assume(beq(v, bv(0, rw))); out = {}
            for ix, sz in writes:
                out[ix] = fresh_bv("out_" + name, 8 * sz)
                if ctx.store(st, args[ix], ITY(8 * sz), out[ix]) is None: return [(s2, v)]
            rec(st, v, out); return [(s2, v), (st, v)]
        self.ctx.externals[name] = handler
    def heapfns(self):
        """malloc, realloc and free"""
        ctx = self.ctx; M = self.max_cells(); own = self.hblocks = object()
        def rec(s, what, **k): s.events += (("ext", dict(k, name=what)),)
        def block(st, n):
            st.assume(ule(n, M))
            o = ctx.new_buf(st, "heap", n, 1); ctx.objs[o.id].info["owner"] = own; return o
        def blk(st, p, w):
            ok = isinstance(p, Ptr) and p.obj is not None and ctx.objs[p.obj].info.get("owner") is own and st.mem[p.obj].live
            ctx.oblige(st, "pre", "%s is given a live block" % w, And(T if ok else F, num_cmp(beq, p.off, bv(0)) if ok else F)); return ok
        def malloc(ctx, st, args):
            n = flat(args[0]); s2 = st.copy(); rec(s2, "malloc", n=n, ptr=NULL, ok=False); out = [(s2, NULL)]
            o = block(st, n); p = Ptr(o.id, bv(0)); rec(st, "malloc", n=n, ptr=p, ok=True)
            return out + [(st, p)]
        def realloc(ctx, st, args):
            q, n = args[0], flat(args[1])
            if not blk(st, q, "realloc"): return []
            s2 = st.copy(); rec(s2, "realloc", n=n, ptr=NULL, old=q, ok=False); out = [(s2, NULL)]
            m = st.mem[q.obj]; o = block(st, n); nm = st.w(o.id); nm.node = Node("copy", nm.node, bv(0), ite(ult(n, m.cells), n, m.cells), m.node, bv(0))
            st.w(q.obj).live = False; p = Ptr(o.id, bv(0)); rec(st, "realloc", n=n, ptr=p, old=q, ok=True)
            return out + [(st, p)]
        def free(ctx, st, args):
            q = args[0]
            if isinstance(q, Ptr) and q.obj is None: rec(st, "free", old=q, ok=True); return None
            if not blk(st, q, "free"): return []
            st.w(q.obj).live = False; rec(st, "free", old=q, ok=True); return None
        def calloc(ctx, st, args):
            a, b = flat(args[0]), flat(args[1]); fits = Or(beq(b, bv(0)), ule(a, binop("udiv", bv(-1), b, 64)))
            s2 = st.copy(); rec(s2, "calloc", n=bmul(a, b), ptr=NULL, ok=False); st.assume(fits)
            n = bmul(a, b); o = block(st, n); p = Ptr(o.id, bv(0)); rec(st, "calloc", n=n, ptr=p, ok=True)
            return [(s2, NULL), (st, p)]
        ctx.externals.update(malloc=malloc, realloc=realloc, free=free, calloc=calloc)
    def heap_block(self, buf): self.ctx.objs[buf.oid].info["owner"] = self.hblocks
    # ---- loop templates
    def loop_hook(self, f): self.ctx.loop_hooks.append(f)
    def unroll(self, fname, n): self.ctx.unroll[fname] = n
    def try_unroll(self, n): self.ctx.try_unroll = n
    # ---- the call
    def call(self, fname, args, post, ret=None):
        if isinstance(fname, FnPtr): fname = fname.name
        self.called.append(fname)
        if fname not in self.ctx.m.funcs: raise Unsupported("function %s is not defined in the library" % fname)
        def cv(a):
            a = S.u(a)
            if a is None: return NULL
            return a
        f = self.ctx.m.funcs[fname]; a2 = []
        for (ty, n, at), a in zip(f.params, args):
            a = cv(a); rt = self.ctx.m.resolve(ty)
            if isinstance(a, bool): a = int(a)
            if isinstance(a, int): a = bv(a, rt.w) if rt.k == "int" else Ptr(None, bv(a))
            if isinstance(a, (Buf, Struct)): a = a.ptr
            if rt.k == "int" and isinstance(a, z3.BitVecRef) and a.size() != rt.w:
                a = zext(a, rt.w) if a.size() < rt.w else trunc(a, rt.w)
            if rt.k == "int" and rt.w == 1 and isinstance(a, z3.BitVecRef): a = beq(a, bv(1, 1))
            a2.append(a)
        a2 += [cv(a) for a in args[len(f.params):]]
        st = self.st.copy()
        if not self.st0 is not self.st: pass
        self.st0 = self.st.copy()
        # the precondition of this case must be satisfiable (vacuity guard)
        r = self.ctx.check(st.pc)
        self.covers.setdefault("precondition[%s] of %s satisfiable" % (self._lbl(), fname), r != "unsat")
        if r == "unsat": return
        finals = self.ctx.call_function(st, fname, a2)
        live = 0
        for s in finals:
            if self.ctx.check(s.pc, 3000, model="guess") == "unsat": continue
            live += 1
            self.run_post(post, s)
        self.covers["some path of %s[%s] returns" % (fname, self._lbl())] = live > 0 or self.covers.get("some path of %s[%s] returns" % (fname, self._lbl()), False)

    def run_post(self, post, s):
        """evaluate the postcondition; undecided case distinctions split the path"""
        work = [([], 0, s)]
        while work:
            dec, skip, st = work.pop()
            r = SymR(self, st, dec, skip)
            try: post(r)
            except NeedSplit as ns:
                for val in (True, False):
                    s2 = st.copy(); s2.assume(ns.cond if val else Not(ns.cond))
                    work.append((dec + [val], r.n_ens, s2))

class NeedSplit(Exception):
    def __init__(self, cond): self.cond = cond

class SymR:
    """one final path"""
    sym = True
    def __init__(self, h, st, decisions=(), skip=0):
        self.h, self.st, self.ctx = h, st, h.ctx
        self.ret = st.ret
        self.events = st.events
        self.decisions, self.n_dec, self.skip, self.n_ens = list(decisions), 0, skip, 0
    def decide(self, cond):
        """case distinction on a pre-state condition (or an outcome): splits the path when undecided"""
        if isinstance(cond, bool): return cond
        if is_t(cond): return True
        if is_f(cond): return False
        if self.n_dec < len(self.decisions):
            v = self.decisions[self.n_dec]; self.n_dec += 1; return v
        t, f = self.ctx.feasible(self.st, cond), self.ctx.feasible(self.st, Not(cond))
        if t and f: raise NeedSplit(cond)
        self.decisions.append(bool(t)); self.n_dec += 1
        return bool(t)
    def ensure(self, props, name, cond):
        self.n_ens += 1
        if self.n_ens <= self.skip: return
        props = props.split() if isinstance(props, str) else list(props)
        if self.h.props_wanted and not (set(props) & set(self.h.props_wanted)): return
        if isinstance(cond, bool): cond = T if cond else F
        # path condition must not be weakened by earlier posts being assumed: evaluate on a copy
        st2 = State(); st2.pc = list(self.st.pc); st2.trace = self.st.trace
        self.ctx.oblige(st2, "post", name, cond, props, assume=False)
    def cover(self, name, cond=True):
        key = name
        if self.h.covers.get(key): return
        if isinstance(cond, bool): cond = T if cond else F
        self.h.covers[key] = self.ctx.check(self.st.pc + [cond], 5000) == "sat"
    def field(self, s, k):
        off, size = self.h.lay.field(s.tname, k)
        f = self.st.mem[s.oid].fields.get(s.base + off)
        if f is None or f[0] != size: 
            raise Unsupported("field %s.%s not written" % (s.tname, k))
        return f[1]
    def pre_field(self, s, k):
        off, size = self.h.lay.field(s.tname, k); return self.h.st0.mem[s.oid].fields[s.base + off][1]
    def fields_unchanged(self, s, names=None):
        cs = []
        for n in names or self.h.lay.leaf_fields(s.tname):
            a, b = self.pre_field(s, n), self.field(s, n)
            cs.append(self.same(a, b))
        return And(cs)
    def same(self, a, b):
        if a is None: a = NULL
        if b is None: b = NULL
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, z3.BitVecRef): a = Ptr(None, a)
            if isinstance(b, z3.BitVecRef): b = Ptr(None, b)
            return self.ctx.ptr_cmp("eq", a, b)
        return S.eq(a, b)
    def load(self, p, off, size):
        """the value of a pointer-size or integer cell reachable through p"""
        if not isinstance(p, Ptr) or p.obj is None: raise Unsupported("read through an unknown pointer")
        m = self.st.mem[p.obj]; f = m.fields.get(cval(flat(p.off)) + off)
        if f is None or f[0] != size: raise Unsupported("unknown cell")
        return f[1]
    def callable(self, p): return isinstance(p, FnPtr) and p.name in self.ctx.m.funcs
    def outval(self, s):
        return self.st.mem[s.oid].fields[0][1]
    def out_unchanged(self, s):
        return self.same(self.h.st0.mem[s.oid].fields[0][1], self.outval(s))
    def is_null(self, p):
        if isinstance(p, z3.BitVecRef): return S.eq(p, 0)
        return self.ctx.ptr_cmp("eq", p, NULL)
    def ptr_at(self, p, base, cell, stride, byte=0):
        """p == base + cell*stride + byte"""
        if isinstance(p, (z3.BitVecRef,)) : return F
        return self.ctx.ptr_cmp("eq", p, Ptr(base.obj, num_add(base.off, self.h._off(cell, byte, stride))))
    def byte(self, p, cell, byte, stride):
        """current byte at p + cell*stride + byte"""
        if p.obj is None or isinstance(p, FnPtr): raise Unsupported("read of null in postcondition")
        m = self.st.mem[p.obj]
        off = num_add(p.off, self.h._off(cell, byte, stride))
        c, b = self.ctx.buf_off(self.st, m, off)
        return log_read(m.node, c, b, self.ctx)
    def has_field(self, s, k):
        off, size = self.h.lay.field(s.tname, k)
        f = self.st.mem[s.oid].fields.get(s.base + off)
        return f is not None and f[0] == size
    def ptr_in_block(self, p, data, cell, stride): return self.ptr_at(p, data, cell, stride)
    def buf_cells(self, p):
        return self.st.mem[p.obj].cells
    def live(self, p):
        return self.st.mem[p.obj].live
    def buf_unchanged_at(self, buf, cell, byte=0):
        return S.eq(buf.byte(self.st, cell, byte), buf.pre(cell, byte))
    def ghost(self, n): return self.st.ghost[n]
    def call(self, fname, args, post):
        """a further call from this state"""
        h = self.h; old, old0 = h.st, h.st0
        h.st = self.st.copy(); h.st.frames = []; h.st.ret = None
        try: h.call(fname, args, post)
        finally: h.st, h.st0 = old, old0

# ------------------------------------------------------------------ allocator / callback contracts (assumed)
def _err_status(name):
    s = fresh_bv(name, 32)
    return s, Not(beq(s & bv(0x80000000, 32), bv(0, 32)))

def sym_allocator(h, stride, props=None, max_fail=None):
    """ZyanAllocator whose callbacks satisfy the allocator contract and may fail at every call with any error status"""
    ctx = h.ctx
    al = h.struct("ZyanAllocator", {}, name="allocator")
    M = h.max_cells()
    def common(st, args, what):
        ctx.oblige(st, "pre", "%s is given the allocator it belongs to" % what, ctx.ptr_cmp("eq", args[0], al.ptr), props)
        es = args[2]
        if isinstance(es, Scaled): es = flat(es)
        if isinstance(stride, int): ok = beq(es, bv(stride))
        else: ok = beq(es, stride)
        ctx.oblige(st, "pre", "%s is given the element size" % what, ok, props)
        n = args[3]
        return flat(n) if isinstance(n, Scaled) else n
    def fail(st, ev):
        s2 = st.copy(); code, c = _err_status("st_" + ev[0]); s2.assume(c); s2.events += ((ev[0], dict(ev[1], ok=False, status=code)),); return (s2, code)
    def okstatus(st):
        c = fresh_bv("okst", 32); st.assume(beq(c & bv(0x80000000, 32), bv(0, 32))); return c
    def allocate(ctx, st, args):
        n = common(st, args, "allocate")
        out = [fail(st, ("allocate", {"n": n}))]
        s1 = st
        s1.assume(ule(n, M))
        if ctx.feasible(s1, T):
            o = ctx.new_buf(s1, "heap", n, stride); p = Ptr(o.id, bv(0))
            ctx.objs[o.id].info["owner"] = al
            if ctx.store(s1, args[1], PTRTY, p) is not None:
                s1.events += (("allocate", {"n": n, "ok": True, "ptr": p, "status": bv(0x100000, 32)}),); out.append((s1, bv(0x100000, 32)))
        return out
    def reallocate(ctx, st, args):
        n = common(st, args, "reallocate")
        cur = ctx.load(st, args[1], PTRTY)
        if cur is None: return []
        if cur.obj is None: ctx.oblige(st, "pre", "reallocate is given a current block", F, props); return []
        m = st.mem[cur.obj]
        ctx.oblige(st, "pre", "reallocate is given the live block this allocator returned", And(T if m.live else F, T if ctx.objs[cur.obj].info.get("owner") is al else F, num_cmp(beq, cur.off, bv(0))), props)
        out = [fail(st, ("reallocate", {"n": n, "old": cur}))]
        s1 = st; s1.assume(ule(n, M))
        if m.live and ctx.feasible(s1, T):
            o = ctx.new_buf(s1, "heap", n, stride); ctx.objs[o.id].info["owner"] = al
            nm = s1.w(o.id); keep = ite(ult(n, m.cells), n, m.cells)
            nm.node = Node("copy", nm.node, bv(0), keep, m.node, bv(0))
            om = s1.w(cur.obj); om.live = False
            p = Ptr(o.id, bv(0))
            if ctx.store(s1, args[1], PTRTY, p) is not None:
                s1.events += (("reallocate", {"n": n, "ok": True, "old": cur, "ptr": p, "status": bv(0x100000, 32)}),); out.append((s1, bv(0x100000, 32)))
        return out
    def deallocate(ctx, st, args):
        n = common(st, args, "deallocate")
        p = args[1]
        if p is UNDEF or isinstance(p, FnPtr) or p.obj is None:
            ctx.oblige(st, "pre", "deallocate is given the live block this allocator returned", F, props); return []
        m = st.mem[p.obj]
        ctx.oblige(st, "pre", "deallocate is given the live block this allocator returned", And(T if m.live else F, T if ctx.objs[p.obj].info.get("owner") is al else F, num_cmp(beq, p.off, bv(0))), props)
        if not m.live: return []
        out = [fail(st, ("deallocate", {"n": n, "old": p, "cells": m.cells}))]
        om = st.w(p.obj); om.live = False
        st.events += (("deallocate", {"n": n, "ok": True, "old": p, "cells": m.cells, "status": bv(0x100000, 32)}),); out.append((st, bv(0x100000, 32)))
        return out
    for k, f in (("allocate", allocate), ("reallocate", reallocate), ("deallocate", deallocate)):
        h.set_field(al, k, FnPtr("cb_" + k, f))
    return al
from .ir import PTR as PTRTY
from . import ir as _ir
def ITY(w): return _ir.INT(w)

def sym_own(h, al, buf):
    h.ctx.objs[buf.oid].info["owner"] = al
SymH.allocator = sym_allocator
SymH.own = sym_own
def _default_allocator(self, al):
    self.ctx.override["ZyanAllocatorDefault"] = lambda ctx, st, args: al.ptr
SymH.default_allocator = _default_allocator

def sym_destructor(h, v, kd):
    """element destructor: may do anything to the element's bytes; counted for the ghost index kd"""
    g = "dtor_" + v.name
    h.ghost(g, 0)
    def handler(ctx, st, args):
        p = args[0]
        cur = st.mem[v.s.oid].fields.get(v.s.base + h.lay.field("ZyanVector", "data")[0])
        if not isinstance(p, Ptr) or p.obj is None or not isinstance(cur[1], Ptr):
            ctx.oblige(st, "pre", "destructor is given an element of the vector", F, ["C04"]); return []
        m = st.mem[p.obj]
        if m.kind != "buf" or p.obj != cur[1].obj:
            ctx.oblige(st, "pre", "destructor is given an element of the vector", F, ["C04"]); return []
        c, b = ctx.buf_off(st, m, p.off)
        ctx.oblige(st, "pre", "destructor is given an element of the vector", And(T if m.live else F, beq(b, bv(0)), ult(c, v.size)), ["C04"])
        bb = z3.BitVec("k_dtorbyte", 64)
        ok = beq(log_read(m.node, c, bb, ctx), v.data.pre(c, bb))
        if isinstance(v.es, z3.ExprRef): ok = Implies(ult(bb, v.es), ok)
        ctx.oblige(st, "pre", "element is intact when its destructor runs", ok, ["C04"])
        st.ghost[g] = badd(st.ghost[g], b2bv(beq(c, kd), 64))
        return None
    def hook(L):
        """processed-region template for the destructor counter"""
        out = []
        init = L.s0.ghost[g]
        for n, R in L.regions():
            out.append(("dtor%s%s" % (v.name, n), lambda V, R=R: beq(V.st.ghost[g], badd(init, b2bv(R(V, kd), 64)))))
        return out
    h.loop_hook(hook)
    return FnPtr("cb_dtor_" + v.name, handler)
SymH.destructor = sym_destructor
def _destroyed(self, v): return self.st.ghost["dtor_" + v.name]
SymR.destroyed = _destroyed
def _valid_block(self, p):
    if not isinstance(p, Ptr) or p.obj is None: return False
    m = self.st.mem[p.obj]
    if m.kind != "buf" or not m.live: return False
    o = flat(p.off)
    return is_c(o) and cval(o) == 0
SymR.valid_block = _valid_block

# ------------------------------------------------------------------ constructors and comparison callbacks
def _constructor(h, es, name="ctor"):
    """element constructor: writes arbitrary bytes into its element and may fail with any error status"""
    def handler(ctx, st, args):
        p = args[0]
        if not isinstance(p, Ptr) or p.obj is None or st.mem[p.obj].kind != "buf":
            ctx.oblige(st, "pre", "constructor is given element storage", F, ["C01", "C02"]); return []
        m = st.mem[p.obj]; c, b = ctx.buf_off(st, m, p.off)
        ctx.oblige(st, "pre", "constructor is given element storage", And(T if m.live and not ctx.objs[p.obj].readonly else F, beq(b, bv(0)), ult(c, m.cells)), ["C01", "C02"])
        fn = fresh_fn("constructed", BVS(64), BVS(8))
        m2 = st.w(p.obj); m2.node = Node("fn", m2.node, c, bv(1), lambda cell, byte, fn=fn: fn(byte))
        s2 = st.copy(); code, bad = _err_status("st_ctor"); s2.assume(bad)
        ok = fresh_bv("okst", 32); st.assume(beq(ok & bv(0x80000000, 32), bv(0, 32)))
        d = {"ptr": p, "fn": fn}
        s2.events += (("construct", dict(d, ok=False, status=code)),)
        st.events += (("construct", dict(d, ok=True, status=ok)),)
        return [(s2, code), (st, ok)]
    return FnPtr("cb_" + name, handler)
SymH.constructor = _constructor
def _constructed(self, ev, b): return ev[1]["fn"](S.u(b) if not isinstance(b, int) else bv(b))
SymR.constructed = _constructed

def _byte_operation(h, dst, src):
    """byte operation callback: combines *v1 and *v2 into *v1 by an arbitrary function, or fails"""
    f = z3.Function("byteop", BVS(8), BVS(8), BVS(8)); o = _Cmp(); o.result = lambda a, b: f(a, b)
    def handler(ctx, st, args):
        p, q = args[:2]
        ok = isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj == dst.oid and q.obj == src.oid
        if not ok: ctx.oblige(st, "pre", "byte operation is given the bytes of both bitsets at one index", F); return []
        m = st.mem[dst.oid]; c, _ = ctx.buf_off(st, m, p.off); c2, _ = ctx.buf_off(st, st.mem[src.oid], q.off)
        ctx.oblige(st, "pre", "byte operation is given the bytes of both bitsets at one index", And(beq(c, c2), ult(c, m.cells), ult(c2, st.mem[src.oid].cells)))
        x = f(log_read(m.node, c, bv(0), ctx), log_read(st.mem[src.oid].node, c2, bv(0), ctx))
        s2 = st.copy(); code, bad = _err_status("st_byteop"); s2.assume(bad); s2.events += (("byteop", {"ok": False, "status": code}),)
        m2 = st.w(dst.oid); m2.node = Node("fn", m2.node, c, bv(1), lambda cell, byte, x=x: x)
        okc = fresh_bv("okst", 32); st.assume(beq(okc & bv(0x80000000, 32), bv(0, 32)))
        return [(s2, code), (st, okc)]
    o.ptr = FnPtr("cb_byteop", handler); return o
SymH.byte_operation = _byte_operation

class _Cmp:
    pass
def _two(h, v, e, i, n, args, st, ctx):
    """classify (left, right) as (vector element, searched element)"""
    info = []
    for p in args[:2]:
        if not isinstance(p, Ptr) or p.obj is None:
            ctx.oblige(st, "pre", "comparison is given an element of the range and the searched element", F, ["C06", "C02"]); return None
        info.append(p)
    l, r = info; sw = False
    if l.obj == e.oid and r.obj == v.data.oid: l, r = r, l; sw = True
    if not (l.obj == v.data.oid and r.obj == e.oid):
        ctx.oblige(st, "pre", "comparison is given an element of the range and the searched element", F, ["C06", "C02"]); return None
    c, b = ctx.buf_off(st, st.mem[l.obj], l.off); c2, b2 = ctx.buf_off(st, st.mem[r.obj], r.off)
    lo, cnt = (x if isinstance(x, z3.ExprRef) else bv(x) for x in (i, n))
    ctx.oblige(st, "pre", "comparison is given an element of the range and the searched element", And(beq(b, bv(0)), beq(c2, bv(0)), beq(b2, bv(0)), ult(c, v.size), ule(lo, c), ult(bsub(c, lo), cnt)), ["C06", "C02"])
    return c, sw
def _equality(h, v, e, i, n):
    f = z3.Function("match", BVS(64), z3.BoolSort()); o = _Cmp()
    o.match = lambda k: f(k if isinstance(k, z3.ExprRef) else bv(k))
    def handler(ctx, st, args):
        r = _two(h, v, e, i, n, args, st, ctx)
        if r is None: return []
        return b2bv(f(r[0]), 8)
    o.ptr = FnPtr("cb_eq", handler); return o
SymH.equality = _equality
def _ordering(h, v, e, i, n, k):
    """three-way comparison of vector elements with the searched one; the range is sorted (precondition), instantiated against k"""
    f = z3.Function("order", BVS(64), BVS(32)); o = _Cmp(); ctx0 = h.ctx
    lo, cnt = (x if isinstance(x, z3.ExprRef) else bv(x) for x in (i, n))
    Z = bv(0, 32); seen = []
    def val(c):
        c = c if isinstance(c, z3.ExprRef) else bv(c)
        x = f(c)
        inr = lambda q: And(ule(lo, q), ult(bsub(q, lo), cnt))
        seen.append(c) if not any(c.eq(q) for q in seen) else None
        for a, b in [(c, k), (k, c)] + [p for q in seen[-8:] for p in ((c, q), (q, c))]:
            # a <= b  =>  order(a) <= order(b) in sign
            if a.eq(b): continue
            ctx0.add_axiom(Implies(And(inr(a), inr(b), ule(a, b)), And(Implies(slt(f(b), Z), slt(f(a), Z)), Implies(slt(Z, f(a)), slt(Z, f(b))))))
        ctx0.add_axiom(Not(beq(x, bv(0x80000000, 32))))
        return x
    o.less = lambda q: slt(val(q), Z)
    o.equal = lambda q: beq(val(q), Z)
    o.sign = val
    def handler(ctx, st, args):
        r = _two(h, v, e, i, n, args, st, ctx)
        if r is None: return []
        x = val(r[0]); return bsub(Z, x) if r[1] else x
    o.ptr = FnPtr("cb_cmp", handler); return o
SymH.ordering = _ordering

# ------------------------------------------------------------------ loop templates
def _map_hook(h, objs, k, b, value):
    """pointwise: processed cells hold value(k, b) (anything if value is None), all others are as before the loop.
    objs(state) -> list of pointers/object ids (or one)"""
    uid = len(h.ctx.loop_hooks)
    def hook(L):
        out = []
        ps = objs(L.s0)
        if not isinstance(ps, (list, tuple)): ps = [ps]
        for j, p in enumerate(ps):
            if isinstance(p, Ptr): oid, off = p.obj, p.off
            else: oid, off = p, bv(0)
            if oid is None or oid not in L.mods: continue
            m0 = L.s0.mem[oid]; c0, b0 = h.ctx.buf_off(L.s0, m0, off)
            bb = bv(b) if isinstance(b, int) else b
            old = log_read(m0.node, badd(c0, k), bb, h.ctx)
            if value is None:
                for n, R in L.regions(): out.append(("kept%d.%d%s" % (uid, j, n), lambda V, R=R, oid=oid, old=old, c0=c0, bb=bb: Or(R(V, badd(c0, k)), beq(log_read(V.st.mem[oid].node, badd(c0, k), bb, h.ctx), old))))
                continue
            new = value(k, b)
            if isinstance(new, int): new = bv(new, 8)
            for n, R in L.regions():
                out.append(("map%d.%d%s" % (uid, j, n), lambda V, R=R, oid=oid, old=old, new=new, c0=c0, bb=bb: beq(log_read(V.st.mem[oid].node, badd(c0, k), bb, h.ctx), ite(R(V, badd(c0, k)), new, old))))
            out.append(("same%d.%d" % (uid, j), lambda V, oid=oid, old=old, c0=c0, bb=bb: beq(log_read(V.st.mem[oid].node, badd(c0, k), bb, h.ctx), old)))
        return out
    h.loop_hook(hook)
SymH.map_hook = _map_hook
def _pred_hook(h, k, pred, name="pred"):
    """processed(k) => pred(k)"""
    name += str(len(h.ctx.loop_hooks))
    def hook(L):
        p = pred(k)
        return [("%s%s" % (name, n), lambda V, R=R: Implies(R(V, k), p)) for n, R in L.regions()]
    h.loop_hook(hook)
SymH.pred_hook = _pred_hook
def _result_hook(h, k, pred, i, n):
    """search that keeps its result in a variable: -1 and nothing processed matches, or an element of the range that matches first"""
    lo, cnt = (x if isinstance(x, z3.ExprRef) else bv(x) for x in (i, n))
    def hook(L):
        out = []
        for v in L.vars:
            if not (isinstance(v.init, z3.BitVecRef) and v.init.size() == 64 and is_c(v.init) and cval(v.init) == 2**64 - 1): continue
            none = lambda V, v=v: beq(V.vals[v.name], bv(2**64 - 1))
            g = lambda V, v=v: V.vals[v.name]
            out.append(("found:" + v.name, lambda V, g=g, none=none: Or(none(V), And(pred(g(V)), ule(lo, g(V)), ult(bsub(g(V), lo), cnt), Implies(And(ule(lo, k), ult(k, g(V))), Not(pred(k)))))))
            for nm, R in L.regions(): out.append(("none:%s:%s" % (v.name, nm), lambda V, R=R, none=none: Implies(And(none(V), R(V, k)), Not(pred(k)))))
        return out
    h.loop_hook(hook)
SymH.result_hook = _result_hook
def _split_hook(h, k, o, i, n):
    """binary search: below a loop variable everything is less, above it nothing is (several anchors tried)"""
    lo, cnt = (x if isinstance(x, z3.ExprRef) else bv(x) for x in (i, n))
    inr = And(ule(lo, k), ult(bsub(k, lo), cnt))
    from .loops import cellnum
    def hook(L):
        out = []
        vs = [v for v in L.vars if v.init is not UNDEF and cellnum(v.init) is not None]
        for v in vs:
            g = lambda V, v=v: cellnum(V.vals[v.name])
            out.append(("less<" + v.name, lambda V, g=g: Implies(And(inr, ult(k, g(V))), o.less(k))))
            out.append(("!less>=" + v.name, lambda V, g=g: Implies(And(inr, ule(g(V), k)), Not(o.less(k)))))
            out.append(("!less>" + v.name, lambda V, g=g: Implies(And(inr, slt(g(V), k)), Not(o.less(k)))))
            out.append(("in" + v.name, lambda V, g=g: And(ule(lo, g(V)), ule(bsub(g(V), lo), cnt))))
            out.append(("in-1" + v.name, lambda V, g=g: And(sle(bsub(lo, bv(1)), g(V)), slt(g(V), badd(lo, cnt)))))
        for v in L.vars:
            x = v.init
            if isinstance(x, z3.ExprRef) and (isinstance(x, z3.BoolRef) or x.size() in (8, 32)):
                tr = (lambda V, v=v: V.vals[v.name]) if isinstance(x, z3.BoolRef) else (lambda V, v=v, x=x: Not(beq(V.vals[v.name], x)))
                if not isinstance(x, z3.BoolRef):
                    for c in (S.TRUE, S.FALSE, 0, 1):
                        out.append(("two%x%s" % (c, v.name), lambda V, v=v, x=x, c=c: Or(beq(V.vals[v.name], x), beq(V.vals[v.name], bv(c, x.size())))))
                for w in vs:
                    g = lambda V, w=w: cellnum(V.vals[w.name])
                    nx = lambda V, g=g: badd(g(V), bv(1))
                    out.append(("eq%s@%s" % (v.name, w.name), lambda V, tr=tr, g=g: Implies(tr(V), And(ule(lo, g(V)), ult(bsub(g(V), lo), cnt), o.equal(g(V))))))
                    out.append(("eq%s@%s+1" % (v.name, w.name), lambda V, tr=tr, nx=nx: Implies(tr(V), And(ule(lo, nx(V)), ult(bsub(nx(V), lo), cnt), o.equal(nx(V))))))
                    out.append(("noeq%s@%s" % (v.name, w.name), lambda V, tr=tr, g=g: Implies(And(Not(tr(V)), inr, slt(g(V), k)), Not(o.equal(k)))))
                    out.append(("noeq>=%s@%s" % (v.name, w.name), lambda V, tr=tr, g=g: Implies(And(Not(tr(V)), inr, sle(g(V), k)), Not(o.equal(k)))))
        return out
    h.loop_hook(hook)
SymH.split_hook = _split_hook
