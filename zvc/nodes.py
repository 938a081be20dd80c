"""Nodes of a linked list: one arena of cells, each with two links and an element.  A link is the number of a cell, -1 is
the null pointer.  The cells of a list over a caller buffer are its slots; the nodes of a list with an allocator are
numbered in the order of the list, and new blocks get the following numbers (their addresses are never compared)."""
import z3
from .terms import *
from .mem import *
from .ir import Unsupported
from . import spec as S
PREV, NEXT, HEAD = 0, 8, 16

class NodeMem:
    kind = "nodes"; live = True; node = None
    def __init__(self, oid, stride, es, cells, logs, facts=()): self.oid, self.stride, self.es, self.cells, self.logs, self.facts = oid, stride, es, cells, dict(logs), list(facts)
    def copy(self): return NodeMem(self.oid, self.stride, self.es, self.cells, self.logs, self.facts)
    def changed(self, m): return {k for k in self.logs if self.logs[k] is not m.logs[k]}
    def havoc(self, ctx, name, parts):
        m = self.copy()
        for k in parts:
            if k == "data": f = fresh_fn("loopmem_data", BVS(64), BVS(64), BVS(8)); m.logs[k] = node_base(f)
            else: f = fresh_fn("loopmem_%s" % k, BVS(64), BVS(64)); m.logs[k] = node_base(lambda c, b, f=f: f(c))
        return m
    def cell(self, ctx, st, p, what, size):
        s = to_scaled(p.off, self.stride); b = z3.simplify(s.byte)
        if not is_c(b): raise Unsupported("symbolic offset into a list node")
        b = cval(b); c = s.cell
        ok = beq(log_read(self.logs["live"], c, bv(0), ctx), bv(1)) if self.cells is None else ult(c, self.cells)
        self.learn(st, c)
        ctx.oblige(st, "safety", "%s of a node of the list (%s)" % (what, ctx.where(st)), ok); return c, b
    def learn(self, st, c):
        for f in self.facts: st.assume(f(c))
    def load(self, ctx, st, p, ty, size):
        c, b = self.cell(ctx, st, p, "read", size)
        if b in (PREV, NEXT) and size == 8:
            v = Ptr(self.oid, Scaled(log_read(self.logs[b], c, bv(0), ctx), bv(0), self.stride)); return v if ty.k == "ptr" else ctx.ptr2int(v)
        if b >= HEAD and size == 1: ctx.oblige(st, "safety", "read inside the element (%s)" % ctx.where(st), ult(bv(b - HEAD), self.es)); return log_read(self.logs["data"], c, bv(b - HEAD), ctx)
        raise Unsupported("read of part of a list node")
    def code(self, ctx, v):
        if v is UNDEF: return fresh_bv("undef", 64)
        if isinstance(v, z3.BitVecRef): v = Ptr(None, v)
        if isinstance(v, Ptr):
            if v.obj is None and is_c(flat(v.off)) and cval(flat(v.off)) == 0: return bv(-1)
            if v.obj == self.oid:
                s = to_scaled(v.off, self.stride)
                if is_c(s.byte) and cval(s.byte) == 0: return s.cell
        return None
    def store(self, ctx, st, p, ty, size, v):
        c, b = self.cell(ctx, st, p, "write", size)
        if b in (PREV, NEXT) and size == 8:
            k = self.code(ctx, v)
            if k is None: ctx.oblige(st, "safety", "a link is the address of a node or null (%s)" % ctx.where(st), F); return None
            m = st.w(self.oid); m.logs[b] = Node("store", m.logs[b], c, bv(0), k); return True
        if b >= HEAD and size == 1:
            ctx.oblige(st, "safety", "write inside the element (%s)" % ctx.where(st), ult(bv(b - HEAD), self.es))
            m = st.w(self.oid); m.logs["data"] = Node("store", m.logs["data"], c, bv(b - HEAD), v); return True
        raise Unsupported("write of part of a list node")
    def memcopy(self, ctx, st, d, s, n, overlap_ok):
        if d.obj != self.oid: raise Unsupported("copy out of a list node")
        c, b = self.cell(ctx, st, d, "write", None); sm = st.mem[s.obj]; n = flat(n)
        if b < HEAD or sm.kind not in ("buf", "nodes"): raise Unsupported("copy over the links of a list node")
        if sm.kind == "nodes": sc, sb = sm.cell(ctx, st, s, "read", None); sb -= HEAD; src = sm.logs["data"]; room = sm.es
        else: sc, sb = ctx.buf_off(st, sm, s.off); src = sm.node; room = flat(Scaled(bsub(sm.cells, sc), bv(0), sm.stride)) if not (is_c(sc) and cval(sc) == 0 and is_c(sm.cells) and cval(sm.cells) == 1) else sm.stride
        if isinstance(sb, int): sb = bv(sb)
        if not is_c(sb): raise Unsupported("copy of part of an element")
        for w, x, o in (("target", self.es, bv(b - HEAD)), ("source", room if isinstance(room, z3.ExprRef) else bv(room), sb)):
            ctx.oblige(st, "safety", "copy %s inside the element (%s)" % (w, ctx.where(st)), And(ule(o, x), ule(n, bsub(x, o))))
        rel = bsub(sb, bv(b - HEAD)); old = self.logs["data"]; whole = same(n, self.es) and b == HEAD
        def val(cell, byte):
            v = log_read(src, sc, badd(byte, rel), ctx)
            return v if whole else ite(ult(bsub(byte, bv(b - HEAD)), n), v, log_read(old, cell, byte, ctx))
        m = st.w(self.oid); m.logs["data"] = Node("fn", old, c, bv(1), val); return True
    def same(self, o): return self is o

class Nodes:
    """the nodes of a list of n elements; for a caller buffer of C slots the list occupies the slots at(0)..at(n-1) and the chain of
    reusable slots at(n)..at(hw-1), the slots from hw on have never been used"""
    def __init__(self, h, es, n, hw, C, dyn):
        self.h, self.es, self.n, self.hw, self.C, self.dyn = h, es, n, hw, C, dyn; ctx = h.ctx
        self.stride = badd(bv(16), es); ctx.strides.append(self.stride)
        o = ctx.new_obj("nodes"); self.oid = o.id; o.info["nodes"] = self.stride
        self._at, self._pos = z3.Function("at", BVS(64), BVS(64)), z3.Function("pos", BVS(64), BVS(64))
        gp, gn, gd = z3.Function("garb_prev", BVS(64), BVS(64)), z3.Function("garb_next", BVS(64), BVS(64)), z3.Function("element", BVS(64), BVS(64), BVS(8))
        def nxt(c, b):
            p = self.pos(c); one = badd(p, bv(1)); inl = self.valid(c)
            v = ite(And(inl, ult(p, n)), ite(ult(one, n), self.at(one), bv(-1)), gn(c))
            if not dyn: v = ite(And(inl, ult(p, hw), Not(ult(p, n))), ite(ult(one, hw), self.at(one), bv(-1)), v)
            return v
        def prv(c, b): p = self.pos(c); return ite(And(self.valid(c), ult(p, n)), ite(beq(p, bv(0)), bv(-1), self.at(bsub(p, bv(1)))), gp(c))
        logs = {PREV: node_base(prv), NEXT: node_base(nxt), "data": node_base(gd)}
        if dyn: logs["live"] = node_base(lambda c, b: ite(ult(c, n), bv(1), bv(0)))
        h.st.mem[o.id] = NodeMem(o.id, self.stride, es, None if dyn else C, logs)
        if dyn: h.ghost("fresh node", n); h.st.ghost["release"] = bv(0, 32)
        h.ghost("destroyed", 0)
    def valid(self, c): return T if self.dyn else ult(c, self.C)
    def at(self, i):
        i = S.u(i); i = bv(i) if isinstance(i, int) else i
        if self.dyn: return i
        a = self._at(i); p = self._pos(a)
        self.h.ctx.add_axiom(Implies(ult(i, self.C), And(beq(p, i), ult(a, self.C), ite(ult(i, self.hw), ult(a, self.hw), beq(a, i))))); return a
    def pos(self, c):
        c = S.u(c); c = bv(c) if isinstance(c, int) else c
        if self.dyn: return c
        p = self._pos(c); a = self._at(p)
        self.h.ctx.add_axiom(Implies(ult(c, self.C), And(beq(a, c), ult(p, self.C), ite(ult(c, self.hw), ult(p, self.hw), beq(p, c))))); return p
    def ptr(self, c): c = S.u(c); return Ptr(self.oid, Scaled(bv(c) if isinstance(c, int) else c, bv(0), self.stride))
    def data_ptr(self, c): c = S.u(c); return Ptr(self.oid, Scaled(bv(c) if isinstance(c, int) else c, bv(HEAD), self.stride))
    def link(self, cond, i): return Ptr(self.oid, Scaled(ite(S._zb(cond) if isinstance(cond, bool) else cond, self.at(i), bv(-1)), bv(0), self.stride))
    @property
    def buffer(self): return Ptr(self.oid, bv(0))
    def capacity(self, rem): REMAINDERS[rem.get_id()] = rem; return Scaled(self.C, rem, self.stride)
    def read(self, st, log, c, b=0): return log_read(st.mem[self.oid].logs[log], S.u(c) if not isinstance(S.u(c), int) else bv(S.u(c)), S.u(b) if not isinstance(S.u(b), int) else bv(S.u(b)), self.h.ctx)
    def element(self, c, b): return self.read(self.h.st0, "data", c, b)
    # ---- the state after a call
    def code(self, r, v): x = r.st.mem[self.oid].code(self.h.ctx, v); return bv(-3) if x is None else x
    def next(self, r, c): return self.read(r.st, NEXT, c)
    def prev(self, r, c): return self.read(r.st, PREV, c)
    def live(self, r, c): return self.read(r.st, "live", c)
    def data(self, r, c, b): return self.read(r.st, "data", c, b)
    def destroyed(self, r): return r.st.ghost["destroyed"]
    def release_status(self, r): return r.st.ghost["release"] if self.dyn else bv(0, 32)
    # ---- callbacks
    def allocator(self, props):
        h = self.h; ctx = h.ctx; al = h.struct("ZyanAllocator", {}, name="allocator"); st_ = self.stride
        def common(st, args, what):
            es, n = flat(args[2]), flat(args[3]); full = And(beq(es, flat(Scaled(bv(1), bv(0), st_))), beq(n, bv(1)))
            if isinstance(args[2], Scaled): full = And(num_cmp(beq, args[2], st_), beq(n, bv(1)))
            ctx.oblige(st, "pre", "%s is given the allocator of the list" % what, ctx.ptr_cmp("eq", args[0], al.ptr), props)
            ctx.oblige(st, "pre", "%s is given the size of one node" % what, full, props)
        def fail(st, k, **d):
            from .sym import _err_status
            s2 = st.copy(); code, c = _err_status("st_" + k); s2.assume(c); s2.events += ((k, dict(d, ok=False, status=code)),); return s2, code
        def allocate(ctx, st, args):
            common(st, args, "allocate"); out = [fail(st, "allocate")]
            c = st.ghost["fresh node"]; st.ghost["fresh node"] = badd(c, bv(1)); st.assume(ult(c, bv(1 << 47)))
            m = st.w(self.oid); m.logs["live"] = Node("store", m.logs["live"], c, bv(0), bv(1))
            from .sym import PTRTY
            return out + ([(st, bv(0x100000, 32))] if ctx.store(st, args[1], PTRTY, self.ptr(c)) is not None else [])
        def deallocate(ctx, st, args):
            common(st, args, "deallocate"); p = args[1]; m = st.mem[self.oid]; c = m.code(ctx, p) if not isinstance(p, FnPtr) and p is not UNDEF else None
            if c is None: ctx.oblige(st, "pre", "deallocate is given a node of the list that is not released yet", F, props); return []
            m.learn(st, c)
            ctx.oblige(st, "pre", "deallocate is given a node of the list that is not released yet", beq(log_read(m.logs["live"], c, bv(0), ctx), bv(1)), props)
            m = st.w(self.oid); m.logs["live"] = Node("store", m.logs["live"], c, bv(0), bv(0))     # given up, whatever the allocator reports
            from .sym import _err_status
            s2 = st.copy(); code, bad = _err_status("st_deallocate"); s2.assume(bad); s2.ghost["release"] = code; return [(s2, code), (st, bv(0x100000, 32))]
        def no(ctx, st, args): ctx.oblige(st, "pre", "nodes are not reallocated", F, props); return []
        for k, f in (("allocate", allocate), ("reallocate", no), ("deallocate", deallocate)): h.set_field(al, k, FnPtr("cb_" + k, f))
        return al
    def destructor(self, g, b):
        """counts the calls for cell g; the element must be in the list and unchanged"""
        h = self.h; ctx = h.ctx
        def handler(ctx, st, args):
            p = args[0]; ok = isinstance(p, Ptr) and p.obj == self.oid
            s = to_scaled(p.off, self.stride) if ok else None
            if not ok or not is_c(s.byte) or cval(s.byte) != HEAD: ctx.oblige(st, "pre", "destructor is given an element of the list", F); return []
            c = s.cell; m = st.mem[self.oid]; m.learn(st, c)
            ctx.oblige(st, "pre", "destructor is given an element of the list", And(self.valid(c), ult(self.pos(c), self.n), beq(log_read(m.logs["live"], c, bv(0), ctx), bv(1)) if self.dyn else T))
            ctx.oblige(st, "pre", "element is intact when its destructor runs", Implies(ult(b, self.es), beq(log_read(m.logs["data"], c, b, ctx), self.element(c, b))))
            st.ghost["destroyed"] = badd(st.ghost["destroyed"], b2bv(beq(c, g), 64)); return None
        return FnPtr("cb_node_dtor", handler)
    def constructor(self):
        h = self.h
        def handler(ctx, st, args):
            p = args[0]; ok = isinstance(p, Ptr) and p.obj == self.oid; s = to_scaled(p.off, self.stride) if ok else None
            if not ok or not is_c(s.byte) or cval(s.byte) != HEAD: ctx.oblige(st, "pre", "constructor is given the storage of the new element", F); return []
            from .sym import _err_status
            c = s.cell; m = st.mem[self.oid]; ctx.oblige(st, "pre", "constructor is given the storage of the new element", beq(c, self.at(self.n)))
            fn = fresh_fn("constructed", BVS(64), BVS(8)); m = st.w(self.oid); m.logs["data"] = Node("fn", m.logs["data"], c, bv(1), lambda cell, byte, fn=fn: fn(byte))
            s2 = st.copy(); code, bad = _err_status("st_ctor"); s2.assume(bad); okc = fresh_bv("okst", 32); st.assume(beq(okc & bv(0x80000000, 32), bv(0, 32)))
            for q, k, v in ((s2, False, code), (st, True, okc)): q.events += (("construct", {"fn": fn, "ok": k, "status": v}),)
            return [(s2, code), (st, okc)]
        return FnPtr("cb_ctor", handler)
    # ---- loops
    def hook(self, size_of, g, b, p0=None, item=None):
        """candidate invariants: the list pointers by position, the links and elements of every cell"""
        h = self.h; ctx = h.ctx; at, pos, dyn = self.at, self.pos, self.dyn; NIL = bv(-1); one = bv(1); Z = bv(0); uid = len(ctx.loop_hooks)
        def hook(L):
            out = []; N0 = size_of(L.s0); HW = ite(ult(self.hw, N0), N0, self.hw); t = lambda V: V.t
            pick = lambda c, i: ite(c, at(i), NIL)
            E = [("fwd", lambda V: pick(ult(V.t, N0), V.t)), ("back", lambda V: pick(ult(V.t, N0), bsub(bsub(N0, one), V.t))), ("grow", lambda V: pick(ult(Z, badd(N0, V.t)), bsub(badd(N0, V.t), one))),
                 ("first", lambda V: pick(ult(V.t, N0), Z)), ("first+", lambda V: pick(ult(Z, badd(N0, V.t)), Z))]
            if not dyn: E += [("free+", lambda V: pick(ult(badd(N0, V.t), HW), badd(N0, V.t))), ("free-", lambda V: pick(ult(bsub(N0, V.t), HW), bsub(N0, V.t)))]
            if p0 is not None: E += [("fwd@", lambda V: pick(ult(badd(p0, V.t), self.n), badd(p0, V.t))), ("head@", lambda V: ite(beq(p0, Z), pick(ult(V.t, self.n), V.t), at(Z))), ("tail@", lambda V: ite(beq(badd(p0, V.t), self.n), pick(ult(Z, p0), bsub(p0, one)), at(bsub(self.n, one))))]
            for v in L.vars:
                x = v.init
                if not isinstance(x, Ptr) or x.obj != self.oid: continue
                cell = lambda V, v=v: to_scaled(V.vals[v.name].off, self.stride).cell
                c0 = to_scaled(x.off, self.stride).cell
                if p0 is not None: E2 = E + [("freed@", lambda V, c0=c0: ite(beq(V.t, Z), c0, at(bsub(badd(p0, V.t), one))))]
                else: E2 = E
                for n, e in E2 + [("same", lambda V, c0=c0: c0)]: out.append(("%d:%s=%s" % (uid, v.name, n), lambda V, cell=cell, e=e: beq(cell(V), e(V))))
            out.append(("%d:t<=n" % uid, lambda V: ule(V.t, N0))); out.append(("%d:t<n" % uid, lambda V: ult(V.t, N0)))
            if p0 is not None: out.append(("%d:p+t<n" % uid, lambda V: ult(badd(p0, V.t), self.n)))
            parts = L.custom.get(self.oid, ())
            old = lambda k, c: self.read(L.s0, k, c); now = lambda V, k, c: self.read(V.st, k, c)
            def uni(name, fn):
                f = lambda V, c: Implies(self.valid(c), fn(V, c, pos(c)))
                out.append(("%d:%s" % (uid, name), lambda V: f(V, g), (self.oid, f)))
            for nm, M in (("n", lambda V: N0), ("n+t", lambda V: badd(N0, V.t)), ("n-t", lambda V: bsub(N0, V.t))):
                if NEXT in parts:
                    uni("next<" + nm, lambda V, c, p, M=M: Implies(ult(p, M(V)), beq(now(V, NEXT, c), pick(ult(badd(p, one), M(V)), badd(p, one)))))
                    if not dyn:
                        hw = lambda V, M=M: ite(ult(HW, M(V)), M(V), HW)
                        uni("free>=" + nm, lambda V, c, p, M=M, hw=hw: Implies(And(ule(M(V), p), ult(p, hw(V))), beq(now(V, NEXT, c), pick(ult(badd(p, one), hw(V)), badd(p, one)))))
                if PREV in parts: uni("prev<" + nm, lambda V, c, p, M=M: Implies(ult(p, M(V)), beq(now(V, PREV, c), pick(ult(Z, p), bsub(p, one)))))
                if "live" in parts: uni("live<" + nm, lambda V, c, p, M=M: beq(now(V, "live", c), b2bv(ult(p, M(V)), 64)))
            for k in (NEXT, PREV, "live"):
                if k in parts: uni("same%s" % k, lambda V, c, p, k=k: beq(now(V, k, c), old(k, c)))
            mid = lambda V, p: And(ule(V.t, p), ult(p, N0))
            if PREV in parts: uni("prev>=t", lambda V, c, p: Implies(mid(V, p), beq(now(V, PREV, c), pick(ult(V.t, p), bsub(p, one)))))
            if NEXT in parts: uni("next>=t", lambda V, c, p: Implies(mid(V, p), beq(now(V, NEXT, c), pick(ult(badd(p, one), N0), badd(p, one)))))
            if "live" in parts: uni("live>=t", lambda V, c, p: beq(now(V, "live", c), b2bv(mid(V, p), 64)))
            if p0 is not None:
                gone = lambda V, p: ult(bsub(p, p0), V.t); q = lambda V: badd(p0, V.t)
                inl = lambda V, p: And(ult(p, self.n), Not(gone(V, p)))
                nx = lambda V, p: ite(beq(badd(p, one), p0), pick(ult(q(V), self.n), q(V)), pick(ult(badd(p, one), self.n), badd(p, one)))
                pv = lambda V, p: ite(beq(p, q(V)), pick(ult(Z, p0), bsub(p0, one)), pick(ult(Z, p), bsub(p, one)))
                if NEXT in parts:
                    uni("next@", lambda V, c, p: Implies(inl(V, p), beq(now(V, NEXT, c), nx(V, p))))
                    if not dyn: uni("free@", lambda V, c, p: Implies(gone(V, p), beq(now(V, NEXT, c), ite(beq(p, p0), pick(ult(self.n, self.hw), self.n), at(bsub(p, one)))))); uni("rest@", lambda V, c, p: Implies(And(ule(self.n, p), ult(p, self.hw)), beq(now(V, NEXT, c), old(NEXT, c))))
                if PREV in parts: uni("prev@", lambda V, c, p: Implies(inl(V, p), beq(now(V, PREV, c), pv(V, p))))
                if "live" in parts: uni("live@", lambda V, c, p: beq(now(V, "live", c), b2bv(inl(V, p), 64)))
            if "data" in parts:
                was = lambda c: self.read(L.s0, "data", c, b); isd = lambda V, c: self.read(V.st, "data", c, b)
                uni("data<n", lambda V, c, p: Implies(ult(p, N0), beq(isd(V, c), was(c))))
                if item is not None: uni("data=item", lambda V, c, p: Implies(And(ule(N0, p), ult(p, badd(N0, V.t))), beq(isd(V, c), item)))
            if "destroyed" in L.s0.ghost:
                d0 = L.s0.ghost["destroyed"]; p = pos(g); v = self.valid(g); R = [("t", lambda V: ult(p, V.t)), ("n-t", lambda V: And(ule(bsub(N0, V.t), p), ult(p, N0)))]
                if p0 is not None: R.append(("@", lambda V: ult(bsub(p, p0), V.t)))
                for n, r in R: out.append(("%d:destroyed %s" % (uid, n), lambda V, r=r: beq(V.st.ghost["destroyed"], badd(d0, b2bv(And(v, r(V)), 64)))))
            return out
        ctx.loop_hooks.append(hook)
        ctx.measure_hooks.append(lambda L: [("remaining elements", lambda V: bsub(size_of(L.s0), V.t))] + ([("rest of the range", lambda V: bsub(self.n, badd(p0, V.t)))] if p0 is not None else []))
