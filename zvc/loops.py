"""Loop cutting: candidate invariants (generic templates over loop variables, iteration counter and branch
bounds, plus contract-supplied pointwise templates), reduced to an inductive subset (Houdini), then one
recorded pass over the body.  Soundness: only candidates that hold on entry and are preserved by every back
edge under the final candidate set are assumed; loop-modified locations not covered are havocked."""
import z3
from .terms import *
from .mem import *
from .ir import Unsupported
from . import ir
from .engine import Loop, cmp_pred, IntPtr

class Var:
    __slots__ = ("kind", "key", "init", "ty", "step", "mode", "name", "width", "nullobj", "nullval")
    def __init__(self, kind, key, init, ty=None):
        self.kind, self.key, self.init, self.ty = kind, key, init, ty
        self.step = None; self.mode = None; self.nullobj = None
        self.name = "%s:%s" % (kind, key if not isinstance(key, tuple) else "%s+%s" % key)

def is_null(x): return isinstance(x, Ptr) and x.obj is None and is_c(flat(x.off)) and cval(flat(x.off)) == 0

def get_loc(st, regs, v):
    x = regs[v.key] if v.kind == "phi" else st.mem[v.key[0]].fields[v.key[1]][1] if v.kind == "field" else None
    if v.nullobj is not None and is_null(x): x = v.nullval
    if v.kind in ("phi", "field"): return x
    if v.kind == "ghost": return st.ghost[v.key]
def havoc_like(ctx, v):
    """fresh value shaped like v.init (or per v.mode)"""
    i = v.init; n = "lv_%s" % (v.key if isinstance(v.key, str) else "f%d_%d" % v.key).strip("%")
    if v.mode == "scaled":
        return Scaled(fresh_bv(n), bv(0), v.width)
    if i is UNDEF:
        if v.ty is not None and v.ty.k == "int": return fresh_bool(n) if v.ty.w == 1 else fresh_bv(n, v.ty.w)
        raise Unsupported("undefined loop variable")
    if isinstance(i, z3.BoolRef): return fresh_bool(n)
    if isinstance(i, z3.BitVecRef): return fresh_bv(n, i.size())
    if isinstance(i, Scaled): return Scaled(fresh_bv(n), i.byte, i.stride)
    if isinstance(i, Ptr):
        if i.obj is None:
            if is_null(i): return i         # stays null, unless a back edge brings a pointer (see the shapes below)
            raise Unsupported("loop-carried unknown pointer")
        if isinstance(i.off, Scaled) or v.mode == "ptrscaled":
            base = to_scaled(i.off, v.width if v.mode == "ptrscaled" else i.off.stride)
            return Ptr(i.obj, Scaled(fresh_bv(n), base.byte, base.stride))
        return Ptr(i.obj, fresh_bv(n))
    if isinstance(i, IntPtr): return IntPtr(Ptr(i.p.obj, fresh_bv(n)), ctx)
    if hasattr(i, "havoc"): return i.havoc(ctx, n)
    raise Unsupported("loop-carried value %r" % (i,))
def num_of(x):
    """scalar (Num) part of a loop variable value or None"""
    if isinstance(x, IntPtr): x = x.p
    if isinstance(x, Ptr): return x.off
    if isinstance(x, Scaled) or isinstance(x, z3.BitVecRef): return x
    return None
def cellnum(x):
    """the 64-bit coordinate used for pointwise regions: cell part if scaled"""
    n = num_of(x)
    if n is None: return None
    if isinstance(n, Scaled): return n.cell
    return n if n.size() == 64 else None
def advance(x, d):
    """x + d where d is a Num delta times t"""
    if isinstance(x, Ptr): return Ptr(x.obj, num_add(x.off, d))
    if isinstance(x, IntPtr): return IntPtr(Ptr(x.p.obj, num_add(x.p.off, d)), x.ctx)
    return num_add(x, d)
def times(step, t):
    if isinstance(step, Scaled): return Scaled(bmul(t, step.cell), bmul(t, step.byte) if not (is_c(step.byte) and cval(step.byte) == 0) else bv(0), step.stride)
    tt = t if step.size() == 64 else trunc(t, step.size())
    return bmul(tt, step)

class View:
    """a loop-header instance: values of the loop variables, iteration count, state"""
    def __init__(self, t, vals, st): self.t, self.vals, self.st = t, vals, st

class LoopInfo:
    def __init__(self, ctx, func, header, vars, s0, bounds, mods):
        self.ctx, self.func, self.header, self.vars, self.s0, self.bounds, self.mods = ctx, func, header, vars, s0, bounds, mods
        self.anchors = []
    def regions(self):
        """candidate processed regions: list of (name, fn(view, k) -> Bool) over the cell coordinate"""
        out = []
        for an, a in self.anchors:
            out.append(("[%s,+t)" % an, lambda v, k, a=a: ult(bsub(k, a), v.t)))
            out.append(("[%s-t,)" % an, lambda v, k, a=a: ult(bsub(bsub(a, bv(1)), k), v.t)))
        return out

EXACT_CANDS = False
def filter_cands(ctx, pc, cands):
    """keep the candidates (key, term) that are valid under pc (greatest subset, dropping falsified ones)"""
    live = [(k, c) for k, c in cands if not is_f(c)]
    while True:
        test = [(k, c) for k, c in live if not is_t(c)]
        if not test: return live
        r = ctx.check(pc + [z3.Or(*[z3.Not(c) for _, c in test])], 4000, model="cand")
        if r == "unsat": return live
        drop = set()
        if r == "sat" or ctx.last_lia is not None:
            for k, c in test:
                v = None
                if ctx.last_model is not None:
                    e = ctx.last_model.eval(c, model_completion=True); v = True if z3.is_true(e) else False if z3.is_false(e) else None
                elif ctx.last_lia is not None: v = ctx.lia.eval_bool(ctx.last_lia, c)
                if v is False: drop.add(k)
        if r != "sat" and drop and EXACT_CANDS:
            # the integer model may be spurious: drop only what is not provable on its own
            byk = dict(test); drop = {k for k in drop if ctx.check(pc + [z3.Not(byk[k])], 1500, model=False) != "unsat"}
            # nothing dropped: decide one by one
        if not drop:
            return [(k, c) for k, c in live if is_t(c) or ctx.check(pc + [z3.Not(c)], 3000, model=False) == "unsat"]
        live = [(k, c) for k, c in live if k not in drop]

def handle_loop(ctx, st, frm, header):
    ctx.stats["loops"] += 1
    fr = st.frames[-1]; f = fr.func; body = f.loops[header]; lp = Loop(fr.uid, header, body)
    pv = ctx.phi_values(st, frm, header)
    phity = {I.dst: ctx.m.resolve(I.ty) for I in f.blocks[header] if I.op == "phi"}
    vars = [Var("phi", k, v, phity[k]) for k, v in pv.items()]
    bufs = set(); objs_new = False
    custom = {}     # object with its own memory model -> names of the parts the loop modifies
    def header_state(valmap, bufnodes):
        H = st.copy()
        regs = {}
        for v in vars:
            val = valmap[v.name]
            if v.kind == "phi": regs[v.key] = val
            elif v.kind == "field":
                m = H.w(v.key[0]); m.fields[v.key[1]] = (m.fields[v.key[1]][0], val)
            else: H.ghost[v.key] = val
        for o in bufs:
            m = H.w(o); m.node = bufnodes[o]
        for o in custom:
            H.mem[o] = H.mem[o].havoc(ctx, ctx.objs[o].name, custom[o])
        ctx.enter(H, frm, header, regs)
        return H
    def fresh_bufs():
        d = {}
        for o in bufs:
            m = st.mem[o]
            if isinstance(m.stride, int) and m.stride == 1:
                fn = fresh_fn("loopmem", BVS(64), BVS(8)); d[o] = node_base(lambda c, b, fn=fn: fn(c))
            else:
                fn = fresh_fn("loopmem", BVS(64), BVS(64), BVS(8)); d[o] = node_base(lambda c, b, fn=fn: fn(c, b))
        return d
    # ---- discovery of the modified locations
    names = {v.name for v in vars}
    saved_log = ctx.icmp_log; disc0 = ctx.disc; exact = False
    for rnd in range(12):
        hv = {v.name: havoc_like(ctx, v) for v in vars}; hb = fresh_bufs()
        H = header_state(hv, hb); Hmem = dict(H.mem); Hgh = dict(H.ghost)
        ctx.icmp_log = []; ctx.dry += 1; ctx.disc = 0 if exact else ctx.disc + 1
        try: backs, exits, finals = ctx.explore([("run", H)], lp)
        except Unsupported:
            if ctx.disc > 1 or exact: raise
            exact = True; ctx.disc = 0     # too little is known about the inner loops: once more with their invariants
            hv = {v.name: havoc_like(ctx, v) for v in vars}; hb = fresh_bufs(); H = header_state(hv, hb); Hmem = dict(H.mem); Hgh = dict(H.ghost); ctx.icmp_log = []
            backs, exits, finals = ctx.explore([("run", H)], lp)
        finally: ctx.dry -= 1; ctx.disc = disc0
        log = ctx.icmp_log; ctx.icmp_log = saved_log
        changed = False
        backvals = []
        # a path that releases an object is left out here; that no such path reaches the back edge is checked in the recorded pass
        backs = [(s, bf) for s, bf in backs if not released(s, Hmem)]
        for s, bf in backs:
            regs = ctx.phi_values(s, bf, header); backvals.append((s, regs))
            for oid, m0 in Hmem.items():
                m1 = s.mem.get(oid)
                if m1 is m0 or m1 is None: continue
                if ctx.objs[oid].local and not m1.live and m0.live: raise Unsupported("local released in loop")
                if m0.kind == "struct":
                    for off, (sz, val) in m1.fields.items():
                        o0 = m0.fields.get(off)
                        if o0 is not None and (o0[1] is val or same_val(o0[1], val)): continue
                        if o0 is None or o0[0] != sz:
                            # a field first written inside the loop: give it a defined garbage value before the loop
                            ms = st.w(oid)
                            if off in ms.fields and ms.fields[off][0] == sz: continue
                            for o2, (s2, _) in list(ms.fields.items()):
                                if o2 < off + sz and off < o2 + s2: raise Unsupported("field shape changes in loop: %s+%d size %d vs +%d size %d" % (ctx.objs[oid].name, off, sz, o2, s2))
                            ms.fields[off] = (sz, fresh_bv("garb", 8 * sz) if isinstance(val, z3.BitVecRef) else val if ctx.objs[oid].local else UNDEF)
                            if isinstance(val, (Ptr,)) : pass
                        nm = "field:%s+%s" % (oid, off)
                        if nm not in names:
                            vars.append(Var("field", (oid, off), st.mem[oid].fields[off][1])); names.add(nm); changed = True
                elif m0.kind == "buf":
                    if m1.node is not m0.node and oid not in bufs: bufs.add(oid); changed = True
                else:
                    ch = m0.changed(m1)
                    if not ch <= custom.get(oid, set()): custom[oid] = custom.get(oid, set()) | ch; changed = True
            for g, val in s.ghost.items():
                o0 = Hgh.get(g)
                if o0 is val or (o0 is not None and same_val(o0, val)): continue
                if o0 is None: raise Unsupported("ghost created in loop")
                nm = "ghost:%s" % g
                if nm not in names: vars.append(Var("ghost", g, st.ghost[g])); names.add(nm); changed = True
            for ev in s.events[len(st.events):]:
                # accesses to a shared cell that do not modify it may be forgotten
                if ev[0] != "shared" or not ctx.provable(s, Not(ev[1]["did"])): raise Unsupported("event inside loop")
        if not changed:
            # shapes: scaled / pointer-object changes
            for v in vars:
                if v.mode: continue
                for s, regs in backvals:
                    b = get_loc(s, regs, v); h = hv[v.name]
                    if isinstance(b, Scaled) and isinstance(h, z3.BitVecRef): v.mode = "scaled"; v.width = b.stride; v.init = to_scaled(v.init, b.stride); changed = True
                    elif isinstance(b, Ptr) and isinstance(h, Ptr):
                        if b.obj != h.obj:
                            # a pointer that is either null or points into one object
                            o = b.obj if is_null(h) else h.obj if is_null(b) else None
                            if o is None or v.nullobj is not None or is_null(b) and is_null(h): raise Unsupported("loop-carried pointer changes object")
                            v.nullobj = o; v.nullval = ctx.null_of(o); changed = True
                            if is_null(v.init): v.init = v.nullval
                            break
                        if isinstance(b.off, Scaled) and not isinstance(h.off, Scaled):
                            v.mode = "ptrscaled"; v.width = b.off.stride; v.init = Ptr(v.init.obj, to_scaled(v.init.off, b.off.stride)); changed = True
                        elif not isinstance(b.off, Scaled) and not isinstance(h.off, Scaled) and b.obj is not None:
                            # a byte pointer that moves by one element of a buffer whose element size is symbolic
                            sd = getattr(st.mem.get(b.obj), "stride", None)
                            if isinstance(sd, z3.ExprRef):
                                d = z3.simplify(b.off - h.off)
                                if same(d, z3.simplify(sd)) or same(d, z3.simplify(-sd)): v.mode = "ptrscaled"; v.width = sd; v.init = Ptr(v.init.obj, to_scaled(v.init.off, sd)); changed = True
                    elif type(b) != type(h) and not (isinstance(b, z3.ExprRef) and isinstance(h, z3.ExprRef)) and b is not UNDEF:
                        raise Unsupported("loop-carried value changes shape (%r -> %r)" % (h, b))
                    if changed: break
        if not changed: break
    else: raise Unsupported("loop modification set does not stabilise")
    # ---- linear variables
    for v in vars:
        h = num_of(hv[v.name])
        if h is None or v.nullobj is not None or is_null(hv[v.name]): continue
        step = None; ok = bool(backvals)
        for s, regs in backvals:
            b = num_of(get_loc(s, regs, v))
            if b is None: ok = False; break
            d = simp(num_sub(b, h))
            if not const_num(d): ok = False; break
            if step is None: step = d
            elif not eq_num(step, d): ok = False; break
        if ok and v.init is not UNDEF: v.step = step
    t = fresh_bv("t")
    def vals_at(tt, hvals):
        r = {}
        for v in vars:
            r[v.name] = advance(v.init, times(v.step, tt)) if v.step is not None else hvals[v.name]
        return r
    hv2 = {v.name: (havoc_like(ctx, v) if v.step is None else None) for v in vars}
    HV = vals_at(t, hv2)
    # ---- bounds from comparisons made in the body: terms free of havocked symbols
    hvsyms = set()
    for v in vars:
        x = hv[v.name]; n = num_of(x)
        for y in ([n.cell] if isinstance(n, Scaled) else [n] if n is not None else [x] if isinstance(x, z3.ExprRef) else []):
            if y is not None: hvsyms.add(y.get_id())
    bounds = []
    def add_bound(x):
        if isinstance(x, Scaled): x = x.cell
        if not isinstance(x, z3.BitVecRef): return
        x = z3.simplify(x)
        if mentions_new(x, hvsyms, hb): return
        if any(x.eq(y) for y in bounds): return
        bounds.append(x)
    for pred, a, b in log: add_bound(a); add_bound(b)
    info = LoopInfo(ctx, f, header, vars, st, bounds, bufs)
    anchors = [("0", bv(0))] + list(ctx.anchors)
    for v in vars:
        c = cellnum(v.init) if v.init is not UNDEF else None
        if c is not None: anchors.append((v.name, c))
    for i, b in enumerate(bounds):
        if b.size() == 64: anchors.append(("b%d" % i, b))
    seen = []; info.anchors = []
    for n, a in anchors:
        a = z3.simplify(a)
        if any(a.eq(x) for x in seen): continue
        seen.append(a); info.anchors.append((n, a))
    cands = generic_candidates(ctx, info)
    info.custom = custom; univ = {}
    for h in ctx.loop_hooks:
        for c in h(info):
            cands.append(c[:2])
            if len(c) > 2: univ[c[0]] = c[2]       # (object, fn(view, cell)): holds for every cell; an instance is assumed at each cell the body reads
    def assume(H, VH, keep):
        for k in keep:
            H.assume(cand[k](VH))
            if k in univ: o, fn = univ[k]; H.mem[o].facts.append(lambda c, fn=fn: fn(VH, c))
    cand = {}
    for n, fn in cands: cand.setdefault(n, fn)
    ctx.stats["inv_candidates"] += len(cand)
    import time as _time
    t_start = _time.time()
    # ---- entry
    V0 = View(bv(0), {v.name: v.init for v in vars}, st)
    init = []
    for n, fn in cand.items():
        try: init.append((n, fn(V0)))
        except Unsupported: pass
    keep = [k for k, _ in filter_cands(ctx, st.pc, init)] if not ctx.disc else []      # while an enclosing loop looks for what it modifies, invariants are not needed
    if ctx.disc: cand = {}
    ks = set(keep)
    for n in list(cand):    # bounds that hold from the second iteration on
        if n.startswith("~") and n not in ks:
            cf = cand[n]; cand["t=0|" + n] = lambda V, cf=cf: Or(beq(V.t, bv(0)), cf(V)); keep.append("t=0|" + n)
    # ---- Houdini
    hb = fresh_bufs()
    while keep or not ctx.disc:
        H = header_state(HV, hb)
        VH = View(t, HV, H.copy())
        assume(H, VH, keep)
        ctx.dry += 1
        try: backs, exits, finals = ctx.explore([("run", H.copy())], lp)
        finally: ctx.dry -= 1
        n0 = len(keep)
        for s, bf in backs:
            if released(s, H.mem) and ctx.check(s.pc, 4000) == "unsat": continue
            regs = ctx.phi_values(s, bf, header)
            VB = View(badd(t, bv(1)), {v.name: get_loc(s, regs, v) for v in vars}, s)
            bl = [(k, cand[k](VB)) for k in keep]
            keep = [k for k, _ in filter_cands(ctx, s.pc, bl)]
        if len(keep) == n0: break
    ctx.stats["inv_kept"] += len(keep)
    H = header_state(HV, hb)
    VH = View(t, HV, H.copy())
    assume(H, VH, keep)
    if ctx.dry == 0:
        from .engine import Obligation
        o = Obligation("loop invariant of %s established and preserved (%d conjuncts)" % (f.name, len(keep)), "inv", ctx.safety_props)
        o.status, o.backend, o.secs = "discharged", "z3", _time.time() - t_start; o.detail = "; ".join(sorted(keep))[:3000]
        ctx.obls.append(o)
    Hmem = dict(H.mem)
    backs, exits, finals = ctx.explore([("run", H)], lp)
    if finals: raise Unsupported("program end inside loop")
    for s, bf in backs:
        if released(s, Hmem) and ctx.check(s.pc, 4000) != "unsat": raise Unsupported("object released in loop")
        regs = ctx.phi_values(s, bf, header)
        for v in vars:
            if v.step is None and not subsumed(ctx, s, HV[v.name], get_loc(s, regs, v)): raise Unsupported("loop-carried value changes shape (%s)" % v.name)
    if ctx.dry == 0 and getattr(ctx, "check_termination", True):
        termination(ctx, info, VH, backs, header, t, bounds)
    return exits

def subsumed(ctx, s, h, b):
    """the arbitrary value h of the loop header stands for the value b of a back edge too: what h fixes (object, offset in the cell, null) is the same in b"""
    if b is UNDEF: return True
    if isinstance(h, z3.ExprRef): return isinstance(b, z3.ExprRef) and h.sort().eq(b.sort())
    if isinstance(h, Scaled):
        try: c = to_scaled(b, h.stride)
        except Exception: return False
        return h.byte.eq(c.byte) or ctx.provable(s, beq(h.byte, c.byte))
    if isinstance(h, IntPtr): return isinstance(b, IntPtr) and subsumed(ctx, s, h.p, b.p)
    if is_null(h): return is_null(b)
    if isinstance(h, Ptr): return isinstance(b, Ptr) and h.obj == b.obj and (not isinstance(h.off, Scaled) or subsumed(ctx, s, h.off, b.off))
    return True
def released(s, mem0):
    return any(m0.live and oid in s.mem and not s.mem[oid].live for oid, m0 in mem0.items())

def termination(ctx, info, VH, backs, header, t, bounds):
    views = []
    for s, bf in backs:
        if ctx.check(s.pc, 3000, model="guess") == "unsat": continue
        regs = ctx.phi_values(s, bf, header)
        views.append((s, View(badd(t, bv(1)), {v.name: get_loc(s, regs, v) for v in info.vars}, s)))
    if not views or getattr(ctx, "partial", False): return
    ms = []
    # the bound t < X with X among differences of bounds/inits gives variant X - t
    nums = []
    for v in info.vars:
        c = cellnum(v.init) if v.init is not UNDEF else None
        if c is not None: nums.append((v.name, lambda V, v=v: cellnum(V.vals[v.name])))
    for n, g in nums:
        ms.append((n, g)); ms.append((n + "+1", lambda V, g=g: badd(g(V), bv(1)))); ms.append(("-" + n, lambda V, g=g: bsub(bv(-1), g(V))))
    for n, g in nums:
        for i, b in enumerate(info.bounds):
            if b.size() == 64:
                ms.append(("b%d-%s" % (i, n), lambda V, g=g, b=b: bsub(b, g(V))))
    for n, g in nums:
        for n2, g2 in nums:
            if n != n2: ms.append(("%s-%s" % (n, n2), lambda V, g=g, g2=g2: bsub(g(V), g2(V))))
    for n, g in nums:
        for n2, g2 in nums:
            if n != n2: ms.append(("%s-%s+1" % (n, n2), lambda V, g=g, g2=g2: badd(bsub(g(V), g2(V)), bv(1))))
    for v in info.vars:
        x = num_of(v.init) if v.init is not UNDEF else None
        if isinstance(x, z3.BitVecRef) and x.size() != 64:
            ms.append((v.name, lambda V, v=v: num_of(V.vals[v.name])))
            ms.append(("-" + v.name, lambda V, v=v: bsub(bv(-1, num_of(V.vals[v.name]).size()), num_of(V.vals[v.name]))))
            for i, b in enumerate(info.bounds):
                if b.size() == x.size(): ms.append(("b%d-%s" % (i, v.name), lambda V, v=v, b=b: bsub(b, num_of(V.vals[v.name]))))
    for h in ctx.measure_hooks: ms = h(info) + ms
    for n, g in ms:
        try: goals = [(s, ult(g(VB), g(VH))) for s, VB in views]
        except Unsupported: continue
        if any(is_f(q) for _, q in goals): continue
        if all(ctx.provable(s, q) for s, q in goals):
            s, q = goals[0]
            ctx.oblige(s.copy(), "term", "loop in %s terminates (variant %s)" % (info.func.name, n), q)
            return
    s, VB = views[0]
    from .engine import Obligation
    o = Obligation("loop in %s terminates" % info.func.name, "term", ctx.safety_props); o.status, o.backend = "unknown", "no variant found"; o.detail = "no decreasing measure among %d candidates" % len(ms)
    ctx.obls.append(o)

def same_val(a, b):
    if a is b: return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if isinstance(a, Scaled) and isinstance(b, Scaled): return a.cell.eq(b.cell) and a.byte.eq(b.byte)
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.obj == b.obj and same_val(a.off, b.off)
    if isinstance(a, FnPtr) and isinstance(b, FnPtr): return a.name == b.name
    if hasattr(a, "same"): return a.same(b)
    return False
def simp(n):
    if isinstance(n, Scaled): return Scaled(z3.simplify(n.cell), z3.simplify(n.byte), n.stride)
    return z3.simplify(n)
def const_num(n):
    if isinstance(n, Scaled): return is_c(n.cell) and is_c(n.byte)
    return is_c(n)
def eq_num(a, b):
    if isinstance(a, Scaled) != isinstance(b, Scaled): return False
    if isinstance(a, Scaled): return a.cell.eq(b.cell) and a.byte.eq(b.byte)
    return a.eq(b)
def mentions_new(x, syms, hb):
    seen = set(); stack = [x]
    while stack:
        y = stack.pop(); i = y.get_id()
        if i in seen: continue
        seen.add(i)
        if i in syms: return True
        if z3.is_app(y):
            nm = y.decl().name()
            if nm.startswith("loopmem") or nm.startswith("undef!") or nm.startswith("cb!"): return True
            stack.extend(y.children())
    return False

def generic_candidates(ctx, info):
    out = []
    def add(n, fn): out.append((n, fn))
    B64 = [("b%d" % i, b) for i, b in enumerate(info.bounds)]
    anch = [(n, a) for n, a in info.anchors]
    nums = []
    for v in info.vars:
        if v.init is UNDEF: continue
        x = num_of(v.init)
        if x is None: continue
        if isinstance(x, Scaled) or x.size() == 64:
            nums.append((v, lambda V, v=v: cellnum(V.vals[v.name]), 64))
        else: nums.append((v, lambda V, v=v: num_of(V.vals[v.name]), x.size()))
    # iteration counter against differences of anchors
    lin = [v for v in info.vars if v.step is not None]
    for v in lin:
        x = v.init; sx = v.step
        c = cellnum(x); s = sx.cell if isinstance(sx, Scaled) else sx
        if c is None or not is_c(s) or s.size() != 64: continue
        sv = sgn(cval(s), 64)
        if sv not in (1, -1): continue
        for n, b in anch:
            d = bsub(b, c) if sv == 1 else bsub(c, b)
            ok = ule(c, b) if sv == 1 else ule(b, c)
            add("t<=|%s-%s|" % (n, v.name), lambda V, d=d, ok=ok: And(ok, ule(V.t, d)))
            d1 = badd(d, bv(1))
            add("t<=|%s-%s|+1" % (n, v.name), lambda V, d1=d1, ok=ok: And(ok, ule(V.t, d1)))
            add("t<|%s-%s|" % (n, v.name), lambda V, d=d, ok=ok: And(ok, ult(V.t, d)))
    for n, b in anch: add("t<=%s" % n, lambda V, b=b: ule(V.t, b))
    for v, g, w in nums:
        bs = anch if w == 64 else [(n, b) for n, b in B64 if b.size() == w]
        if v.step is not None and w == 64:
            for n, b in bs:
                add("%s<=%s" % (v.name, n), lambda V, g=g, b=b: ule(g(V), b))
                add("%s>=%s" % (v.name, n), lambda V, g=g, b=b: ule(b, g(V)))
                add("~%s<=s%s" % (v.name, n), lambda V, g=g, b=b: sle(g(V), b))
                add("~%s>=s%s-1" % (v.name, n), lambda V, g=g, b=b: sle(bsub(b, bv(1)), g(V)))
            continue
        i0 = g(View(bv(0), {u.name: u.init for u in info.vars}, info.s0))
        for n, b in list(bs) + [("init", i0)]:
            add("%s<=%s" % (v.name, n), lambda V, g=g, b=b: ule(g(V), b))
            add("%s>=%s" % (v.name, n), lambda V, g=g, b=b: ule(b, g(V)))
            add("%s==%s" % (v.name, n), lambda V, g=g, b=b: beq(g(V), b))
            add("%s!=%s" % (v.name, n), lambda V, g=g, b=b: Not(beq(g(V), b)))
            add("%s<=s%s" % (v.name, n), lambda V, g=g, b=b: sle(g(V), b))
            add("%s>=s%s" % (v.name, n), lambda V, g=g, b=b: sle(b, g(V)))
            add("%s>=s%s-1" % (v.name, n), lambda V, g=g, b=b, w=w: sle(bsub(b, bv(1, w)), g(V)))
    # pairs of non-constant-step variables
    nl = [(v, g) for v, g, w in nums if w == 64]
    for v, g in nl:
        for v2, g2 in nl:
            if v is v2: continue
            if v.step is not None and v2.step is not None: continue
            add("%s<=s%s" % (v.name, v2.name), lambda V, g=g, g2=g2: sle(g(V), g2(V)))
            add("%s<=s%s+1" % (v.name, v2.name), lambda V, g=g, g2=g2: sle(g(V), badd(g2(V), bv(1))))
            add("%s<=%s" % (v.name, v2.name), lambda V, g=g, g2=g2: ule(g(V), g2(V)))
            add("%s<=%s+1" % (v.name, v2.name), lambda V, g=g, g2=g2: ule(g(V), badd(g2(V), bv(1))))
            add("%s-init==%s-init" % (v.name, v2.name), lambda V, g=g, g2=g2, a=cellnum(v.init), b=cellnum(v2.init): beq(bsub(g(V), a), bsub(g2(V), b)))
    # anchors among themselves (facts about the pre-state are already in pc)
    for v in info.vars:
        if isinstance(v.init, z3.BoolRef):
            add("%s" % v.name, lambda V, v=v: V.vals[v.name]); add("!%s" % v.name, lambda V, v=v: Not(V.vals[v.name]))
    # havocked buffers: unchanged outside is contract-supplied; "unchanged at all" for readonly-like use
    return out
