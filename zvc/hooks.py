"""Loop-invariant templates for particular shapes of argument (symbolic side only)."""
from .terms import *
from .mem import *
from .loops import cellnum
from . import spec as S

def outer_cells(L):
    """(name, value) of the enclosing loops' variables at this loop's entry"""
    fr = L.s0.frames[-1]; out = []
    for hd, body in fr.func.loops.items():
        if hd == L.header or L.header not in body: continue
        for I in fr.func.blocks[hd]:
            if I.op == "phi" and I.dst in fr.regs:
                c = cellnum(fr.regs[I.dst])
                if c is not None: out.append((I.dst, c))
    return out

def search_hook(h, goal, side, hyp, k, j, m, lo, match):
    """substring search: under `hyp` (the needle occurs at k inside of the range) no loop variable passes k;
    the cells processed by an inner loop match the needle"""
    one = bv(1)
    k, j, m, lo = (bv(x) if isinstance(x, int) else x for x in (k, j, m, lo))
    def hook(L):
        out = []
        vs = [v for v in L.vars if v.init is not UNDEF and cellnum(v.init) is not None]
        for v in vs if goal == "first" else ():
            g = lambda V, v=v: cellnum(V.vals[v.name])
            n = v.name
            cs = [("<=k", lambda x: sle(x, k)), ("+lo<=k", lambda x: sle(badd(x, lo), k)), (">=k", lambda x: sle(k, x)), (">=k+m-1", lambda x: sle(badd(k, m), badd(x, one))), (">=k+m", lambda x: sle(badd(k, m), x)),
                  ("+lo>=k", lambda x: sle(k, badd(x, lo))), (">k", lambda x: slt(k, x)), ("+lo>k", lambda x: slt(k, badd(x, lo)))]
            for nm, f in cs: out.append(("hyp:%s%s" % (n, nm), lambda V, g=g, f=f: Implies(hyp, f(g(V)))))
        starts = [(v.name, cellnum(v.init)) for v in vs] + outer_cells(L) + caller_cells(L)
        seen = []
        if goal != "match": return out
        for n, c0 in starts:
            for sfx, base in (("", c0), ("+1-m", bsub(badd(c0, one), m)), ("-m", bsub(c0, m)), ("+lo", badd(c0, lo)), ("-1", bsub(c0, one))):
                base = z3.simplify(base)
                if any(base.eq(b) for b in seen): continue
                seen.append(base)
                p = match(badd(base, j), j)
                for rn, R in L.regions():
                    if not ("[0,+t)" == rn or "-t,)" in rn and side == "R"): continue
                    out.append(("match:%s%s%s" % (n, sfx, rn), lambda V, R=R, p=p: Implies(And(R(V, j), ult(j, m)), p)))
        return out
    h.loop_hook(hook)

def fold_hook(h, n, g, unit):
    """S(k) = sum of g(0..k-1) over the indices below n.  `g(c, q)` is the value (0 or 1) at index unit*c+q.  Returns k -> S(k);
    loop candidates relate counters to S at a loop variable.  S is defined by its recursion, unfolded at the terms that occur."""
    import z3
    ctx = h.ctx
    S1 = z3.Function("sum_below", BVS(64), BVS(64)); S8 = z3.Function("sum_below_unit", BVS(64), BVS(64))
    n = bv(n) if isinstance(n, int) else n; done = set()
    U = bv(unit)
    lim = bv((1 << 55)); nonneg = lambda x: ult(x, lim)
    def val(c, q): return ite(ult(badd(bmul(c, U), q), n), g(c, q), bv(0))
    def s1(k):
        k = bv(k) if isinstance(k, int) else z3.simplify(k)
        if ("1", k.get_id()) not in done:
            done.add(("1", k.get_id())); done.add(("keep", k))
            c, q = S.udiv(k, unit), S.urem(k, unit)
            ctx.add_axiom(S1(bv(0)) == bv(0))
            ctx.add_axiom(Implies(nonneg(k), And(S1(badd(k, bv(1))) == badd(S1(k), val(c, q)), ule(S1(k), k), ule(S1(k), S1(n)), ule(S1(n), n))))
            ctx.add_axiom(Implies(And(nonneg(k), ule(n, k)), S1(k) == S1(n)))
        return S1(k)
    def s8(c):
        c = bv(c) if isinstance(c, int) else z3.simplify(c)
        if ("8", c.get_id()) not in done:
            done.add(("8", c.get_id())); done.add(("keep", c))
            sm = bv(0)
            for q in range(unit): sm = badd(sm, val(c, bv(q)))
            ctx.add_axiom(S8(bv(0)) == bv(0))
            ctx.add_axiom(Implies(nonneg(c), And(S8(badd(c, bv(1))) == badd(S8(c), sm), ule(S8(c), bmul(c, U)), ule(S8(c), S1(n)))))
            ctx.add_axiom(Implies(And(nonneg(c), ule(n, bmul(c, U))), S8(c) == S1(n)))
        return S8(c)
    def hook(L):
        out = []
        vs = [v for v in L.vars if v.init is not UNDEF and cellnum(v.init) is not None]
        for v in vs:
            if v.step is not None: continue
            gv = lambda V, v=v: cellnum(V.vals[v.name])
            for w in [None] + [w for w in vs if w is not v]:
                wv = (lambda V: V.t) if w is None else (lambda V, w=w: cellnum(V.vals[w.name]))
                wn = "t" if w is None else w.name
                out.append(("%s=sum(%s)" % (v.name, wn), lambda V, gv=gv, wv=wv: beq(gv(V), s1(wv(V)))))
                out.append(("%s=sum8(%s)" % (v.name, wn), lambda V, gv=gv, wv=wv: beq(gv(V), s8(wv(V)))))
        return out
    h.loop_hook(hook)
    return s1

def caller_cells(L):
    """(name, value) of the loop variables of the loops that are being executed in the calling functions"""
    out = []
    for fr in L.s0.frames[:-1]:
        for hd, body in fr.func.loops.items():
            if fr.block not in body: continue
            for I in fr.func.blocks[hd]:
                if I.op == "phi" and I.dst in fr.regs:
                    c = cellnum(fr.regs[I.dst])
                    if c is not None: out.append((fr.func.name + I.dst, c))
    return out

def scan_hook(h, j, m, pred):
    """scanning a second sequence for the element at an enclosing loop's position: processed(j) => pred(position)"""
    j, m = (bv(x) if isinstance(x, int) else x for x in (j, m))
    def hook(L):
        out = []
        for n, oc in outer_cells(L) + caller_cells(L):
            for sfx, c in (("", oc), ("-1", bsub(oc, bv(1)))):
                p = pred(c)
                for rn, R in L.regions(): out.append(("scan:%s%s%s" % (n, sfx, rn), lambda V, R=R, p=p: Implies(And(R(V, j), ult(j, m)), p)))
        return out
    h.loop_hook(hook)

def offset_hook(h, n):
    """a counter relative to an enclosing loop's position stays inside of the first n cells"""
    n = bv(n) if isinstance(n, int) else n
    def hook(L):
        out = []
        for on, oc in outer_cells(L) + caller_cells(L):
            for v in L.vars:
                if v.init is UNDEF or cellnum(v.init) is None: continue
                out.append(("%s+%s<=n" % (on, v.name), lambda V, v=v, oc=oc: sle(badd(oc, cellnum(V.vals[v.name])), n)))
        return out
    h.loop_hook(hook)
