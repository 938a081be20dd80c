"""Contracts for the searching and comparing functions of src/String.c."""
from zvc.registry import contract
from zvc.spec import *
from .common import *
from zvc.hooks import search_hook

INVALID = ST(1, 4, 1); OOR = ST(1, 8, 1)

def same(a, b): return eq(a, b)
def lower(c): return If8(And(ule(0x41, c), ule(c, 0x5A)), add(c, 32, 8), c)
def same_i(a, b): return eq(lower(a), lower(b))

def nat_text(h, n, like=None, fold=False):
    """concrete text for the native runs (small alphabet, needles cut from the haystack)"""
    h.assume(n < 64); rn = h.rnd; al = rn.choice([b"ab", b"aA", b"aAbB@`[{", b"\x61\xc1\x41\xe1", bytes(range(256))])
    t = bytearray(rn.choice(al) for _ in range(n))
    if like is not None and len(like) >= n and rn.random() < 0.8:
        o = rn.randrange(len(like) - n + 1); t = bytearray(like[o:o + n])
        for i in range(n):
            if rn.random() < 0.2: t[i] ^= 32
            elif rn.random() < 0.05: t[i] = rn.choice(al)
    return bytes(t)

# ------------------------------------------------------------------------------------------ search
@contract("C09", "ZyanStringLPos ZyanStringLPosEx ZyanStringLPosI ZyanStringLPosIEx ZyanStringRPos ZyanStringRPosEx ZyanStringRPosI ZyanStringRPosIEx")
def search(h):
    side = h.choice("side", ["L", "R"]); fold = h.choice("case", ["", "I"]); ex = h.choice("ex", ["Ex", ""])
    null = h.choice("null", ["-", "haystack", "needle", "found_index"]); goal = h.choice("goal", ["match", "first"]) if null == "-" else "-"; fn = "ZyanString%sPos%s%s" % (side, fold, ex)
    rel = same_i if fold else same
    n = h.num("haystack.len", small=7); m = h.num("needle.len", small=4); h.assume(And(ult(n, h.max_cells()), ult(m, h.max_cells())))
    k = h.forall("occurrence", dom=9); j = h.forall("j", dom=6)
    if h.sym:
        N = h.buf("needle.data", m, 1, readonly=True); occ = h.boolean("occurs")
        H = h.buf("haystack.data", n, 1, readonly=True, fact=None if goal != "first" else lambda c, b, x: Implies(And(occ, inrange(c, k, m)), rel(x, N.pre(sub(c, k)))))
        h.assume(Implies(occ, And(ule(m, n), ule(k, sub(n, m)))))
    else:
        ht = nat_text(h, n); nt = nat_text(h, m, ht)
        H = h.buf("haystack.data", n, 1, readonly=True, content=lambda c, b: ht[c]); N = h.buf("needle.data", m, 1, readonly=True, content=lambda c, b: nt[c])
        occ = None
    hay = View(h, "haystack", data=H, length=n); needle = View(h, "needle", data=N, length=m)
    out = h.out("found", 8)
    i = h.num("index", near=[n, sub(n, 1)]); c = h.num("count", near=[n, i, sub(n, i), sub(0, i)])
    if not ex: i, c = (0 if side == "L" else n), n
    lo = i if side == "L" else sub(i, c); hi = add(i, c) if side == "L" else i
    valid = And(ule(i, n), ule(c, sub(n, i))) if side == "L" else And(ule(i, n), ule(c, i))
    h.anchor("lo", lo); h.anchor("hi", hi); h.anchor("m", m)
    inr = lambda x: And(ule(m, sub(hi, lo)), ule(lo, x), ule(x, sub(hi, m)))
    if h.sym: search_hook(h, goal, side, And(occ, ule(1, m), valid, inr(k)), k, j, m, lo, lambda p, q: rel(H.pre(p), N.pre(q)))
    def post(r):
        if null != "-": r.ensure("C09", "null arguments are refused", And(eq(r.ret, INVALID), r.out_unchanged(out))); return
        if r.decide(Not(valid)): r.ensure("C09", "a range outside the string is refused", And(eq(r.ret, OOR), r.out_unchanged(out))); return
        o = occ if h.sym else (u(k) + m <= n and all(rel(H.pre(u(k) + q), N.pre(q)) for q in range(m)))
        o = And(o, ule(1, m), inr(k))
        x = r.outval(out)
        if r.decide(eq(r.ret, TRUE)):
            r.cover("%s found" % fn)
            r.ensure("C09", "a needle is found only inside of the range", And(ule(1, m), inr(x)))
            if goal == "match" or not h.sym: r.ensure("C09", "the needle is at the reported index", Implies(ult(j, m), rel(H.pre(add(x, j)), N.pre(j))))
            if goal == "first" or not h.sym: r.ensure("C09", "no occurrence in the range comes before the reported one", Implies(o, ule(x, k) if side == "L" else ule(k, x)))
        else:
            r.cover("%s not found" % fn)
            r.ensure("C09", "status is TRUE or FALSE", eq(r.ret, FALSE))
            r.ensure("C09", "index is -1 if the needle was not found", eq(x, M64))
            if goal == "first" or not h.sym: r.ensure("C09", "every needle in the range is found", Not(o))
    h.call(fn, [None if null == "haystack" else hay.ptr, None if null == "needle" else needle.ptr, None if null == "found_index" else out.ptr] + ([i, c] if ex else []), post)

# ------------------------------------------------------------------------------------------ compare
@contract("C10", "ZyanStringCompare ZyanStringCompareI")
def compare(h):
    fold = h.choice("case", ["", "I"]); null = h.choice("null", ["-", "s1", "s2"]); fn = "ZyanStringCompare" + fold
    rel = same_i if fold else same
    n = h.num("s1.len", small=5); m = h.num("s2.len", small=5, near=[n]); h.assume(And(ult(n, h.max_cells()), ult(m, h.max_cells())))
    if h.sym:
        # q: the first position at which strings of equal length differ (their length if they are equal)
        q = h.num("first_difference"); h.assume(ule(q, n))
        B = h.buf("s2.data", m, 1, readonly=True)
        A = h.buf("s1.data", n, 1, readonly=True, fact=lambda c, b, x: Implies(And(eq(n, m), ult(c, n)), And(Implies(ult(c, q), rel(x, B.pre(c))), Implies(eq(c, q), Not(rel(x, B.pre(c)))))))
    else:
        at = nat_text(h, n); bt = nat_text(h, m, at)
        A = h.buf("s1.data", n, 1, readonly=True, content=lambda c, b: at[c]); B = h.buf("s2.data", m, 1, readonly=True, content=lambda c, b: bt[c])
        q = next((x for x in range(min(n, m)) if not rel(at[x], bt[x])), n)
    a = View(h, "s1", data=A, length=n); b = View(h, "s2", data=B, length=m)
    h.anchor("q", q)
    out = h.out("result", 4)
    def post(r):
        if null != "-": r.ensure("C10", "null strings are refused", eq(r.ret, INVALID)); return
        x = r.outval(out); neg = slt(x, 0, 32); pos = slt(0, x, 32)
        if r.decide(Not(eq(n, m))):
            r.ensure("C10", "strings of different lengths are never equal", eq(r.ret, FALSE))
            r.ensure("C10", "the shorter string is ordered first", And(eq(neg, ult(n, m)), eq(pos, ult(m, n))))
            return
        if r.decide(eq(q, n)):
            r.ensure("C10", "equal strings compare equal", And(eq(r.ret, TRUE), eq(x, 0))); r.cover("%s equal" % fn); return
        f = lower if fold else (lambda c: c)
        u1, u2 = f(A.pre(q)), f(B.pre(q))
        r.ensure("C10", "different strings are not equal", eq(r.ret, FALSE))
        r.ensure("C10", "the first difference decides the order", And(eq(neg, slt(u1, u2, 8)), eq(pos, slt(u2, u1, 8)))); r.cover("%s differs" % fn)
    h.call(fn, [None if null == "s1" else a.ptr, None if null == "s2" else b.ptr, out.ptr], post)
