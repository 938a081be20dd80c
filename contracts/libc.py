"""C19: the replacement functions for builds without a C library (include/Zycore/LibC.h with ZYAN_NO_LIBC), through contracts/c/libc.c.
Every operand is exactly as large as the C standard allows the function to touch."""
import os
from zvc.registry import contract, HARNESS
from zvc.spec import *
from zvc import spec as S
from zvc.hooks import search_hook, scan_hook, offset_hook
HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS["libc"] = ([HERE + "/c/libc.c"], ["-DZYAN_NO_LIBC", "-fno-builtin"])
def lib(props, fns, **kw): return contract(props, fns, module="libc", **kw)
def length(h, name, small=7, near=()):
    l = h.num(name, small=small, near=near); h.assume(ult(l, sub(h.max_cells(), 1))); h.anchor(name, l)
    if not h.sym: h.assume(l < 300)
    return l
def text(h, name, l, bound=None, fact=None, readonly=True, extra=0, content=None):
    """bytes of a string of length l: l + 1 cells, or `bound` ones if that is less; `extra` further cells for writing"""
    cells = add(l, 1) if bound is None else umin(add(l, 1), bound)
    f = lambda c, b, v: And(Implies(ult(c, l), ne(v, 0)), Implies(eq(c, l), eq(v, 0)), fact(c, v) if fact else True)
    if content is not None: return h.buf(name, add(cells, extra), 1, readonly=readonly, content=content)
    return h.buf(name, add(cells, extra), 1, readonly=readonly, fact=f)
def order(r, x, a, b):
    return And(eq(slt(x, 0, 32), ult(a, b)), eq(slt(0, x, 32), ult(b, a)))
def at(r, buf, cell): return r.ptr_at(r.ret, buf.ptr, cell, 1)
def letters(h): return h.rnd.choice([b"ab", b"aAb\x81", bytes(range(1, 256)), b"\x01\x7f\x80\xff"])
def byte(h, name):
    c = h.num(name, 32, near=[0, 97, 0x61 + 0xffffff00]); return c, lo(c, 8) if not isinstance(u(c), int) else u(c) & 255

# ------------------------------------------------------------------------------------------ comparison
@lib("C19", "x_memcmp x_strcmp x_strncmp x_strcoll")
def compare(h):
    fn = h.choice("function", ["memcmp", "strcmp", "strncmp", "strcoll"])
    n = h.num("n", small=8) if fn in ("memcmp", "strncmp") else None
    if n is not None: h.assume(ult(n, h.max_cells())); h.anchor("n", n)
    if not h.sym:
        al = letters(h); rn = h.rnd
        if fn == "memcmp":
            h.assume(n < 64); la = lb = n; A = bytes(rn.choice(al + b"\0") for _ in range(n)); B = bytearray(A)
            if n and rn.random() < 0.7: B[rn.randrange(n)] = rn.choice(al + b"\0")
            a, b = h.buf("s1", n, 1, readonly=True, content=lambda c, _: A[c]), h.buf("s2", n, 1, readonly=True, content=lambda c, _: B[c])
            q = next((i for i in range(n) if A[i] != B[i]), n)
        else:
            la, lb = h.num("l1", small=8), h.num("l2", small=8); h.assume(la < 64 and lb < 64); A = bytes(rn.choice(al) for _ in range(la)); B = bytes(rn.choice(al) for _ in range(lb))
            if rn.random() < 0.7: B = (A + B)[:lb] if rn.random() < 0.5 else (A[:rn.randrange(la + 1)] + B)[:lb]
            B = B + bytes([1]) * (lb - len(B))
            a, b = (text(h, nm, len(X), n, content=lambda c, _, X=X: (X + b"\0")[c]) for nm, X in (("s1", A), ("s2", B)))
            A, B = A + b"\0", B + b"\0"; q = next(i for i in range(len(A)) if A[i] != B[i] or A[i] == 0)
            if n is not None: q = min(q, n)
    else:
        q = h.num("q"); h.anchor("q", q)
        if fn == "memcmp":
            h.assume(ule(q, n)); b = h.buf("s2", n, 1, readonly=True)
            a = h.buf("s1", n, 1, readonly=True, fact=lambda c, _, v: And(Implies(ult(c, q), eq(v, b.pre(c))), Implies(And(eq(c, q), ult(c, n)), ne(v, b.pre(c)))))
        else:
            la, lb = length(h, "l1"), length(h, "l2"); h.assume(And(ule(q, la), ule(q, lb)))
            if n is not None: h.assume(ule(q, n))
            end = T_ if n is None else ult(q, n)
            b = text(h, "s2", lb, n)
            a = text(h, "s1", la, n, fact=lambda c, v: And(Implies(ult(c, q), eq(v, b.pre(c))), Implies(And(eq(c, q), end), Or(ne(v, b.pre(c)), And(eq(c, la), eq(c, lb))))))
    def post(r):
        if n is not None and r.decide(eq(q, n)): r.ensure("C19", "operands that agree in the compared range are equal", eq(r.ret, 0)); r.cover(fn + " up to the bound"); return
        x, y = a.pre(q), b.pre(q)
        r.ensure("C19", "the sign is that of the first difference of unsigned characters", order(r, r.ret, x, y))
        r.ensure("C19", "equal operands give zero", eq(eq(r.ret, 0), eq(x, y))); r.cover(fn + " differs", ne(x, y))
        if fn != "memcmp": r.cover(fn + " equal", eq(x, y))
    h.call("x_" + fn, [a.ptr, b.ptr] + ([n] if n is not None else []), post)
T_ = True

# ------------------------------------------------------------------------------------------ search for one character
@lib("C19", "x_memchr x_strchr x_strlen")
def first_char(h):
    fn = h.choice("function", ["memchr", "strchr", "strlen"])
    if fn == "strlen":
        l = length(h, "l"); s = text(h, "s", l)
        h.call("x_strlen", [s.ptr], lambda r: r.ensure("C19", "number of characters before the terminator", eq(r.ret, l))); return
    c, ch = byte(h, "c"); q = h.num("q", small=8, near=[]); h.anchor("q", q)
    if fn == "memchr":
        n = h.num("n", small=8); h.assume(And(ule(q, n), ult(n, h.max_cells()))); h.anchor("n", n)
        s = h.buf("s", umin(add(q, 1), n), 1, readonly=True, fact=lambda i, _, v: And(Implies(ult(i, q), ne(v, ch)), Implies(eq(i, q), eq(v, ch))))
        def post(r):
            if r.decide(ult(q, n)): r.ensure("C19", "the first occurrence is returned", at(r, s, q)); r.cover("memchr found")
            else: r.ensure("C19", "null if there is no occurrence", r.is_null(r.ret)); r.cover("memchr not found")
        h.call("x_memchr", [s.ptr, c, n], post); return
    l = length(h, "l"); h.assume(ule(q, l)); h.assume(Implies(eq(ch, 0), eq(q, l)))
    s = text(h, "s", l, fact=lambda i, v: And(Implies(ult(i, q), ne(v, ch)), Implies(And(eq(i, q), ult(i, l)), eq(v, ch))))
    def post(r):
        if r.decide(Or(ult(q, l), eq(ch, 0))): r.ensure("C19", "the first occurrence is returned", at(r, s, q)); r.cover("strchr found")
        else: r.ensure("C19", "null if there is no occurrence", r.is_null(r.ret)); r.cover("strchr not found")
    h.call("x_strchr", [s.ptr, c], post)

@lib("C19", "x_strrchr")
def last_char(h):
    c, ch = byte(h, "c"); l = length(h, "l"); has = h.boolean("occurs"); q = h.num("q", small=7); h.anchor("q", q); h.assume(Implies(has, ule(q, l))); h.assume(Implies(eq(ch, 0), And(has, eq(q, l))))
    h.assume(Implies(And(has, ne(ch, 0)), ult(q, l)))
    s = text(h, "s", l, fact=lambda i, v: And(Implies(And(has, eq(i, q)), eq(v, ch)), Implies(Or(Not(has), ult(q, i)), ne(v, ch))))
    if h.sym:
        from zvc.loops import cellnum
        from zvc import terms as tt
        def hook(L):
            out = []; vs = [v for v in L.vars if v.init is not tt.UNDEF and cellnum(v.init) is not None]
            for v in vs:
                out.append(("last<=" + v.name, lambda V, v=v: Implies(has, ule(q, cellnum(V.vals[v.name])))))
                if v.nullobj is None: continue
                gv = lambda V, v=v: cellnum(V.vals[v.name])
                out.append(("none " + v.name, lambda V, gv=gv: Implies(Not(has), eq(gv(V), tt.NULLOFF))))
                for w in vs:
                    if w is v: continue
                    gw = lambda V, w=w: cellnum(V.vals[w.name])
                    out.append(("last %s %s" % (v.name, w.name), lambda V, gv=gv, gw=gw: Implies(And(has, ult(q, gw(V))), eq(gv(V), q))))
            return out
        h.loop_hook(hook)
    def post(r):
        if r.decide(has): r.ensure("C19", "the last occurrence is returned", at(r, s, q)); r.cover("found")
        else: r.ensure("C19", "null if there is no occurrence", r.is_null(r.ret)); r.cover("not found")
    h.call("x_strrchr", [s.ptr, c], post)

# ------------------------------------------------------------------------------------------ sets of characters
@lib("C19", "x_strspn x_strcspn x_strpbrk")
def spans(h):
    fn = h.choice("function", ["strspn", "strcspn", "strpbrk"]); goal = h.choice("goal", ["members", "others"])
    l, m = length(h, "l"), length(h, "m", small=4); k, j = h.forall("k", dom=9), h.forall("j", dom=5); d = h.num("d", 8) if h.sym else 0
    if h.sym:
        # k0: an index whose character d is not in the set
        k0 = h.num("k0"); h.anchor("k0", k0)
        if goal == "others":
            h.assume(ult(k0, l)); s2 = text(h, "s2", m, fact=lambda c, v: Implies(ult(c, m), ne(v, d))); s1 = text(h, "s1", l, fact=lambda c, v: Implies(eq(c, k0), eq(v, d)))
        else:
            s1, s2 = text(h, "s1", l), text(h, "s2", m)
            scan_hook(h, j, m, lambda oc: Implies(ult(oc, l), ne(s2.pre(j), s1.pre(oc))))
            if fn != "strspn": h.pred_hook(k, lambda x: Implies(And(ult(k, l), ult(j, m)), ne(s1.pre(x), s2.pre(j))))
    else:
        al = letters(h)[:4]; rn = h.rnd; A = bytes(rn.choice(al) for _ in range(l)); B = bytes(rn.choice(al[:2] if rn.random() < .5 else al) for _ in range(m))
        s1, s2 = text(h, "s1", l, content=lambda c, _: (A + b"\0")[c]), text(h, "s2", m, content=lambda c, _: (B + b"\0")[c])
    def post(r):
        if fn == "strpbrk":
            found = not true(r.is_null(r.ret)) if not h.sym else None
            if h.sym:
                from zvc import terms as tt
                nul = r.is_null(r.ret); p = r.ret
                if r.decide(nul): x = l
                else:
                    r.ensure("C19", "the result points into the string", And(p.obj == s1.oid, ult(tt.flat(p.off), l))); x = tt.flat(p.off)
            else: x = l if not found else u(r.ret) - s1.ptr
        else: x = r.ret
        if not h.sym:
            inb = [c in B for c in A]; want = next((i for i in range(u(l)) if inb[i] == (fn != "strspn")), u(l))
            r.ensure("C19", "length of the initial segment", eq(x, want)); return
        r.ensure("C19", "the segment ends inside of the string", ule(x, l))
        if fn == "strspn":
            if goal == "others": r.ensure("C19", "a character that is not in the set ends the segment", ule(x, k0))
            else: r.ensure("C19", "the segment is ended by the terminator or a character that is not in the set", Implies(And(ult(x, l), ult(j, m)), ne(s2.pre(j), s1.pre(x))))
        else:
            if goal == "others": r.ensure("C19", "a character that is not in the set does not end the segment", ne(x, k0))
            else: r.ensure("C19", "no character of the segment is in the set", Implies(And(ult(k, x), ult(j, m)), ne(s1.pre(k), s2.pre(j))))
    h.call("x_" + fn, [s1.ptr, s2.ptr], post)

@lib("C19", "x_strstr")
def substring(h):
    goal = h.choice("goal", ["match", "first"]); n, m = length(h, "n"), length(h, "m", small=4); k, j = h.forall("occurrence", dom=9), h.forall("j", dom=5)
    if h.sym:
        occ = h.boolean("occurs"); N = text(h, "needle", m); h.assume(Implies(occ, And(ule(m, n), ule(k, sub(n, m)))))
        H = text(h, "haystack", n, fact=None if goal != "first" else lambda c, v: Implies(And(occ, inrange(c, k, m)), eq(v, N.pre(sub(c, k)))))
        offset_hook(h, n); search_hook(h, goal, "L", occ, k, j, m, 0, lambda p, q: eq(H.pre(p), N.pre(q)))
    else:
        al = letters(h)[:3]; rn = h.rnd; A = bytes(rn.choice(al) for _ in range(n)); B = bytes(rn.choice(al) for _ in range(m))
        if m <= n and rn.random() < .6: o = rn.randrange(n - m + 1); B = A[o:o + m]
        H, N = text(h, "haystack", n, content=lambda c, _: (A + b"\0")[c]), text(h, "needle", m, content=lambda c, _: (B + b"\0")[c])
    def post(r):
        if not h.sym:
            i = A.find(B); r.ensure("C19", "the first occurrence is returned, null if there is none", r.is_null(r.ret) if i < 0 else at(r, H, i)); return
        from zvc import terms as tt
        if r.decide(r.is_null(r.ret)):
            r.cover("not found")
            if goal == "first": r.ensure("C19", "every occurrence is found", Not(occ))
            return
        x = tt.flat(r.ret.off); r.cover("found")
        r.ensure("C19", "the result leaves room for the searched string", And(r.ret.obj == H.oid, ule(m, n), ule(x, sub(n, m))))
        if goal == "match": r.ensure("C19", "the searched string is at the result", Implies(ult(j, m), eq(H.pre(add(x, j)), N.pre(j))))
        else: r.ensure("C19", "no occurrence comes before the result", Implies(occ, ule(x, k)))
    h.call("x_strstr", [H.ptr, N.ptr], post)

# ------------------------------------------------------------------------------------------ copying
@lib("C19", "x_memcpy x_memset x_memmove")
def memory(h):
    fn = h.choice("function", ["memcpy", "memset", "memmove", "memmove-apart"]); n = h.num("n", small=9); h.assume(ult(n, h.max_cells())); h.anchor("n", n); k = h.forall("k", dom=14)
    if fn == "memset":
        c, ch = byte(h, "c"); d = h.buf("dst", n)
        if h.sym: h.map_hook(lambda st: d.ptr, k, 0, lambda x, b: ch)
        def post(r):
            r.ensure("C19", "the destination is returned", at(r, d, 0)); r.ensure("C19", "every byte is set", Implies(ult(k, n), eq(r.byte(d.ptr, k, 0, 1), ch)))
        h.call("x_memset", [d.ptr, c, n], post); return
    if fn != "memmove":
        d, s = h.buf("dst", n), h.buf("src", n, 1, readonly=True)
        if h.sym: h.map_hook(lambda st: d.ptr, k, 0, lambda x, b: s.pre(x))
        def post(r):
            r.ensure("C19", "the destination is returned", at(r, d, 0)); r.ensure("C19", "every byte is copied", Implies(ult(k, n), eq(r.byte(d.ptr, k, 0, 1), s.pre(k))))
        h.call("x_" + fn.split("-")[0], [d.ptr, s.ptr, n], post); return
    size, to, frm = h.num("size", small=14), h.num("to", small=5), h.num("from", small=5)
    h.assume(And(ult(size, h.max_cells()), ule(n, size), ule(to, sub(size, n)), ule(frm, sub(size, n)))); b = h.buf("block", size)
    for nm, x in (("to", to), ("from", frm), ("to+n", add(to, n)), ("from+n", add(frm, n))): h.anchor(nm, x)
    src = lambda x: b.pre(add(sub(x, to), frm)) if h.sym or u(to) <= u(x) < u(to) + u(n) else 0; new = lambda x: If8(inrange(x, to, n), src(x), b.pre(x))
    if h.sym:
        h.map_hook(lambda st: b.ptr, k, 0, lambda x, _: new(x)); k2 = add(sub(k, to), frm)
        h.map_hook(lambda st: b.ptr, k2, 0, None)
    def post(r):
        r.ensure("C19", "the destination is returned", at(r, b, to))
        r.ensure("C19", "overlapping bytes are moved as if copied through a buffer, others are unchanged", Implies(ult(k, size), eq(r.byte(b.ptr, k, 0, 1), new(k))))
    h.call("x_memmove", [b.at(to), b.at(frm), n], post)

@lib("C19", "x_strcpy x_strcat x_strncpy x_strncat x_strxfrm")
def strings(h):
    fn = h.choice("function", ["strcpy", "strcat", "strncpy", "strncat", "strxfrm"]); l = length(h, "l"); k = h.forall("k", dom=12); n = None
    if fn[3] == "n" or fn == "strxfrm": n = h.num("n", small=9, near=[l, add(l, 1)]); h.assume(ult(n, h.max_cells())); h.anchor("n", n)
    if not h.sym and n is not None: h.assume(n < 300)
    s = text(h, "src", l, n if fn != "strxfrm" else None)
    if fn == "strcpy": d0, cp, cells = 0, l, add(l, 1)
    elif fn == "strncpy": d0, cp, cells = 0, umin(l, n), n
    elif fn == "strxfrm": d0, cp, cells = 0, l, n
    else:
        d0 = length(h, "dest.length"); cp = l if n is None else umin(l, n); cells = add(add(d0, cp), 1)
    if h.sym: h.anchor("cp", cp); h.anchor("end", add(d0, cp))
    fact = lambda c, _, v: And(Implies(ult(c, d0), ne(v, 0)), Implies(eq(c, d0), eq(v, 0))) if fn[-3:] == "cat" else T_
    d = h.buf("dest", cells, 1, fact=fact if fn[-3:] == "cat" else None)
    new = lambda x: If8(ult(sub(x, d0), cp), s.pre(sub(x, d0)) if h.sym or u(d0) <= u(x) < u(d0) + u(cp) else 0, 0)
    if h.sym: h.map_hook(lambda st: d.ptr, k, 0, lambda x, b: new(x))
    def post(r):
        kept = fn == "strxfrm" and r.decide(ule(n, l))
        if fn == "strxfrm": r.ensure("C19", "the length is returned", eq(r.ret, l))
        else: r.ensure("C19", "the destination is returned", at(r, d, 0))
        if kept: return
        inr = And(ule(d0, k), ult(k, cells)) if fn != "strxfrm" else ule(k, l)
        r.ensure("C19", "the text is copied and terminated, or padded up to the bound", Implies(inr, eq(r.byte(d.ptr, k, 0, 1), new(k))))
        if fn[-3:] == "cat": r.ensure("C19", "the existing text is kept", Implies(ult(k, d0), eq(r.byte(d.ptr, k, 0, 1), d.pre(k))))
    h.call("x_" + fn, [d.ptr, s.ptr] + ([n] if n is not None else []), post)

# ------------------------------------------------------------------------------------------ the tokenizer
@lib("C19", "x_strtok x_strtok_next", cost=50, limit=400)
def tokens(h):
    """tokens [f, e) of the first call and [f2, e2) of a second one that goes on behind it, possibly with another set of delimiters"""
    case = h.choice("case", ["first", "none left", "next", "next is last", "no next"]); calls = 1 if case == "first" else 2; l = length(h, "l"); k = h.forall("k", dom=12); D = []
    names = ["delim", "delim2"][:calls]
    if h.sym:
        import z3
        from zvc.terms import BVS
        ms = [length(h, n + ".length", small=3) for n in names]
        ins = [z3.Function("member_" + n, BVS(8), z3.BoolSort()) for n in names]; wit = [z3.Function("witness_" + n, BVS(8), BVS(64)) for n in names]
        for n, m, i in zip(names, ms, ins): D.append(text(h, n, m, fact=lambda c, v, m=m, i=i: Implies(ult(c, m), i(v))))
        g = []
        for q in range(calls):
            f, e = h.num("f%d" % q), h.num("e%d" % q); h.anchor("f%d" % q, f); h.anchor("e%d" % q, e); g.append((f, e))
        def fact(c, v):
            out = []
            for q in range(calls):
                i, w = ins[q], wit[q]; f, e = g[q]; lo_ = 0 if q == 0 else add(g[0][1], 1)
                out.append(Implies(And(ult(c, l), i(v)), And(ult(w(v), ms[q]), eq(D[q].pre(w(v)), v))))
                on = T_ if q == 0 else ult(g[0][1], l)
                out.append(Implies(on, And(Implies(And(ule(lo_, c), ult(c, f)), i(v)), Implies(And(eq(c, f), ult(f, l)), Not(i(v))),
                           Implies(And(ule(f, c), ult(c, e)), Not(i(v))), Implies(And(eq(c, e), ult(e, l)), i(v)))))
            return And(out)
        f, e = g[0]; h.assume(And(ule(f, e), ule(e, l), Implies(ult(f, l), ult(f, e))))
        if calls == 2: f2, e2 = g[1]; h.assume(Implies(ult(e, l), And(ult(e, f2), ule(f2, e2), ule(e2, l), Implies(ult(f2, l), ult(f2, e2)))))
        S_ = text(h, "s", l, readonly=False, fact=fact)
        from zvc.hooks import outer_cells, caller_cells
        from zvc.mem import bsub, bv
        def hook(L):
            out = []; over = {v.init.obj for v in L.vars if getattr(v.init, "obj", None) is not None}
            for n, oc in outer_cells(L) + caller_cells(L):
                for sfx, c in (("", oc), ("-1", bsub(oc, bv(1)))):
                    for q in range(calls):
                        if D[q].oid not in over: continue
                        ch = S_.pre(c); j = wit[q](ch)
                        for rn, R in L.regions(): out.append(("token%d:%s%s%s" % (q, n, sfx, rn), lambda V, R=R, j=j, q=q, ch=ch: Implies(And(R(V, j), ult(j, ms[q])), ne(D[q].pre(j), ch))))
            return out
        h.loop_hook(hook)
    else:
        rn = h.rnd; al = letters(h)[:4]; A = bytes(rn.choice(al) for _ in range(l)); Bs = [bytes(rn.choice(al[:2]) for _ in range(rn.randrange(3))) for _ in names]
        D = [text(h, n, len(B), content=lambda c, _, B=B: (B + b"\0")[c]) for n, B in zip(names, Bs)]
        S_ = text(h, "s", l, readonly=False, content=lambda c, _: (A + b"\0")[c]); at0 = 0; g = []
        for B in Bs:
            f = next((i for i in range(at0, u(l)) if A[i] not in B), u(l)); e = next((i for i in range(f, u(l)) if A[i] in B), u(l)); g.append((f, e)); at0 = min(e + 1, u(l))
    if calls == 2:
        (f, e), (f2, e2) = g; more = And(ult(f, l), ult(e, l)); h.assume(Not(more) if case == "none left" else And(more, ult(e2, l) if case == "next" else eq(e2, l), eq(f2, l) if case == "no next" else ult(f2, l)))
    first = h.out("first", ptr=True) if calls == 2 else None
    def post(r):
        f, e = g[0]; first_ret = r.ret if calls == 1 else r.outval(first)
        some = r.decide(ult(f, l)); cont = some and r.decide(ult(e, l)); some2 = False
        def result(x, ok, f, what):
            if ok: r.ensure("C19", what + " starts at the first character that is no delimiter", r.ptr_at(x, S_.ptr, f, 1))
            else: r.ensure("C19", what + " is null if there is no further token", r.is_null(x))
        result(first_ret, some, f, "the token")
        cut = [(some and cont, e)]
        if calls == 2:
            f2, e2 = g[1]; some2 = cont and r.decide(ult(f2, l)); result(r.ret, some2, f2, "the next token"); cut.append((some2, e2))
        now = r.byte(S_.ptr, k, 0, 1); hit = Or([And(eq(k, x), ult(x, l)) for on, x in cut if on] + [False])
        r.ensure("C19", "the delimiter that ends a token is replaced by a terminator", Implies(hit, eq(now, 0)))
        r.ensure("C19", "nothing else is changed", Implies(And(ule(k, l), Not(hit)), eq(now, S_.pre(k))))
        r.cover("%d calls %s %s %s" % (calls, some, cont, some2))
    h.call("x_strtok" if calls == 1 else "x_strtok_next", [S_.ptr] + [d.ptr for d in D] + ([first.ptr] if calls == 2 else []), post)
