"""Bit-vector formulas as linear integer arithmetic (exact: every wrap-around is spelled out).
A term of width w becomes an integer in [0, 2^w).  Terms outside the linear fragment (products of two variables,
general bitwise operations) become uninterpreted functions with the bounds that hold for them; a formula that
contains one is marked inexact and only its 'unsat' answers are used."""
import z3
IS, BS = z3.IntSort(), z3.BoolSort()
def iv(n): return z3.IntVal(n)

class Tr:
    def __init__(self):
        self.cache = {}      # ast id -> (ref, value, lo, hi, deps)   deps: tuple of side keys
        self.side = {}       # key -> (list of side formulas, exact)
        self.funs = {}; self.n = 0
        self.vars = {}       # int const name -> (bv term)
        self.lincache = {}   # ast id -> (ref, constant, {atom id: (coefficient, atom)})
        self.bitmemo = {}    # ast id of the translated integer -> (ref, [Bool], deps)
    def fresh(self, n="x"):
        self.n += 1; return z3.Int("lia!%s%d" % (n, self.n))
    def fun(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in self.funs: self.funs[k] = z3.Function("lia_" + name + "_" + "_".join(str(s) for s in sorts), *sorts)
        return self.funs[k]
    def newside(self, forms, exact=True):
        k = len(self.side); self.side[k] = (forms, exact); return k
    # ------------------------------------------------------------------
    def tr(self, root):
        """iterative post-order translation"""
        c = self.cache; stack = [root]
        while stack:
            x = stack[-1]; i = x.get_id()
            if i in c: stack.pop(); continue
            todo = [y for y in x.children() if y.get_id() not in c]
            if todo: stack.extend(todo); continue
            stack.pop(); v, lo, hi, deps = self.one(x, [c[y.get_id()] for y in x.children()])
            c[i] = (x, v, lo, hi, deps)
        return c[root.get_id()]
    def collect(self, roots):
        """(translated formulas, side formulas, exact)"""
        fs = []; keys = set()
        for r in roots:
            e = self.tr(r); fs.append(e[1]); keys |= e[4]
        side = []; exact = True; done = set(); todo = list(keys)
        while todo:
            k = todo.pop()
            if k in done: continue
            done.add(k); f, ex = self.side[k]; side += f; exact = exact and ex
        return fs, side, exact
    def signed(self, v, lo, hi, w):
        h = 1 << (w - 1)
        if hi < h: return v, lo, hi
        if lo >= h: return v - (1 << w), lo - (1 << w), hi - (1 << w)
        return z3.If(v >= h, v - (1 << w), v), -h, h - 1
    def wrap(self, v, lo, hi, w):
        """v in [lo,hi] reduced mod 2^w"""
        m = 1 << w
        if lo >= 0 and hi < m: return v, lo, hi, frozenset()
        if lo >= 0 and hi < 2 * m: return z3.If(v >= m, v - m, v), 0, m - 1, frozenset()
        if lo >= -m and hi < m: return z3.If(v < 0, v + m, v), 0, m - 1, frozenset()
        ql, qh = lo // m, hi // m
        if qh - ql <= 5:
            e = v - m * qh if qh else v
            for q in range(qh - 1, ql - 1, -1): e = z3.If(v >= m * (q + 1), e, v - m * q if q else v)
            return e, 0, m - 1, frozenset()
        q = self.fresh("q"); r = self.fresh("r")
        k = self.newside([r == v - m * q, r >= 0, r < m, q >= lo // m, q <= hi // m])
        return r, 0, m - 1, frozenset([k])
    def divc(self, v, lo, hi, c):
        """(quotient, remainder) by positive constant"""
        if hi < c: return (iv(0), 0, 0), (v, lo, hi), frozenset()
        q = self.fresh("d"); r = self.fresh("m")
        k = self.newside([v == c * q + r, r >= 0, r < c, q >= lo // c, q <= hi // c])
        return (q, lo // c, hi // c), (r, 0, c - 1), frozenset([k])
    def linear(self, x):
        """(constant, {atom id: (coefficient, atom)}) of a bit-vector sum, coefficients signed, modulo 2^w"""
        e = self.lincache.get(x.get_id())
        if e is not None: return e[1], e[2]
        w = x.size(); m = 1 << w; k = x.decl().kind() if z3.is_app(x) else None
        sg = lambda n: (n % m) - m if (n % m) >= m // 2 else n % m
        if z3.is_bv_value(x): r = (sg(x.as_long()), {})
        elif k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG):
            c = 0; d = {}
            for i, y in enumerate(x.children()):
                f = -1 if k == z3.Z3_OP_BNEG or (k == z3.Z3_OP_BSUB and i) else 1
                c1, d1 = self.linear(y); c += f * c1
                for j, (co, t) in d1.items(): d[j] = (d.get(j, (0,))[0] + f * co, t)
            r = (sg(c), {j: (sg(co), t) for j, (co, t) in d.items()})
        elif k == z3.Z3_OP_BMUL and x.num_args() == 2 and (z3.is_bv_value(x.arg(0)) or z3.is_bv_value(x.arg(1))):
            a, b = (x.arg(0), x.arg(1)) if z3.is_bv_value(x.arg(0)) else (x.arg(1), x.arg(0))
            n = sg(a.as_long()); c1, d1 = self.linear(b)
            r = (sg(n * c1), {j: (sg(n * co), t) for j, (co, t) in d1.items()})
        else: r = (0, {x.get_id(): (1, x)})
        self.lincache[x.get_id()] = (x,) + r
        return r
    # ---- exact bitwise operations on small values -------------------------
    BITS = 16
    def bits(self, v, lo, hi):
        """the bits (Bools, least significant first) of the integer v in [lo,hi], hi < 2^BITS"""
        n = max(1, hi.bit_length())
        if lo == hi: return [z3.BoolVal(bool(lo >> i & 1)) for i in range(n)], frozenset()
        e = self.bitmemo.get(v.get_id())
        if e is None:
            self.n += 1; bs = [z3.Bool("lia!b%d_%d" % (self.n, i)) for i in range(n)]
            k = self.newside([v == self.frombits(bs)]); e = (v, bs, frozenset([k])); self.bitmemo[v.get_id()] = e
        return e[1], e[2]
    def frombits(self, bs):
        return z3.Sum([iv(0)] + [z3.If(b, iv(1 << i), iv(0)) for i, b in enumerate(bs) if not z3.is_false(b)])
    def bitop(self, op, a, c):
        """exact and/or/xor of two small values, or None"""
        for p, q in ((a, c), (c, a)):
            if q[2] == q[3] and q[2] and q[2] & (q[2] - 1) == 0 and op != "and" and not p[2] == p[3]:     # a single bit
                n = q[2]
                if p[3] < 2 * n: r, dp = (p[1], p[2], p[3]), frozenset()
                else: _, r, dp = self.divc(p[1], p[2], p[3], 2 * n)
                hi = p[3] | n
                if op == "or": return z3.If(r[0] >= n, p[1], p[1] + n), max(p[2], n), hi, dp
                return z3.If(r[0] >= n, p[1] - n, p[1] + n), max(0, p[2] - n), hi, dp
        if a[3] >> self.BITS or c[3] >> self.BITS:
            if op != "and":     # the bits above the smaller operand stay
                if c[3] >> self.BITS: a, c = c, a
                if c[3] >> self.BITS: return None
                k = max(1, c[3].bit_length()); _, r, dp0 = self.divc(a[1], a[2], a[3], 1 << k)
                v, lo, hi, dp = self.bitop(op, (a[0],) + r, c)
                if op == "or": return a[1] - r[0] + v, max(a[2], c[2]), a[3] | ((1 << k) - 1), dp0 | dp
                return a[1] - r[0] + v, (a[2] >> k) << k, a[3] | ((1 << k) - 1), dp0 | dp
            if c[3] >> self.BITS: a, c = c, a
            if c[3] >> self.BITS: return None
            k = max(1, c[3].bit_length()); q, r, dp0 = self.divc(a[1], a[2], a[3], 1 << k); a = (a[0], r[0], r[1], r[2])
        else: dp0 = frozenset()
        ab, d1 = self.bits(a[1], a[2], a[3]); cb, d2 = self.bits(c[1], c[2], c[3]); n = max(len(ab), len(cb))
        F = z3.BoolVal(False); ab = ab + [F] * (n - len(ab)); cb = cb + [F] * (n - len(cb))
        f = {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op]
        rb = [z3.simplify(f(p, q)) for p, q in zip(ab, cb)]
        while len(rb) > 1 and z3.is_false(rb[-1]): rb.pop()
        if all(z3.is_true(b) or z3.is_false(b) for b in rb):
            n = sum((1 << i) for i, b in enumerate(rb) if z3.is_true(b)); return iv(n), n, n, dp0 | d1 | d2
        v = self.frombits(rb); dp = dp0 | d1 | d2
        self.bitmemo[v.get_id()] = (v, rb, dp)
        lo = sum((1 << i) for i, b in enumerate(rb) if z3.is_true(b)); hi = sum((1 << i) for i, b in enumerate(rb) if not z3.is_false(b))
        return v, lo, hi, dp
    def one(self, x, ch):
        d = x.decl(); k = d.kind(); deps = frozenset().union(*[c[4] for c in ch]) if ch else frozenset()
        Z = z3
        if Z.is_bool(x):
            b = [c[1] for c in ch]
            if k == Z.Z3_OP_TRUE or k == Z.Z3_OP_FALSE: return x, None, None, deps
            if k == Z.Z3_OP_AND: return Z.And(*b), None, None, deps
            if k == Z.Z3_OP_OR: return Z.Or(*b), None, None, deps
            if k == Z.Z3_OP_NOT: return Z.Not(b[0]), None, None, deps
            if k == Z.Z3_OP_IMPLIES: return Z.Implies(b[0], b[1]), None, None, deps
            if k == Z.Z3_OP_XOR: return Z.Xor(b[0], b[1]), None, None, deps
            if k == Z.Z3_OP_ITE: return Z.If(b[0], b[1], b[2]), None, None, deps
            if k in (Z.Z3_OP_EQ, Z.Z3_OP_IFF): return b[0] == b[1], None, None, deps
            if k == Z.Z3_OP_DISTINCT: return Z.Distinct(*b), None, None, deps
            if k == Z.Z3_OP_ULEQ: return b[0] <= b[1], None, None, deps
            if k == Z.Z3_OP_ULT: return b[0] < b[1], None, None, deps
            if k == Z.Z3_OP_UGEQ: return b[0] >= b[1], None, None, deps
            if k == Z.Z3_OP_UGT: return b[0] > b[1], None, None, deps
            if k in (Z.Z3_OP_SLEQ, Z.Z3_OP_SLT, Z.Z3_OP_SGEQ, Z.Z3_OP_SGT):
                w = x.arg(0).size(); a = self.signed(ch[0][1], ch[0][2], ch[0][3], w)[0]; c = self.signed(ch[1][1], ch[1][2], ch[1][3], w)[0]
                r = {Z.Z3_OP_SLEQ: lambda: a <= c, Z.Z3_OP_SLT: lambda: a < c, Z.Z3_OP_SGEQ: lambda: a >= c, Z.Z3_OP_SGT: lambda: a > c}[k]()
                return r, None, None, deps
            if k == Z.Z3_OP_UNINTERPRETED:
                if not ch: return x, None, None, deps
                f = self.fun(d.name(), *([c.sort() if Z.is_bool(c) else IS for c in [q[1] for q in ch]] + [BS]))
                return f(*b), None, None, deps
            raise NotImplementedError("lia bool %s" % d.name())
        if not Z.is_bv(x): raise NotImplementedError("lia sort %s" % x.sort())
        w = x.size(); m = 1 << w
        if Z.is_bv_value(x): n = x.as_long(); return iv(n), n, n, deps
        def out(v, lo, hi, dp=frozenset()): return v, lo, hi, deps | dp
        def uf(name, exact=False, extra=()):
            f = self.fun("%s_%d" % (name, w), *([IS if not Z.is_bool(c[1]) else BS for c in ch] + [IS])); v = f(*[c[1] for c in ch])
            kk = self.newside([v >= 0, v < m] + [e(v) for e in extra], exact); return out(v, 0, m - 1, frozenset([kk]))
        if k == Z.Z3_OP_UNINTERPRETED:
            if not ch:
                v = Z.Int("i_" + d.name()); self.vars[v.decl().name()] = x
                return out(v, 0, m - 1, frozenset([self.newside([v >= 0, v < m])]))
            f = self.fun(d.name(), *([IS if not Z.is_bool(c[1]) else BS for c in ch] + [IS])); v = f(*[c[1] for c in ch])
            return out(v, 0, m - 1, frozenset([self.newside([v >= 0, v < m])]))
        if k == Z.Z3_OP_ITE:
            c, a, b = ch; return out(Z.If(c[1], a[1], b[1]), min(a[2], b[2]), max(a[3], b[3]))
        if k in (Z.Z3_OP_BADD, Z.Z3_OP_BSUB, Z.Z3_OP_BNEG):
            c0, lf = self.linear(x); v = None; lo = hi = c0; dp = frozenset()
            for i, (co, t) in lf.items():
                if co == 0: continue
                e = self.cache[i]; dp |= e[4]; v1 = e[1] * co if co != 1 else e[1]; v = v1 if v is None else v + v1
                lo += co * e[2] if co > 0 else co * e[3]; hi += co * e[3] if co > 0 else co * e[2]
            if v is None: n = c0 % m; return out(iv(n), n, n)
            v, lo, hi, d2 = self.wrap(v + c0 if c0 else v, lo, hi, w); return v, lo, hi, dp | d2
        if k == Z.Z3_OP_BNOT: return out((m - 1) - ch[0][1], m - 1 - ch[0][3], m - 1 - ch[0][2])
        if k == Z.Z3_OP_BMUL and len(ch) == 2:
            for a, c in ((ch[0], ch[1]), (ch[1], ch[0])):
                if c[2] == c[3]:
                    n = c[2] if c[2] < m // 2 else c[2] - m
                    lo, hi = sorted((a[2] * n, a[3] * n)); v, lo, hi, dp = self.wrap(a[1] * n, lo, hi, w); return out(v, lo, hi, dp)
            a, c = sorted(ch, key=lambda q: q[3])   # a: the smaller range
            f = self.fun("mul_%d" % w, IS, IS, IS); p = f(a[1], c[1])
            # p: the exact (unwrapped) product, with its monotonicity facts
            fs = [p >= 0, p <= a[3] * c[1], p <= c[3] * a[1], p >= a[2] * c[1], p >= c[2] * a[1],
                  z3.Implies(a[1] >= 1, p >= c[1]), z3.Implies(c[1] >= 1, p >= a[1]), z3.Implies(a[1] == 1, p == c[1]), z3.Implies(c[1] == 1, p == a[1]),
                  z3.Implies(a[1] >= 2, p >= 2 * c[1]), z3.Implies(c[1] >= 2, p >= 2 * a[1])]
            kk = self.newside(fs, False)
            v, lo, hi, dp = self.wrap(p, a[2] * c[2], a[3] * c[3], w)
            return out(v, lo, hi, dp | frozenset([kk]))
        if k in (Z.Z3_OP_BUDIV, Z.Z3_OP_BUDIV_I, Z.Z3_OP_BUREM, Z.Z3_OP_BUREM_I):
            a, c = ch
            if c[2] == c[3] and c[2] > 0:
                q, r, dp = self.divc(a[1], a[2], a[3], c[2]); e = q if k in (Z.Z3_OP_BUDIV, Z.Z3_OP_BUDIV_I) else r
                return out(e[0], e[1], e[2], dp)
            if k in (Z.Z3_OP_BUDIV, Z.Z3_OP_BUDIV_I): return uf("udiv", extra=[lambda v: z3.Implies(c[1] >= 1, v <= a[1])])
            return uf("urem", extra=[lambda v: z3.Implies(c[1] >= 1, v < c[1]), lambda v: v <= a[1]])
        if k in (Z.Z3_OP_BSDIV, Z.Z3_OP_BSDIV_I, Z.Z3_OP_BSREM, Z.Z3_OP_BSREM_I, Z.Z3_OP_BSMOD, Z.Z3_OP_BSMOD_I):
            a, c = ch
            if c[2] == c[3] and 0 < c[2] < m // 2 and k not in (Z.Z3_OP_BSMOD, Z.Z3_OP_BSMOD_I):
                s, sl, sh = self.signed(a[1], a[2], a[3], w)
                ab = s if sl >= 0 else z3.If(s >= 0, s, -s)
                q, r, dp = self.divc(ab, 0, max(abs(sl), abs(sh)), c[2]); e = q if k in (Z.Z3_OP_BSDIV, Z.Z3_OP_BSDIV_I) else r
                if sl >= 0: return out(e[0], e[1], e[2], dp)
                return out(z3.If(s >= 0, e[0], z3.If(e[0] == 0, iv(0), m - e[0])), 0, m - 1, dp)
            return uf("sdiv%d" % k)
        if k in (Z.Z3_OP_BSHL, Z.Z3_OP_BLSHR, Z.Z3_OP_BASHR):
            a, c = ch
            if c[2] == c[3]:
                s = c[2]
                if k == Z.Z3_OP_BSHL:
                    if s >= w: return out(iv(0), 0, 0)
                    v, lo, hi, dp = self.wrap(a[1] * (1 << s), a[2] << s, a[3] << s, w); return out(v, lo, hi, dp)
                if k == Z.Z3_OP_BLSHR:
                    if s >= w: return out(iv(0), 0, 0)
                    q, r, dp = self.divc(a[1], a[2], a[3], 1 << s); return out(q[0], q[1], q[2], dp)
                s = min(s, w - 1)
                if a[3] < m // 2: q, r, dp = self.divc(a[1], a[2], a[3], 1 << s); return out(q[0], q[1], q[2], dp)
                sv, sl, sh = self.signed(a[1], a[2], a[3], w)
                q = self.fresh("d"); r = self.fresh("m"); kk = self.newside([sv == (1 << s) * q + r, r >= 0, r < (1 << s), q >= sl >> s, q <= sh >> s])
                v, lo, hi, dp = self.wrap(q, sl >> s, sh >> s, w); return out(v, lo, hi, dp | frozenset([kk]))
            if c[3] - c[2] <= 16 and a[2] == a[3] and c[3] < 64:    # constant shifted by a small amount
                v = None; lo = m; hi = 0
                for s in range(c[3], c[2] - 1, -1):
                    n = a[2]
                    n = (n << s) % m if k == Z.Z3_OP_BSHL else n >> s if (k == Z.Z3_OP_BLSHR or n < m // 2) else ((n - m) >> s) % m
                    v = iv(n) if v is None else z3.If(c[1] == s, iv(n), v); lo = min(lo, n); hi = max(hi, n)
                return out(v, lo, hi)
            if c[3] - c[2] <= 8 and c[3] < w and (k == Z.Z3_OP_BLSHR or (k == Z.Z3_OP_BASHR and a[3] < m // 2) or (k == Z.Z3_OP_BSHL and a[3] << c[3] < m)):
                v = None; dp = frozenset(); lo = m; hi = 0
                for s in range(c[3], c[2] - 1, -1):
                    if k == Z.Z3_OP_BSHL: e, l1, h1 = a[1] * (1 << s), a[2] << s, a[3] << s
                    else: (e, l1, h1), _, d1 = self.divc(a[1], a[2], a[3], 1 << s); dp |= d1
                    v = e if v is None else z3.If(c[1] == s, e, v); lo = min(lo, l1); hi = max(hi, h1)
                return out(v, lo, hi, dp)
            return uf("shift%d" % k, extra=[lambda v: v <= ch[0][1]] if k == Z.Z3_OP_BLSHR else ())
        if k == Z.Z3_OP_BAND:
            if len(ch) == 2:
                for a, c in ((ch[0], ch[1]), (ch[1], ch[0])):
                    if c[2] == c[3]:
                        n = c[2]
                        if n == 0: return out(iv(0), 0, 0)
                        tz = (n & -n).bit_length() - 1; o = n >> tz
                        if o & (o + 1) == 0:    # contiguous mask
                            nb = o.bit_length()
                            q, r, d1 = self.divc(a[1], a[2], a[3], 1 << tz) if tz else ((a[1], a[2], a[3]), None, frozenset())
                            q2, r2, d2 = self.divc(q[0], q[1], q[2], 1 << nb)
                            return out(r2[0] * (1 << tz), r2[1] << tz, r2[2] << tz, d1 | d2)
                        nc = m - 1 - n
                        if nc == 0: return out(a[1], a[2], a[3])
                        tz = (nc & -nc).bit_length() - 1; o = nc >> tz
                        if o & (o + 1) == 0:    # everything but a contiguous mask
                            nb = o.bit_length()
                            q, r, d1 = self.divc(a[1], a[2], a[3], 1 << tz) if tz else ((a[1], a[2], a[3]), None, frozenset())
                            q2, r2, d2 = self.divc(q[0], q[1], q[2], 1 << nb)
                            return out(a[1] - r2[0] * (1 << tz), max(0, a[2] - nc), a[3], d1 | d2)
                r = self.bitop("and", ch[0], ch[1])
                if r is not None: return out(*r)
                return uf("and", extra=[lambda v, c=c: v <= c[1] for c in ch])
            return uf("and", extra=[lambda v, c=c: v <= c[1] for c in ch])
        if k in (Z.Z3_OP_BOR, Z.Z3_OP_BXOR):
            acc = ch[0]
            for c in ch[1:]:
                r = self.bitop("or" if k == Z.Z3_OP_BOR else "xor", acc, c)
                if r is None: acc = None; break
                acc = (None,) + tuple(r)
            if acc is not None: return out(acc[1], acc[2], acc[3], acc[4] if len(ch) > 1 else frozenset())
        if k == Z.Z3_OP_BOR: return uf("or", extra=[lambda v, c=c: v >= c[1] for c in ch])
        if k == Z.Z3_OP_BXOR: return uf("xor")
        if k == Z.Z3_OP_ZERO_EXT: return out(ch[0][1], ch[0][2], ch[0][3])
        if k == Z.Z3_OP_SIGN_EXT:
            w0 = x.arg(0).size(); v, lo, hi = self.signed(ch[0][1], ch[0][2], ch[0][3], w0)
            if lo >= 0: return out(v, lo, hi)
            return out(z3.If(v < 0, v + m, v), 0, m - 1)
        if k == Z.Z3_OP_EXTRACT:
            h, l = d.params(); a = ch[0]
            q, r, d1 = self.divc(a[1], a[2], a[3], 1 << l) if l else ((a[1], a[2], a[3]), None, frozenset())
            if h - l + 1 == x.arg(0).size() - l: return out(q[0], q[1], q[2], d1)
            q2, r2, d2 = self.divc(q[0], q[1], q[2], 1 << (h - l + 1))
            return out(r2[0], r2[1], r2[2], d1 | d2)
        if k == Z.Z3_OP_CONCAT:
            v, lo, hi = ch[0][1], ch[0][2], ch[0][3]
            for i in range(1, len(ch)):
                s = x.arg(i).size(); v = v * (1 << s) + ch[i][1]; lo = (lo << s) + ch[i][2]; hi = (hi << s) + ch[i][3]
            return out(v, lo, hi)
        return uf("op%d" % k)

class Lia:
    def __init__(self): self.t = Tr()
    def solver(self, fs):
        f, side, exact = self.t.collect(fs)
        s = z3.SolverFor("ALL") if False else z3.Solver()
        s.add(*side); s.add(*f)
        return s, exact
    def check(self, fs, timeout, seed=None):
        """('sat'|'unsat'|'unknown', model, exact)"""
        try: s, exact = self.solver(fs)
        except NotImplementedError: return "unknown", None, False
        if seed is not None: s.set("random_seed", seed)
        s.set("timeout", timeout); r = str(s.check())
        return r, (s.model() if r == "sat" else None), exact
    def eval_bool(self, m, f):
        try: e = self.t.tr(f)[1]
        except NotImplementedError: return None
        v = m.eval(e, model_completion=True)
        # terms introduced after solving (division witnesses) are not constrained by the model
        return True if z3.is_true(v) else False if z3.is_false(v) else None
    def holds(self, m, f):
        """f and the side conditions of its translation evaluate to true"""
        try: fs, side, _ = self.t.collect([f])
        except NotImplementedError: return False
        return all(z3.is_true(m.eval(x, model_completion=True)) for x in fs + side)
    def pins(self, m):
        """BV equalities for the scalar values of the model"""
        out = []
        for d in m.decls():
            if d.arity() == 0 and d.name() in self.t.vars:
                x = self.t.vars[d.name()]; v = m[d]
                if z3.is_int_value(v): out.append(x == z3.BitVecVal(v.as_long(), x.size()))
        return out
