"""Term helpers: z3 bit-vectors with eager constant folding, Scaled numbers (cell*stride+byte), pointers."""
import z3
from .ir import Unsupported

BVS = z3.BitVecSort
def bv(v, w=64): return z3.BitVecVal(v, w)
def is_c(a): return isinstance(a, z3.BitVecNumRef)
def cval(a): return a.as_long()
def same(a, b): return a is b or a.eq(b)
T = z3.BoolVal(True); F = z3.BoolVal(False)
def is_t(a): return z3.is_true(a)
def is_f(a): return z3.is_false(a)

_fresh = [0]
def fresh_name(n):
    _fresh[0] += 1
    return "%s!%d" % (n, _fresh[0])
def fresh_bv(n, w=64): return z3.BitVec(fresh_name(n), w)
def fresh_bool(n): return z3.Bool(fresh_name(n))
def fresh_fn(n, *sorts): return z3.Function(fresh_name(n), *sorts)
def reset_fresh(): _fresh[0] = 0; SMALL.clear(); REMAINDERS.clear(); EXACT.clear(); _lin.clear()

# ---- exact arithmetic on linear sums of bounded variables (digits)
SMALL = {}      # ast id -> (term, lo, hi): bounds that the precondition of the running case assumes
EXACT = {}      # linear sum (key) -> its least and greatest value as the precondition assumes them
_lin = {}
def lin(x):
    e = _lin.get(x.get_id())
    if e is None: e = _lin[x.get_id()] = (x, lin1(x))
    return e[1]
def lin1(x):
    """(constant, {atom id: (coefficient, atom)}) modulo 2^w, coefficients in [0, 2^w)"""
    w = x.size(); m = (1 << w) - 1; k = x.decl().kind() if z3.is_app(x) else None
    if is_c(x): return cval(x), {}
    def mix(ps):
        c, d = 0, {}
        for f, (c1, d1) in ps:
            c += f * c1
            for i, (co, t) in d1.items(): d[i] = (d.get(i, (0,))[0] + f * co & m, t)
        return c & m, {i: e for i, e in d.items() if e[0]}
    if x.get_id() in SMALL: return 0, {x.get_id(): (1, x)}
    if k == z3.Z3_OP_BADD: return mix([(1, lin(y)) for y in x.children()])
    if k == z3.Z3_OP_BSUB: return mix([(1 if i == 0 else -1, lin(y)) for i, y in enumerate(x.children())])
    if k == z3.Z3_OP_BMUL and x.num_args() == 2:
        a, b = x.arg(0), x.arg(1)
        if is_c(a): a, b = b, a
        if is_c(b): return mix([(cval(b), lin(a))])
    if k == z3.Z3_OP_BSHL and is_c(x.arg(1)) and cval(x.arg(1)) < w: return mix([(1 << cval(x.arg(1)), lin(x.arg(0)))])
    if k == z3.Z3_OP_ZERO_EXT or k == z3.Z3_OP_SIGN_EXT or k == z3.Z3_OP_EXTRACT and x.params()[1] == 0:
        e = small_lin(x.arg(0))
        lim = m + 1 if k == z3.Z3_OP_EXTRACT else 1 << (x.arg(0).size() - (k == z3.Z3_OP_SIGN_EXT))
        if e is not None and e[3] < lim: return e[0], e[1]
    return 0, {x.get_id(): (1, x)}
def lin_key(c, d): return (c, tuple(sorted((i, co) for i, (co, _) in d.items())))
def signed_lin(x):
    """(constant, atoms, least, greatest) of the integer that the sum of bounded variables with signed coefficients is"""
    c, d = lin(x); w = x.size(); m = 1 << w; sg = lambda n: n - m if n >= m >> 1 else n
    e = EXACT.get(lin_key(c, d))
    c = sg(c); d = {i: (sg(co), t) for i, (co, t) in d.items()}; lo = hi = c
    for i, (co, t) in d.items():
        if i not in SMALL: return None
        l, h = co * SMALL[i][1], co * SMALL[i][2]; lo += min(l, h); hi += max(l, h)
    if e is not None: lo, hi = max(lo, e[0]), min(hi, e[1])
    return c, d, lo, hi
def small_lin(x):
    """(constant, atoms, least, greatest) if x is a sum of bounded variables that does not wrap (as an unsigned number)"""
    c, d = lin(x); lo = hi = c
    for i, (co, t) in d.items():
        if i not in SMALL: return None
        lo += co * SMALL[i][1]; hi += co * SMALL[i][2]
    e = EXACT.get(lin_key(c, d))
    if e is not None and e[0] >= 0: return c, d, max(lo, e[0]), min(hi, e[1])
    if hi >> x.size():
        e = signed_lin(x); w = x.size()
        if e[2] >= 0 and e[3] >> w == 0: return e
        return None
    return c, d, lo, hi
def unsigned_range(x):
    e = small_lin(x)
    if e is not None: return e[2], e[3]
    e = signed_lin(x); m = 1 << x.size()
    if e is not None and -m <= e[2] and e[3] < 0: return e[2] + m, e[3] + m
    return None
def signed_range(x):
    e = signed_lin(x); m = 1 << x.size() - 1
    if e is not None and -m <= e[2] and e[3] < m: return e[2], e[3]
    return None
def rebuild(c, d, w):
    r = bv(c, w)
    for co, t in d: r = badd(bmul(zext(t, w) if t.size() <= w else trunc(t, w), bv(co, w)), r)
    return r
def small_div(a, n, w, rem):
    e = small_lin(a)
    if e is None: return None
    rest = [(co % n, t) for co, t in e[1].values() if co % n]; hi = e[0] % n + sum(co * SMALL[t.get_id()][2] for co, t in rest)
    if hi >= n: return None
    if rem: return rebuild(e[0] % n, rest, w)
    return rebuild(e[0] // n, [(co // n, t) for co, t in e[1].values() if co // n], w)
def small_diff(a, b):
    """a == b decided by the bounds of the bounded variables in their difference"""
    w = a.size(); c, d = lin(a - b); m = 1 << w; lo = hi = c
    for i, (co, t) in d.items():
        if i not in SMALL: return None
        if co >= m >> 1: co -= m
        l, h = co * SMALL[i][1], co * SMALL[i][2]; lo += min(l, h); hi += max(l, h)
    if not d: return F if c else T
    if lo > 0 and hi < m or lo > -m and hi < 0 or lo > m and hi < 2 * m: return F
    return None
def small_cmp(a, b, lt, rng=unsigned_range):
    """a < b (lt) or a <= b decided by the bounds"""
    x, y = rng(a), rng(b)
    if x is None or y is None: return None
    if x[1] < y[0] or (not lt and x[1] == y[0]): return T
    if x[0] > y[1] or (lt and x[0] == y[1]): return F
    return None
def small_table(cell, bs):
    """bs[cell] as an affine function of the bounded variables of the index"""
    e = small_lin(cell)
    if e is None or e[3] >= len(bs): return None
    import itertools
    at = list(e[1].values()); rng = [(SMALL[t.get_id()][1], SMALL[t.get_id()][2]) for _, t in at]; n = 1
    for l, h in rng: n *= h - l + 1
    if n > 4096 or not at: return None
    f = lambda v: bs[e[0] + sum(co * x for (co, _), x in zip(at, v))]
    base = [l for l, _ in rng]; f0 = f(base); cf = [f([l + (i == j) for j, (l, h) in enumerate(rng)]) - f0 if rng[i][0] < rng[i][1] else 0 for i in range(len(rng))]
    for v in itertools.product(*[range(l, h + 1) for l, h in rng]):
        if (f0 + sum(k * (x - b) for k, x, b in zip(cf, v, base)) - f(v)) & 255: return None
    return rebuild(f0 - sum(k * b for k, b in zip(cf, base)) & 255, [(k & 255, t) for k, (_, t) in zip(cf, at) if k], 8)

def Not(a):
    if is_t(a): return F
    if is_f(a): return T
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)): xs = xs[0]
    out = []
    for x in xs:
        if is_f(x): return F
        if not is_t(x): out.append(x)
    return T if not out else out[0] if len(out) == 1 else z3.And(*out)
def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)): xs = xs[0]
    out = []
    for x in xs:
        if is_t(x): return T
        if not is_f(x): out.append(x)
    return F if not out else out[0] if len(out) == 1 else z3.Or(*out)
def Implies(a, b):
    return Or(Not(a), b)
def ite(c, a, b):
    if is_t(c): return a
    if is_f(c): return b
    if a is b: return a
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        if a.eq(b): return a
        return z3.If(c, a, b)
    raise Unsupported("ite over non-terms")

def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v

def badd(a, b):
    if is_c(a) and is_c(b): return bv(cval(a) + cval(b), a.size())
    if is_c(a): a, b = b, a
    if is_c(b):
        if cval(b) == 0: return a
        # (x + c1) + c2
        if z3.is_app_of(a, z3.Z3_OP_BADD) and a.num_args() == 2 and is_c(a.arg(1)):
            return badd(a.arg(0), bv(cval(a.arg(1)) + cval(b), a.size()))
    return a + b
def bsub(a, b):
    if is_c(b): return badd(a, bv(-cval(b), a.size()))
    if same(a, b): return bv(0, a.size())
    # (x + y) - y, (x + c) - x
    if z3.is_app_of(a, z3.Z3_OP_BADD) and a.num_args() == 2:
        if a.arg(1).eq(b): return a.arg(0)
        if a.arg(0).eq(b): return a.arg(1)
    return a - b
def bmul(a, b):
    if is_c(a) and is_c(b): return bv(cval(a) * cval(b), a.size())
    if is_c(a): a, b = b, a
    if is_c(b):
        if cval(b) == 0: return b
        if cval(b) == 1: return a
        v = cval(b)
        if v & (v - 1) == 0: return a << bv(v.bit_length() - 1, a.size())
    return a * b
def ult(a, b):
    if is_c(a) and is_c(b): return T if cval(a) < cval(b) else F
    if same(a, b): return F
    if is_c(b) and cval(b) == 0: return F
    if SMALL:
        r = small_cmp(a, b, True)
        if r is not None: return r
    return z3.ULT(a, b)
def ule(a, b):
    if is_c(a) and is_c(b): return T if cval(a) <= cval(b) else F
    if same(a, b): return T
    if is_c(a) and cval(a) == 0: return T
    if SMALL:
        r = small_cmp(a, b, False)
        if r is not None: return r
    return z3.ULE(a, b)
def ugt(a, b): return ult(b, a)
def uge(a, b): return ule(b, a)
def slt(a, b):
    w = a.size()
    if is_c(a) and is_c(b): return T if sgn(cval(a), w) < sgn(cval(b), w) else F
    if same(a, b): return F
    if SMALL:
        r = small_cmp(a, b, True, signed_range)
        if r is not None: return r
    return a < b
def sle(a, b):
    w = a.size()
    if is_c(a) and is_c(b): return T if sgn(cval(a), w) <= sgn(cval(b), w) else F
    if same(a, b): return T
    if SMALL:
        r = small_cmp(a, b, False, signed_range)
        if r is not None: return r
    return a <= b
def beq(a, b):
    if is_c(a) and is_c(b): return T if cval(a) == cval(b) else F
    if same(a, b): return T
    if SMALL and (is_c(a) or is_c(b)):
        x, y = (b, cval(a)) if is_c(a) else (a, cval(b)); e = unsigned_range(x)
        if e is not None and not e[0] <= y <= e[1]: return F
        if e is not None and e[0] == e[1] == y: return T
    elif SMALL:
        e = small_diff(a, b)
        if e is not None: return e
    # ite(c, k1, k2) == k
    for x, y in ((a, b), (b, a)):
        if is_c(y) and z3.is_app_of(x, z3.Z3_OP_ITE) and is_c(x.arg(1)) and is_c(x.arg(2)):
            e1, e2 = cval(x.arg(1)) == cval(y), cval(x.arg(2)) == cval(y)
            if e1 and e2: return T
            if e1: return x.arg(0)
            if e2: return Not(x.arg(0))
            return F
    return a == b
def zext(a, w):
    if a.size() == w: return a
    if is_c(a): return bv(cval(a), w)
    if SMALL and z3.is_app_of(a, z3.Z3_OP_EXTRACT) and a.params()[1] == 0 and a.arg(0).size() == w:
        r = unsigned_range(a.arg(0))
        if r is not None and r[1] < 1 << a.size(): return a.arg(0)
    return z3.ZeroExt(w - a.size(), a)
def sext(a, w):
    if a.size() == w: return a
    if is_c(a): return bv(sgn(cval(a), a.size()), w)
    return z3.SignExt(w - a.size(), a)
def trunc(a, w):
    if a.size() == w: return a
    if is_c(a): return bv(cval(a), w)
    if z3.is_app_of(a, z3.Z3_OP_ZERO_EXT) or z3.is_app_of(a, z3.Z3_OP_SIGN_EXT):
        x = a.arg(0)
        if x.size() == w: return x
        if x.size() > w: return z3.Extract(w - 1, 0, x)
    return z3.Extract(w - 1, 0, a)
def b2bv(c, w):
    if is_t(c): return bv(1, w)
    if is_f(c): return bv(0, w)
    return z3.If(c, bv(1, w), bv(0, w))

def binop(op, a, b, w):
    if op == "add": return badd(a, b)
    if op == "sub": return bsub(a, b)
    if op == "mul": return bmul(a, b)
    ca, cb = is_c(a), is_c(b)
    if ca and cb:
        x, y = cval(a), cval(b)
        if op == "udiv" and y: return bv(x // y, w)
        if op == "urem" and y: return bv(x % y, w)
        if op == "and": return bv(x & y, w)
        if op == "or": return bv(x | y, w)
        if op == "xor": return bv(x ^ y, w)
        if op == "shl": return bv(x << y if y < w else 0, w)
        if op == "lshr": return bv(x >> y if y < w else 0, w)
        if op == "ashr": return bv(sgn(x, w) >> min(y, w - 1), w)
        if op == "sdiv" and y:
            p, q = sgn(x, w), sgn(y, w); r = abs(p) // abs(q); return bv(r if (p < 0) == (q < 0) else -r, w)
        if op == "srem" and y:
            p, q = sgn(x, w), sgn(y, w); r = abs(p) % abs(q); return bv(-r if p < 0 else r, w)
    if SMALL and op == "and" and ca: a, b, ca, cb = b, a, cb, ca
    if SMALL and cb and cval(b):
        n = None; y = cval(b)
        if op in ("udiv", "urem"): n, rem = y, op == "urem"
        elif op == "lshr" and y < w: n, rem = 1 << y, False
        elif op == "and" and y & (y + 1) == 0: n, rem = y + 1, True
        elif op == "and" and ~y & ((1 << w) - 1) & ((~y & ((1 << w) - 1)) + 1) == 0:      # everything but the low bits
            r = small_div(a, (~y & ((1 << w) - 1)) + 1, w, True)
            if r is not None: return rebuild(*[(c, list(d.values())) for c, d in [lin(a - r)]][0], w)
        if n is not None:
            r = small_div(a, n, w, rem)
            if r is not None: return r
    if cb and cval(b) == 0 and op in ("lshr", "shl", "ashr"): return a
    if op == "udiv":
        if cb and cval(b) and cval(b) & (cval(b) - 1) == 0: return z3.LShR(a, bv(cval(b).bit_length() - 1, w))
        return z3.UDiv(a, b)
    if op == "urem":
        if cb and cval(b) and cval(b) & (cval(b) - 1) == 0: return a & bv(cval(b) - 1, w)
        return z3.URem(a, b)
    if op == "sdiv": return a / b
    if op == "srem": return z3.SRem(a, b)
    if op == "and":
        if cb and cval(b) == (1 << w) - 1: return a
        if cb and cval(b) == 0: return b
        return a & b
    if op == "or":
        if cb and cval(b) == 0: return a
        return a | b
    if op == "xor":
        if cb and cval(b) == 0: return a
        if same(a, b): return bv(0, w)
        return a ^ b
    if op == "shl": return a << b
    if op == "lshr": return z3.LShR(a, b)
    if op == "ashr": return a >> b
    raise Unsupported(op)

class Scaled:
    """cell * stride + byte (all 64-bit; products are known not to wrap)"""
    __slots__ = ("cell", "byte", "stride")
    def __init__(self, cell, byte, stride): self.cell, self.byte, self.stride = cell, byte, stride
    def flat(self):
        s = self.stride if isinstance(self.stride, z3.ExprRef) else bv(self.stride)
        return badd(bmul(self.cell, s), self.byte)
    def __repr__(self): return "(%s)*S+%s" % (self.cell, self.byte)

def num_add(a, b):
    if isinstance(a, Scaled) or isinstance(b, Scaled):
        if not isinstance(a, Scaled): a, b = b, a
        if isinstance(b, Scaled): return carry(Scaled(badd(a.cell, b.cell), badd(a.byte, b.byte), a.stride))
        if isinstance(a.stride, z3.ExprRef) and same(b, a.stride): return Scaled(badd(a.cell, bv(1)), a.byte, a.stride)
        if isinstance(a.stride, z3.ExprRef) and not is_c(b) and same(z3.simplify(b), z3.simplify(-a.stride)): return Scaled(bsub(a.cell, bv(1)), a.byte, a.stride)
        return carry(Scaled(a.cell, badd(a.byte, b), a.stride))
    return badd(a, b)
def carry(s):
    """constant offsets of whole cells move into the cell number"""
    if isinstance(s.stride, int) and is_c(s.byte):
        b = sgn(cval(s.byte), 64)
        if not 0 <= b < s.stride: return Scaled(badd(s.cell, bv(b // s.stride)), bv(b % s.stride), s.stride)
    return s
def num_neg(a):
    if isinstance(a, Scaled): return Scaled(bsub(bv(0), a.cell), bsub(bv(0), a.byte), a.stride)
    return bsub(bv(0, a.size()), a)
def num_sub(a, b):
    if isinstance(a, Scaled) or isinstance(b, Scaled):
        st = a.stride if isinstance(a, Scaled) else b.stride
        a = to_scaled(a, st); b = to_scaled(b, st)
        return Scaled(bsub(a.cell, b.cell), bsub(a.byte, b.byte), st)
    return bsub(a, b)
def to_scaled(a, st):
    if isinstance(a, Scaled): return a
    if isinstance(st, z3.ExprRef):
        if same(a, st): return Scaled(bv(1), bv(0), st)
        return Scaled(bv(0), a, st)
    if is_c(a): return Scaled(bv(cval(a) // st), bv(cval(a) % st), st)
    return Scaled(bv(0), a, st)
def flat(a): return a.flat() if isinstance(a, Scaled) else a
def num_cmp(fn, a, b):
    if isinstance(a, Scaled) or isinstance(b, Scaled):
        st = a.stride if isinstance(a, Scaled) else b.stride
        x, y = to_scaled(a, st), to_scaled(b, st)
        if same(x.byte, y.byte): return fn(x.cell, y.cell)
        if same(x.cell, y.cell): return fn(x.byte, y.byte)
        if below_stride(x.byte) and below_stride(y.byte):
            if fn is beq: return And(beq(x.cell, y.cell), beq(x.byte, y.byte))
            if fn is ult or fn is ule: return Or(ult(x.cell, y.cell), And(beq(x.cell, y.cell), fn(x.byte, y.byte)))
        return fn(flat(a), flat(b))
    return fn(a, b)

REMAINDERS = {}     # ast id -> term that the precondition bounds by the stride
def below_stride(b): return is_c(b) and cval(b) == 0 or b.get_id() in REMAINDERS

class Ptr:
    __slots__ = ("obj", "off")
    def __init__(self, obj, off): self.obj, self.off = obj, off
    def __repr__(self): return "&%s+%s" % (self.obj, self.off)
NULL = Ptr(None, bv(0))
NULLOFF = bv(1 << 63)   # offset of a null value held by a variable that otherwise points into one object
class FnPtr:
    """a known function (name) or a callback with a handler"""
    __slots__ = ("name", "handler")
    def __init__(self, name, handler=None): self.name, self.handler = name, handler
    def __repr__(self): return "fn:" + self.name
class Undef:
    def __repr__(self): return "undef"
UNDEF = Undef()
