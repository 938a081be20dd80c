"""Specification operators that work on z3 terms (proof) and on python ints/bools (replay)."""
import z3
from . import terms as t

class KVar:
    """replay-mode value of a universally quantified index"""
    __slots__ = ("value", "name")
    def __init__(self, name): self.name, self.value = name, 0

M64 = (1 << 64) - 1
def u(x):
    return x.value if isinstance(x, KVar) else x
def _c(*xs):
    return all(isinstance(x, (int, bool)) for x in xs)
def lift(a, b):
    a, b = u(a), u(b)
    if isinstance(a, t.Scaled): a = t.flat(a)
    if isinstance(b, t.Scaled): b = t.flat(b)
    if _c(a, b): return a, b, True
    if isinstance(a, int): a = t.bv(a, b.size())
    if isinstance(b, int): b = t.bv(b, a.size())
    return a, b, False
def _bin(pyf, zf):
    def f(a, b, w=64):
        a, b, c = lift(a, b)
        if c: return pyf(a, b) & ((1 << w) - 1)
        return zf(a, b)
    return f
add = _bin(lambda a, b: a + b, t.badd)
sub = _bin(lambda a, b: a - b, t.bsub)
mul = _bin(lambda a, b: a * b, t.bmul)
udiv = _bin(lambda a, b: a // b if b else M64, lambda a, b: t.binop("udiv", a, b, a.size()))
urem = _bin(lambda a, b: a % b if b else a, lambda a, b: t.binop("urem", a, b, a.size()))
band = _bin(lambda a, b: a & b, lambda a, b: t.binop("and", a, b, a.size()))
bor = _bin(lambda a, b: a | b, lambda a, b: t.binop("or", a, b, a.size()))
bxor = _bin(lambda a, b: a ^ b, lambda a, b: t.binop("xor", a, b, a.size()))
def shl(a, b, w=64):
    a, b, c = lift(a, b)
    if c: return (a << b) & ((1 << w) - 1) if b < w else 0
    return a << b
def lshr(a, b, w=64):
    a, b, c = lift(a, b)
    if c: return a >> b
    return z3.LShR(a, b)
def _cmp(pyf, zf):
    def f(a, b):
        a, b, c = lift(a, b)
        if c: return pyf(a, b)
        return zf(a, b)
    return f
ult = _cmp(lambda a, b: a < b, t.ult)
ule = _cmp(lambda a, b: a <= b, t.ule)
def ugt(a, b): return ult(b, a)
def uge(a, b): return ule(b, a)
def _s(x, w): return x - (1 << w) if x >> (w - 1) & 1 else x
def slt(a, b, w=64):
    a, b, c = lift(a, b)
    if c: return _s(a, w) < _s(b, w)
    return t.slt(a, b)
def sle(a, b, w=64):
    a, b, c = lift(a, b)
    if c: return _s(a, w) <= _s(b, w)
    return t.sle(a, b)
def eq(a, b):
    a, b = u(a), u(b)
    if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef) or (isinstance(a, bool) and isinstance(b, bool)):
        if isinstance(a, bool) and isinstance(b, bool): return a == b
        if isinstance(a, bool): a = z3.BoolVal(a)
        if isinstance(b, bool): b = z3.BoolVal(b)
        return a == b
    a, b, c = lift(a, b)
    if c: return a == b
    if isinstance(a, z3.BitVecRef) and isinstance(b, z3.BitVecRef) and a.size() != b.size():
        w = max(a.size(), b.size()); a, b = t.zext(a, w), t.zext(b, w)
    return t.beq(a, b)
def ne(a, b): return Not(eq(a, b))
def Not(a):
    a = u(a)
    if isinstance(a, bool): return not a
    return t.Not(a)
def _zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)): xs = xs[0]
    if all(isinstance(x, bool) for x in xs): return all(xs)
    return t.And([_zb(x) for x in xs])
def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)): xs = xs[0]
    if all(isinstance(x, bool) for x in xs): return any(xs)
    return t.Or([_zb(x) for x in xs])
def Implies(a, b): return Or(Not(a), b)
def Iff(a, b): return eq(a, b)
def If(c, a, b):
    if isinstance(c, bool): return u(a) if c else u(b)
    if t.is_t(c): return u(a)
    if t.is_f(c): return u(b)
    if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
        return z3.If(c, _zb(a), _zb(b))
    a, b, cc = lift(a, b)
    if cc: a, b = t.bv(a), t.bv(b)
    return t.ite(c, a, b)
def If8(c, a, b):
    if isinstance(c, bool): return a if c else b
    if isinstance(a, int): a = t.bv(a, 8)
    if isinstance(b, int): b = t.bv(b, 8)
    return t.ite(c, a, b)
def inrange(k, lo, n):
    """lo <= k < lo + n (no wrap assumed: lo + n <= 2^64)"""
    return ult(sub(k, lo), n)
def umax(a, b): return If(ult(a, b), b, a)
def umin(a, b): return If(ult(a, b), a, b)
def zx(a, w=64):
    a = u(a)
    if isinstance(a, int): return a
    return t.zext(a, w)
def sx(a, frm, w=64):
    a = u(a)
    if isinstance(a, int): return _s(a, frm) & ((1 << w) - 1)
    return t.sext(a, w)
def lo(a, w):
    a = u(a)
    if isinstance(a, int): return a & ((1 << w) - 1)
    return t.trunc(a, w)
def true(a):
    a = u(a)
    return a if isinstance(a, bool) else t.is_t(a)

# status codes (values stated by the documentation: error bit 31, module, code)
def ST(module, code, err): return (err << 31) | (module << 20) | code
SUCCESS = ST(1, 0, 0); TRUE = ST(1, 2, 0); FALSE = ST(1, 3, 0)
