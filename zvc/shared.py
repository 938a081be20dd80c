"""A memory cell that other threads change at any time: every access sees an arbitrary value and is logged."""
from .terms import *
from .ir import Unsupported
class SharedMem:
    kind = "shared"; live = True
    def __init__(self, size): self.size = size
    def copy(self): return SharedMem(self.size)
    def _chk(self, ctx, st, p, size, what):
        ok = And(num_cmp(beq, p.off, bv(0)), T if size == self.size else F)
        ctx.oblige(st, "safety", "%s accesses the whole cell (%s)" % (what, ctx.where(st)), ok)
    def load(self, ctx, st, p, ty, size):
        self._chk(ctx, st, p, size, "read"); v = fresh_bv("seen", 8 * size)
        st.events += (("shared", {"op": "load", "old": v, "new": None, "did": F}),); return Ptr(None, v) if ty.k == "ptr" else v
    def store(self, ctx, st, p, ty, size, v):
        self._chk(ctx, st, p, size, "write")
        if isinstance(v, Ptr): v = ctx.ptr2int(v)
        st.events += (("shared", {"op": "store", "old": None, "new": v, "did": T}),); return True
    def rmw(self, ctx, st, p, size, f):
        """one indivisible step: f(old) -> (new, condition under which it is stored)"""
        self._chk(ctx, st, p, size, "atomic operation"); v = fresh_bv("seen", 8 * size); n, did = f(v)
        st.events += (("shared", {"op": "rmw", "old": v, "new": n, "did": did}),); return v, did
