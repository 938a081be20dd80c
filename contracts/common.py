"""Well-formed vectors and their abstract view, shared by several contract files."""
from zvc.spec import *
from zvc import spec as S

class Vec:
    """A well-formed ZyanVector in the pre-state.
    dyn:  data is a block owned by the allocator with exactly `capacity` cells.
    fixed: data is a caller buffer with `capacity` cells, growth factor 1, shrink threshold 0."""
    def __init__(self, h, name="v", es=None, alloc=None, dtor=None, readonly=False, struct=None, size=None, cap=None, props="C05", data_fact=None, kd=None, maxsmall=6, growth=None, thr=None):
        self.h = h; self.name = name
        self.alloc = alloc or h.choice(name + ".allocator", ["dyn", "fixed"])
        self.dtor = h.choice(name + ".destructor", ["none", "fn"]) if dtor is None else dtor
        self.es = h.stride("es") if es is None else es
        self.size = h.num(name + ".size", small=maxsmall) if size is None else size
        self.cap = h.num(name + ".capacity", small=maxsmall + 3, near=[self.size]) if cap is None else cap
        h.assume(And(ule(1, self.cap), ule(self.size, self.cap), ule(self.cap, h.max_cells())))
        if self.alloc == "dyn":
            self.growth = h.num(name + ".growth", 8, dom=[1, 2, 3, 255]) if growth is None else growth
            self.thr = h.num(name + ".shrink", 8, dom=[0, 1, 2, 4, 255]) if thr is None else thr
            h.assume(ule(1, self.growth))
            self.al = h.allocator(self.es, props.split())
        else:
            self.growth, self.thr, self.al = 1, 0, None
        self.data = h.buf(name + ".data", self.cap, self.es, fact=data_fact, readonly=readonly)
        if self.al is not None: h.own(self.al, self.data)
        self.destructor = self.mk_dtor(kd) if self.dtor == "fn" else None
        f = {"allocator": self.al.ptr if self.al is not None else None, "growth_factor": self.growth, "shrink_threshold": self.thr,
             "size": self.size, "capacity": self.cap, "element_size": self.es, "destructor": self.destructor, "data": self.data.ptr}
        if struct is None: self.s = h.struct("ZyanVector", f, readonly=readonly, name=name)
        else:
            self.s = struct
            for k, v in f.items(): h.set_field(struct, k, v)
        h.anchor(name + ".size", self.size); h.anchor(name + ".cap", self.cap)
    @property
    def ptr(self): return self.s.ptr
    # ---- destructor callback: counts calls for one arbitrary (ghost) pre-index kd
    def mk_dtor(self, kd=None):
        h = self.h
        self.kd = h.forall(self.name + "_d", dom=7) if kd is None else kd
        return h.destructor(self, self.kd)
    def pre(self, k, b): return self.data.pre(k, b)
    # ---- post-state observers
    def f(self, r, n): return r.field(self.s, n)
    def elem(self, r, k, b): return r.byte(self.f(r, "data"), k, b, self.es)
    def header_ok(self, r):
        """allocator, policy, element size and destructor never change"""
        return r.fields_unchanged(self.s, ["allocator", "growth_factor", "shrink_threshold", "element_size", "destructor"])
    def wf(self, r):
        d = self.f(r, "data")
        return And(self.header_ok(r), ule(self.f(r, "size"), self.f(r, "capacity")), ule(1, self.f(r, "capacity")), self.data_ok(r))
    def data_ok(self, r):
        d = self.f(r, "data")
        if not r.valid_block(d): return False
        c = eq(r.buf_cells(d), self.f(r, "capacity"))
        if self.alloc == "fixed": return And(c, r.same(d, self.data.ptr), eq(self.f(r, "capacity"), self.cap))
        return c
    def unchanged(self, r, k, b):
        """fields and the element byte (k, b)"""
        d = self.f(r, "data")
        if not r.valid_block(d): return False
        return And(self.header_ok(r), eq(self.f(r, "size"), self.size), eq(self.f(r, "capacity"), self.cap), r.same(d, self.data.ptr),
                   Implies(ult(k, self.size), eq(self.elem(r, k, b), self.pre(k, b))))
    def same_seq(self, r, k, b):
        """same sequence, still well-formed (buffer or capacity may have changed)"""
        w = self.wf(r)
        if w is False: return False
        return And(w, eq(self.f(r, "size"), self.size), Implies(ult(k, self.size), eq(self.elem(r, k, b), self.pre(k, b))))
    def seq(self, r, n, elem, k, b):
        w = self.wf(r)
        if w is False: return False
        return And(eq(self.f(r, "size"), n), Implies(ult(k, n), eq(self.elem(r, k, b), elem(k, b))))
    def destroyed(self, r): return r.destroyed(self)

def failed(st): return ne(band(st, 0x80000000), 0)
def allocs(r): return [e for e in r.events if e[0] in ("allocate", "reallocate", "deallocate")]

class Str:
    """A well-formed owned ZyanString in the pre-state: vector of characters, size = length + 1, terminated."""
    def __init__(self, h, name="str", alloc=None, readonly=False, props="C07", maxsmall=6, kd=None, minlen=0):
        self.h = h; self.name = name
        self.alloc = alloc or h.choice(name + ".allocator", ["dyn", "fixed"])
        self.s = h.struct("ZyanString", {"flags": 1 if self.alloc == "fixed" else 0}, readonly=readonly, name=name)
        self.size = h.num(name + ".size", small=maxsmall); h.assume(ule(1 + minlen, self.size))
        self.v = Vec(h, name, es=1, alloc=self.alloc, dtor="none", readonly=readonly, struct=self.s.sub("vector"), size=self.size, props=props,
                     data_fact=lambda c, b, x: Or(ne(c, sub(self.size, 1)), eq(x, 0)))
        self.len = sub(self.size, 1); self.data = self.v.data
        h.anchor(name + ".len", self.len)
    @property
    def ptr(self): return self.s.ptr
    def pre(self, k): return self.v.pre(k, 0)
    def f(self, r, n): return self.v.f(r, n)
    def char(self, r, k): return self.v.elem(r, k, 0)
    def wf(self, r):
        w = self.v.wf(r)
        if w is False: return False
        return And(w, ule(1, self.f(r, "size")), eq(self.char(r, sub(self.f(r, "size"), 1)), 0), r.fields_unchanged(self.s, ["flags"]))
    def unchanged(self, r, k):
        w = self.v.unchanged(r, k, 0)
        if w is False: return False
        return And(w, eq(self.char(r, self.len), 0), r.fields_unchanged(self.s, ["flags"]))
    def same_text(self, r, k):
        w = self.wf(r)
        if w is False: return False
        return And(w, eq(self.f(r, "size"), self.size), Implies(ult(k, self.len), eq(self.char(r, k), self.pre(k))))

class View:
    """A ZyanStringView in the pre-state: `len` readable bytes, no terminator behind them; all other fields arbitrary."""
    def __init__(self, h, name="view", fact=None, data=None, length=None):
        self.h = h; self.name = name
        self.len = h.num(name + ".len", small=6) if length is None else length
        h.assume(ult(self.len, h.max_cells()))
        self.data = h.buf(name + ".data", self.len, 1, readonly=True, fact=fact) if data is None else data
        self.s = h.struct("ZyanStringView", {"string.vector.data": self.data.ptr, "string.vector.size": add(self.len, 1)}, garbage="viewgarb", readonly=True, name=name)
        h.anchor(name + ".len", self.len)
    @property
    def ptr(self): return self.s.ptr
    def pre(self, k): return self.data.pre(k, 0)
    def unchanged(self, r, k):
        return And(r.fields_unchanged(self.s, ["string.vector.data", "string.vector.size"]), Implies(ult(k, self.len), r.buf_unchanged_at(self.data, k)))
