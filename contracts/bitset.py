"""Contracts for src/Bitset.c: n usable bits, stored most significant bit first; bits of the last byte that lie behind
the size are arbitrary in every pre-state and must not matter."""
from zvc.registry import contract
from zvc.spec import *
from .common import *
from zvc.hooks import fold_hook

INVALID = ST(1, 4, 1); OOR = ST(1, 8, 1); INSUFF = ST(1, 9, 1)

def nbytes(n): return add(udiv(n, 8), If(eq(urem(n, 8), 0), 0, 1))
def bit(x, j):
    """bit j (0..7) of a byte of the bitset"""
    return Or([And(eq(j, q), ne(band(x, 0x80 >> q), 0)) for q in range(8)])
def lastmask(n):
    r = urem(n, 8); m = 0xFF
    for q in range(1, 8): m = If8(eq(r, q), (0xFF << (8 - q)) & 0xFF, m)
    return m

class Bits:
    """A well-formed ZyanBitset in the pre-state"""
    def __init__(self, h, name="bs", alloc=None, readonly=False, fact=None, maxsmall=20, size=None):
        self.h = h; self.name = name
        self.alloc = alloc or h.choice(name + ".allocator", ["dyn", "fixed"])
        self.n = h.num(name + ".size", small=maxsmall) if size is None else size
        h.assume(ule(self.n, 1 << 50))
        self.nb = nbytes(self.n)
        self.s = h.struct("ZyanBitset", {"size": self.n}, readonly=readonly, name=name)
        self.v = Vec(h, name + ".bits", es=1, alloc=self.alloc, dtor="none", readonly=readonly, struct=self.s.sub("bits"), size=self.nb, props="C13", data_fact=fact)
        self.data = self.v.data
        h.anchor(name + ".nb", self.nb)
    @property
    def ptr(self): return self.s.ptr
    def pre(self, c): return self.v.pre(c, 0)
    def byte(self, r, c): return self.v.elem(r, c, 0)
    def prebit(self, c, j): return bit(self.pre(c), j)
    def bit(self, r, c, j): return bit(self.byte(r, c), j)
    def f(self, r, n): return r.field(self.s, n)
    def inb(self, c, j): return And(ult(c, self.nb), ult(j, 8), ult(add(mul(c, 8), j), self.n))
    def wf(self, r):
        w = self.v.wf(r)
        if w is False: return False
        return And(w, eq(self.v.f(r, "size"), nbytes(self.f(r, "size"))))
    def unchanged(self, r, c):
        w = self.v.unchanged(r, c, 0)
        if w is False: return False
        return And(w, eq(self.f(r, "size"), self.n))
    def same_bits(self, r, c, j):
        """same size and bits (memory may have been reallocated)"""
        w = self.wf(r)
        if w is False: return False
        return And(w, eq(self.f(r, "size"), self.n), Implies(self.inb(c, j), eq(self.bit(r, c, j), self.prebit(c, j))))
    def becomes(self, r, c, j, new):
        w = self.wf(r)
        if w is False: return False
        return And(w, eq(self.f(r, "size"), self.n), Implies(self.inb(c, j), eq(self.bit(r, c, j), new)))

def ghosts(h):
    c = h.forall("byte", dom=4); j = h.forall("bit", dom=8); h.given(lambda: ult(j, 8)); h.anchor("c", c); return c, j
def index(h, s):
    """a bit index as (index, byte, bit)"""
    i = h.num("index", near=[s.n]); return i, udiv(i, 8), urem(i, 8)
def reject(r, s, c, code):
    r.ensure("C13", "refused call reports the documented status", eq(r.ret, code))
    r.ensure("C13", "refused call leaves the bitset unchanged", And(s.unchanged(r, c), len(allocs(r)) == 0))

# ------------------------------------------------------------------------------------------ init / destroy
@contract("C13", "ZyanBitsetInit ZyanBitsetInitEx")
def init(h):
    which = h.choice("fn", ["ZyanBitsetInitEx", "ZyanBitsetInit"])
    null = h.choice("null", ["-", "bitset", "allocator"] if which == "ZyanBitsetInitEx" else ["-", "bitset"])
    n = h.num("count", small=40); growth = h.num("growth", 8, dom=[0, 1, 2, 255]); thr = h.num("shrink", 8, dom=[0, 1, 2, 255])
    al = h.allocator(1, ["C13"]); h.default_allocator(al)
    s = h.struct("ZyanBitset", {}, garbage="garb"); c = h.forall("byte", dom=6); h.anchor("nb", nbytes(n))
    args = [None if null == "bitset" else s.ptr, n]
    if which == "ZyanBitsetInitEx": args += [None if null == "allocator" else al.ptr, growth, thr]
    else: growth, thr = 2, 2
    h.map_hook(lambda st: heapof(st), c, 0, lambda c, b: 0)
    def post(r):
        bad = Or(null != "-", eq(growth, 0)); ev = allocs(r)
        if not ev: r.ensure("C13", "no allocation only for invalid arguments", And(bad, eq(r.ret, INVALID))); return
        r.ensure("C13", "invalid arguments are refused", Not(bad))
        want = umax(1, nbytes(n))
        r.ensure("C13", "one allocation with exactly the bytes needed for the bits", And(len(ev) == 1, ev[0][0] == "allocate", eq(ev[0][1]["n"], want)))
        r.ensure("C13", "the allocator's status is returned", eq(r.ret, ev[0][1]["status"]) if not ev[0][1]["ok"] else eq(r.ret, SUCCESS))
        if ev[0][1]["ok"]: r.cover("init succeeds"); new_ok(r, s, al, growth, thr, want, n, c)
    h.call(which, args, post)
def heapof(st):
    return [o for o, m in st.mem.items() if m.kind == "buf"]

def new_ok(r, s, al, growth, thr, cap, n, c, buf=None):
    d = r.field(s, "bits.data"); ok = r.valid_block(d)
    r.ensure("C13", "new bitset has the requested number of bits", And(ok, eq(r.field(s, "size"), n), eq(r.field(s, "bits.size"), nbytes(n)), eq(r.field(s, "bits.capacity"), cap), eq(r.field(s, "bits.element_size"), 1),
        eq(r.field(s, "bits.growth_factor"), growth), eq(r.field(s, "bits.shrink_threshold"), thr), r.is_null(r.field(s, "bits.destructor")),
        r.same(r.field(s, "bits.allocator"), al.ptr if al is not None else None), r.same(d, buf.ptr) if buf is not None else True, eq(r.buf_cells(d), cap) if ok else False))
    if ok: r.ensure("C13", "all bits of a new bitset are zero", Implies(ult(c, nbytes(n)), eq(r.byte(d, c, 0, 1), 0)))

@contract("C13", "ZyanBitsetInitBuffer")
def init_buffer(h):
    null = h.choice("null", ["-", "bitset", "buffer"])
    cap = h.num("capacity", small=6); h.assume(ule(cap, h.max_cells())); n = h.num("count", small=50, near=[mul(cap, 8)])
    buf = h.buf("buffer", cap); c = h.forall("byte", dom=6); s = h.struct("ZyanBitset", {}, garbage="garb"); h.anchor("nb", nbytes(n))
    h.map_hook(lambda st: buf.oid, c, 0, lambda c, b: 0)
    def post(r):
        bad = Or(null != "-", eq(cap, 0)); small = ult(cap, nbytes(n))
        r.ensure("C13", "refused exactly for invalid arguments or a too small buffer", And(eq(failed(r.ret), Or(bad, small)), Implies(failed(r.ret), Or(And(bad, eq(r.ret, INVALID)), And(small, eq(r.ret, INSUFF))))))
        r.ensure("C13", "no other byte of the buffer is touched", Implies(And(ult(c, cap), Or(bad, small, ule(nbytes(n), c))), r.buf_unchanged_at(buf, c)))
        if r.decide(Or(bad, small)): return
        r.cover("init succeeds"); new_ok(r, s, None, 1, 0, cap, n, c, buf)
    h.call("ZyanBitsetInitBuffer", [None if null == "bitset" else s.ptr, n, None if null == "buffer" else buf.ptr, cap], post)

@contract("C13", "ZyanBitsetDestroy")
def destroy(h):
    if h.choice("null", ["-", "bitset"]) == "bitset": h.call("ZyanBitsetDestroy", [None], lambda r: r.ensure("C13", "null bitset is refused", eq(r.ret, INVALID))); return
    s = Bits(h)
    def post(r):
        ev = allocs(r)
        if s.alloc == "fixed": r.ensure("C13", "caller buffer is not released", And(eq(r.ret, SUCCESS), len(ev) == 0)); return
        r.ensure("C13", "buffer released exactly once with its allocation size", And(len(ev) == 1, ev[0][0] == "deallocate", r.same(ev[0][1]["old"], s.data.ptr), eq(ev[0][1]["n"], s.v.cap)) if len(ev) == 1 and ev[0][0] == "deallocate" else False)
        if len(ev) == 1: r.ensure("C13", "deallocation status is returned", eq(failed(r.ret), not ev[0][1]["ok"]))
        r.cover("destroyed")
    h.call("ZyanBitsetDestroy", [s.ptr], post)

# ------------------------------------------------------------------------------------------ single bits
@contract("C13", "ZyanBitsetSet ZyanBitsetReset ZyanBitsetAssign ZyanBitsetToggle")
def write_bit(h):
    which = h.choice("fn", ["Set", "Reset", "Assign", "Toggle"]); null = h.choice("null", ["-", "bitset"])
    s = Bits(h); i, ic, ij = index(h, s); c, j = ghosts(h); v = h.num("value", 8, dom=[0, 1, 2, 255])
    def post(r):
        if null != "-": reject(r, s, c, INVALID); return
        if r.decide(ule(s.n, i)): reject(r, s, c, OOR); return
        r.cover("%s hit" % which)
        old = s.prebit(c, j); new = {"Set": True, "Reset": False, "Assign": ne(v, 0), "Toggle": Not(old)}[which]
        r.ensure("C13", "success status, no allocator call", And(eq(r.ret, SUCCESS), len(allocs(r)) == 0))
        r.ensure("C13", "exactly the bit at the index gets the documented value", s.becomes(r, c, j, If(And(eq(c, ic), eq(j, ij)), new, old)))
    h.call("ZyanBitset" + which, [None if null == "bitset" else s.ptr, i] + ([v] if which == "Assign" else []), post)

@contract("C13", "ZyanBitsetTest ZyanBitsetTestMSB ZyanBitsetTestLSB")
def test_bit(h):
    which = h.choice("fn", ["", "MSB", "LSB"]); null = h.choice("null", ["-", "bitset"])
    s = Bits(h, readonly=True)
    if which == "": i, ic, ij = index(h, s)
    else:
        i = 0 if which == "LSB" else sub(s.n, 1); ic, ij = udiv(i, 8), urem(i, 8)
    def post(r):
        if null != "-": r.ensure("C13", "null bitset is refused", eq(r.ret, INVALID)); return
        if r.decide(ule(s.n, i)): r.ensure("C13", "an index outside of the bitset is refused", eq(r.ret, OOR)); return
        r.cover("test%s" % which)
        r.ensure("C13", "reports the bit at the index", eq(r.ret, If(s.prebit(ic, ij), TRUE, FALSE)))
    h.call("ZyanBitsetTest" + which, [None if null == "bitset" else s.ptr] + ([i] if which == "" else []), post)

# ------------------------------------------------------------------------------------------ all bits
@contract("C13", "ZyanBitsetSetAll ZyanBitsetResetAll ZyanBitsetFlip")
def all_bits(h):
    which = h.choice("fn", ["SetAll", "ResetAll", "Flip"]); null = h.choice("null", ["-", "bitset"])
    s = Bits(h); c, j = ghosts(h)
    h.map_hook(lambda st: s.data.oid, c, 0, lambda c, b: {"SetAll": 0xFF, "ResetAll": 0, "Flip": bxor(s.pre(c), 0xFF)}[which])
    def post(r):
        if null != "-": reject(r, s, c, INVALID); return
        r.cover(which)
        new = {"SetAll": True, "ResetAll": False, "Flip": Not(s.prebit(c, j))}[which]
        r.ensure("C13", "success status, no allocator call", And(eq(r.ret, SUCCESS), len(allocs(r)) == 0))
        r.ensure("C13", "every bit gets the documented value", s.becomes(r, c, j, new))
        r.ensure("C13", "nothing behind the bytes of the bitset is written", Implies(And(ule(s.nb, c), ult(c, s.v.cap)), r.buf_unchanged_at(s.data, c)))
    h.call("ZyanBitset" + which, [None if null == "bitset" else s.ptr], post)

@contract("C13", "ZyanBitsetAND ZyanBitsetOR ZyanBitsetXOR")
def logic(h):
    which = h.choice("fn", ["AND", "OR", "XOR"]); null = h.choice("null", ["-", "destination", "source"])
    same = h.choice("alias", ["-", "same"]) if null == "-" else "-"
    s = Bits(h, "destination"); c, j = ghosts(h)
    o = s if same == "same" else Bits(h, "source", alloc="fixed", readonly=True)
    op = {"AND": band, "OR": bor, "XOR": bxor}[which]
    h.map_hook(lambda st: s.data.oid, c, 0, lambda c, b: op(s.pre(c), o.pre(c)))
    def post(r):
        if null != "-": reject(r, s, c, INVALID); return
        r.cover(which)
        a, b = s.prebit(c, j), o.prebit(c, j)
        new = {"AND": And(a, b), "OR": Or(a, b), "XOR": Not(eq(a, b))}[which]
        r.ensure("C13", "success status, no allocator call", And(eq(r.ret, SUCCESS), len(allocs(r)) == 0))
        w = s.wf(r)
        r.ensure("C13", "sizes are unchanged", And(w, eq(s.f(r, "size"), s.n)))
        r.ensure("C13", "bits present in both bitsets get the combined value", Implies(And(s.inb(c, j), o.inb(c, j)), eq(s.bit(r, c, j), new)))
        r.ensure("C13", "nothing behind the bytes of the bitset is written", Implies(And(ule(s.nb, c), ult(c, s.v.cap)), r.buf_unchanged_at(s.data, c)))
        if same != "same": r.ensure("C13", "the source is unchanged", o.unchanged(r, c))
    h.call("ZyanBitset" + which, [None if null == "destination" else s.ptr, None if null == "source" else o.ptr], post)

@contract("C13", "ZyanBitsetPerformByteOperation")
def byte_operation(h):
    null = h.choice("null", ["-", "destination", "source", "operation"])
    s = Bits(h, "destination"); o = Bits(h, "source", alloc="fixed", readonly=True); c, j = ghosts(h)
    cb = h.byte_operation(s.data, o.data)
    h.map_hook(lambda st: s.data.oid, c, 0, lambda c, b: cb.result(s.pre(c), o.pre(c)))
    def post(r):
        if null != "-": reject(r, s, c, INVALID); return
        m = umin(s.nb, o.nb); bad = [e for e in r.events if e[0] == "byteop" and not e[1]["ok"]]
        w = s.wf(r)
        r.ensure("C13", "sizes and source are unchanged", And(w, eq(s.f(r, "size"), s.n), o.unchanged(r, c)))
        if bad: r.ensure("C13", "the failure status of the operation is returned", eq(r.ret, bad[-1][1]["status"])); return
        r.cover("completes")
        r.ensure("C13", "success unless the operation fails", eq(r.ret, SUCCESS))
        r.ensure("C13", "the operation is applied to exactly the bytes of the smaller bitset", Implies(ult(c, s.v.cap), eq(s.byte(r, c), If8(ult(c, m), cb.result(s.pre(c), o.pre(c)), s.pre(c)))))
    h.call("ZyanBitsetPerformByteOperation", [None if null == "destination" else s.ptr, None if null == "source" else o.ptr, None if null == "operation" else cb.ptr], post)

# ------------------------------------------------------------------------------------------ size
@contract("C13", "ZyanBitsetPush ZyanBitsetPop ZyanBitsetClear")
def resize(h):
    which = h.choice("fn", ["Push", "Pop", "Clear"]); null = h.choice("null", ["-", "bitset"])
    s = Bits(h); c, j = ghosts(h); v = h.num("value", 8, dom=[0, 1, 2, 255])
    def post(r):
        if null != "-": reject(r, s, c, INVALID); return
        if which == "Pop" and r.decide(eq(s.n, 0)): reject(r, s, c, OOR); return
        n2 = {"Push": add(s.n, 1), "Pop": sub(s.n, 1), "Clear": 0}[which]
        ev = [e for e in allocs(r) if not e[1]["ok"]]; bad = failed(r.ret)
        if s.alloc == "fixed":
            over = ult(s.v.cap, nbytes(n2))
            r.ensure("C13", "insufficient caller buffer is reported, and only then", And(eq(r.ret, If(over, INSUFF, SUCCESS)), len(allocs(r)) == 0))
        else:
            r.ensure("C13", "error status exactly when the allocator failed", And(eq(bad, len(ev) > 0), Or(bad, eq(r.ret, SUCCESS))))
            if ev: r.ensure("C13", "the allocator's failure status is returned", eq(r.ret, ev[0][1]["status"]))
        if which == "Push" and r.decide(bad): r.ensure("C13", "a failed push leaves the bitset unchanged", s.unchanged(r, c)); return
        r.cover(which)
        w = s.wf(r)
        r.ensure("C13", "size after the operation", And(w, eq(s.f(r, "size"), n2)))
        if w is False: return
        k = add(mul(c, 8), j)
        if which == "Push":
            r.ensure("C13", "the new bit has the given value", Implies(And(eq(c, udiv(s.n, 8)), eq(j, urem(s.n, 8))), eq(s.bit(r, c, j), ne(v, 0))))
        r.ensure("C13", "all other bits are kept", Implies(And(s.inb(c, j), ult(k, n2)), eq(s.bit(r, c, j), s.prebit(c, j))))
    h.call("ZyanBitset" + which, [None if null == "bitset" else s.ptr] + ([v] if which == "Push" else []), post)

@contract("C13", "ZyanBitsetReserve ZyanBitsetShrinkToFit")
def capacity(h):
    which = h.choice("fn", ["Reserve", "ShrinkToFit"]); null = h.choice("null", ["-", "bitset"])
    s = Bits(h); c, j = ghosts(h); n = h.num("count", near=[mul(s.v.cap, 8), s.n])
    def post(r):
        if null != "-": reject(r, s, c, INVALID); return
        ev = allocs(r); bad = failed(r.ret); fl = [e for e in ev if not e[1]["ok"]]
        r.ensure("C13", "size and bits are unchanged", s.same_bits(r, c, j))
        if s.alloc == "fixed":
            if which == "Reserve": r.ensure("C13", "insufficient caller buffer is reported, and only then", And(eq(r.ret, If(ult(s.v.cap, nbytes(n)), INSUFF, SUCCESS)), len(ev) == 0))
            else: r.ensure("C13", "shrinking a caller buffer changes nothing", len(ev) == 0)
        else:
            r.ensure("C13", "error status exactly when the allocator failed", eq(bad, len(fl) > 0))
            if fl: r.ensure("C13", "a failed call leaves the bitset unchanged", And(eq(r.ret, fl[0][1]["status"]), s.unchanged(r, c))); return
            if which == "Reserve": r.ensure("C13", "room for the requested number of bits", ule(nbytes(n), s.v.f(r, "capacity")))
            else: r.ensure("C13", "capacity matches the size", eq(s.v.f(r, "capacity"), umax(1, s.nb)))
        r.cover(which)
    h.call("ZyanBitset" + which, [None if null == "bitset" else s.ptr] + ([n] if which == "Reserve" else []), post)

@contract("C13", "ZyanBitsetGetSize ZyanBitsetGetCapacity ZyanBitsetGetSizeBytes ZyanBitsetGetCapacityBytes")
def info(h):
    which = h.choice("fn", ["GetSize", "GetCapacity", "GetSizeBytes", "GetCapacityBytes"]); null = h.choice("null", ["-", "bitset"])
    s = Bits(h, readonly=True); c, j = ghosts(h); o = h.out("value")
    def post(r):
        if null != "-": r.ensure("C13", "null bitset is refused", And(eq(r.ret, INVALID), r.out_unchanged(o))); return
        want = {"GetSize": s.n, "GetCapacity": mul(s.v.cap, 8), "GetSizeBytes": s.nb, "GetCapacityBytes": s.v.cap}[which]
        r.ensure("C13", "the reported number", And(eq(r.ret, SUCCESS), eq(r.outval(o), want))); r.cover(which)
    h.call("ZyanBitset" + which, [None if null == "bitset" else s.ptr, o.ptr], post)

# ------------------------------------------------------------------------------------------ aggregates
@contract("C14", "ZyanBitsetAll ZyanBitsetAny ZyanBitsetNone")
def aggregate(h):
    which = h.choice("fn", ["All", "Any", "None"]); null = h.choice("null", ["-", "bitset"])
    goal = h.choice("goal", ["homogeneous", "mixed"]) if null == "-" else "mixed"
    n = h.num("bs.size", small=20); nb = nbytes(n); homo = 0xFF if which == "All" else 0
    # homogeneous: all bits are set (All) / no bit is set (Any, None), the padding bits are arbitrary
    fact = lambda c, b, x: And(Implies(ult(add(c, 1), nb), eq(x, homo)), Implies(eq(add(c, 1), nb), eq(band(x, lastmask(n)), band(lastmask(n), homo))))
    # native runs also draw nearly homogeneous contents
    if not h.sym and goal == "mixed":
        flip = h.rnd.randrange(n + 1) if n else 0; near = h.rnd.random() < 0.7
        f0 = fact; fact = (lambda c, b, x: True) if not near else (lambda c, b, x: f0(c, b, x ^ (0x80 >> (flip % 8)) if c == flip // 8 else x))
    elif goal == "mixed": fact = None
    s = Bits(h, readonly=True, fact=fact, size=n); c, j = ghosts(h)
    yes, no = (TRUE, FALSE) if which != "Any" else (FALSE, TRUE)
    if h.sym: h.pred_hook(c, lambda c: Implies(s.inb(c, j), eq(s.prebit(c, j), which == "All")))
    def post(r):
        if null != "-": r.ensure("C14", "null bitset is refused", eq(r.ret, INVALID)); return
        r.ensure("C14", "status is TRUE or FALSE", Or(eq(r.ret, TRUE), eq(r.ret, FALSE)))
        if goal == "homogeneous":
            r.cover(which); r.ensure("C14", {"All": "true if all bits are set", "Any": "false if no bit is set", "None": "true if no bit is set"}[which], eq(r.ret, yes)); return
        r.ensure("C14", {"All": "true only if all bits are set", "Any": "false only if no bit is set", "None": "true only if no bit is set"}[which],
                 Implies(And(eq(r.ret, yes), s.inb(c, j)), eq(s.prebit(c, j), which == "All")))
    h.call("ZyanBitset" + which, [None if null == "bitset" else s.ptr], post)

@contract("C14", "ZyanBitsetCount")
def count(h):
    null = h.choice("null", ["-", "bitset", "count"])
    s = Bits(h, readonly=True, maxsmall=30); o = h.out("count")
    f = fold_hook(h, s.n, lambda c, q: If(s.prebit(c, q), 1, 0), 8) if h.sym else None
    def post(r):
        if null != "-": r.ensure("C14", "null arguments are refused", And(eq(r.ret, INVALID), r.out_unchanged(o))); return
        want = f(s.n) if h.sym else sum(s.prebit(k // 8, k % 8) for k in range(s.n))
        r.ensure("C14", "number of bits that are set", And(eq(r.ret, SUCCESS), eq(r.outval(o), want))); r.cover("count")
    h.call("ZyanBitsetCount", [None if null == "bitset" else s.ptr, None if null == "count" else o.ptr], post)
