"""Contracts for every exported function of src/Vector.c (symbolic element size, sizes, contents, policy)."""
from zvc.registry import contract
from zvc.spec import *
from .common import *

INVALID = ST(1, 4, 1); OOR = ST(1, 8, 1); INSUFF = ST(1, 9, 1)

def ghosts(h, v):
    k = h.forall("k", dom=9); b = h.forall("b", dom=v.es)
    h.given(lambda: ult(b, v.es))
    h.anchor("k", k)
    return k, b

def reject(r, v, k, b, code):
    """the call was refused: status and nothing changed, no callback ran"""
    r.ensure("C02", "refused call reports the documented status", eq(r.ret, code))
    r.ensure("C02 C01", "refused call leaves the vector unchanged", v.unchanged(r, k, b))
    r.ensure("C05", "refused call makes no allocator call", len(allocs(r)) == 0)
    if v.dtor == "fn": r.ensure("C04", "refused call destroys nothing", eq(v.destroyed(r), 0))

def no_dtor(r, v):
    if v.dtor == "fn": r.ensure("C04", "no element is destroyed", eq(v.destroyed(r), 0))

def dtor_range(r, v, lo, n):
    """exactly the elements [lo, lo+n) were destroyed, once each"""
    if v.dtor == "fn":
        r.ensure("C04", "exactly the removed elements are destroyed, once each", eq(v.destroyed(r), If(And(ult(v.kd, v.size), inrange(v.kd, lo, n)), 1, 0)))

def policy(r, v, need, shrinkable, lenient_min=True, exact=True):
    """reallocation policy for a new size `need` (grow if need > capacity; shrink if allowed)"""
    ev = allocs(r)
    grow = ult(v.cap, need)
    if v.alloc == "fixed":
        r.ensure("C05", "vector over a caller buffer makes no allocator call", len(ev) == 0)
        return
    shrink = And(ne(v.thr, 0), ult(mul(need, zx(v.thr)), v.cap)) if shrinkable else False
    r.ensure("C05", "at most one reallocation", len(ev) <= 1)
    if not ev:
        r.ensure("C05", "memory is requested whenever the policy demands it", And(Not(grow), Or(Not(shrink), eq(v.cap, 1)) if shrinkable else True))
    else:
        e = ev[0]
        r.ensure("C05", "memory is requested only when the policy demands it", And(e[0] == "reallocate", Or(grow, shrink)))
        n = e[1]["n"]; want = umax(1, mul(need, zx(v.growth)))
        ok = eq(n, want) if exact else Or(eq(n, want), And(ult(1 << 47, need), ule(need, n)))
        r.ensure("C05", "requested capacity is size times growth factor, at least one element", ok)
        if e[1]["ok"]: r.ensure("C05", "reported capacity is the requested capacity", eq(v.f(r, "capacity"), n))

def alloc_failure(r, v, k, b, need):
    """an error status is only allowed if the allocator failed or the caller buffer is too small"""
    ev = [e for e in allocs(r) if not e[1]["ok"]]
    bad = failed(r.ret)
    if v.alloc == "fixed":
        r.ensure("C05 C03", "insufficient caller buffer is reported, and only then", eq(bad, ult(v.cap, need)))
        r.ensure("C05", "insufficient caller buffer status", Implies(bad, eq(r.ret, INSUFF)))
    else:
        r.ensure("C03", "error status exactly when the allocator failed", eq(bad, len(ev) > 0))
        if ev: r.ensure("C03", "the allocator's failure status is returned", eq(r.ret, ev[0][1]["status"]))
    r.ensure("C03 C02 C05", "failed operation leaves the vector unchanged", Implies(bad, v.unchanged(r, k, b)))
    return bad

# ------------------------------------------------------------------------------------------ init
@contract("C01 C02 C03 C05", "ZyanVectorInit ZyanVectorInitEx")
def init(h):
    which = h.choice("fn", ["ZyanVectorInitEx", "ZyanVectorInit"])
    null = h.choice("null", ["-", "vector", "allocator"] if which == "ZyanVectorInitEx" else ["-", "vector"])
    es = h.stride("es"); cap = h.num("capacity", small=8)
    esarg = h.choice("es0", ["es", "zero"])
    growth = h.num("growth", 8, dom=[0, 1, 2, 255]); thr = h.num("shrink", 8, dom=[0, 1, 4, 255])
    al = h.allocator(es, ["C05"]); h.default_allocator(al)
    s = h.struct("ZyanVector", {}, garbage="garb")
    d = h.fn_value("dtor") if h.choice("dtor", ["fn", "none"]) == "fn" else None
    e = es if esarg == "es" else 0
    if which == "ZyanVectorInitEx":
        args = [None if null == "vector" else s.ptr, e, cap, d, None if null == "allocator" else al.ptr, growth, thr]
    else:
        args = [None if null == "vector" else s.ptr, e, cap, d]; growth, thr = 2, 4
    def post(r):
        bad = Or(null != "-", esarg == "zero", eq(growth, 0))
        ev = allocs(r)
        r.ensure("C02", "invalid arguments are refused, and only those", eq(eq(r.ret, INVALID), bad) if not ev or ev[0][1]["ok"] else Not(bad))
        if true(bad) or (not ev):
            r.ensure("C01 C02 C05", "no allocator call for invalid arguments", And(len(ev) == 0, bad)); return
        r.ensure("C05", "one allocation", And(len(ev) == 1, ev[0][0] == "allocate"))
        want = umax(1, cap)
        r.ensure("C05", "requested capacity", eq(ev[0][1]["n"], want))
        r.ensure("C03", "the allocator's status is returned", eq(r.ret, ev[0][1]["status"]))
        if ev[0][1]["ok"]:
            r.cover("init succeeds")
            data = r.field(s, "data")
            r.ensure("C01 C02 C05", "vector is empty and well-formed", And(eq(r.field(s, "size"), 0), eq(r.field(s, "capacity"), want), eq(r.field(s, "element_size"), es),
                eq(r.field(s, "growth_factor"), growth), eq(r.field(s, "shrink_threshold"), thr), r.same(r.field(s, "destructor"), d), r.same(r.field(s, "allocator"), al.ptr),
                r.valid_block(data), eq(r.buf_cells(data), want) if r.valid_block(data) else False))
    h.call(which, args, post)

@contract("C01 C02 C05", "ZyanVectorInitCustomBuffer")
def init_custom(h):
    null = h.choice("null", ["-", "vector", "buffer"]); esarg = h.choice("es0", ["es", "zero"])
    es = h.stride("es"); cap = h.num("capacity", small=6)
    h.assume(ule(cap, h.max_cells()))
    buf = h.buf("buffer", cap, es)
    s = h.struct("ZyanVector", {}, garbage="garb")
    d = h.fn_value("dtor") if h.choice("dtor", ["fn", "none"]) == "fn" else None
    k = h.forall("k", dom=7); b = h.forall("b", dom=es); h.given(lambda: And(ult(k, cap), ult(b, es)))
    def post(r):
        bad = Or(null != "-", esarg == "zero", eq(cap, 0))
        r.ensure("C02", "invalid arguments are refused, and only those", And(eq(failed(r.ret), bad), Implies(bad, eq(r.ret, INVALID))))
        r.ensure("C01 C02", "buffer content is not touched", r.buf_unchanged_at(buf, k, b))
        if null == "vector": return
        if not r.has_field(s, "data"): r.ensure("C01 C02 C05", "initialised on success", bad); return
        r.cover("init succeeds")
        r.ensure("C01 C02 C05", "vector is empty and uses exactly the caller buffer", Implies(Not(bad), And(eq(r.field(s, "size"), 0), eq(r.field(s, "capacity"), cap), eq(r.field(s, "element_size"), es),
            eq(r.field(s, "growth_factor"), 1), eq(r.field(s, "shrink_threshold"), 0), r.same(r.field(s, "destructor"), d), r.is_null(r.field(s, "allocator")), r.same(r.field(s, "data"), buf.ptr))))
    h.call("ZyanVectorInitCustomBuffer", [None if null == "vector" else s.ptr, es if esarg == "es" else 0, None if null == "buffer" else buf.ptr, cap, d], post)

@contract("C02 C03 C04 C05", "ZyanVectorDestroy")
def destroy(h):
    null = h.choice("null", ["-", "vector"])
    if null == "vector":
        h.call("ZyanVectorDestroy", [None], lambda r: r.ensure("C02", "null vector is refused", eq(r.ret, INVALID))); return
    v = Vec(h)
    def post(r):
        dtor_range(r, v, 0, v.size)
        ev = allocs(r)
        if v.alloc == "fixed":
            r.ensure("C04 C05", "caller buffer is not released", And(len(ev) == 0, r.live(v.data.ptr)))
            r.ensure("C03", "destroy succeeds", eq(r.ret, SUCCESS))
        else:
            r.ensure("C04 C05", "buffer released exactly once with its allocation size", And(len(ev) == 1, ev[0][0] == "deallocate", r.same(ev[0][1]["old"], v.data.ptr), eq(ev[0][1]["n"], v.cap)) if len(ev) == 1 and ev[0][0] == "deallocate" else False)
            if len(ev) == 1:
                r.ensure("C03", "deallocation status is returned", eq(r.ret, SUCCESS if ev[0][1]["ok"] else ev[0][1]["status"]))
        r.cover("destroy %s" % v.alloc)
    h.call("ZyanVectorDestroy", [v.ptr], post)

# ------------------------------------------------------------------------------------------ duplicate
@contract("C01 C02 C03 C04 C05", "ZyanVectorDuplicate ZyanVectorDuplicateEx")
def duplicate(h):
    which = h.choice("fn", ["ZyanVectorDuplicateEx", "ZyanVectorDuplicate"])
    null = h.choice("null", ["-", "dst", "src", "allocator"] if which == "ZyanVectorDuplicateEx" else ["-", "dst", "src"])
    v = Vec(h, "src", alloc="fixed", readonly=True)
    k, b = ghosts(h, v)
    cap = h.num("capacity", small=8)
    growth = h.num("growth", 8, dom=[0, 1, 2, 255]); thr = h.num("shrink", 8, dom=[0, 1, 4, 255])
    al = h.allocator(v.es, ["C05"]); h.default_allocator(al)
    s = h.struct("ZyanVector", {}, garbage="garb")
    dst = None if null == "dst" else s.ptr; src = None if null == "src" else v.ptr
    if which == "ZyanVectorDuplicateEx": args = [dst, src, cap, None if null == "allocator" else al.ptr, growth, thr]
    else: args = [dst, src, cap]; growth, thr = 2, 4
    def post(r):
        bad = Or(null != "-", eq(growth, 0)); ev = allocs(r)
        r.ensure("C01 C02", "source is unchanged", v.unchanged(r, k, b)); no_dtor(r, v)
        if true(bad) or not ev:
            r.ensure("C02", "invalid arguments are refused", And(bad, eq(r.ret, INVALID))); return
        want = umax(umax(1, cap), v.size)
        r.ensure("C05", "one allocation of the requested capacity, at least the source size", And(len(ev) == 1, ev[0][0] == "allocate", eq(ev[0][1]["n"], want)))
        r.ensure("C03", "the allocator's status is returned", eq(r.ret, ev[0][1]["status"]))
        if ev[0][1]["ok"]:
            r.cover("duplicate succeeds")
            data = r.field(s, "data")
            ok = r.valid_block(data)
            r.ensure("C01 C02 C05", "duplicate is well-formed", And(eq(r.field(s, "size"), v.size), eq(r.field(s, "capacity"), want), eq(r.field(s, "element_size"), v.es),
                eq(r.field(s, "growth_factor"), growth), eq(r.field(s, "shrink_threshold"), thr), r.same(r.field(s, "destructor"), v.destructor), r.same(r.field(s, "allocator"), al.ptr),
                ok, eq(r.buf_cells(data), want) if ok else False))
            if ok: r.ensure("C01", "duplicate holds the same elements", Implies(ult(k, v.size), eq(r.byte(data, k, b, v.es), v.pre(k, b))))
    h.call(which, args, post)

@contract("C01 C02 C04 C05", "ZyanVectorDuplicateCustomBuffer")
def duplicate_custom(h):
    null = h.choice("null", ["-", "dst", "src", "buffer"])
    v = Vec(h, "src", readonly=True)
    k, b = ghosts(h, v)
    cap = h.num("capacity", small=8); h.assume(ule(cap, h.max_cells()))
    buf = h.buf("buffer", cap, v.es)
    s = h.struct("ZyanVector", {}, garbage="garb")
    def post(r):
        bad = Or(null != "-", eq(cap, 0)); small = ult(cap, v.size)
        r.ensure("C01 C02", "source is unchanged", v.unchanged(r, k, b)); no_dtor(r, v)
        r.ensure("C05", "no allocator call", len(allocs(r)) == 0)
        r.ensure("C02", "refused exactly for invalid arguments or a too small buffer", And(eq(failed(r.ret), Or(bad, small)),
            Implies(failed(r.ret), Or(And(bad, eq(r.ret, INVALID)), And(small, eq(r.ret, INSUFF))))))
        r.ensure("C02", "a refused call leaves the buffer alone", Implies(And(failed(r.ret), ult(k, cap)), r.buf_unchanged_at(buf, k, b)))
        if r.has_field(s, "data") and null == "-":
            r.cover("duplicate succeeds", Not(Or(bad, small)))
            good = Not(Or(bad, small))
            r.ensure("C01 C02 C05", "duplicate is well-formed over exactly the caller buffer", Implies(good, And(eq(r.field(s, "size"), v.size), eq(r.field(s, "capacity"), cap), eq(r.field(s, "element_size"), v.es),
                eq(r.field(s, "growth_factor"), 1), eq(r.field(s, "shrink_threshold"), 0), r.same(r.field(s, "destructor"), v.destructor), r.is_null(r.field(s, "allocator")), r.same(r.field(s, "data"), buf.ptr))))
            r.ensure("C01", "duplicate holds the same elements", Implies(And(good, ult(k, v.size)), eq(r.byte(buf.ptr, k, b, v.es), v.pre(k, b))))
        else: r.ensure("C01 C02", "initialised on success", Or(bad, small))
    h.call("ZyanVectorDuplicateCustomBuffer", [None if null == "dst" else s.ptr, None if null == "src" else v.ptr, None if null == "buffer" else buf.ptr, cap], post)

# ------------------------------------------------------------------------------------------ access
@contract("C01 C02 C04 C05", "ZyanVectorGet ZyanVectorGetMutable")
def get(h):
    which = h.choice("fn", ["ZyanVectorGet", "ZyanVectorGetMutable"])
    null = h.choice("null", ["-", "vector"])
    v = Vec(h, readonly=True); k, b = ghosts(h, v); i = h.num("index", near=[v.size])
    def post(r):
        r.ensure("C01 C02", "vector is unchanged", v.unchanged(r, k, b)); no_dtor(r, v)
        r.ensure("C05", "no allocator call", len(allocs(r)) == 0)
        bad = Or(null != "-", ule(v.size, i))
        r.ensure("C01 C02", "null exactly for a bad vector or index", eq(r.is_null(r.ret), bad))
        r.ensure("C01 C02", "pointer to the element at the index", Implies(Not(bad), r.ptr_at(r.ret, v.data.ptr, i, v.es)))
        r.cover("%s hit" % which, Not(bad))
    h.call(which, [None if null == "vector" else v.ptr, i], post, ret="ptr")

@contract("C01 C02 C04 C05", "ZyanVectorGetPointer ZyanVectorGetPointerMutable")
def get_pointer(h):
    which = h.choice("fn", ["ZyanVectorGetPointer", "ZyanVectorGetPointerMutable"])
    null = h.choice("null", ["-", "vector", "value"])
    v = Vec(h, readonly=True); k, b = ghosts(h, v); i = h.num("index", near=[v.size])
    o = h.out("value", ptr=True)
    def post(r):
        r.ensure("C01 C02", "vector is unchanged", v.unchanged(r, k, b)); no_dtor(r, v)
        r.ensure("C05", "no allocator call", len(allocs(r)) == 0)
        if null != "-":
            r.ensure("C02", "null arguments are refused", And(eq(r.ret, INVALID), r.out_unchanged(o))); return
        bad = ule(v.size, i)
        r.ensure("C01 C02", "out-of-range index is refused, and only that", And(eq(r.ret, If(bad, OOR, SUCCESS)), Implies(bad, r.out_unchanged(o))))
        r.ensure("C01 C02", "pointer to the element at the index", Implies(Not(bad), r.ptr_at(r.outval(o), v.data.ptr, i, v.es)))
        r.cover("%s hit" % which, Not(bad))
    h.call(which, [None if null == "vector" else v.ptr, i, None if null == "value" else o.ptr], post)

@contract("C01 C02 C04 C05", "ZyanVectorSet")
def set_(h):
    null = h.choice("null", ["-", "vector", "value"])
    v = Vec(h); k, b = ghosts(h, v); i = h.num("index", near=[v.size])
    e = h.buf("value", 1, v.es, readonly=True)
    def post(r):
        r.ensure("C05", "no allocator call", len(allocs(r)) == 0)
        bad = null != "-"
        if bad: reject(r, v, k, b, INVALID); return
        if r.decide(ule(v.size, i)): reject(r, v, k, b, OOR); return
        r.ensure("C01 C02", "set succeeds", eq(r.ret, SUCCESS))
        r.ensure("C01 C02", "exactly the element at the index is replaced", v.seq(r, v.size, lambda k, b: If8(eq(k, i), e.pre(0, b), v.pre(k, b)), k, b))
        r.ensure("C01 C05", "capacity unchanged", eq(v.f(r, "capacity"), v.cap))
        dtor_range(r, v, i, 1)
        r.cover("set succeeds")
    h.call("ZyanVectorSet", [None if null == "vector" else v.ptr, i, None if null == "value" else e.ptr], post)

# ------------------------------------------------------------------------------------------ insertion
@contract("C01 C02 C03 C04 C05", "ZyanVectorPushBack")
def push_back(h):
    null = h.choice("null", ["-", "vector", "element"])
    v = Vec(h); k, b = ghosts(h, v)
    e = h.buf("element", 1, v.es, readonly=True)
    def post(r):
        if null != "-": reject(r, v, k, b, INVALID); return
        no_dtor(r, v); policy(r, v, add(v.size, 1), False)
        bad = alloc_failure(r, v, k, b, add(v.size, 1))
        if r.decide(bad): return
        r.ensure("C01", "success status", eq(r.ret, SUCCESS))
        r.ensure("C01 C02", "element appended, all others kept", v.seq(r, add(v.size, 1), lambda k, b: If8(eq(k, v.size), e.pre(0, b), v.pre(k, b)), k, b))
        r.cover("push succeeds %s" % v.alloc)
    h.call("ZyanVectorPushBack", [None if null == "vector" else v.ptr, None if null == "element" else e.ptr], post)

@contract("C01 C02 C03 C04 C05", "ZyanVectorInsert ZyanVectorInsertRange")
def insert(h):
    which = h.choice("fn", ["ZyanVectorInsertRange", "ZyanVectorInsert"])
    null = h.choice("null", ["-", "vector", "elements"])
    v = Vec(h); k, b = ghosts(h, v); i = h.num("index", near=[v.size])
    n = h.num("count", small=4) if which == "ZyanVectorInsertRange" else 1
    h.assume(ule(n, h.max_cells()))
    e = h.buf("elements", n, v.es, readonly=True)
    def post(r):
        if null != "-": reject(r, v, k, b, INVALID); return
        if which == "ZyanVectorInsertRange" and r.decide(eq(n, 0)): reject(r, v, k, b, INVALID); return
        if r.decide(ult(v.size, i)): reject(r, v, k, b, OOR); return
        no_dtor(r, v); policy(r, v, add(v.size, n), False)
        bad = alloc_failure(r, v, k, b, add(v.size, n))
        if r.decide(bad): return
        r.ensure("C01", "success status", eq(r.ret, SUCCESS))
        r.ensure("C01 C02", "elements inserted at the index, all others kept in order", v.seq(r, add(v.size, n),
            lambda k, b: If8(ult(k, i), v.pre(k, b), If8(ult(sub(k, i), n), e.pre(sub(k, i), b), v.pre(sub(k, n), b))), k, b))
        r.cover("%s succeeds %s" % (which, v.alloc))
    args = [None if null == "vector" else v.ptr, i, None if null == "elements" else e.ptr]
    h.call(which, args + ([n] if which == "ZyanVectorInsertRange" else []), post)

@contract("C01 C02 C03 C04 C05", "ZyanVectorEmplace ZyanVectorEmplaceEx")
def emplace(h):
    which = h.choice("fn", ["ZyanVectorEmplaceEx", "ZyanVectorEmplace"])
    null = h.choice("null", ["-", "vector"])
    v = Vec(h); k, b = ghosts(h, v)
    i = h.num("index", near=[v.size]) if which == "ZyanVectorEmplaceEx" else v.size
    o = h.out("element", ptr=True)
    ctor = h.choice("ctor", ["fn", "none"])
    cf = h.constructor(v.es) if ctor == "fn" else None
    def post(r):
        if null != "-": reject(r, v, k, b, INVALID); return
        if r.decide(ult(v.size, i)): reject(r, v, k, b, OOR); return
        no_dtor(r, v); policy(r, v, add(v.size, 1), False)
        ce = [e for e in r.events if e[0] == "construct"]
        af = [e for e in allocs(r) if not e[1]["ok"]]
        bad = failed(r.ret)
        fixed_full = And(v.alloc == "fixed", eq(v.size, v.cap))
        if r.decide(fixed_full) or af:
            r.ensure("C03 C05", "failure to get memory is reported", eq(r.ret, af[0][1]["status"] if af else INSUFF))
            r.ensure("C03 C02", "failed operation leaves the vector unchanged", v.unchanged(r, k, b))
            r.ensure("C03", "no constructor call without memory", len(ce) == 0)
            return
        if ctor == "fn":
            r.ensure("C01 C03", "constructor runs exactly once", len(ce) == 1)
            if len(ce) != 1: return
            r.ensure("C01 C02", "constructor runs on the new element slot", r.ptr_in_block(ce[0][1]["ptr"], v.f(r, "data"), i, v.es))
            if not ce[0][1]["ok"]:
                r.ensure("C03", "the constructor's failure status is returned", eq(r.ret, ce[0][1]["status"]))
                r.ensure("C03 C01 C02", "a failed constructor leaves the element sequence unchanged", v.same_seq(r, k, b))
                r.cover("constructor fails")
                return
        r.ensure("C01", "success status", eq(r.ret, SUCCESS))
        r.ensure("C01 C02", "pointer to the new element is returned", r.ptr_in_block(r.outval(o), v.f(r, "data"), i, v.es))
        r.ensure("C01 C02", "a slot is opened at the index, all other elements kept in order", v.seq(r, add(v.size, 1),
            lambda k, b: If8(ult(k, i), v.pre(k, b), If8(eq(k, i), v.elem(r, k, b) if ctor == "none" else r.constructed(ce[0], b), v.pre(sub(k, 1), b))), k, b))
        r.cover("%s succeeds %s" % (which, v.alloc))
    args = [None if null == "vector" else v.ptr] + ([i] if which == "ZyanVectorEmplaceEx" else []) + [o.ptr, cf]
    h.call(which, args, post)

@contract("C01 C02 C04 C05", "ZyanVectorSwapElements")
def swap(h):
    null = h.choice("null", ["-", "vector"])
    v = Vec(h); k, b = ghosts(h, v); i = h.num("first", near=[v.size]); j = h.num("second", near=[v.size])
    def post(r):
        r.ensure("C05", "no allocator call", len(allocs(r)) == 0); no_dtor(r, v)
        if null != "-": reject(r, v, k, b, INVALID); return
        if r.decide(Or(ule(v.size, i), ule(v.size, j))): reject(r, v, k, b, OOR); return
        if r.decide(eq(v.size, v.cap)): reject(r, v, k, b, INSUFF); return
        r.ensure("C01", "success status", eq(r.ret, SUCCESS))
        r.ensure("C01 C05", "capacity unchanged", eq(v.f(r, "capacity"), v.cap))
        r.ensure("C01 C02", "exactly the two elements are exchanged", v.seq(r, v.size, lambda k, b: If8(eq(k, i), v.pre(j, b), If8(eq(k, j), v.pre(i, b), v.pre(k, b))), k, b))
        r.cover("swap succeeds")
    h.call("ZyanVectorSwapElements", [None if null == "vector" else v.ptr, i, j], post)

# ------------------------------------------------------------------------------------------ deletion
def shrink_post(r, v, k, b, need, elem):
    """removal: the elements are gone; a failing shrink reallocation may be reported but must leave a usable vector"""
    policy(r, v, need, True)
    ev = [e for e in allocs(r) if not e[1]["ok"]]
    r.ensure("C03", "error status exactly when the allocator failed", eq(failed(r.ret), len(ev) > 0))
    if ev: r.ensure("C03", "the allocator's failure status is returned", eq(r.ret, ev[0][1]["status"]))
    else: r.ensure("C01", "success status", eq(r.ret, SUCCESS))
    return bool(ev)

@contract("C01 C02 C03 C04 C05", "ZyanVectorDelete ZyanVectorDeleteRange")
def delete(h):
    which = h.choice("fn", ["ZyanVectorDeleteRange", "ZyanVectorDelete"])
    null = h.choice("null", ["-", "vector"])
    v = Vec(h); k, b = ghosts(h, v); i = h.num("index", near=[v.size])
    n = h.num("count", near=[v.size, sub(v.size, i), sub(0, i)]) if which == "ZyanVectorDeleteRange" else 1
    h.anchor("index", i); h.anchor("index+count", add(i, n))
    def post(r):
        if null != "-": reject(r, v, k, b, INVALID); return
        if which == "ZyanVectorDeleteRange" and r.decide(eq(n, 0)): reject(r, v, k, b, INVALID); return
        if r.decide(Or(ult(v.size, i), ult(sub(v.size, i), n))): reject(r, v, k, b, OOR); return
        fail = shrink_post(r, v, k, b, sub(v.size, n), None)
        dtor_range(r, v, i, n)
        r.ensure("C01 C02 C03", "exactly the named elements are removed, all others kept in order", v.seq(r, sub(v.size, n), lambda k, b: If8(ult(k, i), v.pre(k, b), v.pre(add(k, n), b)), k, b))
        if not [e for e in allocs(r) if e[1]["ok"]]: r.ensure("C05 C03", "capacity unchanged without reallocation", eq(v.f(r, "capacity"), v.cap))
        r.cover("%s succeeds %s %s" % (which, v.alloc, v.dtor))
    h.call(which, [None if null == "vector" else v.ptr, i] + ([n] if which == "ZyanVectorDeleteRange" else []), post)

@contract("C01 C02 C03 C04 C05", "ZyanVectorPopBack")
def pop_back(h):
    null = h.choice("null", ["-", "vector"])
    v = Vec(h); k, b = ghosts(h, v)
    def post(r):
        if null != "-": reject(r, v, k, b, INVALID); return
        if r.decide(eq(v.size, 0)): reject(r, v, k, b, OOR); return
        shrink_post(r, v, k, b, sub(v.size, 1), None)
        dtor_range(r, v, sub(v.size, 1), 1)
        r.ensure("C01 C02 C03", "exactly the last element is removed", v.seq(r, sub(v.size, 1), v.pre, k, b))
        if not [e for e in allocs(r) if e[1]["ok"]]: r.ensure("C05 C03", "capacity unchanged without reallocation", eq(v.f(r, "capacity"), v.cap))
        r.cover("pop succeeds %s %s" % (v.alloc, v.dtor))
    h.call("ZyanVectorPopBack", [None if null == "vector" else v.ptr], post)

@contract("C01 C02 C03 C04 C05", "ZyanVectorClear ZyanVectorResize ZyanVectorResizeEx")
def resize(h):
    which = h.choice("fn", ["ZyanVectorResizeEx", "ZyanVectorResize", "ZyanVectorClear"])
    null = h.choice("null", ["-", "vector"])
    v = Vec(h); k, b = ghosts(h, v)
    n = 0 if which == "ZyanVectorClear" else h.num("size", near=[v.size, v.cap])
    ini = h.choice("init", ["none", "given"]) if which == "ZyanVectorResizeEx" else "none"
    init = h.buf("initializer", 1, v.es, readonly=True) if ini == "given" else None
    h.anchor("newsize", n)
    if ini == "given":
        h.map_hook(lambda st: r_data(v, st), k, b, lambda k, b: init.pre(0, b))
    def post(r):
        if null != "-": reject(r, v, k, b, INVALID); return
        if r.decide(eq(n, v.size)):
            r.ensure("C01", "resizing to the same size changes nothing", And(eq(r.ret, SUCCESS), v.unchanged(r, k, b)))
            r.ensure("C05", "no allocator call", len(allocs(r)) == 0); no_dtor(r, v)
            return
        policy(r, v, n, True, exact=False)
        ev = [e for e in allocs(r) if not e[1]["ok"]]
        grow = ult(v.size, n)
        bad = failed(r.ret)
        if v.alloc == "fixed":
            r.ensure("C05 C03", "insufficient caller buffer is reported, and only then", And(eq(bad, ult(v.cap, n)), Implies(bad, eq(r.ret, INSUFF))))
        else:
            r.ensure("C03", "error status exactly when the allocator failed", eq(bad, len(ev) > 0))
            if ev: r.ensure("C03", "the allocator's failure status is returned", eq(r.ret, ev[0][1]["status"]))
        r.ensure("C01", "success status", Or(bad, eq(r.ret, SUCCESS)))
        if r.decide(And(bad, grow)):
            r.ensure("C03 C02 C05", "failed growth leaves the vector unchanged", v.unchanged(r, k, b))
            if v.dtor == "fn": r.ensure("C03 C04", "failed growth destroys nothing", eq(v.destroyed(r), 0))
            return
        if v.dtor == "fn":
            r.ensure("C04", "exactly the removed elements are destroyed, once each", eq(v.destroyed(r), If(And(ult(v.kd, v.size), ule(n, v.kd)), 1, 0)))
        fill = (lambda k, b: init.pre(0, b)) if ini == "given" else (lambda k, b: v.elem(r, k, b))
        r.ensure("C01 C02", "kept elements unchanged, new elements equal to the initializer", v.seq(r, n, lambda k, b: If8(ult(k, v.size), v.pre(k, b), fill(k, b)), k, b))
        if not [e for e in allocs(r) if e[1]["ok"]]: r.ensure("C05", "capacity unchanged without reallocation", eq(v.f(r, "capacity"), v.cap))
        r.cover("%s succeeds %s %s" % (which, v.alloc, v.dtor))
    p = None if null == "vector" else v.ptr
    h.call(which, {"ZyanVectorClear": [p], "ZyanVectorResize": [p, n], "ZyanVectorResizeEx": [p, n, init.ptr if init is not None else None]}[which], post)

def r_data(v, st):
    """current data block of v in state st (symbolic only)"""
    off = v.h.lay.field("ZyanVector", "data")[0]
    return st.mem[v.s.oid].fields[v.s.base + off][1]

# ------------------------------------------------------------------------------------------ search
@contract("C06 C02", "ZyanVectorFind ZyanVectorFindEx")
def find(h):
    which = h.choice("fn", ["ZyanVectorFindEx", "ZyanVectorFind"])
    null = h.choice("null", ["-", "vector"])
    v = Vec(h, readonly=True, alloc="fixed", dtor="none"); k, b = ghosts(h, v)
    i, n = (h.num("index", near=[v.size]), None) if which == "ZyanVectorFindEx" else (0, v.size)
    if n is None: n = h.num("count", near=[v.size, sub(v.size, i), sub(0, i)])
    o = h.out("found")
    e = h.buf("element", 1, v.es, readonly=True)
    cmp_ = h.equality(v, e, i, n)
    h.anchor("index", i); h.anchor("index+count", add(i, n))
    h.pred_hook(k, lambda k: Not(cmp_.match(k)))
    h.result_hook(k, cmp_.match, i, n)
    def post(r):
        r.ensure("C06 C02", "vector is unchanged", v.unchanged(r, k, b))
        if null != "-": r.ensure("C02", "null vector is refused", And(eq(r.ret, INVALID), r.out_unchanged(o))); return
        bad = Or(ult(v.size, i), ult(sub(v.size, i), n))
        if r.decide(bad):
            r.ensure("C02 C06", "a range outside the vector is refused", And(eq(r.ret, OOR), r.out_unchanged(o))); return
        x = r.outval(o)
        # an empty range at the very end may be refused as out of range (documented quirk: index must name an element)
        quirk = And(eq(i, v.size), eq(r.ret, OOR), r.out_unchanged(o))
        r.ensure("C06", "status is true or false", Or(eq(r.ret, TRUE), eq(r.ret, FALSE), quirk))
        r.ensure("C06", "true: an element of the range that matches", Implies(eq(r.ret, TRUE), And(ule(i, x), ult(sub(x, i), n), cmp_.match(x))))
        r.ensure("C06", "true: no earlier element matches", Implies(And(eq(r.ret, TRUE), ule(i, k), ult(k, x)), Not(cmp_.match(k))))
        r.ensure("C06", "false: -1 and no element of the range matches", Implies(eq(r.ret, FALSE), And(eq(x, M64), Implies(inrange(k, i, n), Not(cmp_.match(k))))))
        r.cover("%s found" % which, eq(r.ret, TRUE)); r.cover("%s not found" % which, And(eq(r.ret, FALSE), ult(1, n)))
    args = [None if null == "vector" else v.ptr, e.ptr, o.ptr, cmp_.ptr] + ([i, n] if which == "ZyanVectorFindEx" else [])
    h.call(which, args, post)

@contract("C06 C02", "ZyanVectorBinarySearch ZyanVectorBinarySearchEx")
def binary_search(h):
    which = h.choice("fn", ["ZyanVectorBinarySearchEx", "ZyanVectorBinarySearch"])
    null = h.choice("null", ["-", "vector"])
    v = Vec(h, readonly=True, alloc="fixed", dtor="none"); k, b = ghosts(h, v)
    i, n = (h.num("index", near=[v.size]), None) if which == "ZyanVectorBinarySearchEx" else (0, v.size)
    if n is None: n = h.num("count", near=[v.size, sub(v.size, i), sub(0, i)])
    o = h.out("found")
    e = h.buf("element", 1, v.es, readonly=True)
    cmp_ = h.ordering(v, e, i, n, k)
    h.anchor("index", i); h.anchor("index+count", add(i, n)); h.anchor("last", sub(add(i, n), 1))
    h.split_hook(k, cmp_, i, n)
    def post(r):
        r.ensure("C06 C02", "vector is unchanged", v.unchanged(r, k, b))
        if null != "-": r.ensure("C02", "null vector is refused", And(eq(r.ret, INVALID), r.out_unchanged(o))); return
        if r.decide(Or(ult(v.size, i), ult(sub(v.size, i), n))):
            r.ensure("C02 C06", "a range outside the vector is refused", And(eq(r.ret, OOR), r.out_unchanged(o))); return
        x = r.outval(o)
        r.ensure("C06", "status is true or false", Or(eq(r.ret, TRUE), eq(r.ret, FALSE)))
        r.ensure("C06", "position inside the range or just behind it", And(ule(i, x), ule(sub(x, i), n)))
        r.ensure("C06", "all elements before the position are less", Implies(And(ule(i, k), ult(k, x)), cmp_.less(k)))
        r.ensure("C06", "all elements from the position on are not less", Implies(And(inrange(k, i, n), ule(x, k)), Not(cmp_.less(k))))
        r.ensure("C06", "true only if the element at the position is equal", Implies(eq(r.ret, TRUE), And(ult(sub(x, i), n), cmp_.equal(x))))
        r.ensure("C06", "true if any element of the range is equal", Implies(And(inrange(k, i, n), cmp_.equal(k)), eq(r.ret, TRUE)))
        r.cover("%s found" % which, eq(r.ret, TRUE)); r.cover("%s not found" % which, And(eq(r.ret, FALSE), ult(1, n)))
    args = [None if null == "vector" else v.ptr, e.ptr, o.ptr, cmp_.ptr] + ([i, n] if which == "ZyanVectorBinarySearchEx" else [])
    h.call(which, args, post)

# ------------------------------------------------------------------------------------------ memory management
@contract("C01 C02 C03 C04 C05", "ZyanVectorReserve")
def reserve(h):
    null = h.choice("null", ["-", "vector"])
    v = Vec(h); k, b = ghosts(h, v); n = h.num("capacity", near=[v.cap, v.size])
    def post(r):
        if null != "-": reject(r, v, k, b, INVALID); return
        no_dtor(r, v); ev = allocs(r); bad = failed(r.ret); need = ult(v.cap, n)
        if v.alloc == "fixed":
            r.ensure("C05 C03", "insufficient caller buffer is reported, and only then", And(eq(r.ret, If(need, INSUFF, SUCCESS)), len(ev) == 0, v.unchanged(r, k, b))); return
        r.ensure("C05", "memory is requested exactly when the capacity is too small", eq(len(ev) == 1, need))
        r.ensure("C05", "no other allocator call", len(ev) <= 1)
        if not ev: r.ensure("C05 C01", "nothing to do", And(eq(r.ret, SUCCESS), v.unchanged(r, k, b))); return
        r.ensure("C05", "requested capacity is the given capacity", And(ev[0][0] == "reallocate", eq(ev[0][1]["n"], n)))
        if not ev[0][1]["ok"]:
            r.ensure("C03", "the allocator's failure status is returned", eq(r.ret, ev[0][1]["status"]))
            r.ensure("C03 C02 C05", "failed operation leaves the vector unchanged", v.unchanged(r, k, b)); return
        r.ensure("C01", "success status", eq(r.ret, SUCCESS))
        r.ensure("C01 C02 C05", "same elements, requested capacity", And(v.same_seq(r, k, b), eq(v.f(r, "capacity"), n)))
        r.cover("reserve grows")
    h.call("ZyanVectorReserve", [None if null == "vector" else v.ptr, n], post)

@contract("C01 C02 C03 C04 C05", "ZyanVectorShrinkToFit")
def shrink_to_fit(h):
    null = h.choice("null", ["-", "vector"])
    v = Vec(h); k, b = ghosts(h, v)
    def post(r):
        if null != "-": reject(r, v, k, b, INVALID); return
        no_dtor(r, v); ev = allocs(r)
        if v.alloc == "fixed":
            r.ensure("C05 C01", "caller buffer keeps its capacity", And(eq(r.ret, SUCCESS), len(ev) == 0, v.unchanged(r, k, b))); return
        r.ensure("C05", "no other allocator call", len(ev) <= 1)
        want = umax(1, v.size)
        if not ev: r.ensure("C05 C01", "nothing requested only if the capacity already fits", And(eq(r.ret, SUCCESS), eq(v.cap, want), v.unchanged(r, k, b))); return
        r.ensure("C05", "requested capacity is the size, at least one element", And(ev[0][0] == "reallocate", eq(ev[0][1]["n"], want)))
        if not ev[0][1]["ok"]:
            r.ensure("C03", "the allocator's failure status is returned", eq(r.ret, ev[0][1]["status"]))
            r.ensure("C03 C02 C05", "failed operation leaves the vector unchanged", v.unchanged(r, k, b)); return
        r.ensure("C01", "success status", eq(r.ret, SUCCESS))
        r.ensure("C01 C02 C05", "same elements, capacity equals size", And(v.same_seq(r, k, b), eq(v.f(r, "capacity"), want)))
        r.cover("shrink to fit shrinks")
    h.call("ZyanVectorShrinkToFit", [None if null == "vector" else v.ptr], post)

@contract("C01 C02 C05", "ZyanVectorGetCapacity ZyanVectorGetSize")
def info(h):
    which = h.choice("fn", ["ZyanVectorGetCapacity", "ZyanVectorGetSize"])
    null = h.choice("null", ["-", "vector"])
    v = Vec(h, readonly=True, dtor="none"); k, b = ghosts(h, v); o = h.out("value")
    def post(r):
        r.ensure("C01 C02 C05", "vector is unchanged", And(v.unchanged(r, k, b), len(allocs(r)) == 0))
        if null != "-": r.ensure("C02", "null vector is refused", And(eq(r.ret, INVALID), r.out_unchanged(o))); return
        r.ensure("C01 C02 C05", "exact value", And(eq(r.ret, SUCCESS), eq(r.outval(o), v.cap if which == "ZyanVectorGetCapacity" else v.size)))
    h.call(which, [None if null == "vector" else v.ptr, o.ptr], post)
