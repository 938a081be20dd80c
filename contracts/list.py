"""Contracts for every function of src/List.c: the list as a sequence of numbered nodes, see zvc/nodes.py."""
from zvc.registry import contract
from zvc.spec import *
from .common import *

INVALID = ST(1, 4, 1); INVALID_OP = ST(1, 5, 1); INSUFF = ST(1, 9, 1); NIL = M64

class List:
    """A well-formed list of n elements before the call.
    dyn: every node comes from the allocator.  fixed: the nodes are slots at(0)..at(n-1) of a buffer of C slots, at(n)..at(hw-1) is the
    chain of slots to reuse, the slots hw..C-1 were never used; the capacity may exceed the C slots by part of a slot."""
    def __init__(self, h, alloc=None, dtor=None, readonly=False):
        self.h = h; self.alloc = alloc or h.choice("allocator", ["dyn", "fixed"]); self.dtor = dtor or h.choice("destructor", ["none", "fn"]); dyn = self.dyn = self.alloc == "dyn"
        self.es = h.stride("es"); self.n = h.num("n", small=5); h.assume(ult(self.n, h.max_cells()))
        if dyn: self.hw, self.C = self.n, self.n
        else:
            self.hw = h.num("hw", small=6, near=[self.n]); self.C = h.num("C", small=7, near=[self.hw]); self.rem = h.num("rem", small=9)
            h.assume(And(ule(self.n, self.hw), ule(self.hw, self.C), ule(self.C, h.max_cells()), ult(self.rem, add(self.es, 16)), Or(ult(0, self.C), ult(0, self.rem))))
        self.g = h.forall("g", dom=10); self.b = h.forall("b", dom=self.es); h.given(lambda: ult(self.b, self.es))
        nd = self.nd = h.nodes(self.es, self.n, self.hw, self.C, dyn, self.g)
        cap = 0 if dyn else nd.capacity(self.rem)
        self.al = nd.allocator(["C15", "C16"]) if dyn else None
        self.at, self.pos = nd.at, nd.pos
        self.s = h.struct("ZyanList", {"allocator": self.al.ptr if dyn else None, "size": self.n, "element_size": self.es, "destructor": nd.destructor(self.g, self.b) if self.dtor == "fn" else None,
            "head": nd.link(ult(0, self.n), 0), "tail": nd.link(ult(0, self.n), sub(self.n, 1)), "buffer": None if dyn else nd.buffer, "capacity": cap, "first_unused": None if dyn else nd.link(ult(self.n, self.hw), self.n)}, readonly=readonly, name="list")
        if h.sym: self.size_of = lambda st: st.mem[self.s.oid].fields[h.lay.field("ZyanList", "size")[0]][1]
    @property
    def ptr(self): return self.s.ptr
    def f(self, r, k): return r.field(self.s, k)
    def holds(self, r, N, at=None, pos=None, hw=None, new=None, what="", kept=True):
        """afterwards the list is the chain of N nodes at(0)..at(N-1), every old node still holds its element; `new`: (cell, byte) of an added element"""
        nd, g, b, s = self.nd, u(self.g), u(self.b), self.s; at = at or self.at; pos = pos or self.pos; hw = self.hw if hw is None else hw
        p = pos(g); v = nd.valid(g); inl = And(v, ult(p, N)); E = r.ensure; code = lambda k: nd.code(r, self.f(r, k))
        E("C15", what + "the size is the number of elements", eq(self.f(r, "size"), N))
        E("C15", what + "head and tail are the first and last node, or null for the empty list", And(eq(code("head"), If(ult(0, N), at(0), NIL)), eq(code("tail"), If(ult(0, N), at(sub(N, 1)), NIL))))
        E("C15", what + "every next link leads to the following node, the last one is null", Implies(inl, eq(nd.next(r, g), If(ult(add(p, 1), N), at(add(p, 1)), NIL))))
        E("C15", what + "every previous link leads to the preceding node, the first one is null", Implies(inl, eq(nd.prev(r, g), If(ult(0, p), at(sub(p, 1)), NIL))))
        E("C15", what + "allocator, element size, destructor and buffer stay", r.fields_unchanged(s, ["allocator", "element_size", "destructor", "buffer", "capacity"]))
        if kept: E("C15", what + "every other element keeps its value", Implies(And(inl, nd.valid(g), ult(self.pos(g), self.n)), eq(nd.data(r, g, b), nd.element(g, b))))
        if new: E("C15", what + "the new element has the given value", eq(nd.data(r, new[0], b), new[1]))
        if self.dyn: E("C15 C16", what + "exactly the nodes of the list are held, the others are released", eq(nd.live(r, g), If(inl, 1, 0)))
        else:
            E("C16", what + "the slots that were used and are free form the chain of slots to reuse", And(eq(code("first_unused"), If(ult(N, hw), at(N), NIL)), Implies(And(v, ule(N, p), ult(p, hw)), eq(nd.next(r, g), If(ult(add(p, 1), hw), at(add(p, 1)), NIL)))))
            E("C16", what + "no more slots than the buffer has", And(ule(N, hw), ule(hw, self.C)))
    def unchanged(self, r, what="refused: ", hw=None): self.holds(r, self.n, what=what, hw=hw); self.destroyed(r, False)
    def destroyed(self, r, cond):
        if self.dtor == "fn": r.ensure("C15", "exactly the removed elements are destroyed, once each", eq(self.nd.destroyed(r), If(And(self.nd.valid(u(self.g)), cond), 1, 0)))

# ------------------------------------------------------------------------------------------ construction
@contract("C15 C16", "ZyanListInit ZyanListInitEx ZyanListInitCustomBuffer")
def init(h):
    fn = h.choice("fn", ["Init", "InitEx", "InitCustomBuffer"]); null = h.choice("null", ["-", "list"] + ([] if fn == "Init" else ["allocator"] if fn == "InitEx" else ["buffer"]))
    s = h.struct("ZyanList", {}, garbage="garb"); es = h.num("element size", dom=[0, 1, 8, M64]); cap = h.num("capacity", dom=[0, 1, 40, M64]); d = h.fn_value("destructor") if h.choice("destructor", ["none", "fn"]) == "fn" else None
    al = h.allocator(1); h.default_allocator(al); buf = h.buf("buffer", 64)
    args = [None if null == "list" else s.ptr, es, d] + ([] if fn == "Init" else [None if null == "allocator" else al.ptr] if fn == "InitEx" else [None if null == "buffer" else buf.ptr, cap])
    def post(r):
        bad = Or(null != "-", eq(es, 0), eq(cap, 0) if fn == "InitCustomBuffer" else False)
        r.ensure("C15 C16", "refused exactly for a null pointer, element size or capacity", eq(r.ret, If(bad, bv32(r, INVALID), bv32(r, SUCCESS))))
        r.ensure("C16", "no node is allocated", len(allocs(r)) == 0)
        if r.decide(bad): return
        c = fn == "InitCustomBuffer"; F = lambda k: r.field(s, k)
        r.ensure("C15", "the list is empty", And(eq(F("size"), 0), r.is_null(F("head")), r.is_null(F("tail")), r.is_null(F("first_unused"))))
        r.ensure("C15", "element size and destructor as given", And(eq(F("element_size"), es), r.same(F("destructor"), d)))
        r.ensure("C16", "nodes come from the given allocator or buffer", And(r.same(F("allocator"), None if c else al.ptr), r.same(F("buffer"), buf.ptr if c else None), eq(F("capacity"), cap if c else 0)))
    h.call("ZyanList" + fn, args, post)
def bv32(r, v):
    if not r.sym: return v
    from zvc.terms import bv
    return bv(v, 32)

# ------------------------------------------------------------------------------------------ access
@contract("C15", "ZyanListGetHeadNode ZyanListGetTailNode ZyanListGetSize")
def ends(h):
    which = h.choice("which", ["HeadNode", "TailNode", "Size"]); null = h.choice("null", ["-", "list"]) == "list"; l = List(h, readonly=True); o = h.out("o", ptr=which != "Size")
    def post(r):
        l.unchanged(r, ""); r.ensure("C15", "a null list is refused", eq(r.ret, INVALID if null else SUCCESS))
        if null: r.ensure("C15", "refused call stores nothing", r.out_unchanged(o)); return
        if which == "Size": r.ensure("C15", "the number of elements is reported", eq(r.outval(o), l.n))
        else: r.ensure("C15", "the first or last node is reported, null for the empty list", eq(l.nd.code(r, r.outval(o)), If(ult(0, l.n), l.at(0 if which == "HeadNode" else sub(l.n, 1)), NIL)))
    h.call("ZyanListGet" + which, [None if null else l.ptr, o.ptr], post)

@contract("C15", "ZyanListGetPrevNode ZyanListGetNextNode")
def steps(h):
    which = h.choice("which", ["Next", "Prev"]); null = h.choice("null", ["-", "node", "*node"]); l = List(h, readonly=True); i = h.num("i", small=5)
    if null == "-": h.assume(ult(i, l.n))
    o = h.out("node", init=l.nd.ptr(l.at(i)) if null == "-" else h.null(), ptr=True)
    def post(r):
        l.unchanged(r, "")
        if null != "-": r.ensure("C15", "a null node is refused", And(eq(r.ret, INVALID), r.out_unchanged(o))); return
        r.ensure("C15", "success", eq(r.ret, SUCCESS))
        e = If(ult(add(i, 1), l.n), l.at(add(i, 1)), NIL) if which == "Next" else If(ult(0, i), l.at(sub(i, 1)), NIL)
        r.ensure("C15", "the neighbouring node is reported, null at the end", eq(l.nd.code(r, r.outval(o)), e))
    h.call("ZyanListGet%sNode" % which, [None if null == "node" else o.ptr], post)

@contract("C15", "ZyanListGetNodeData ZyanListGetNodeDataEx ZyanListGetNodeDataMutable ZyanListGetNodeDataMutableEx")
def data(h):
    ex = h.choice("ex", ["", "Ex"]); mut = h.choice("mutable", ["", "Mutable"]); null = h.choice("null", ["-", "node"]) == "node"; l = List(h, dtor="none"); i = h.num("i", small=5); h.assume(ult(i, l.n)); o = h.out("o", ptr=True)
    def post(r):
        l.unchanged(r, ""); want = None if null else l.nd.data_ptr(l.at(i))
        if not ex: r.ensure("C15", "the element of the node, null for a null node", r.same(r.ret, want)); return
        r.ensure("C15", "a null node is refused", eq(r.ret, INVALID if null else SUCCESS))
        r.ensure("C15", "the element of the node is reported", r.out_unchanged(o) if null else r.same(r.outval(o), want))
    p = None if null else l.nd.ptr(l.at(i))
    h.call("ZyanListGetNodeData%s%s" % (mut, ex), [p, o.ptr] if ex else [p], post)

@contract("C15", "ZyanListSetNodeData")
def set_data(h):
    null = h.choice("null", ["-", "list", "node", "value"]); l = List(h); i = h.num("i", small=5); h.assume(ult(i, l.n)); x = h.buf("value", 1, l.es, readonly=True); c = l.at(i)
    def post(r):
        if null != "-": r.ensure("C15", "null arguments are refused", eq(r.ret, INVALID)); l.unchanged(r); return
        r.ensure("C15", "success", eq(r.ret, SUCCESS)); l.holds(r, l.n, kept=False)
        r.ensure("C15", "the element has the given value, every other element keeps its value", Implies(And(l.nd.valid(u(l.g)), ult(l.pos(u(l.g)), l.n)), eq(l.nd.data(r, u(l.g), u(l.b)), If8(eq(l.g, c), x.pre(0, l.b), l.nd.element(u(l.g), u(l.b))))))
        l.destroyed(r, eq(l.g, c))
    h.call("ZyanListSetNodeData", [None if null == "list" else l.ptr, None if null == "node" else l.nd.ptr(c), None if null == "value" else x.ptr], post)

# ------------------------------------------------------------------------------------------ insertion
@contract("C15 C16", "ZyanListPushBack ZyanListPushFront ZyanListEmplaceBack ZyanListEmplaceFront")
def push(h):
    op = h.choice("op", ["Push", "Emplace"]); end = h.choice("end", ["Back", "Front"]); null = h.choice("null", ["-", "list", "item"]); l = List(h, dtor=None if null == "-" else "none"); n, at, pos, nd = l.n, l.at, l.pos, l.nd
    x = h.buf("item", 1, l.es, readonly=True); o = h.out("o", ptr=True); ctor = op == "Emplace" and h.choice("constructor", ["fn", "null"]) == "fn"
    item = x.ptr if op == "Push" else o.ptr
    args = [None if null == "list" else l.ptr, None if null == "item" else item] + ([nd.constructor() if ctor else None] if op == "Emplace" else [])
    def post(r):
        if null != "-": r.ensure("C15", "null arguments are refused", eq(r.ret, INVALID)); l.unchanged(r); return
        bad = failed(r.ret); ev = [e for e in allocs(r) if not e[1]["ok"]]; con = [e for e in r.events if e[0] == "construct"]; cf = [e for e in con if not e[1]["ok"]]
        if l.dyn: r.ensure("C15 C16", "failure exactly when the allocator or the constructor failed", eq(bad, len(ev) + len(cf) > 0))
        else: r.ensure("C15 C16", "failure exactly when no slot is left or the constructor failed", eq(bad, Or(eq(n, l.C), len(cf) > 0)))
        if ev: r.ensure("C15", "the allocator's status is returned", eq(r.ret, ev[0][1]["status"]))
        if cf: r.ensure("C15", "the constructor's status is returned", eq(r.ret, cf[0][1]["status"]))
        if r.decide(bad):
            r.cover("push fails")
            if not l.dyn and not cf: r.ensure("C16", "no slot left is reported as insufficient buffer", eq(r.ret, INSUFF))
            # a slot whose constructor failed is free again
            l.unchanged(r, "failure: ", hw=umax(l.hw, add(n, 1)) if cf and not l.dyn else None); return
        r.cover("push succeeds"); hw = umax(l.hw, add(n, 1)); new = at(n)
        if op == "Push": val = (new, x.pre(0, l.b)); r.ensure("C15", "success", eq(r.ret, SUCCESS))
        else:
            r.ensure("C15", "the storage of the new element is reported", r.same(r.outval(o), nd.data_ptr(new))); val = (new, r.constructed(con[0], l.b)) if ctor and con else None
            if ctor: r.ensure("C15", "the constructor is called once", len(con) == 1)
        l.destroyed(r, False)
        if end == "Back": l.holds(r, add(n, 1), hw=hw, new=val); return
        a2 = lambda i: If(eq(i, 0), new, If(ule(i, n), at(sub(i, 1)), at(i))); p2 = lambda c: If(eq(pos(c), n), 0, If(ult(pos(c), n), add(pos(c), 1), pos(c)))
        l.holds(r, add(n, 1), a2, p2, hw, val)
    h.call("ZyanList%s%s" % (op, end), args, post)

# ------------------------------------------------------------------------------------------ removal
def removed(h, r, l, p, m, kept=True):
    """the m elements from position p on are gone; the slots are reused in reverse order"""
    n, at, pos = l.n, l.at, l.pos; N = sub(n, m); q = add(p, m)
    a2 = lambda i: If(ult(i, p), at(i), If(ult(i, N), at(add(i, m)), If(ult(i, n), at(sub(sub(q, 1), sub(i, N))), at(i))))
    def p2(c): x = pos(c); return If(Or(ult(x, p), ule(n, x)), x, If(ult(x, q), add(N, sub(sub(q, 1), x)), sub(x, m)))
    l.holds(r, N, a2, p2); x = pos(u(l.g)); l.destroyed(r, And(ule(p, x), ult(x, q)))
def released(r, l):
    """status of an operation that gives up one node at a time"""
    st = l.nd.release_status(r); r.ensure("C15", "the status of releasing the nodes is returned", eq(r.ret, If(eq(st, 0), bv32(r, SUCCESS), st))); return ne(st, 0)

@contract("C15 C16", "ZyanListPopBack ZyanListPopFront")
def pop(h):
    end = h.choice("end", ["Back", "Front"]); null = h.choice("null", ["-", "list"]) == "list"; l = List(h, dtor="none" if null else None)
    def post(r):
        if null: r.ensure("C15", "null arguments are refused", eq(r.ret, INVALID)); l.unchanged(r); return
        if r.decide(eq(l.n, 0)): r.ensure("C15", "pop of an empty list is refused", eq(r.ret, INVALID_OP)); l.unchanged(r); return
        r.cover("pop"); released(r, l); removed(h, r, l, sub(l.n, 1) if end == "Back" else 0, 1)
    h.call("ZyanListPop" + end, [None if null else l.ptr], post)

@contract("C15 C16", "ZyanListRemove")
def remove(h):
    null = h.choice("null", ["-", "list", "node"]); l = List(h, dtor=None if null == "-" else "none"); p = h.num("p", small=5); h.assume(ult(p, l.n))
    def post(r):
        if null != "-": r.ensure("C15", "null arguments are refused", eq(r.ret, INVALID)); l.unchanged(r); return
        r.cover("remove"); released(r, l); removed(h, r, l, p, 1)
    h.call("ZyanListRemove", [None if null == "list" else l.ptr, None if null == "node" else l.nd.ptr(l.at(p))], post)

@contract("C15 C16", "ZyanListRemoveRange")
def remove_range(h):
    null = h.choice("null", ["-", "list", "first", "last"]); l = List(h, dtor=None if null == "-" else "none"); p = h.num("p", small=5); m = h.num("m", small=5); h.assume(And(ult(p, l.n), ule(1, m), ule(m, sub(l.n, p))))
    h.node_hook(l, p); h.anchor("m-1", sub(m, 1))
    def post(r):
        if null != "-": r.ensure("C15", "null arguments are refused", eq(r.ret, INVALID)); l.unchanged(r); return
        bad = released(r, l); t = sub(l.n, l.f(r, "size"))
        if r.decide(bad): r.cover("release fails"); r.ensure("C15", "a failure leaves the rest of the range", And(ule(1, t), ule(t, m))); removed(h, r, l, p, t); return
        r.cover("remove range"); removed(h, r, l, p, m)
    c = lambda i: l.nd.ptr(l.at(i))
    h.call("ZyanListRemoveRange", [None if null == "list" else l.ptr, None if null == "first" else c(p), None if null == "last" else c(sub(add(p, m), 1))], post)

# ------------------------------------------------------------------------------------------ resizing
@contract("C15 C16", "ZyanListResize ZyanListResizeEx ZyanListClear")
def resize(h):
    fn = h.choice("fn", ["ResizeEx", "Resize", "Clear"]); to = h.choice("to", ["null", "same", "empty"] + (["grow", "shrink"] if fn != "Clear" else [])); l = List(h, dtor="none" if to in ("null", "same") else None); n, at, pos = l.n, l.at, l.pos
    size = h.num("size", near=[n], small=8) if fn != "Clear" else 0
    x = h.buf("initializer", 1, l.es, readonly=True) if fn == "ResizeEx" and h.choice("initializer", ["null", "given"]) == "given" else None
    h.assume({"null": True, "same": eq(size, n), "empty": And(eq(size, 0), ult(0, n)), "grow": And(ult(n, size), ult(size, h.max_cells())), "shrink": And(ult(0, size), ult(size, n))}[to])
    h.node_hook(l, None, x)
    def post(r):
        if to == "null": r.ensure("C15", "a null list is refused", eq(r.ret, INVALID)); l.unchanged(r); return
        if to == "same": r.ensure("C15", "success", eq(r.ret, SUCCESS)); l.unchanged(r, ""); return
        g = u(l.g)
        if to == "grow":
            bad = failed(r.ret); ev = [e for e in allocs(r) if not e[1]["ok"]]
            if l.dyn:
                r.ensure("C15 C16", "failure exactly when the allocator failed", eq(bad, len(ev) > 0))
                if ev: r.ensure("C15", "the allocator's status is returned", eq(r.ret, ev[0][1]["status"]))
            else: r.ensure("C15 C16", "insufficient buffer is reported exactly when the slots do not suffice", eq(r.ret, If(ult(l.C, size), bv32(r, INSUFF), bv32(r, SUCCESS))))
            if r.decide(bad): r.cover("grow fails"); l.unchanged(r, "failure: ", hw=None if l.dyn else l.C); return
            r.cover("grow"); l.holds(r, size, hw=umax(l.hw, size)); l.destroyed(r, False)
            if x: r.ensure("C15", "the added elements have the given value", Implies(And(l.nd.valid(g), ule(n, pos(g)), ult(pos(g), size)), eq(l.nd.data(r, g, u(l.b)), x.pre(0, l.b))))
            return
        bad = released(r, l)
        if to == "shrink":
            N = l.f(r, "size")
            if r.decide(bad): r.cover("release fails"); r.ensure("C15", "a failure leaves the rest of the list", And(ule(size, N), ult(N, n)))
            else: r.cover("shrink"); r.ensure("C15", "the requested size", eq(N, size))
            l.holds(r, N); l.destroyed(r, And(ule(N, pos(g)), ult(pos(g), n))); return
        t = sub(n, l.f(r, "size"))
        if r.decide(bad): r.cover("release fails"); r.ensure("C15", "a failure leaves the rest of the list", And(ule(1, t), ule(t, n)))
        else: r.cover("clear"); r.ensure("C15", "the list is empty", eq(t, n))
        if l.dyn: l.holds(r, sub(n, t), lambda i: add(i, t), lambda c: sub(c, t))
        else: I = lambda i: i; l.holds(r, 0, I, I, 0)
        l.destroyed(r, ult(pos(g), t))
    h.call("ZyanList" + fn, [None if to == "null" else l.ptr] + ([size] if fn != "Clear" else []) + ([x.ptr if x else None] if fn == "ResizeEx" else []), post)

@contract("C15 C16", "ZyanListDestroy")
def destroy(h):
    null = h.choice("null", ["-", "list"]) == "list"; l = List(h, dtor="none" if null else None); h.node_hook(l)
    def post(r):
        if null: r.ensure("C15", "null arguments are refused", eq(r.ret, INVALID)); l.unchanged(r); return
        g = u(l.g); gone = ult(l.pos(g), l.n)
        if r.decide(released(r, l)):
            r.cover("release fails")
            if l.dtor == "fn": r.ensure("C15", "no element is destroyed twice", And(ule(l.nd.destroyed(r), 1), Or(eq(l.nd.destroyed(r), 0), gone)))
            return
        r.cover("destroy")
        if l.dyn: r.ensure("C15 C16", "every node is released", eq(l.nd.live(r, g), 0))
        l.destroyed(r, gone)
    h.call("ZyanListDestroy", [None if null else l.ptr], post)
