"""Contracts for every exported function of src/String.c except searching and comparing (strings_search.py)."""
from zvc.registry import contract
from zvc.spec import *
from .common import *

INVALID = ST(1, 4, 1); OOR = ST(1, 8, 1); INSUFF = ST(1, 9, 1)

def kghost(h, near):
    k = h.forall("k", dom=12); h.anchor("k", k); return k

def reject(r, s, k, code):
    r.ensure("C07 C08", "refused call reports the documented status", eq(r.ret, code))
    r.ensure("C07 C08", "refused call leaves the string unchanged", s.unchanged(r, k))
    r.ensure("C07", "refused call makes no allocator call", len(allocs(r)) == 0)

def edit(r, s, k, newlen, text, grow=None):
    """the edit happened, or it was refused by the allocator / the caller buffer and nothing changed.
    grow: new length if memory may be needed (growth failure must leave the string unchanged)"""
    ev = [e for e in allocs(r) if not e[1]["ok"]]; bad = failed(r.ret)
    if s.v.alloc == "fixed":
        over = ult(s.v.cap, add(newlen, 1)) if grow else False
        r.ensure("C07 C08", "insufficient caller buffer is reported, and only then", And(eq(bad, over), Implies(bad, eq(r.ret, INSUFF)), len(allocs(r)) == 0))
    else:
        r.ensure("C07 C08", "error status exactly when the allocator failed", eq(bad, len(ev) > 0))
        if ev: r.ensure("C07 C08", "the allocator's failure status is returned", eq(r.ret, ev[0][1]["status"]))
    r.ensure("C07", "string is well-formed: size within capacity, terminated", s.wf(r))
    if r.decide(And(bad, ult(s.len, newlen))):
        r.ensure("C07 C08", "failed growth leaves the string unchanged", s.unchanged(r, k)); return False
    r.ensure("C08", "success status", Or(bad, eq(r.ret, SUCCESS)))
    r.ensure("C08 C07", "length after the edit", eq(s.f(r, "size"), add(newlen, 1)))
    r.ensure("C08", "text after the edit, byte for byte", Implies(ult(k, newlen), eq(s.char(r, k), text(k))))
    return True

# ------------------------------------------------------------------------------------------ init / destroy
@contract("C07", "ZyanStringInit ZyanStringInitEx")
def init(h):
    which = h.choice("fn", ["ZyanStringInitEx", "ZyanStringInit"])
    null = h.choice("null", ["-", "string", "allocator"] if which == "ZyanStringInitEx" else ["-", "string"])
    cap = h.num("capacity", near=[32, M64])
    growth = h.num("growth", 8, dom=[0, 1, 2, 255]); thr = h.num("shrink", 8, dom=[0, 1, 4, 255])
    al = h.allocator(1, ["C07"]); h.default_allocator(al)
    s = h.struct("ZyanString", {}, garbage="garb")
    sp = None if null == "string" else s.ptr
    if which == "ZyanStringInitEx": args = [sp, cap, None if null == "allocator" else al.ptr, growth, thr]
    else: args = [sp, cap]; growth, thr = 2, 4
    def post(r):
        bad = Or(null != "-", eq(growth, 0), eq(cap, M64)); ev = allocs(r)
        if not ev:
            r.ensure("C07", "no allocation only for invalid arguments", And(bad, eq(r.ret, INVALID))); return
        r.ensure("C07", "invalid arguments are refused", Not(bad))
        want = add(umax(32, cap), 1)
        r.ensure("C07", "one allocation, at least one character larger than requested", And(len(ev) == 1, ev[0][0] == "allocate", eq(ev[0][1]["n"], want)))
        r.ensure("C07", "the allocator's status is returned", eq(r.ret, ev[0][1]["status"]) if not ev[0][1]["ok"] else Not(failed(r.ret)))
        if ev[0][1]["ok"]:
            r.cover("init succeeds"); new_ok(r, s, al, growth, thr, want, 1)
            r.ensure("C07", "string is empty", eq(r.field(s, "vector.size"), 1))
    h.call(which, args, post)

def new_ok(r, s, al, growth, thr, cap, size, buf=None, props="C07"):
    d = r.field(s, "vector.data"); ok = r.valid_block(d)
    r.ensure(props, "new string is well-formed", And(ok, eq(r.field(s, "flags"), 0 if al is not None else 1), eq(r.field(s, "vector.size"), size), eq(r.field(s, "vector.capacity"), cap), ule(size, cap), eq(r.field(s, "vector.element_size"), 1),
        eq(r.field(s, "vector.growth_factor"), growth), eq(r.field(s, "vector.shrink_threshold"), thr), r.is_null(r.field(s, "vector.destructor")),
        r.same(r.field(s, "vector.allocator"), al.ptr if al is not None else None), r.same(d, buf.ptr) if buf is not None else True,
        eq(r.buf_cells(d), cap) if ok else False))
    if ok: r.ensure(props, "new string is terminated", eq(r.byte(d, sub(size, 1), 0, 1), 0))
    return d

@contract("C07", "ZyanStringInitCustomBuffer")
def init_custom(h):
    null = h.choice("null", ["-", "string", "buffer"])
    cap = h.num("capacity", small=6); h.assume(ule(cap, h.max_cells()))
    buf = h.buf("buffer", cap); k = kghost(h, [cap])
    s = h.struct("ZyanString", {}, garbage="garb")
    def post(r):
        bad = Or(null != "-", eq(cap, 0))
        r.ensure("C07", "invalid arguments are refused, and only those", And(eq(failed(r.ret), bad), Implies(bad, eq(r.ret, INVALID))))
        r.ensure("C07", "no other byte of the buffer is touched", Implies(And(ult(k, cap), Or(bad, ult(0, k))), r.buf_unchanged_at(buf, k)))
        if r.decide(bad): return
        r.cover("init succeeds")
        if not r.has_field(s, "vector.data"): r.ensure("C07", "initialised on success", False); return
        new_ok(r, s, None, 1, 0, cap, 1, buf)
    h.call("ZyanStringInitCustomBuffer", [None if null == "string" else s.ptr, None if null == "buffer" else buf.ptr, cap], post)

@contract("C07", "ZyanStringDestroy")
def destroy(h):
    null = h.choice("null", ["-", "string"])
    if null == "string": h.call("ZyanStringDestroy", [None], lambda r: r.ensure("C07", "null string is refused", eq(r.ret, INVALID))); return
    s = Str(h)
    def post(r):
        ev = allocs(r)
        if s.v.alloc == "fixed": r.ensure("C07", "caller buffer is not released", And(eq(r.ret, SUCCESS), len(ev) == 0)); return
        r.ensure("C07", "buffer released exactly once with its allocation size", And(len(ev) == 1, ev[0][0] == "deallocate", r.same(ev[0][1]["old"], s.v.data.ptr), eq(ev[0][1]["n"], s.v.cap)) if len(ev) == 1 and ev[0][0] == "deallocate" else False)
        if len(ev) == 1: r.ensure("C07", "deallocation status is returned", eq(failed(r.ret), not ev[0][1]["ok"]))
        r.cover("destroyed")
    h.call("ZyanStringDestroy", [s.ptr], post)

# ------------------------------------------------------------------------------------------ duplicate / concat
@contract("C07 C08", "ZyanStringDuplicate ZyanStringDuplicateEx ZyanStringConcat ZyanStringConcatEx")
def duplicate(h):
    op = h.choice("op", ["Duplicate", "Concat"]); ex = h.choice("ex", ["Ex", ""])
    null = h.choice("null", ["-", "destination", "s1"] + (["s2"] if op == "Concat" else []) + (["allocator"] if ex else []))
    a = View(h, "s1"); b = View(h, "s2") if op == "Concat" else None
    k = kghost(h, [a.len]); cap = h.num("capacity", near=[32, a.len, M64])
    growth = h.num("growth", 8, dom=[0, 1, 2, 255]); thr = h.num("shrink", 8, dom=[0, 1, 4, 255])
    al = h.allocator(1, ["C07"]); h.default_allocator(al)
    s = h.struct("ZyanString", {}, garbage="garb")
    same = h.choice("alias", ["-", "s1", "s2"]) if op == "Concat" and null == "-" else "-"
    if same == "-":
        args = [None if null == "destination" else s.ptr, None if null == "s1" else a.ptr] + ([None if null == "s2" else b.ptr] if b else []) + [cap]
    else: args = [a.ptr if same == "s1" else b.ptr, a.ptr, b.ptr, cap]
    if ex: args += [None if null == "allocator" else al.ptr, growth, thr]
    else: growth, thr = 2, 4
    n = a.len if b is None else add(a.len, b.len)
    def post(r):
        bad = Or(null != "-", same != "-", eq(growth, 0), eq(cap, M64)); ev = allocs(r)
        r.ensure("C07 C08", "sources are unchanged", And(a.unchanged(r, k), b.unchanged(r, k) if b else True))
        if not ev:
            r.ensure("C07 C08", "no allocation only for invalid arguments", And(bad, eq(r.ret, INVALID))); return
        r.ensure("C07 C08", "invalid arguments are refused", Not(bad))
        want = add(umax(32, umax(cap, n)), 1)
        r.ensure("C07", "one allocation with room for text and terminator", And(len(ev) == 1, ev[0][0] == "allocate", eq(ev[0][1]["n"], want)))
        r.ensure("C07 C08", "the allocator's status is returned", eq(r.ret, ev[0][1]["status"]) if not ev[0][1]["ok"] else Not(failed(r.ret)))
        if ev[0][1]["ok"]:
            r.cover("%s%s succeeds" % (op, ex))
            d = new_ok(r, s, al, growth, thr, want, add(n, 1), props="C07 C08")
            r.ensure("C08", "text is the concatenation of the sources", Implies(ult(k, n), eq(r.byte(d, k, 0, 1), a.pre(k) if b is None else If8(ult(k, a.len), a.pre(k), b.pre(sub(k, a.len))))))
    h.call("ZyanString" + op + ex, args, post)

@contract("C07 C08", "ZyanStringDuplicateCustomBuffer ZyanStringConcatCustomBuffer")
def duplicate_custom(h):
    op = h.choice("op", ["Duplicate", "Concat"])
    null = h.choice("null", ["-", "destination", "s1", "buffer"] + (["s2"] if op == "Concat" else []))
    a = View(h, "s1"); b = View(h, "s2") if op == "Concat" else None
    n = a.len if b is None else add(a.len, b.len)
    k = kghost(h, [a.len]); cap = h.num("capacity", near=[n, 0]); h.assume(ule(cap, h.max_cells()))
    buf = h.buf("buffer", cap)
    s = h.struct("ZyanString", {}, garbage="garb")
    same = h.choice("alias", ["-", "s1", "s2"]) if op == "Concat" and null == "-" else "-"
    args = [None if null == "destination" else s.ptr, None if null == "s1" else a.ptr] + ([None if null == "s2" else b.ptr] if b else []) + [None if null == "buffer" else buf.ptr, cap]
    if same != "-": args[0] = a.ptr if same == "s1" else b.ptr
    def post(r):
        bad = Or(null != "-", same != "-"); small = ult(cap, add(n, 1))
        r.ensure("C07 C08", "sources are unchanged", And(a.unchanged(r, k), b.unchanged(r, k) if b else True))
        r.ensure("C07 C08", "refused exactly for invalid arguments or a too small buffer", And(eq(failed(r.ret), Or(bad, small)), Implies(failed(r.ret), Or(And(bad, eq(r.ret, INVALID)), And(small, eq(r.ret, INSUFF))))))
        r.ensure("C07", "a refused call leaves the buffer alone", Implies(And(failed(r.ret), ult(k, cap)), r.buf_unchanged_at(buf, k)))
        if r.decide(Or(bad, small)): return
        r.cover("%s succeeds" % op)
        d = new_ok(r, s, None, 1, 0, cap, add(n, 1), buf, props="C07 C08")
        r.ensure("C08", "text is the concatenation of the sources", Implies(ult(k, n), eq(r.byte(d, k, 0, 1), a.pre(k) if b is None else If8(ult(k, a.len), a.pre(k), b.pre(sub(k, a.len))))))
        r.ensure("C07", "bytes behind the terminator are untouched", Implies(And(ult(n, k), ult(k, cap)), r.buf_unchanged_at(buf, k)))
    h.call("ZyanString%sCustomBuffer" % op, args, post)

# ------------------------------------------------------------------------------------------ views
@contract("C08 C07", "ZyanStringViewInsideView ZyanStringViewInsideViewEx")
def view_view(h):
    which = h.choice("fn", ["ZyanStringViewInsideViewEx", "ZyanStringViewInsideView"])
    null = h.choice("null", ["-", "view", "source"])
    a = View(h, "source"); i = h.num("index", near=[a.len]); n = h.num("count", near=[a.len, sub(a.len, i), sub(0, i)])
    w = h.struct("ZyanStringView", {"string.vector.data": None, "string.vector.size": 0}, garbage="garb")
    if which == "ZyanStringViewInsideView": i, n = 0, a.len
    k = kghost(h, [])
    def post(r):
        d, sz = r.field(w, "string.vector.data"), r.field(w, "string.vector.size")
        r.ensure("C08 C07", "source is unchanged", a.unchanged(r, k))
        untouched = And(r.is_null(d), eq(sz, 0))
        if null != "-": r.ensure("C07 C08", "null arguments are refused", And(eq(r.ret, INVALID), untouched)); return
        if r.decide(Or(ult(a.len, i), ult(sub(a.len, i), n))): r.ensure("C07 C08", "a range outside the source is refused", And(eq(r.ret, OOR), untouched)); return
        r.cover("%s succeeds" % which)
        r.ensure("C08 C07", "view of exactly the requested characters", And(eq(r.ret, SUCCESS), r.ptr_at(d, a.data.ptr, i, 1), eq(sz, add(n, 1))))
    h.call(which, [None if null == "view" else w.ptr, None if null == "source" else a.ptr] + ([i, n] if which.endswith("Ex") else []), post)

@contract("C08 C07", "ZyanStringViewInsideBuffer ZyanStringViewInsideBufferEx")
def view_buffer(h):
    which = h.choice("fn", ["ZyanStringViewInsideBufferEx", "ZyanStringViewInsideBuffer"])
    null = h.choice("null", ["-", "view", "buffer"])
    n = h.num("length", small=6)
    w = h.struct("ZyanStringView", {"string.vector.data": None, "string.vector.size": 0}, garbage="garb")
    h.assume(ult(n, h.max_cells()))
    buf = h.cstring("buffer", n) if which == "ZyanStringViewInsideBuffer" else h.buf("buffer", n, readonly=True)
    def post(r):
        d, sz = r.field(w, "string.vector.data"), r.field(w, "string.vector.size")
        bad = Or(null != "-", eq(n, 0) if which.endswith("Ex") else False)
        r.ensure("C07 C08", "invalid arguments are refused, and only those", eq(r.ret, If(bad, INVALID, SUCCESS)))
        r.ensure("C08 C07", "view of exactly the given characters", If(bad, And(r.is_null(d), eq(sz, 0)), And(r.ptr_at(d, buf.ptr, 0, 1), eq(sz, add(n, 1)))))
        r.cover("%s succeeds" % which, Not(bad))
    h.call(which, [None if null == "view" else w.ptr, None if null == "buffer" else buf.ptr] + ([n] if which.endswith("Ex") else []), post)

@contract("C08 C07", "ZyanStringViewGetSize ZyanStringViewGetData ZyanStringGetSize ZyanStringGetData ZyanStringGetCapacity")
def info(h):
    which = h.choice("fn", ["ZyanStringViewGetSize", "ZyanStringViewGetData", "ZyanStringGetSize", "ZyanStringGetData", "ZyanStringGetCapacity"])
    isv = "View" in which
    null = h.choice("null", ["-", "string"] + (["out"] if isv else []))
    k = kghost(h, [])
    s = View(h, "s") if isv else Str(h, "s", readonly=True)
    o = h.out("value", ptr=which.endswith("Data"))
    def post(r):
        r.ensure("C08 C07", "string is unchanged", s.unchanged(r, k))
        if null != "-": r.ensure("C07 C08", "null argument is refused", And(eq(r.ret, INVALID), r.out_unchanged(o))); return
        r.ensure("C08 C07", "success status", eq(r.ret, SUCCESS))
        x = r.outval(o)
        if which.endswith("Data"): r.ensure("C08 C07", "pointer to the first character", r.ptr_at(x, s.data.ptr, 0, 1))
        elif which.endswith("Size"): r.ensure("C08 C07", "number of characters", eq(x, s.len))
        else: r.ensure("C08 C07", "number of characters that fit", eq(x, sub(s.v.cap, 1)))
    h.call(which, [None if null == "string" else s.ptr, None if null == "out" else o.ptr], post)

# ------------------------------------------------------------------------------------------ characters
@contract("C08 C07", "ZyanStringGetChar")
def get_char(h):
    null = h.choice("null", ["-", "string", "value"])
    a = View(h, "s"); i = h.num("index", near=[a.len]); o = h.out("value", size=1); k = kghost(h, [])
    def post(r):
        r.ensure("C08 C07", "string is unchanged", a.unchanged(r, k))
        if null != "-": r.ensure("C07 C08", "null argument is refused", And(eq(r.ret, INVALID), r.out_unchanged(o))); return
        if r.decide(ule(a.len, i)): r.ensure("C08 C07", "index at or past the length is refused", And(eq(r.ret, OOR), r.out_unchanged(o))); return
        r.ensure("C08", "the character at the index", And(eq(r.ret, SUCCESS), eq(r.outval(o), a.pre(i)))); r.cover("hit")
    h.call("ZyanStringGetChar", [None if null == "string" else a.ptr, i, None if null == "value" else o.ptr], post)

@contract("C08 C07", "ZyanStringGetCharMutable ZyanStringSetChar")
def mut_char(h):
    which = h.choice("fn", ["ZyanStringSetChar", "ZyanStringGetCharMutable"])
    null = h.choice("null", ["-", "string"] + (["value"] if which == "ZyanStringGetCharMutable" else []))
    s = Str(h); i = h.num("index", near=[s.len]); k = kghost(h, [])
    c = h.num("value", 8); o = h.out("ptr", ptr=True)
    def post(r):
        if null != "-" : reject(r, s, k, INVALID) if not (null == "value") else r.ensure("C07 C08", "null argument is refused", And(failed(r.ret), s.unchanged(r, k))); return
        if r.decide(ule(s.len, i)): reject(r, s, k, OOR); r.ensure("C08", "output untouched", r.out_unchanged(o)); return
        r.ensure("C08", "success status", eq(r.ret, SUCCESS)); r.cover("%s hit" % which)
        if which == "ZyanStringSetChar":
            r.ensure("C08 C07", "exactly the character at the index is replaced", And(s.wf(r), eq(s.f(r, "size"), add(s.len, 1)), Implies(ult(k, s.len), eq(s.char(r, k), If8(eq(k, i), c, s.pre(k))))))
        else:
            r.ensure("C08 C07", "string is unchanged", s.unchanged(r, k)); r.ensure("C08", "pointer to the character at the index", r.ptr_at(r.outval(o), s.v.data.ptr, i, 1))
    h.call(which, [None if null == "string" else s.ptr, i] + ([c] if which == "ZyanStringSetChar" else [None if null == "value" else o.ptr]), post)

# ------------------------------------------------------------------------------------------ insertion / appending
@contract("C08 C07", "ZyanStringInsert ZyanStringInsertEx ZyanStringAppend ZyanStringAppendEx")
def insert(h):
    op = h.choice("op", ["Insert", "Append"]); ex = h.choice("ex", ["Ex", ""])
    null = h.choice("null", ["-", "destination", "source"])
    s = Str(h); a = View(h, "source"); k = kghost(h, [])
    i = h.num("index", near=[s.len]) if op == "Insert" else s.len
    si = h.num("source_index", near=[a.len]); n = h.num("count", near=[a.len, sub(a.len, si), sub(0, si)])
    if not ex: si, n = 0, a.len
    h.anchor("index", i); h.anchor("end", add(i, n))
    def post(r):
        r.ensure("C08 C07", "source is unchanged", a.unchanged(r, k))
        if null != "-": reject(r, s, k, INVALID); return
        if r.decide(Or(ult(s.len, i), ult(a.len, si), ult(sub(a.len, si), n))): reject(r, s, k, OOR); return
        if r.decide(eq(n, 0)):
            r.ensure("C08 C07", "nothing to insert: text unchanged", s.same_text(r, k))
            r.ensure("C07", "an empty insertion needs no memory", len([e for e in allocs(r) if not e[1]["ok"]]) == 0 or s.v.alloc == "dyn"); return
        if edit(r, s, k, add(s.len, n), lambda k: If8(ult(k, i), s.pre(k), If8(ult(sub(k, i), n), a.pre(add(sub(k, i), si)), s.pre(sub(k, n)))), grow=True):
            r.cover("%s%s succeeds %s" % (op, ex, s.v.alloc))
    args = [None if null == "destination" else s.ptr] + ([i] if op == "Insert" else []) + [None if null == "source" else a.ptr] + ([si, n] if ex else [])
    h.call("ZyanString" + op + ex, args, post)

# ------------------------------------------------------------------------------------------ deletion
@contract("C08 C07", "ZyanStringDelete ZyanStringTruncate ZyanStringClear")
def delete(h):
    which = h.choice("fn", ["ZyanStringDelete", "ZyanStringTruncate", "ZyanStringClear"])
    null = h.choice("null", ["-", "string"])
    s = Str(h); k = kghost(h, [])
    i = 0 if which == "ZyanStringClear" else h.num("index", near=[s.len])
    n = h.num("count", near=[s.len, sub(s.len, i), sub(0, i)]) if which == "ZyanStringDelete" else sub(s.len, i)
    h.anchor("index", i); h.anchor("end", add(i, n))
    def post(r):
        if null != "-": reject(r, s, k, INVALID); return
        if r.decide(Or(ult(s.len, i), ult(sub(s.len, i), n))): reject(r, s, k, OOR); return
        if which != "ZyanStringClear" and r.decide(eq(n, 0)):
            r.ensure("C08 C07", "nothing to delete: string unchanged", And(s.unchanged(r, k), Or(eq(r.ret, SUCCESS), eq(r.ret, INVALID)))); return
        if edit(r, s, k, sub(s.len, n), lambda k: If8(ult(k, i), s.pre(k), s.pre(add(k, n)))): r.cover("%s succeeds %s" % (which, s.v.alloc))
    h.call(which, [None if null == "string" else s.ptr] + ([i] if which != "ZyanStringClear" else []) + ([n] if which == "ZyanStringDelete" else []), post)

@contract("C08 C07", "ZyanStringResize")
def resize(h):
    null = h.choice("null", ["-", "string"])
    s = Str(h); k = kghost(h, []); n = h.num("size", near=[s.len, s.v.cap, M64])
    def post(r):
        if null != "-": reject(r, s, k, INVALID); return
        if r.decide(eq(n, M64)): reject(r, s, k, INVALID); return
        # characters gained by growing are unspecified
        if edit(r, s, k, n, lambda k: If8(ult(k, s.len), s.pre(k), s.char(r, k)), grow=True): r.cover("resize %s" % s.v.alloc)
    h.call("ZyanStringResize", [None if null == "string" else s.ptr, n], post)

@contract("C07 C08", "ZyanStringReserve ZyanStringShrinkToFit")
def memory(h):
    which = h.choice("fn", ["ZyanStringReserve", "ZyanStringShrinkToFit"])
    null = h.choice("null", ["-", "string"])
    s = Str(h); k = kghost(h, []); n = h.num("capacity", near=[s.len, s.v.cap, M64])
    def post(r):
        if null != "-": reject(r, s, k, INVALID); return
        ev = allocs(r); bad = failed(r.ret)
        if which == "ZyanStringReserve":
            if r.decide(eq(n, M64)): reject(r, s, k, INVALID); return
            r.ensure("C07", "room for the requested number of characters and the terminator", Or(bad, ult(n, s.f(r, "capacity"))))
        r.ensure("C07 C08", "string is well-formed and keeps its text", s.same_text(r, k))
        r.ensure("C07", "error only if memory is not available", Implies(bad, Or(len([e for e in ev if not e[1]["ok"]]) > 0, And(s.v.alloc == "fixed", ult(s.v.cap, add(n, 1)), eq(r.ret, INSUFF)) if which == "ZyanStringReserve" else False)))
        r.ensure("C07", "a failed call changes nothing", Implies(bad, s.unchanged(r, k)))
        r.cover("%s %s" % (which, s.v.alloc))
    h.call(which, [None if null == "string" else s.ptr] + ([n] if which == "ZyanStringReserve" else []), post)

# ------------------------------------------------------------------------------------------ case mapping
@contract("C10 C07", "ZyanStringToLowerCase ZyanStringToLowerCaseEx ZyanStringToUpperCase ZyanStringToUpperCaseEx")
def case(h):
    up = h.choice("case", ["Lower", "Upper"]); ex = h.choice("ex", ["Ex", ""])
    null = h.choice("null", ["-", "string"])
    s = Str(h, alloc="fixed"); k = kghost(h, []); i = h.num("index", near=[s.len]); n = h.num("count", near=[s.len, sub(s.len, i), sub(0, i)])
    if not ex: i, n = 0, s.len
    h.anchor("index", i); h.anchor("end", add(i, n))
    conv = (lambda c: If8(And(ule(0x41, c), ule(c, 0x5A)), add(c, 32, 8), c)) if up == "Lower" else (lambda c: If8(And(ule(0x61, c), ule(c, 0x7A)), sub(c, 32, 8), c))
    for q in (k, s.len): h.map_hook(lambda st: s.v.data.ptr, q, 0, lambda k, b: conv(s.pre(k)))
    def post(r):
        if null != "-":
            r.ensure("C07 C10", "null string is refused", And(eq(r.ret, INVALID), s.unchanged(r, k))); return
        if r.decide(Or(ult(s.len, i), ult(sub(s.len, i), n))): r.ensure("C07 C10", "a range outside the string is refused", And(eq(r.ret, OOR), s.unchanged(r, k))); return
        r.ensure("C10", "success status", eq(r.ret, SUCCESS))
        r.ensure("C10 C07", "string stays well-formed with the same length", And(s.wf(r), eq(s.f(r, "size"), add(s.len, 1)), r.same(s.f(r, "data"), s.v.data.ptr), eq(s.f(r, "capacity"), s.v.cap)))
        r.ensure("C10", "exactly the letters of the range are converted", Implies(ult(k, s.len), eq(s.char(r, k), If8(inrange(k, i, n), conv(s.pre(k)), s.pre(k)))))
        r.cover("%s%s converts" % (up, ex))
    h.call("ZyanStringTo%sCase%s" % (up, ex), [None if null == "string" else s.ptr] + ([i, n] if ex else []), post)
