"""Element access, iteration and initialiser macros of the container headers (instantiated in c/containers.c, verified together with the library)."""
import os
from zvc.registry import contract, HARNESS
from zvc import build
from zvc.spec import *
from .common import *
from .vector import ghosts
HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS["containers"] = ([HERE + "/c/containers.c"] + build.sources(), [])

@contract("C01 C02", "c_vec_get c_vec_get_expr", module="containers")
def macro_get(h):
    which = h.choice("fn", ["c_vec_get", "c_vec_get_expr"])
    v = Vec(h, es=h.stride("es", 4), dtor="none", readonly=True); k, b = ghosts(h, v); i = h.num("index", near=[v.size]); j = h.num("offset", small=2) if which == "c_vec_get_expr" else 0
    p = add(i, j); h.assume(And(ult(p, v.size), ule(i, p)))
    def post(r):
        r.ensure("C01 C02", "vector is unchanged", v.unchanged(r, k, b))
        x = r.ret if which == "c_vec_get" else sub(r.ret, 1) if h.sym else (r.ret - 1) & 0xffffffff
        r.ensure("C01", "the macro yields the element at the index", And([eq(byte(h, x, q), v.pre(p, q)) for q in range(4)])); r.cover("get")
    h.call(which, [v.ptr, i] + ([j] if which == "c_vec_get_expr" else []), post)
def byte(h, x, q):
    if h.sym:
        import z3
        return z3.Extract(8 * q + 7, 8 * q, x)
    return x >> 8 * q & 255

@contract("C01 C02", "c_vec_collect", module="containers")
def macro_foreach(h):
    v = Vec(h, es=h.stride("es", 4), dtor="none", readonly=True); k, b = ghosts(h, v); out = h.buf("out", v.size, v.es)
    h.map_hook(lambda st: out.ptr, k, b, lambda k, b: v.pre(k, b))
    def post(r):
        r.ensure("C01 C02", "vector is unchanged", v.unchanged(r, k, b))
        r.ensure("C01", "the loop visits every element once", eq(r.ret, v.size))
        r.ensure("C01", "the loop visits the elements in order", Implies(ult(k, v.size), eq(r.byte(out.ptr, k, b, v.es), v.pre(k, b)))); r.cover("foreach")
    h.call("c_vec_collect", [v.ptr, out.ptr], post)

@contract("C01 C02", "c_vec_assign", module="containers")
def macro_foreach_mutable(h):
    v = Vec(h, es=h.stride("es", 4), dtor="none"); k, b = ghosts(h, v); d = h.num("value", 32)
    db = [byte(h, d, q) for q in range(4)]; w = lambda b: If8(eq(b, 0), db[0], If8(eq(b, 1), db[1], If8(eq(b, 2), db[2], db[3])))
    h.map_hook(lambda st: v.data.ptr, k, b, lambda k, b: w(b))
    def post(r):
        r.ensure("C01", "the loop visits every element once", eq(r.ret, v.size))
        r.ensure("C01 C02", "exactly the elements change, each through its own item", v.seq(r, v.size, lambda k, b: w(b), k, b)); r.cover("foreach mutable")
    h.call("c_vec_assign", [v.ptr, d], post)

@contract("C07", "c_view_size c_view_char", module="containers")
def macro_view(h):
    """ZYAN_DEFINE_STRING_VIEW: a view of the literal, NUL-terminated, its size without the terminator"""
    which = h.choice("fn", ["size", "char"])
    if which == "size":
        o = h.out("size")
        h.call("c_view_size", [o.ptr], lambda r: r.ensure("C07", "size of a literal view", And(eq(r.ret, SUCCESS), eq(r.outval(o), 4)))); return
    i = h.num("index", small=4); h.assume(ule(i, 4))
    def post(r):
        want = (lambda k: If8(eq(k, 0), ord("v"), If8(eq(k, 1), ord("i"), If8(eq(k, 2), ord("e"), If8(eq(k, 3), ord("w"), 0)))))(i)
        r.ensure("C07", "text of a literal view, NUL-terminated", eq(r.ret, want)); r.cover("view")
    h.call("c_view_char", [i], post)

@contract("C01 C07 C15", "c_vec_init c_str_init c_list_init", module="containers")
def macro_initializer(h):
    """the static initialisers: every size zero, every pointer null"""
    which, p = h.choice("fn", [("c_vec_init", "C01"), ("c_str_init", "C07"), ("c_list_init", "C15")])
    def post(r): r.ensure(p, "a statically initialised object is empty", ne(r.ret, 0)); r.cover(which)
    h.call(which, [], post)
