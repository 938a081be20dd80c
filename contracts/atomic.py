"""C22: the atomic operations under arbitrary interference: other threads may change the cell before and after every access,
so every access sees an arbitrary value; the contract demands one indivisible step that explains the returned value."""
import os
from zvc.registry import contract, HARNESS
from zvc import build
from zvc.spec import *
HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS["atomic"] = ([HERE + "/c/atomic.c"], [])
SZ = {"p": 8, "32": 4, "64": 8}

@contract("C22", " ".join("%s%s_%s" % (m, o, t) for m in ("", "m") for o in ("cas", "inc", "dec") for t in SZ), module="atomic", partial=True)
def interference(h):
    form = h.choice("form", ["", "m"]); op = h.choice("op", ["cas", "inc", "dec"]); t = h.choice("type", list(SZ)); w = 8 * SZ[t]
    if h.sym:
        c = h.shared("cell", SZ[t]); a, b = h.num("comparand", w), h.num("value", w); d = 1 if op == "inc" else (1 << w) - 1
        def post(r):
            ev = [e[1] for e in r.events if e[0] == "shared"]
            mods = []
            for e in ev:
                if r.decide(e["did"]): mods.append(e)
            r.ensure("C22", "the cell is modified in one indivisible step", len(mods) <= 1 and all(e["op"] == "rmw" for e in mods))
            if op == "cas":
                if mods:
                    e = mods[0]
                    r.ensure("C22", "the value is stored only if the cell held the comparand", And(eq(e["old"], a) if e["old"] is not None else False, eq(e["new"], b)))
                    r.ensure("C22", "the previous value is returned", eq(r.ret, e["old"]) if e["old"] is not None else False)
                else: r.ensure("C22", "without a store, a value of the cell other than the comparand is returned", And(ne(r.ret, a), Or([eq(r.ret, e["old"]) for e in ev if e["old"] is not None])))
            else:
                r.ensure("C22", "the cell is updated once", len(mods) == 1)
                if mods and mods[0]["old"] is not None:
                    e = mods[0]; r.ensure("C22", "the update adds or subtracts one", eq(e["new"], add(e["old"], d)))
                    r.ensure("C22", "the value of the own update is returned", eq(r.ret, e["new"]))
        h.call("%s%s_%s" % (form, op, t), [c.ptr] + ([a, b] if op == "cas" else []), post); return
    # natively: without other threads, then a search for a failing interleaving
    if h.choice("search", ["values", "values", "values", "threads"]) == "threads":
        h.call("stress_" + t, [["cas", "inc", "dec"].index(op), 20000], lambda r: r.ensure("C22", "concurrent updates of one cell are neither lost nor duplicated", ne(r.ret, 0))); return
    m = (1 << w) - 1; v = h.num("cell", w, near=[m, 0]); a = h.num("comparand", w, near=[v]); b = h.num("value", w); c = h.raw("cell", SZ[t], {0: (SZ[t], v)})
    def post(r):
        x = r.load(c.ptr, 0, SZ[t])
        if op == "cas": r.ensure("C22", "compare and exchange", And(eq(r.ret & m, v), eq(x, sel(eq(u(v), u(a)), b, v))))
        else:
            want = (u(v) + (1 if op == "inc" else -1)) & m; r.ensure("C22", "%srement returns and stores the new value" % op, r.ret & m == want and x == want)
    h.call("%s%s_%s" % (form, op, t), [c.ptr] + ([a, b] if op == "cas" else []), post)
def sel(c, a, b): return u(a) if c else u(b)
