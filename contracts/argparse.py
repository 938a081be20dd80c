"""Contracts of src/ArgParse.c: the meaning of a command line is defined in zvc/args.py (proof) and zvc/nat.py (search)."""
from zvc.registry import contract
from zvc.spec import *
from .common import *
from .list import bv32

INVALID, NOT_UNDERSTOOD, TOO_FEW, TOO_MANY, MISSES_VALUE, MISSING = ST(1, 4, 1), ST(3, 0, 1), ST(3, 1, 1), ST(3, 2, 1), ST(3, 3, 1), ST(3, 4, 1)

@contract("C17", "ZyanArgParse ZyanArgParseEx", cost=400, limit=400, assume=["the vector functions called by the argument parser satisfy the contracts proved for C01 to C04; pointers to parsed arguments are valid until the vector grows", "strlen, strcmp, memcmp and strncmp meet the C standard", "tokens, names, argv and the table of definitions have fewer than 2^47 elements"])
def parse(h):
    fn = h.choice("fn", ["ZyanArgParseEx", "ZyanArgParse"])
    case = h.choice("definitions, error token", [("given", "given"), ("null", "given"), ("given", "null"), ("null", "null")] if fn == "ZyanArgParseEx" else [("given", "given")]); nd = case[0] == "null"; tok = case[1]
    c = h.cmdline(nd); o = h.out("error token", ptr=True)
    def post(r):
        ev = [e for e in r.events if e[0] in ("allocate", "reallocate", "deallocate") and not e[1]["ok"]]; want = c.outcome()
        if ev: r.cover("the allocator fails"); r.ensure("C17", "the status of the allocator is returned", eq(r.ret, ev[-1][1]["status"]))
        else: r.ensure("C17", "the status is the documented one for this command line", eq(r.ret, want))
        if r.decide(failed(r.ret)):
            r.ensure("C17", "no vector is left behind on failure", ne(c.vector(r), 1))
            if ev or tok == "null": return
            token = Or(eq(want, bv32(r, NOT_UNDERSTOOD)), eq(want, bv32(r, MISSES_VALUE)), eq(want, bv32(r, TOO_MANY)))
            if r.decide(token): r.cover("a token is refused"); r.ensure("C17", "the offending token is reported", r.same(r.outval(o), c.token()))
            elif r.decide(eq(want, bv32(r, MISSING))): r.cover("a required argument is missing"); r.ensure("C17", "the missing argument is reported", r.same(r.outval(o), c.missing()))
            return
        r.cover("a command line is parsed")
        r.ensure("C17", "a vector is returned", eq(c.vector(r), 1))
        r.ensure("C17", "exactly the described arguments are parsed", eq(c.parsed_size(r), c.count()))
        r.ensure("C17", "every parsed argument has the described definition and value", c.element_ok(r))
        if tok == "given": r.ensure("C17", "no token is reported on success", r.is_null(r.outval(o)))
    h.call(fn, c.args_of(fn, None if tok == "null" else o.ptr), post)
