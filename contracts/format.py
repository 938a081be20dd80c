"""C11: number formatting (src/Format.c).  The value is given by its digits: every value of D digits is the sum of its
digits times the powers of the base, so the number of digits is the case split and the digits stay arbitrary."""
from zvc import build
from zvc.registry import contract, HARNESS
from zvc.spec import *
from .common import *
from .strings import kghost
HARNESS["fmt"] = (build.sources(), [], ["vsnprintf"])
INVALID = ST(1, 4, 1); INSUFF = ST(1, 9, 1)

def decimal(h, D):
    d = [h.num("d%d" % i, near=[9, 1], dom=range(10)) for i in range(D)]
    for i, x in enumerate(d): h.bounded(x, 1 if i and i == D - 1 else 0, 9 if i < 19 else 1)
    rest = 0
    for i in range(D - 1): rest = add(rest, mul(d[i], 10 ** i))
    v = add(rest, mul(d[D - 1], 10 ** (D - 1)))
    if D == 20: h.assume(ult(rest, (1 << 64) - 10 ** 19)); h.exact(v, 10 ** 19, M64)
    return v, [lambda up, x=x: add(48, lo(x, 8), 8) for x in reversed(d)]
def hexadecimal(h, D):
    d = [h.num("x%d" % i, near=[9, 10, 15], dom=range(16)) for i in range(D)]; x = 0
    for i, q in enumerate(d): h.bounded(q, 1 if i and i == D - 1 else 0, 15); x = add(x, mul(q, 16 ** i))
    def nib(q, up): v = lo(q, 8); return If8(ult(v, 10), add(48, v, 8), If8(up, add(55, v, 8), add(87, v, 8)))
    return x, [lambda up, q=q: nib(q, up) for q in reversed(d)]

def unsigned(h, r, s, k, D, pad, digits, upper):
    def number(r, at):
        zeros = sub(pad, D) if r.decide(ult(D, pad)) else 0
        r.cover("padded", ult(0, zeros))
        r.ensure("C11", "zeros up to the requested width", Implies(inrange(k, at, zeros), eq(s.char(r, k), 48)))
        for j, c in enumerate(digits): r.ensure("C11", "digit %d of %d" % (j + 1, D), eq(s.char(r, add(add(at, zeros), j)), c(upper)))
    appended(h, r, s, k, [], umax(D, pad), number)
def appended(h, r, s, k, parts, total, number):
    """parts: [(length, text)] written between the existing text and the number of `total` characters"""
    at = s.len; segs = []
    for n, t in parts: segs.append((at, n, t)); at = add(at, n)
    newlen = add(at, total); bad = failed(r.ret); ev = [e for e in allocs(r) if not e[1]["ok"]]
    if s.v.alloc == "fixed": r.ensure("C11", "insufficient caller buffer is reported, and only then", And(eq(bad, ult(s.v.cap, add(newlen, 1))), Implies(bad, eq(r.ret, INSUFF)), len(allocs(r)) == 0))
    else:
        r.ensure("C11", "error status exactly when the allocator failed", eq(bad, len(ev) > 0))
        if ev: r.ensure("C11", "the allocator's failure status is returned", eq(r.ret, ev[0][1]["status"]))
    r.ensure("C11", "string is well-formed: size within capacity, terminated", s.wf(r))
    r.ensure("C11", "the existing text is kept", And(ule(s.size, s.f(r, "size")), Implies(ult(k, s.len), eq(s.char(r, k), s.pre(k)))))
    if r.decide(bad): r.cover("refused"); return
    r.cover("appended")
    r.ensure("C11", "success status", eq(r.ret, SUCCESS))
    r.ensure("C11", "length of the result", eq(s.f(r, "size"), add(newlen, 1)))
    for a, n, t in segs: r.ensure("C11", "sign and prefix come first", Implies(inrange(k, a, n), eq(s.char(r, k), t(sub(k, a)))))
    number(r, at)

def setup(h, ds):
    null = h.choice("null", ["-", "string"]); D = h.choice("digits", ds if null == "-" else [1])
    h.try_unroll(24); 
    if null != "-" or h.choice("padding", ["no", "yes"]) == "no": pad = h.num("padding", dom=range(D + 1)); h.bounded(pad, 0, D)
    else: e = h.num("zeros", dom=[1, 2, 7, 255 - D]); h.bounded(e, 1, 255 - D); pad = add(D, e)
    return null == "string", D, pad, lo(pad, 8)
def refused(h, fn, args):
    h.call(fn, [None] + args, lambda r: r.ensure("C11", "null string is refused", eq(r.ret, INVALID)))

@contract("C11", "ZyanStringAppendDecU")
def dec_unsigned(h):
    null, D, pad, p8 = setup(h, list(range(1, 21))); v, digits = decimal(h, D)
    if null: return refused(h, "ZyanStringAppendDecU", [v, p8])
    s = Str(h); k = kghost(h, [])
    h.call("ZyanStringAppendDecU", [s.ptr, v, p8], lambda r: unsigned(h, r, s, k, D, pad, digits, False))

@contract("C11", "ZyanStringAppendHexU")
def hex_unsigned(h):
    null, D, pad, p8 = setup(h, list(range(1, 17))); v, digits = hexadecimal(h, D); up = h.num("uppercase", 8, dom=[0, 1, 2, 255])
    if null: return refused(h, "ZyanStringAppendHexU", [v, p8, up])
    s = Str(h); k = kghost(h, [])
    h.call("ZyanStringAppendHexU", [s.ptr, v, p8, up], lambda r: unsigned(h, r, s, k, D, pad, digits, ne(up, 0)))

DOM = [0, 1, 7, 9, 10, 42, 99, 100, 255, 256, 4095, 65535, 1234567, 4294967295, 4294967296, 99999999999, 123456789012345678]
def signed(h, base):
    """modular: the number itself is appended by the unsigned function, which is used through its contract above"""
    null = h.choice("null", ["-", "string"]) == "string"; neg = h.choice("sign", ["+", "-"]) == "-" if not null else False
    v = h.num("value", dom=DOM + [M64 + 1 - x for x in DOM] + [1 << 63, (1 << 63) - 1], near=[]); h.assume(slt(v, 0) if neg else sle(0, v)); p8 = h.num("padding", 8, dom=[0, 1, 2, 3, 9, 25, 255]); pad = zx(p8)
    force = h.num("force_sign", 8, dom=[0, 1, 255]); up = h.num("uppercase", 8, dom=[0, 1, 2, 255])
    pre = View(h, "prefix") if null or h.choice("prefix", ["none", "view"]) == "view" else None
    fn = "ZyanStringAppendDecS" if base == 10 else "ZyanStringAppendHexS"; args = [v, p8] + ([up] if base == 16 else []) + [force, pre.ptr if pre else None]
    if null: return refused(h, fn, args)
    s = Str(h); k = kghost(h, []); m = sub(0, v) if neg else v; kind = "Dec" if base == 10 else "Hex"
    if h.sym:
        n, c = h.text_function()
        h.append_contract(["ZyanStringAppend%sU%s" % (kind, w) for w in ("", "64")], s, lambda a: n(a[1], zx(a[2])), lambda a, i: c(a[1], zx(a[2]), ne(a[3], 0) if base == 16 else False, i))
        total = n(m, pad); char = lambda i: c(m, pad, ne(up, 0) if base == 16 else False, i)
    else:
        t = ("%d" if base == 10 else "%X" if up else "%x") % m; t = t.rjust(p8, "0"); total = len(t); char = lambda i: ord(t[i]) if i < total else 0
    def post(r):
        sign = neg or r.decide(ne(force, 0)); parts = [(1, lambda i: 45 if neg else 43)] if sign else []
        if pre: parts.append((pre.len, lambda i: pre.pre(i) if h.sym or u(i) < pre.len else 0)); r.ensure("C11", "the prefix is unchanged", pre.unchanged(r, k))
        def number(r, at): r.ensure("C11", "the digits of the absolute value follow", Implies(inrange(k, at, total), eq(s.char(r, k), char(sub(k, at)))))
        appended(h, r, s, k, parts, total, number)
    h.call(fn, [s.ptr] + args, post)
@contract("C11", "ZyanStringAppendDecS")
def dec_signed(h): signed(h, 10)
@contract("C11", "ZyanStringAppendHexS")
def hex_signed(h): signed(h, 16)

# ---------------------------------------------------------------- C12
def formatted(r): return [e for e in r.events if e[0] == "format"]
@contract("C12", "ZyanStringAppendFormat", module="fmt")
def append_format(h):
    """the C library's formatter is assumed: for one format and argument list it yields the same text at every call, or fails"""
    null = h.choice("null", ["-", "string", "format", "both"]); fmt = h.cstring("format", h.num("format.len", small=3))
    if null in ("string", "both"):
        o = h.formatter(fmt, 2)
        return h.call("ZyanStringAppendFormat", [None, fmt.ptr if null == "string" else None] + o.args, lambda r: r.ensure("C12", "null string is refused", eq(r.ret, INVALID)))
    s = Str(h); k = kghost(h, []); o = h.formatter(fmt, 2)
    def post(r):
        bad = failed(r.ret)
        if null == "format":
            r.ensure("C12", "null format is refused", eq(r.ret, INVALID)); r.ensure("C12", "refused call leaves the string unchanged", s.unchanged(r, k)); return
        newlen = add(s.len, o.length); ev = [e for e in allocs(r) if not e[1]["ok"]]; ferr = any(not e[1]["ok"] for e in formatted(r))
        r.ensure("C12", "the formatter is used", len(formatted(r)) > 0)
        if s.v.alloc == "fixed":
            r.ensure("C12", "failure exactly when formatting failed or the buffer is too small", eq(bad, Or(ferr, ult(s.v.cap, add(newlen, 1))))); r.ensure("C12", "no allocator call for a caller buffer", len(allocs(r)) == 0)
        else: r.ensure("C12", "failure exactly when formatting or the allocator failed", eq(bad, ferr or len(ev) > 0))
        if ev: r.ensure("C12", "the allocator's failure status is returned", eq(r.ret, ev[0][1]["status"]))
        if r.decide(bad):
            r.cover("formatting failed", ferr); r.cover("failed"); r.ensure("C12", "failure keeps the text and leaves the string well-formed", s.same_text(r, k)); return
        r.cover("fits", len(formatted(r)) == 1); r.cover("grown", len(allocs(r)) > 0)
        r.ensure("C12", "success status", eq(r.ret, SUCCESS))
        r.ensure("C12", "string is well-formed: size within capacity, terminated", s.wf(r))
        r.ensure("C12", "length of the result", eq(s.f(r, "size"), add(newlen, 1)))
        r.ensure("C12", "the existing text is kept", Implies(ult(k, s.len), eq(s.char(r, k), s.pre(k))))
        r.ensure("C12", "exactly the formatted text is appended", Implies(inrange(k, s.len, o.length), eq(s.char(r, k), o.char(sub(k, s.len)))))
    h.call("ZyanStringAppendFormat", [s.ptr, fmt.ptr if null == "-" else None] + o.args, post)
