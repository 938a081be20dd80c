"""LLVM IR (text, opaque pointers) reader.  Only what clang emits for C code is supported; anything
else raises Unsupported when (and only when) it is executed."""
import re

class Unsupported(Exception):
    pass

# ------------------------------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "w", "elems", "n", "name")
    def __init__(self, k, w=0, elems=None, n=0, name=None):
        self.k, self.w, self.elems, self.n, self.name = k, w, elems, n, name
    def __repr__(self):
        return {"int": "i%d" % self.w, "ptr": "ptr", "void": "void"}.get(self.k, "%s:%s" % (self.k, self.name or self.elems))

PTR = Ty("ptr"); VOID = Ty("void"); METADATA = Ty("metadata"); LABEL = Ty("label")
_ints = {}
def INT(w):
    if w not in _ints: _ints[w] = Ty("int", w)
    return _ints[w]

_tok = re.compile(r'''\s*(?:(c"(?:[^"\\]|\\.)*")|("(?:[^"\\]|\\.)*")|(%"(?:[^"])*"|@"(?:[^"])*")|([%@][-a-zA-Z$._0-9]+)|(-?\d+\.\d+e[+-]\d+|-?\d+(?![-a-zA-Z$._])|0x[0-9A-Fa-f]+)|([a-zA-Z_$.][-a-zA-Z$._0-9]*)|(\.\.\.|[!#]\S*?(?=[\s,)}]|$)|[(){}\[\]<>,=*:|]))''')

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = _tok.match(s, i)
        if not m:
            if s[i:].strip() == "": break
            raise Unsupported("token: " + s[i:i+40])
        out.append(m.group(0).strip()); i = m.end()
    return out

class TS:
    def __init__(self, toks): self.t = toks; self.i = 0
    def peek(self): return self.t[self.i] if self.i < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def accept(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def expect(self, x):
        y = self.next()
        if y != x: raise Unsupported("expected %r got %r in %s" % (x, y, " ".join(self.t)[:200]))
    def done(self): return self.i >= len(self.t)

PARAM_ATTRS = {"noundef", "nonnull", "zeroext", "signext", "nocapture", "readonly", "writeonly", "noalias", "immarg",
               "returned", "inreg", "readnone", "nofree", "nest", "allocptr", "allocalign", "noreturn", "nounwind", "mustprogress"}
PAREN_ATTRS = {"dereferenceable", "dereferenceable_or_null", "byval", "sret", "elementtype", "byref", "preallocated", "inalloca", "memory", "captures", "range", "initializes"}

class Module:
    def __init__(self):
        self.types = {}; self.globals = {}; self.funcs = {}; self.decls = set()
    # sizes -------------------------------------------------------------
    def resolve(self, t):
        if t.k == "named":
            r = self.types.get(t.name)
            if r is None: raise Unsupported("opaque type " + t.name)
            return r
        return t
    def sizeof(self, t):
        t = self.resolve(t)
        if t.k == "int": return max(1, 1 << ((t.w + 7) // 8 - 1).bit_length()) if t.w > 8 else 1
        if t.k == "ptr": return 8
        if t.k == "array": return t.n * self.sizeof(t.elems)
        if t.k == "struct":
            return self.layout(t)[1]
        if t.k == "fp": return t.w // 8
        raise Unsupported("sizeof %r" % t)
    def alignof(self, t):
        t = self.resolve(t)
        if t.k == "array": return self.alignof(t.elems)
        if t.k == "struct":
            if t.name == "packed": return 1
            return max([self.alignof(e) for e in t.elems] or [1])
        return self.sizeof(t)
    def layout(self, t):
        t = self.resolve(t); off = 0; offs = []; al = 1; packed = t.name == "packed"
        for e in t.elems:
            a = 1 if packed else self.alignof(e); al = max(al, a)
            off = (off + a - 1) // a * a; offs.append(off); off += self.sizeof(e)
        return offs, (off + al - 1) // al * al

def parse_type(ts):
    x = ts.next()
    if x == "ptr": t = PTR
    elif x == "void": t = VOID
    elif x == "metadata": t = METADATA
    elif x == "label": t = LABEL
    elif re.fullmatch(r"i\d+", x): t = INT(int(x[1:]))
    elif x in ("float",): t = Ty("fp", 32)
    elif x in ("double",): t = Ty("fp", 64)
    elif x == "x86_fp80": t = Ty("fp", 128)
    elif x[0] == "%": t = Ty("named", name=x)
    elif x == "[":
        n = int(ts.next()); ts.expect("x"); e = parse_type(ts); ts.expect("]"); t = Ty("array", elems=e, n=n)
    elif x == "{":
        es = []
        if not ts.accept("}"):
            while True:
                es.append(parse_type(ts))
                if ts.accept("}"): break
                ts.expect(",")
        t = Ty("struct", elems=es)
    elif x == "<":
        if ts.accept("{"):
            es = []
            if not ts.accept("}"):
                while True:
                    es.append(parse_type(ts))
                    if ts.accept("}"): break
                    ts.expect(",")
            ts.expect(">"); t = Ty("struct", elems=es, name="packed")
        else: raise Unsupported("vector type")
    else: raise Unsupported("type " + x)
    # function type
    while ts.peek() == "(" :
        depth = 0
        args = []; ts.next()
        va = False
        while not ts.accept(")"):
            if ts.accept("..."): va = True
            else: args.append(parse_type(ts))
            ts.accept(",")
        t = Ty("func", elems=(t, args, va))
    return t

class Opnd:
    """kind: reg(name) int(val) null undef global(name) zero str(bytes) agg(list) expr(op,args)"""
    __slots__ = ("k", "v", "ty")
    def __init__(self, k, v, ty): self.k, self.v, self.ty = k, v, ty
    def __repr__(self): return "%s %s:%s" % (self.ty, self.k, self.v)

def _unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i+1] == "\\": out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)

def parse_value(ts, ty):
    x = ts.next()
    if x[0] == "%": return Opnd("reg", x, ty)
    if x[0] == "@": return Opnd("global", x, ty)
    if x in ("null",): return Opnd("null", None, ty)
    if x in ("undef", "poison"): return Opnd("undef", None, ty)
    if x == "true": return Opnd("int", 1, ty)
    if x == "false": return Opnd("int", 0, ty)
    if x == "zeroinitializer": return Opnd("zero", None, ty)
    if x.startswith('c"'): return Opnd("str", _unescape(x[2:-1]), ty)
    if re.fullmatch(r"-?\d+", x): return Opnd("int", int(x), ty)
    if x in ("[", "{", "<"):
        if x == "<": ts.expect("{"); close = "}"
        else: close = {"[": "]", "{": "}"}[x]
        vs = []
        if not ts.accept(close):
            while True:
                vs.append(parse_typed(ts))
                if ts.accept(close): break
                ts.expect(",")
        if x == "<": ts.expect(">")
        return Opnd("agg", vs, ty)
    if x == "getelementptr":
        while ts.peek() in ("inbounds", "nuw", "nusw"): ts.next()
        ts.expect("("); bt = parse_type(ts); ts.expect(",")
        ops = [parse_typed(ts)]
        while ts.accept(","): ops.append(parse_typed(ts))
        ts.expect(")")
        return Opnd("gep", (bt, ops), ty)
    if x in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext"):
        ts.expect("("); v = parse_typed(ts); ts.expect("to"); t2 = parse_type(ts); ts.expect(")")
        return Opnd("cast", (x, v, t2), ty)
    raise Unsupported("value " + x)

def skip_attrs(ts):
    while True:
        p = ts.peek()
        if p in PARAM_ATTRS: ts.next()
        elif p == "align": ts.next(); (ts.next() if ts.peek() != "(" else None)
        elif p in PAREN_ATTRS:
            ts.next()
            if ts.accept("("):
                d = 1
                while d:
                    y = ts.next()
                    d += (y == "(") - (y == ")")
        else: return

def parse_typed(ts):
    t = parse_type(ts); skip_attrs(ts)
    if t.k == "metadata":
        raise Unsupported("metadata operand")
    return parse_value(ts, t)

class Instr:
    __slots__ = ("op", "dst", "ty", "a", "flags", "text")
    def __init__(self, op, dst, text): self.op, self.dst, self.text = op, dst, text; self.ty = None; self.a = None; self.flags = ()

class Func:
    def __init__(self, name, params, rty, vararg):
        self.name, self.params, self.rty, self.vararg = name, params, rty, vararg
        self.blocks = {}; self.entry = None; self.order = []; self.loops = None; self.attrs = ""

BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"}
CASTS = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze"}

def parse_instr(line):
    line = re.sub(r",\s*!\w+(\.\w+)*\s+!\d+", "", line)
    ts = TS(tokenize(line)); dst = None
    if ts.peek()[0] == "%" and len(ts.t) > 1 and ts.t[1] == "=":
        dst = ts.next(); ts.next()
    op = ts.next(); I = Instr(op, dst, line.strip())
    if op in ("tail", "musttail", "notail"): op = ts.next(); I.op = op
    if op in BINOPS:
        fl = []
        while ts.peek() in ("nsw", "nuw", "exact", "disjoint"): fl.append(ts.next())
        I.flags = tuple(fl); I.ty = parse_type(ts); a = parse_value(ts, I.ty); ts.expect(","); b = parse_value(ts, I.ty); I.a = (a, b)
    elif op == "icmp":
        while ts.peek() in ("samesign",): ts.next()
        pred = ts.next(); t = parse_type(ts); a = parse_value(ts, t); ts.expect(","); b = parse_value(ts, t); I.flags = pred; I.ty = t; I.a = (a, b)
    elif op in CASTS:
        while ts.peek() in ("nneg", "nuw", "nsw"): ts.next()
        v = parse_typed(ts)
        if op == "freeze": I.ty = v.ty
        else: ts.expect("to"); I.ty = parse_type(ts)
        I.a = (v,)
    elif op == "load":
        while ts.peek() in ("volatile", "atomic"): I.flags += (ts.next(),)
        I.ty = parse_type(ts); ts.expect(","); I.a = (parse_typed(ts),)
    elif op == "store":
        while ts.peek() in ("volatile", "atomic"): I.flags += (ts.next(),)
        v = parse_typed(ts); ts.expect(","); I.a = (v, parse_typed(ts))
    elif op == "alloca":
        I.ty = parse_type(ts); I.a = ()
        if ts.accept(","):
            if ts.peek() != "align":
                I.a = (parse_typed(ts),)
    elif op == "getelementptr":
        while ts.peek() in ("inbounds", "nuw", "nusw"): ts.next()
        I.ty = parse_type(ts); ts.expect(","); ops = [parse_typed(ts)]
        while ts.accept(","): ops.append(parse_typed(ts))
        I.a = tuple(ops)
    elif op == "br":
        if ts.accept("label"): I.a = (None, ts.next())
        else:
            c = parse_typed(ts); ts.expect(","); ts.expect("label"); t = ts.next(); ts.expect(","); ts.expect("label"); I.a = (c, t, ts.next())
    elif op == "switch":
        v = parse_typed(ts); ts.expect(","); ts.expect("label"); d = ts.next(); ts.expect("["); cs = []
        while not ts.accept("]"):
            c = parse_typed(ts); ts.expect(","); ts.expect("label"); cs.append((c, ts.next()))
        I.a = (v, d, cs)
    elif op == "ret":
        if ts.accept("void"): I.a = ()
        else: I.a = (parse_typed(ts),)
    elif op == "phi":
        I.ty = parse_type(ts); inc = []
        while True:
            ts.expect("["); v = parse_value(ts, I.ty); ts.expect(","); l = ts.next(); ts.expect("]"); inc.append((v, l))
            if not ts.accept(","): break
        I.a = inc
    elif op == "select":
        c = parse_typed(ts); ts.expect(","); a = parse_typed(ts); ts.expect(","); I.a = (c, a, parse_typed(ts)); I.ty = a.ty
    elif op == "call":
        while ts.peek() in ("fastcc", "ccc", "nsw", "nuw", "fast"): ts.next()
        skip_attrs(ts)
        t = parse_type(ts)
        if t.k == "func": t = t.elems[0]
        I.ty = t
        if ts.peek() == "asm": I.a = (Opnd("asm", line, PTR), []); return I
        cal = parse_value(ts, PTR); ts.expect("("); args = []
        while not ts.accept(")"):
            if ts.peek() == "metadata": raise Unsupported("metadata arg")
            args.append(parse_typed(ts)); ts.accept(",")
        I.a = (cal, args)
    elif op == "unreachable": pass
    elif op == "extractvalue":
        v = parse_typed(ts); idx = []
        while ts.accept(","): idx.append(int(ts.next()))
        I.a = (v, idx)
    elif op == "cmpxchg":
        while ts.peek() in ("weak", "volatile"): I.flags += (ts.next(),)
        p = parse_typed(ts); ts.expect(","); c = parse_typed(ts); ts.expect(","); n = parse_typed(ts); I.ty = c.ty; I.a = (p, c, n)
    elif op == "atomicrmw":
        while ts.peek() in ("volatile",): ts.next()
        I.flags = (ts.next(),); p = parse_typed(ts); ts.expect(","); v = parse_typed(ts); I.ty = v.ty; I.a = (p, v)
    elif op == "fence":
        I.a = ()
    elif op in ("va_arg", "insertvalue"):
        I.a = ()
    else:
        raise Unsupported("instruction " + op)
    return I

def parse_module(text):
    m = Module(); cur = None; blk = None; pending = None
    for raw in text.split("\n"):
        line = raw
        if cur is None:
            if line.startswith("%") and " = type " in line:
                name, rest = line.split(" = type ", 1)
                if rest.strip() == "opaque": continue
                m.types[name] = parse_type(TS(tokenize(rest)))
            elif line.startswith("@"):
                _global(m, line)
            elif line.startswith("declare"):
                mm = re.search(r"@([-\w$.]+)\(", line)
                if mm: m.decls.add(mm.group(1))
            elif line.startswith("define"):
                cur = _define(line); blk = None; anon = len([p for p in cur.params])
        else:
            s = line.strip()
            if line.startswith("}"):
                m.funcs[cur.name] = cur; cur = None; continue
            if not s or s.startswith(";"): continue
            mm = re.match(r'^([-a-zA-Z$._0-9]+|"[^"]*"):', line)
            if mm:
                blk = "%" + mm.group(1); cur.blocks[blk] = []; cur.order.append(blk)
                if cur.entry is None: cur.entry = blk
                continue
            if blk is None:
                blk = "%__entry"; cur.blocks[blk] = []; cur.order.append(blk); cur.entry = blk
            s = s.split(" ; ")[0] if '"' not in s else s
            if pending is not None:
                pending += " " + s
                if s.endswith("]"): s = pending; pending = None
                else: continue
            elif s.startswith("switch") and "]" not in s.split("[", 1)[-1]:
                pending = s; continue
            try:
                cur.blocks[blk].append(parse_instr(s))
            except Unsupported as e:
                I = Instr("unsupported", None, s); I.a = (str(e),); cur.blocks[blk].append(I)
    for f in m.funcs.values(): analyse_loops(f)
    return m

def _define(line):
    mm = re.search(r'@([-\w$.]+|"[^"]*")\(', line); name = mm.group(1)
    head = line[:mm.start()]; ts = TS(tokenize(line[mm.end():])); params = []; va = False
    while not ts.accept(")"):
        if ts.accept("..."): va = True
        else:
            # parameter attributes with byval need their type kept
            t = parse_type(ts); j = ts.i; skip_attrs(ts); at = ts.t[j:ts.i]
            nm = ts.next() if ts.peek() and ts.peek()[0] == "%" else "%" + str(len(params))
            params.append((t, nm, at))
        ts.accept(",")
    # return type: last type token(s) in head
    hts = tokenize(head); rty = None
    for j in range(len(hts)):
        try:
            tt = TS(hts[j:]); t = parse_type(tt)
            if tt.done(): rty = t; break
        except Exception: continue
    f = Func(name, params, rty, va); f.internal = " internal " in head
    return f

def _global(m, line):
    mm = re.match(r'^@([-\w$.]+|"[^"]*") = (.*)$', line)
    name, rest = mm.group(1), mm.group(2)
    rest = re.sub(r", align \d+.*$", "", rest); rest = re.sub(r", (comdat|section|!dbg).*$", "", rest)
    toks = tokenize(rest)
    const = "constant" in toks
    if "external" in toks or ("global" not in toks and "constant" not in toks):
        m.globals[name] = (None, None, False); return
    j = toks.index("constant") if const else toks.index("global")
    ts = TS(toks[j+1:])
    try:
        ty = parse_type(ts)
        init = parse_value(ts, ty) if not ts.done() else None
        m.globals[name] = (ty, init, const)
    except Unsupported as e:
        m.globals[name] = (None, str(e), const)

# ------------------------------------------------------------------------------------- CFG
def succs(f, b):
    i = f.blocks[b][-1]
    if i.op == "br": return [x for x in i.a[1:]]
    if i.op == "switch": return [i.a[1]] + [l for _, l in i.a[2]]
    return []

def analyse_loops(f):
    """natural loops: header -> set of blocks"""
    if not f.blocks: f.loops = {}; return
    reach = []; seen = set(); st = [(f.entry, iter(succs(f, f.entry)))]; seen.add(f.entry); post = []
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(succs(f, s)))); break
        else:
            post.append(b); st.pop()
    rpo = post[::-1]; idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succs(f, b): preds[s].append(b)
    dom = {f.entry: {f.entry}}
    allb = set(rpo)
    for b in rpo[1:]: dom[b] = set(allb)
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            nd = set(allb)
            for p in preds[b]: nd &= dom[p]
            nd.add(b)
            if nd != dom[b]: dom[b] = nd; ch = True
    loops = {}
    for b in rpo:
        for s in succs(f, b):
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x); st.extend(preds[x])
    # irreducible: retreating edge to non-dominator
    f.irreducible = any(idx[s] <= idx[b] and s not in dom[b] for b in rpo for s in succs(f, b))
    f.loops = loops
