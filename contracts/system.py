"""C18: the default allocator over any malloc/realloc/free; C21: wrappers over any behaviour of the system functions."""
import os
from zvc.registry import contract, HARNESS
from zvc import build
from zvc.spec import *
from zvc import spec as S
from contracts.common import failed
HERE = os.path.dirname(os.path.abspath(__file__))
EXTS = ["malloc", "realloc", "free", "calloc", "mprotect", "munmap", "msync", "sysconf", "getpagesize", "isatty", "__errno_location", "pthread_key_create", "pthread_key_delete", "pthread_getspecific",
        "pthread_setspecific", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "pthread_mutex_init", "pthread_mutex_lock",
        "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_mutex_destroy", "pthread_self"]
HARNESS["sys"] = ([build.REPO + "/src/Allocator.c"] + sorted(build.REPO + "/src/API/" + f for f in os.listdir(build.REPO + "/src/API") if f.endswith(".c")) + [HERE + "/c/system.c"], [], EXTS)
OK = SUCCESS
INV, INVOP, DENIED, NOMEM, BADSYS, NORES = (S.ST(1, c, 1) for c in (4, 5, 6, 10, 11, 12))
TRUE_, FALSE_ = S.TRUE, S.FALSE

# ------------------------------------------------------------------------------------------- C18
def fits(h, es, n):
    """es * n is representable; the equivalent forms code may test are related to it"""
    if not h.sym: return u(es) * u(n) < 1 << 64
    M = (1 << 64) - 1; f = ule(es, udiv(M, n)); p = mul(es, n)
    from zvc import terms as tt
    wide = [tt.ule(tt.bmul(tt.zext(a, 128), tt.zext(b, 128)), tt.bv(M, 128)) for a, b in ((es, n), (n, es))]
    for g in wide + [ule(n, udiv(M, es)), eq(udiv(p, n), es), eq(udiv(p, es), n)]: h.ctx.add_axiom(eq(f, g))
    return f
def prod(es, n): return mul(u(es), u(n))
def sys_events(r, *names): return [e[1] for e in r.events if e[0] == "ext" and e[1]["name"] in names]
def sizes(h):
    es, n = h.num("element_size", near=[1 << 32, 1 << 63, (1 << 63) + 1, 16, 3]), h.num("n", near=[1 << 32, 2, 1 << 61, 1 << 16])
    h.assume(And(ne(es, 0), ne(n, 0))); return es, n
def with_default(h, index, args, post):
    def p(r):
        f = r.load(r.ret, 8 * index, 8)
        r.ensure("C18", "the default allocator has all three callbacks", r.callable(f))
        if r.callable(f): r.call(f, [r.ret] + args, post)
    h.call("ZyanAllocatorDefault", [], p)
def no_memory(r, f): 
    ev = sys_events(r, "malloc", "realloc", "calloc")
    return Or(Not(f), any(not e["ok"] for e in ev))

@contract("C18", "ZyanAllocatorDefault ZyanAllocatorDefaultAllocate", module="sys")
def default_allocate(h):
    h.heapfns(); es, n = sizes(h); f = fits(h, es, n); out = h.out("p", 8, ptr=True)
    def post(r):
        got = [e for e in sys_events(r, "malloc", "realloc", "calloc") if e["ok"]]; bad = failed(r.ret)
        if r.decide(bad):
            r.ensure("C18", "failure is not-enough-memory and justified", And(eq(r.ret, NOMEM), no_memory(r, f)))
            r.ensure("C18", "nothing is leaked on failure", len(got) == len([e for e in sys_events(r, "free") if not (isinstance(e["old"], int) and not e["old"])]))
            return
        p = r.outval(out)
        r.ensure("C18", "success yields a block", r.valid_block(p))
        r.ensure("C18", "the product does not overflow", f)
        if r.valid_block(p): r.ensure("C18", "the block has at least n * element_size bytes", ule(prod(es, n), r.buf_cells(p)))
        r.ensure("C18", "one block is obtained", len(got) == 1)
    with_default(h, 0, [out, es, n], post)

@contract("C18", "ZyanAllocatorDefault ZyanAllocatorDefaultReallocate", module="sys")
def default_reallocate(h):
    h.heapfns(); es, n = sizes(h); f = fits(h, es, n); old = h.num("old size", small=9); h.assume(And(ule(1, old), ule(old, h.max_cells())))
    k = h.forall("k", dom=12); b = h.buf("block", old, 1); h.heap_block(b); out = h.out("p", 8, b.ptr)
    def post(r):
        p = r.outval(out)
        if r.decide(failed(r.ret)):
            r.ensure("C18", "failure is not-enough-memory and justified", And(eq(r.ret, NOMEM), no_memory(r, f)))
            r.ensure("C18", "a failed reallocation keeps the caller's pointer", r.same(p, b.ptr))
            r.ensure("C18", "a failed reallocation keeps the old block", r.valid_block(b.ptr))
            if r.valid_block(b.ptr): r.ensure("C18", "a failed reallocation keeps the content", Implies(ult(k, old), r.buf_unchanged_at(b, k)))
            return
        r.ensure("C18", "success yields a block", r.valid_block(p))
        r.ensure("C18", "the product does not overflow", f)
        if r.valid_block(p):
            r.ensure("C18", "the block has at least n * element_size bytes", ule(prod(es, n), r.buf_cells(p)))
            r.ensure("C18", "content is preserved up to the smaller size", Implies(And(ult(k, old), ult(k, prod(es, n))), eq(r.byte(p, k, 0, 1), b.pre(k))))
    with_default(h, 1, [out, es, n], post)

@contract("C18", "ZyanAllocatorDefault ZyanAllocatorDefaultDeallocate", module="sys")
def default_deallocate(h):
    h.heapfns(); es, n = sizes(h) if h.sym else (h.num("element_size", small=9), h.num("n", small=9)); h.assume(And(ne(es, 0), ne(n, 0))); h.assume(fits(h, es, n)); c = prod(es, n); h.assume(ule(c, h.max_cells()))
    b = h.buf("block", c, 1); h.heap_block(b)
    def post(r):
        ev = sys_events(r, "free", "malloc", "realloc", "calloc")
        r.ensure("C18", "deallocation succeeds and releases exactly the given block", And(eq(r.ret, OK), len(ev) == 1, Not(r.valid_block(b.ptr))))
    with_default(h, 2, [b.ptr, es, n], post)

@contract("C18", "ZyanAllocatorInit", module="sys")
def allocator_init(h):
    null = [h.choice(n, ["given", "null"]) == "null" for n in ("allocator", "allocate", "reallocate", "deallocate")]
    al = h.struct("ZyanAllocator", {k: h.num("previous " + k) for k in ("allocate", "reallocate", "deallocate")})
    cb = [None if null[i + 1] else h.fn_value(k) for i, k in enumerate(("allocate", "reallocate", "deallocate"))]
    def post(r):
        if any(null):
            r.ensure("C18", "missing callbacks are rejected", eq(r.ret, INV))
            r.ensure("C18", "a rejected call changes nothing", r.fields_unchanged(al)); return
        r.ensure("C18", "three callbacks are accepted", eq(r.ret, OK))
        for k, c in zip(("allocate", "reallocate", "deallocate"), cb): r.ensure("C18", "callbacks are stored as given", r.same(r.field(al, k), c))
    h.call("ZyanAllocatorInit", [None if null[0] else al.ptr] + cb, post)

# ------------------------------------------------------------------------------------------- C21
def one(r, n):
    """the only call of a system function (errno aside)"""
    ev = [e[1] for e in r.events if e[0] == "ext" and e[1]["name"] != "__errno_location"]
    r.ensure("C21", "%s is called exactly once and nothing else" % n, len(ev) == 1 and ev[0]["name"] == n)
    return ev[0] if len(ev) == 1 and ev[0]["name"] == n else None
def passes(r, e, args):
    for i, a in enumerate(args): r.ensure("C21", "argument %d of %s is passed unchanged" % (i, e["name"]), r.same(low(e["args"][i], a), a))
def low(x, a):
    """the part of a (natively 64-bit) argument register that the callee reads"""
    from zvc import terms as tt
    return x if not isinstance(x, int) else x & 0xffffffff if isinstance(a, Int32) or (isinstance(a, KVar) and getattr(a, "w", 64) == 32) else x
class Int32(int): pass
def maps(r, v, table, default=BADSYS):
    """exact status of an error number"""
    want = eq(r.ret, default)
    for k, s in table.items(): want = And(Implies(eq(v, k), eq(r.ret, s)), Implies(ne(v, k), want))
    r.ensure("C21", "success exactly if the system call succeeded, and the documented error otherwise", And(Implies(eq(v, 0), eq(r.ret, OK)), Implies(ne(v, 0), want)))
def errno(h):
    e = h.num("errno", 32, dom=[0, 4, 9, 11, 12, 22, 25]); c = h.raw("errno", 4, {0: (4, e)}); h.ext("__errno_location", ret=c); return e
EAGAIN, ENOMEM, EPERM, EBUSY, EINVAL, EBADF = 11, 12, 1, 16, 22, 9

@contract("C21", "ZyanMemoryVirtualProtect ZyanMemoryVirtualFree ZyanProcessFlushInstructionCache ZyanMemoryGetSystemPageSize ZyanMemoryGetSystemAllocationGranularity page_zyan page_sys", module="sys")
def memory(h):
    f = h.choice("f", ["protect", "free", "flush", "page", "granularity", "enum"])
    if f == "enum":
        i = h.choice("i", range(5))
        def p(r):
            a = r.ret; r.call("page_sys", [i], lambda r2: r2.ensure("C21", "page protections have the system's values", eq(a, r2.ret)))
        h.call("page_zyan", [i], p); return
    errno(h); a, n, pr = h.num("address"), h.num("size"), Int32(3)
    if h.sym: pr = h.num("protection", 32)
    else: pr = Int32(u(h.num("protection", 32)))
    if f in ("page", "granularity"):
        h.ext("sysconf", 64, dom=[4096, 16384, 65536])
        def post(r):
            e = one(r, "sysconf")
            if e is None: return
            passes(r, e, [Int32(30) if not h.sym else 30]); v = e["ret"]
            r.ensure("C21", "the system's page size is returned", eq(zx(r.ret), band(v, 0xffffffff)))
        h.call("ZyanMemoryGetSystemPageSize" if f == "page" else "ZyanMemoryGetSystemAllocationGranularity", [], post); return
    name = {"protect": "mprotect", "free": "munmap", "flush": "msync"}[f]; h.ext(name, kind="neg")
    def post(r):
        e = one(r, name)
        if e is None: return
        passes(r, e, [a, n] + ([pr] if f == "protect" else [Int32(6) if not h.sym else 6] if f == "flush" else []))
        maps(r, e["ret"], {})
    h.call({"protect": "ZyanMemoryVirtualProtect", "free": "ZyanMemoryVirtualFree", "flush": "ZyanProcessFlushInstructionCache"}[f], [a, n] + ([pr] if f == "protect" else []), post)

@contract("C21", "ZyanTerminalIsTTY ZyanTerminalEnableVT100 stream_in stream_out stream_err", module="sys")
def terminal(h):
    f = h.choice("f", ["isatty", "vt100"])
    if f == "vt100":
        s = h.num("stream", 32, dom=[0, 1, 2, 3])
        def post(r):
            r.ensure("C21", "only the output streams are accepted", eq(r.ret, sel(Or(eq(s, 1), eq(s, 2)), OK, INV)))
            r.ensure("C21", "nothing is called", len(r.events) == 0)
        def pre(r):
            r.ensure("C21", "output stream number", eq(r.ret, 1)); r.call("stream_err", [], pre2)
        def pre2(r):
            r.ensure("C21", "error stream number", eq(r.ret, 2)); r.call("ZyanTerminalEnableVT100", [s], post)
        h.call("stream_out", [], pre); return
    s = h.choice("stream", ["in", "out", "err"]); en = errno(h); h.ext("isatty", kind="bool")
    def p(r):
        def post(r2):
            e = one(r2, "isatty")
            if e is None: return
            passes(r2, e, [["in", "out", "err"].index(s)] if h.sym else [Int32(["in", "out", "err"].index(s))]); v = e["ret"]
            r2.ensure("C21", "true exactly for a terminal, invalid argument for an invalid descriptor, false otherwise",
                      eq(r2.ret, sel(ne(v, 0), TRUE_, sel(eq(en, EBADF), INV, FALSE_))))
        r.call("ZyanTerminalIsTTY", [r.ret], post)
    h.call("stream_" + s, [], p)
def sel(c, a, b):
    if isinstance(c, bool): return a if c else b
    from zvc import terms as tt
    w = lambda x: tt.bv(x, 32) if isinstance(x, int) else x
    return tt.ite(c, w(a), w(b))

@contract("C21", "ZyanThreadTlsAlloc ZyanThreadTlsFree ZyanThreadTlsGetValue ZyanThreadTlsSetValue ZyanThreadGetCurrentThread ZyanThreadGetCurrentThreadId", module="sys")
def thread(h):
    f = h.choice("f", ["alloc", "free", "get", "set", "self", "id"]); errno(h)
    ix = h.num("index", 32) if h.sym else Int32(u(h.num("index", 32))); d = h.num("data")
    if f == "alloc":
        h.ext("pthread_key_create", kind="errno", writes=[(0, 4)]); dt = h.fn_value("destructor"); out = h.out("index", 4)
        def post(r):
            e = one(r, "pthread_key_create")
            if e is None: return
            r.ensure("C21", "the destructor is passed on", r.same(e["args"][1], dt)); maps(r, e["ret"], {EAGAIN: NORES, ENOMEM: NOMEM})
            if r.decide(eq(e["ret"], 0)): r.ensure("C21", "the index is the key that was created", eq(r.outval(out), e["out"].get(0, 0)))
            else: r.ensure("C21", "the index is written only on success", r.out_unchanged(out))
        h.call("ZyanThreadTlsAlloc", [out, dt], post)
    elif f == "free":
        h.ext("pthread_key_delete", kind="errno")
        def post(r):
            e = one(r, "pthread_key_delete")
            if e is not None: passes(r, e, [ix]); maps(r, e["ret"], {})
        h.call("ZyanThreadTlsFree", [ix], post)
    elif f == "get":
        h.ext("pthread_getspecific", 64); out = h.out("data", 8, ptr=True)
        def post(r):
            e = one(r, "pthread_getspecific")
            if e is not None: passes(r, e, [ix]); r.ensure("C21", "the stored value is returned", And(eq(r.ret, OK), r.same(r.outval(out), e["ret"])))
        h.call("ZyanThreadTlsGetValue", [ix, out], post)
    elif f == "set":
        h.ext("pthread_setspecific", kind="errno")
        def post(r):
            e = one(r, "pthread_setspecific")
            if e is not None: passes(r, e, [ix, d]); maps(r, e["ret"], {EINVAL: INV})
        h.call("ZyanThreadTlsSetValue", [ix, d], post)
    else:
        cell = h.raw("thread", 8, {0: (8, d)}, readonly=True); out = h.out("thread", 8); h.ext("pthread_self", ret=cell)
        def post(r):
            r.ensure("C21", "the calling thread is returned", And(eq(r.ret, OK), r.same(r.outval(out), cell.ptr) if f == "self" else eq(r.outval(out), d)))
        h.call("ZyanThreadGetCurrentThread" if f == "self" else "ZyanThreadGetCurrentThreadId", [out], post)

@contract("C21", "ZyanCriticalSectionInitialize ZyanCriticalSectionEnter ZyanCriticalSectionTryEnter ZyanCriticalSectionLeave ZyanCriticalSectionDelete", module="sys")
def critical_section(h):
    f = h.choice("f", ["init", "enter", "try", "leave", "delete"]); errno(h)
    cs = h.raw("section", 40, {0: (8, h.num("state"))})
    if f != "init":
        n = {"enter": "lock", "try": "trylock", "leave": "unlock", "delete": "destroy"}[f]; h.ext("pthread_mutex_" + n, kind="errno")
        def post(r):
            e = one(r, "pthread_mutex_" + n)
            if e is None: return
            passes(r, e, [cs.ptr])
            if f == "try": r.ensure("C21", "true exactly if the lock was taken", eq(r.ret, sel8(eq(e["ret"], 0))))
            else: maps(r, e["ret"], {"enter": {EINVAL: INV, EAGAIN: INVOP}, "leave": {EINVAL: INV, EPERM: INVOP}, "delete": {EBUSY: INV, EINVAL: INV}}[f])
        h.call({"enter": "ZyanCriticalSectionEnter", "try": "ZyanCriticalSectionTryEnter", "leave": "ZyanCriticalSectionLeave", "delete": "ZyanCriticalSectionDelete"}[f], [cs.ptr], post); return
    h.ext("pthread_mutexattr_init", kind="errno", writes=[(0, 4)]); h.ext("pthread_mutexattr_settype", kind="ok"); h.ext("pthread_mutexattr_destroy", kind="ok"); h.ext("pthread_mutex_init", kind="errno")
    def post(r):
        ev = [e[1] for e in r.events if e[0] == "ext" and e[1]["name"] != "__errno_location"]; names = [e["name"][8:] for e in ev]
        r.ensure("C21", "attribute is created first", names[:1] == ["mutexattr_init"])
        if names[:1] != ["mutexattr_init"]: return
        e0 = ev[0]; at = e0["args"][0]
        if r.decide(ne(e0["ret"], 0)):
            r.ensure("C21", "nothing else is called without an attribute", len(ev) == 1); maps(r, e0["ret"], {ENOMEM: NOMEM}); return
        r.ensure("C21", "attribute is used and released exactly once on every path", names == ["mutexattr_init", "mutexattr_settype", "mutex_init", "mutexattr_destroy"])
        if names != ["mutexattr_init", "mutexattr_settype", "mutex_init", "mutexattr_destroy"]: return
        one_ = Int32(1) if not h.sym else 1
        passes(r, ev[1], [at, one_]); passes(r, ev[2], [cs.ptr, at]); passes(r, ev[3], [at])
        maps(r, ev[2]["ret"], {EAGAIN: NORES, ENOMEM: NOMEM, EPERM: DENIED, EBUSY: INV, EINVAL: INV})
    h.call("ZyanCriticalSectionInitialize", [cs.ptr], post)
def sel8(c): 
    if isinstance(c, bool): return 1 if c else 0
    from zvc import terms as tt
    return tt.b2bv(c, 8)
