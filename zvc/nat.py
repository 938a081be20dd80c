"""Native interpretation of contracts: runs the library built from /repo on concrete inputs and evaluates the same
clauses.  Used to find a failing input for an obligation the prover does not discharge, and to replay it."""
import ctypes, os, random, mmap, signal, struct, json, time, resource, select, sys, traceback
from . import spec as S
from .spec import KVar, u, M64

libc = ctypes.CDLL(None, use_errno=True)
_mmap = libc.mmap; _mmap.restype = ctypes.c_void_p; _mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
_munmap = libc.munmap; _munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
_mprotect = libc.mprotect; _mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
PAGE = 4096; MAXBYTES = 1 << 20
class Skip(Exception): pass
class Violation(Exception):
    def __init__(self, what, props=None): self.what, self.props = what, props

class Region:
    __slots__ = ("addr", "size", "map", "maplen", "cells", "stride", "live", "owner", "readonly", "pre", "cur", "name", "align_end", "block")
def pg(n): return (n + PAGE - 1) // PAGE * PAGE

class Heap:
    """guard-paged regions; freed regions stay inaccessible until the end of the attempt"""
    def __init__(self, rnd): self.rnd = rnd; self.regions = []; self.live = []
    def new(self, size, name="", end=True):
        r = Region(); n = max(pg(size), PAGE)
        m = _mmap(None, n + 2 * PAGE, 0, mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS, -1, 0)
        if m is None or m == M64: raise Skip("mmap")
        _mprotect(m + PAGE, n, 3)
        r.map, r.maplen, r.size, r.name = m, n, size, name
        r.addr = m + PAGE + (n - size if end else 0); r.align_end = end
        pad = n - size
        if pad: ctypes.memset(m + PAGE if end else r.addr + size, 0xA5, pad)
        r.live, r.readonly, r.owner, r.cells, r.stride, r.pre, r.cur = True, False, None, None, 1, None, None; r.block = True
        self.regions.append(r); return r
    def pads_ok(self, r):
        n = r.maplen - r.size
        if n <= 0 or not r.live: return True
        a = r.map + PAGE if r.align_end else r.addr + r.size
        return ctypes.string_at(a, n) == b"\xA5" * n
    def kill(self, r):
        r.live = False; r.cur = ctypes.string_at(r.addr, r.size); _mprotect(r.map + PAGE, r.maplen, 0)
    def find(self, p):
        for r in reversed(self.regions):
            if r.addr <= p < r.addr + max(r.size, 1): return r
        return None
    def close(self):
        for r in self.regions: _munmap(r.map, r.maplen + 2 * PAGE)
        self.regions = []

def write(a, bs): ctypes.memmove(a, bytes(bs), len(bs))
def rd(a, n): return ctypes.string_at(a, n)
def asint(x):
    x = u(x)
    if x is None: return 0
    if isinstance(x, bool): return int(x)
    if isinstance(x, (Buf, Struct)): return x.ptr
    return x

class Buf:
    def __init__(self, h, reg, cells, stride): self.h, self.reg, self.cells, self.stride = h, reg, cells, stride; self.oid = reg
    @property
    def ptr(self): return self.reg.addr
    def at(self, cell=0, byte=0): return (self.reg.addr + u(cell) * self.stride + u(byte)) & M64
    def pre(self, cell, byte=0):
        o = u(cell) * self.stride + u(byte); p = self.reg.pre
        if p is None: p = rd(self.reg.addr, self.reg.size)
        return p[o] if 0 <= o < len(p) else 0
class Struct:
    def __init__(self, h, reg, tname, base=0): self.h, self.reg, self.tname, self.base = h, reg, tname, base; self.oid = reg
    @property
    def ptr(self): return self.reg.addr + self.base
    def sub(self, field):
        off, tn = self.h.lay.sub(self.tname, field); return Struct(self.h, self.reg, tn, self.base + off)

class NatH:
    mode = "nat"; sym = False
    def __init__(self, env, name, plan, seed, fixed=None, free_plan=False):
        self.env = env; self.lay = env.layout; self.name = name; self.plan = plan; self.plan_i = 0; self.taken = []
        self.rnd = random.Random(seed); self.fixed = fixed or {}; self.heap = Heap(self.rnd); self.kvars = []; self.kdom = {}
        self.values = {}; self.events = []; self.keep = []; self.violations = []; self.free_plan = free_plan; self.kassume = []
        self.counters = {}; self.post_assume = None; self.desc = []; self.overrides = {}; self.exts = {}; self.extfn = {}
        self.failrate = self.rnd.choice([0, 0, 0.3, 1.0])
    def choice(self, name, options):
        if self.plan_i < len(self.plan): i = self.plan[self.plan_i]
        else: i = self.rnd.randrange(len(options)) if self.free_plan else 0; self.plan.append(i)
        if i >= len(options): raise Skip("plan")
        self.plan_i += 1; self.taken.append((name, len(options), i)); return options[i]
    def num(self, name, w=64, near=(), small=False, dom=None):
        m = (1 << w) - 1; rn = self.rnd
        if name in self.fixed and rn.random() < 0.8: v = self.fixed[name] & m
        elif dom is not None and rn.random() < 0.9: v = rn.choice(list(dom)) & m
        else:
            x = rn.random()
            if near and x < 0.6: v = (u(rn.choice(list(near))) + rn.choice([0, 0, 0, -1, 1, -2, 2])) & m
            elif x < 0.93 or small is not False and x < 0.98: v = rn.randrange((small if small is not True and small is not False else 8) + 1) & m
            else:
                v = rn.choice([m, m - 1, m >> 1, (m >> 1) + 1, 1 << 32, (1 << 32) - 1, (1 << 32) + 1, rn.getrandbits(w)]) & m
                if near and rn.random() < 0.5: v = (v - u(rn.choice(list(near)))) & m
        self.values[name] = v; return v
    u64 = num
    def boolean(self, name): v = self.values[name] = self.rnd.random() < 0.5; return v
    def forall(self, name, w=64, dom=None, cell=True):
        k = KVar(name); self.kvars.append(k); self.kdom[name] = dom; return k
    def bounded(self, x, lo, hi): self.assume(lo <= x <= hi)
    def exact(self, x, lo, hi): pass
    def assume(self, c):
        if not c: raise Skip("assume")
    def given(self, f): self.kassume.append(f)
    def anchor(self, name, x): pass
    def stride(self, name="es", const=None):
        v = self.fixed.get(name, 0)
        if const is not None: self.values[name] = const; return const
        if not 1 <= v <= 64 or self.rnd.random() < 0.3: v = self.rnd.choice([1, 1, 2, 3, 4, 8, 8, 16])
        self.values[name] = v; return v
    def max_cells(self): return 1 << 47
    def buf(self, name, cells, stride=1, readonly=False, content=None, fact=None, cap=None, alphabet=None):
        cells = u(cells); stride = u(stride); n = cells * stride
        if n > MAXBYTES: raise Skip("size")
        r = self.heap.new(n, name, self.rnd.random() < 0.75)
        al = alphabet or self.rnd.choice([None, b"ab", b"aAbB", bytes(range(256)), b"\x00\x01\xff"])
        bs = bytearray(self.rnd.choice(al) if al else self.rnd.randrange(256) for _ in range(n))
        if content is not None:
            for i in range(n): bs[i] = content(i // stride, i % stride) & 255
        if fact is not None:
            for i in range(n):
                for t in range(300):
                    if fact(i // stride, i % stride, bs[i]): break
                    bs[i] = self.rnd.randrange(256) if t % 2 else self.rnd.randrange(2)
                else: raise Skip("fact")
        write(r.addr, bs); r.cells, r.stride, r.readonly = cells, stride, readonly
        self.values[name] = bytes(bs[:256]).hex(); return Buf(self, r, cells, stride)
    def cstring(self, name, n, fact=None):
        n = u(n)
        return self.buf(name, n + 1, 1, readonly=True, fact=lambda c, b, v: (v != 0 if c < n else v == 0) and (not fact or fact(c, b, v)))
    def setbytes(self, buf, off, bs): write(buf.reg.addr + off, bs); self.values[buf.reg.name] = rd(buf.reg.addr, min(buf.reg.size, 256)).hex()
    def struct(self, tname, fields, readonly=False, garbage=None, name=None):
        sz = self.lay.size(tname); r = self.heap.new(sz, name or tname, True); r.readonly = readonly; r.block = False
        write(r.addr, bytes(self.rnd.choice([0, 255, 0xA5, self.rnd.randrange(256)]) for _ in range(sz)))
        s = Struct(self, r, tname)
        for k, v in fields.items(): self.set_field(s, k, v)
        return s
    def raw(self, name, size, fields, readonly=False):
        r = self.heap.new(size, name, True); r.block = False; r.readonly = readonly
        write(r.addr, bytes(self.rnd.randrange(256) for _ in range(size)))
        for o, (n, v) in fields.items(): write(r.addr + o, (asint(v) & ((1 << 8 * n) - 1)).to_bytes(n, "little"))
        s = Struct(self, r, None); s.size = size; return s
    def set_field(self, s, k, v, st=None):
        off, size = self.lay.field(s.tname, k); v = asint(v)
        write(s.ptr + off, (v & ((1 << 8 * size) - 1)).to_bytes(size, "little"))
    def out(self, name, size=8, init=None, ptr=False):
        r = self.heap.new(size, name, True); r.block = False
        write(r.addr, (asint(init) if init is not None else self.rnd.getrandbits(8 * size)).to_bytes(size, "little"))
        s = Struct(self, r, None); s.size = size; return s
    def cfn(self, res, args, f):
        """python callback as C function pointer; exceptions become violations"""
        def g(*a):
            try: return f(*[0 if x is None else x for x in a])
            except Violation as e: self.violations.append((e.what, e.props)); return 0x80100001
            except Exception as e: self.violations.append(("harness: " + traceback.format_exc()[-400:], "internal")); return 0x80100001
        c = ctypes.CFUNCTYPE(res, *args)(g); self.keep.append(c); return ctypes.cast(c, ctypes.c_void_p).value
    def fn_value(self, name):
        def f(p): raise Violation("callback %s is called" % name)
        return self.cfn(None, [ctypes.c_void_p], f)
    def null(self): return 0
    def ghost(self, name, init): self.counters[name] = u(init)
    def loop_hook(self, f): pass
    def map_hook(self, *a, **k): pass
    pred_hook = result_hook = split_hook = unroll = try_unroll = map_hook
    # ---- allocator
    def fails(self): return self.rnd.random() < self.failrate
    def err(self): return self.rnd.choice([0x8010000A, 0x8010000B, 0x80100004, 0x80F00123])
    def allocator(self, stride, props=None, max_fail=None):
        al = self.struct("ZyanAllocator", {}, name="allocator"); es = u(stride); P = props
        V = ctypes.c_void_p; U = ctypes.c_uint64
        def chk(a, e, what):
            if a != al.ptr: raise Violation("%s is given the allocator it belongs to" % what, P)
            if e != es: raise Violation("%s is given the element size" % what, P)
        def pget(pp): return int.from_bytes(rd(pp, 8), "little")
        def allocate(a, pp, e, n):
            chk(a, e, "allocate")
            if n * es > MAXBYTES or self.fails():
                c = self.err(); self.events.append(("allocate", {"n": n, "ok": False, "status": c})); return c
            r = self.heap.new(n * es, "heap", True); write(r.addr, bytes(self.rnd.randrange(256) for _ in range(min(n * es, 512)))); r.cells, r.stride, r.owner = n, es, al
            write(pp, r.addr.to_bytes(8, "little")); self.events.append(("allocate", {"n": n, "ok": True, "ptr": r.addr, "status": 0x100000})); return 0x100000
        def blk(p, what):
            r = self.heap.find(p)
            if r is None or not r.live or r.owner is not al or r.addr != p: raise Violation("%s is given the live block this allocator returned" % what, P)
            return r
        def reallocate(a, pp, e, n):
            chk(a, e, "reallocate"); old = pget(pp); o = blk(old, "reallocate")
            if n * es > MAXBYTES or self.fails():
                c = self.err(); self.events.append(("reallocate", {"n": n, "ok": False, "status": c, "old": old})); return c
            r = self.heap.new(n * es, "heap", True); write(r.addr, bytes(self.rnd.randrange(256) for _ in range(min(n * es, 512))))
            r.cells, r.stride, r.owner = n, es, al
            ctypes.memmove(r.addr, o.addr, min(r.size, o.size)); self.heap.kill(o)
            write(pp, r.addr.to_bytes(8, "little")); self.events.append(("reallocate", {"n": n, "ok": True, "ptr": r.addr, "old": old, "status": 0x100000})); return 0x100000
        def deallocate(a, p, e, n):
            chk(a, e, "deallocate"); o = blk(p, "deallocate")
            if self.fails():
                c = self.err(); self.events.append(("deallocate", {"n": n, "ok": False, "status": c, "old": p, "cells": o.cells})); return c
            self.heap.kill(o); self.events.append(("deallocate", {"n": n, "ok": True, "old": p, "cells": o.cells, "status": 0x100000})); return 0x100000
        self.set_field(al, "allocate", self.cfn(ctypes.c_uint32, [V, V, U, U], allocate))
        self.set_field(al, "reallocate", self.cfn(ctypes.c_uint32, [V, V, U, U], reallocate))
        self.set_field(al, "deallocate", self.cfn(ctypes.c_uint32, [V, V, U, U], deallocate))
        return al
    def own(self, al, buf): buf.reg.owner = al
    def default_allocator(self, al): self.overrides["alloc"] = al.ptr
    def destructor(self, v, kd):
        log = self.counters["dtor_" + v.name] = []
        def f(p):
            data = int.from_bytes(rd(v.s.ptr + self.lay.field("ZyanVector", "data")[0], 8), "little")
            r = self.heap.find(p)
            if r is None or not r.live or r.addr != data or (p - r.addr) % v.es or (p - r.addr) // v.es >= v.size: raise Violation("destructor is given an element of the vector", ["C04"])
            i = (p - r.addr) // v.es
            pre = v.data.reg.pre[i * v.es:(i + 1) * v.es]
            if rd(p, v.es) != pre: raise Violation("element is intact when its destructor runs", ["C04"])
            log.append(i)
        return self.cfn(None, [ctypes.c_void_p], f)
    def constructor(self, es, name="ctor"):
        def f(p):
            r = self.heap.find(p)
            if r is None or not r.live or r.readonly or (p - r.addr) % es or p + es > r.addr + r.size: raise Violation("constructor is given element storage", ["C01", "C02"])
            bs = bytes(self.rnd.randrange(256) for _ in range(es)); write(p, bs)
            ok = self.rnd.random() < 0.5; st = 0x100000 if ok else self.err()
            self.events.append(("construct", {"ptr": p, "fn": bs, "ok": ok, "status": st})); return st
        return self.cfn(ctypes.c_uint32, [ctypes.c_void_p], f)
    def byte_operation(self, dst, src):
        class O: pass
        o = O(); tab = {}; fail = self.rnd.choice([0, 0, 0.2])
        def res(a, b):
            if (a, b) not in tab: tab[(a, b)] = self.rnd.randrange(256)
            return tab[(a, b)]
        def f(p, q):
            c = p - dst.reg.addr
            if not (0 <= c < dst.reg.size and q == src.reg.addr + c and c < src.reg.size): raise Violation("byte operation is given the bytes of both bitsets at one index")
            if self.rnd.random() < fail:
                st = self.err(); self.events.append(("byteop", {"ok": False, "status": st})); return st
            write(p, bytes([res(rd(p, 1)[0], rd(q, 1)[0])])); return 0x100000
        o.result = res; o.ptr = self.cfn(ctypes.c_uint32, [ctypes.c_void_p, ctypes.c_void_p], f); return o
    # ---- stand-ins for system functions
    def ext(self, name, rw=32, dom=(0,), writes=(), ret=None, kind="any"):
        dom = {"neg": [0, -1], "bool": [0, 1], "ok": [0], "errno": [0, 0, 0, 0, 1, 3, 4, 9, 11, 12, 16, 22, 35, 110], "any": list(dom) + [0, 1, M64]}[kind]
        self.exts[name] = (rw, dom, list(writes), ret)
    def run_ext(self, i, *a):
        n = self.env.exts[i]
        if n in self.extfn: return self.extfn[n](*a)
        if n not in self.exts: raise Violation("%s is not called here" % n)
        rw, dom, writes, ret = self.exts[n]
        if ret is not None: return asint(ret)
        v = self.rnd.choice(dom) & ((1 << rw) - 1) if rw else 0; out = {}
        if v == 0:
            for ix, sz in writes:
                out[ix] = self.rnd.getrandbits(8 * sz); write(a[ix], out[ix].to_bytes(sz, "little"))
        self.events.append(("ext", {"name": n, "args": list(a), "ret": v, "out": out})); return v
    def heapfns(self):
        """malloc, realloc and free"""
        self.hblocks = {}
        def rec(what, **k): self.events.append(("ext", dict(k, name=what)))
        def mk(n):
            if n > MAXBYTES or self.fails(): return 0
            r = self.heap.new(n, "heap", True); write(r.addr, bytes(self.rnd.randrange(256) for _ in range(min(n, 512)))); r.cells, r.stride, r.owner = n, 1, self.hblocks; return r.addr
        def blk(p, w):
            r = self.heap.find(p)
            if r is None or not r.live or r.owner is not self.hblocks or r.addr != p: raise Violation("%s is given a live block" % w)
            return r
        def malloc(n, *_): p = mk(n); rec("malloc", n=n, ptr=p, ok=p != 0); return p
        def realloc(o, n, *_):
            r = blk(o, "realloc"); p = mk(n)
            if p: ctypes.memmove(p, r.addr, min(n, r.size)); self.heap.kill(r)
            rec("realloc", n=n, ptr=p, old=o, ok=p != 0); return p
        def free(o, *_):
            if o: self.heap.kill(blk(o, "free"))
            rec("free", old=o, ok=True); return 0
        def calloc(a, b, *_): p = mk(a * b); rec("calloc", n=a * b, ptr=p, ok=p != 0); return p
        self.extfn.update(malloc=malloc, realloc=realloc, free=free, calloc=calloc)
    def formatter(self, fmt, variadic):
        """vsnprintf with the given format; the argument list is x86-64's, whose first word tells how many register arguments are consumed"""
        class O: pass
        o = O(); W = u(self.num("W", small=20)); self.assume(W < 4096); txt = bytes(self.rnd.randrange(1, 256) for _ in range(W)); fails = self.rnd.choice([0, 0, 0, 0.3, 1])
        def f(p, n, ft, va, *_):
            if ft != fmt.ptr: raise Violation("vsnprintf is given the format")
            if int.from_bytes(rd(va, 4), "little") != 8 * variadic: raise Violation("vsnprintf is given a started argument list that no call has consumed")
            write(va, (48).to_bytes(4, "little"))
            r = self.heap.find(p) if n else None
            if n and (r is None or not r.live or r.readonly or n > r.addr + r.size - p): raise Violation("vsnprintf writes inside its buffer")
            ok = self.rnd.random() >= fails; self.events.append(("format", {"ok": ok}))
            if not ok: write(p, bytes(self.rnd.randrange(256) for _ in range(min(n, 300)))); return (1 << 32) - 1
            if n: write(p, (txt[:n - 1] + b"\0")[:n])
            return W
        self.extfn["vsnprintf"] = f; o.length = W; o.char = lambda i: txt[u(i)] if u(i) < W else 0; o.args = [0x1111 * (i + 1) for i in range(5)]; return o
    def nodes(self, es, n, hw, C, dyn, g): return Nodes(self, es, n, hw, C, dyn, g)
    def node_hook(self, *a): pass
    def cmdline(self, null_defs): return Cmdline(self, null_defs)
    def heap_block(self, buf): buf.reg.owner = self.hblocks
    def _two(self, v, e, i, n, l, r):
        if l == e.ptr: l, r, sw = r, l, True
        else: sw = False
        d = v.data.reg
        if r != e.ptr or not (d.addr <= l < d.addr + v.size * v.es) or (l - d.addr) % v.es or not (u(i) <= (l - d.addr) // v.es < u(i) + u(n)):
            raise Violation("comparison is given an element of the range and the searched element", ["C06", "C02"])
        return (l - d.addr) // v.es, sw
    def equality(self, v, e, i, n):
        class O: pass
        o = O(); p = self.rnd.choice([0.0, 0.15, 0.5, 1.0]); tab = {}
        def m(k):
            k = u(k)
            if k not in tab: tab[k] = self.rnd.random() < p
            return tab[k]
        o.match = m; o.ptr = self.cfn(ctypes.c_uint8, [ctypes.c_void_p, ctypes.c_void_p], lambda l, r: int(m(self._two(v, e, i, n, l, r)[0]))); self.values["match"] = tab; return o
    def ordering(self, v, e, i, n, k):
        class O: pass
        o = O(); lo, cnt = u(i), u(n); a = lo + self.rnd.randrange(min(cnt, 64) + 1); b = a + self.rnd.choice([0, 0, 1, 2, 5]); big = self.rnd.random() < 0.3
        tab = {}
        def sg(q):
            q = u(q)
            if q not in tab: s = -1 if q < a else (0 if q < b else 1); tab[q] = s * (self.rnd.randrange(1, 1 << 31) if big else 1)
            return tab[q]
        o.less = lambda q: sg(q) < 0; o.equal = lambda q: sg(q) == 0; o.sign = sg
        def f(l, r):
            k, sw = self._two(v, e, i, n, l, r); x = sg(k); return -x if sw else x
        o.ptr = self.cfn(ctypes.c_int32, [ctypes.c_void_p, ctypes.c_void_p], f); self.values["equal range"] = [a, b]; return o
    # ---- call
    def prepare(self):
        for r in self.heap.regions:
            if r.live:
                r.pre = rd(r.addr, r.size); r.cur = None
                if r.readonly: _mprotect(r.map + PAGE, r.maplen, 1)
    def call(self, fname, args, post, ret=None):
        self.prepare(); self.events.clear()
        for c in self.counters.values():
            if isinstance(c, list): c.clear()
        f, sig = self.env.fn(fname) if isinstance(fname, str) else self.env.fnptr(fname, len(args))
        if isinstance(fname, int): fname = "callback"
        if getattr(self.env, "exts", None):
            U = ctypes.c_uint64
            ctypes.c_void_p.in_dll(self.env.lib, "zvc_ext").value = self.cfn(U, [U] * 6, self.run_ext)
        a2 = []
        for i, a in enumerate(args):
            a = asint(a); w, sx = sig["params"][i] if i < len(sig["params"]) else (64, False)
            a &= (1 << w) - 1
            if sx and w < 64 and a >> (w - 1): a = (a - (1 << w)) & M64
            a2.append(ctypes.c_uint64(a))
        self.env.set_default(self.overrides.get("alloc", 0))
        self.desc.append("%s(%s)" % (fname, ", ".join(self.show(a.value) for a in a2)))
        self.env.mark(self)
        rv = f(*a2)
        rw = sig["ret"]; rv = (rv or 0) & ((1 << rw) - 1) if rw else 0
        self.desc[-1] += " = 0x%x" % rv
        if self.violations: w, p = self.violations[0]; raise Violation(w, p)
        for r in self.heap.regions:
            if r.live:
                if r.readonly: _mprotect(r.map + PAGE, r.maplen, 3)
                r.cur = rd(r.addr, r.size)
                if not self.heap.pads_ok(r): raise Violation("memory outside of %s is not written" % r.name, None)
        self.check_post(post, rv)
    def show(self, v):
        r = self.heap.find(v) if v > 4096 else None
        if r is None: return "0x%x" % v if v > 9 else "%d" % v
        return "&%s+%d" % (r.name, v - r.addr) if v != r.addr else "&" + r.name
    def check_post(self, post, rv):
        doms = []
        for k in self.kvars:
            d = self.kdom[k.name]
            if d is None: d = 8
            if isinstance(d, int) and not isinstance(d, bool): d = list(range(max(1, min(d, 300))))
            doms.append(list(d))
        combos = []; total = 1
        for d in doms: total *= len(d)
        if total <= 200:
            def rec(i, cur):
                if i == len(doms): combos.append(list(cur)); return
                for x in doms[i]: rec(i + 1, cur + [x])
            rec(0, [])
        else:
            for j in range(200): combos.append([d[j % len(d)] if len(d) > 8 else self.rnd.choice(d) for d in doms])
        ok = 0; nested = []
        for c in combos:
            for k, x in zip(self.kvars, c): k.value = x
            if not all(f() for f in self.kassume): continue
            r = NatR(self, rv); ok += 1; r.nested = nested
            try: post(r)
            except Violation as e:
                if self.kvars: self.values["for"] = {k.name: k.value for k in self.kvars}
                raise

class Nodes:
    """native mirror of zvc/nodes.py: nodes are numbered in list order (then in the order of allocation), or by slot"""
    def __init__(self, h, es, n, hw, C, dyn, g):
        self.h, self.es, self.n, self.C, self.dyn, self.g, self.stride = h, es, n, C, dyn, g, es + 16; rnd = h.rnd; st = self.stride; self.log = h.counters["nodes destroyed"] = []; self.status = 0; self.made = []
        if n > 40 or C > 60: raise Skip("size")
        if dyn: self.order = list(range(n)); self.regs = [h.heap.new(st, "node %d" % i) for i in range(n)]
        else:
            o = list(range(hw)); rnd.shuffle(o); self.order = o + list(range(hw, C)); self.reg = None
        self.hw = hw; h.values["slots"] = self.order; self.al = None
        if dyn: self.setup(None)
    def setup(self, rem):
        h = self.h; rnd = h.rnd; st = self.stride
        if not self.dyn: self.reg = h.heap.new(self.C * st + rem, "buffer"); self.reg.block = False
        for c in range(self.n if self.dyn else self.C): write(self.addr(c), bytes(rnd.choice([0, 255, rnd.randrange(256)]) for _ in range(st)))
        for i in range(self.hw):
            c = self.order[i]; last = i + 1 == (self.n if i < self.n else self.hw); a = self.addr(c)
            write(a + 8, (0 if last else self.addr(self.order[i + 1])).to_bytes(8, "little"))
            if i < self.n: write(a, (0 if i == 0 else self.addr(self.order[i - 1])).to_bytes(8, "little"))
        self.orig = [rd(self.addr(c) + 16, self.es) for c in range(self.n if self.dyn else self.C)]; h.values["elements"] = [x.hex() for x in self.orig[:20]]
    def addr(self, c):
        c = u(c)
        if self.dyn: return self.regs[c].addr if c < len(self.regs) else 0
        return self.reg.addr + c * self.stride
    def valid(self, c): return u(c) < (len(self.regs) if self.dyn else self.C)
    def at(self, i): i = u(i); return self.order[i] if i < len(self.order) else i
    def pos(self, c): c = u(c); return self.order.index(c) if c < len(self.order) else c
    def ptr(self, c): return self.addr(c)
    def data_ptr(self, c): return self.addr(c) + 16
    def link(self, cond, i): return self.addr(self.at(i)) if cond else 0
    def capacity(self, rem): self.setup(rem); return self.C * self.stride + rem
    @property
    def buffer(self): return self.reg.addr
    def code_of(self, p):
        if p == 0: return M64
        if self.dyn:
            for i, r in enumerate(self.regs):
                if r.addr == p: return i
        else:
            o = p - self.reg.addr
            if 0 <= o < self.C * self.stride and o % self.stride == 0: return o // self.stride
        return M64 - 2
    def code(self, r, v): return self.code_of(asint(v))
    def bytes(self, c, o, n):
        c = u(c)
        if not self.valid(c): return bytes(n)
        if self.dyn: reg = self.regs[c]; a = o
        else: reg = self.reg; a = c * self.stride + o
        cur = reg.cur if reg.cur is not None else rd(reg.addr, reg.size)
        return cur[a:a + n]
    def next(self, r, c): return self.code_of(int.from_bytes(self.bytes(c, 8, 8), "little"))
    def prev(self, r, c): return self.code_of(int.from_bytes(self.bytes(c, 0, 8), "little"))
    def live(self, r, c): return int(self.valid(c) and self.regs[u(c)].live)
    def data(self, r, c, b): return (self.bytes(c, 16 + u(b), 1) or b"\0")[0]
    def element(self, c, b): c, b = u(c), u(b); return self.orig[c][b] if c < len(self.orig) and b < self.es else 0
    def destroyed(self, r): return self.log.count(u(self.g))
    def release_status(self, r): return self.status
    def allocator(self, props):
        h = self.h; al = h.struct("ZyanAllocator", {}, name="allocator"); V = ctypes.c_void_p; U = ctypes.c_uint64
        def chk(a, e, n, w):
            if a != al.ptr: raise Violation("%s is given the allocator of the list" % w, props)
            if e != self.stride or n != 1: raise Violation("%s is given the size of one node" % w, props)
        def allocate(a, pp, e, n):
            chk(a, e, n, "allocate")
            if len(self.regs) > 200 or h.rnd.random() < h.failrate / 3:
                c = h.err(); h.events.append(("allocate", {"ok": False, "status": c})); return c
            r = h.heap.new(self.stride, "node %d" % len(self.regs)); write(r.addr, bytes(h.rnd.randrange(256) for _ in range(self.stride))); self.regs.append(r); write(pp, r.addr.to_bytes(8, "little")); return 0x100000
        def deallocate(a, p, e, n):
            chk(a, e, n, "deallocate"); c = self.code_of(p)
            if c >= len(self.regs) or not self.regs[c].live: raise Violation("deallocate is given a node of the list that is not released yet", props)
            h.heap.kill(self.regs[c])
            if h.rnd.random() < h.failrate / 3: self.status = h.err(); return self.status
            return 0x100000
        def no(a, pp, e, n): raise Violation("nodes are not reallocated", props)
        h.set_field(al, "allocate", h.cfn(ctypes.c_uint32, [V, V, U, U], allocate)); h.set_field(al, "reallocate", h.cfn(ctypes.c_uint32, [V, V, U, U], no)); h.set_field(al, "deallocate", h.cfn(ctypes.c_uint32, [V, V, U, U], deallocate)); return al
    def destructor(self, g, b):
        def f(p):
            c = self.code_of(p - 16)
            if not (self.valid(c) and self.pos(c) < self.n and (not self.dyn or self.regs[c].live)): raise Violation("destructor is given an element of the list")
            if rd(p, self.es) != self.orig[c]: raise Violation("element is intact when its destructor runs")
            self.log.append(c)
        return self.h.cfn(None, [ctypes.c_void_p], f)
    def constructor(self):
        h = self.h
        def f(p):
            if self.code_of(p - 16) != (len(self.regs) - 1 if self.dyn else self.at(self.n)): raise Violation("constructor is given the storage of the new element")
            bs = bytes(h.rnd.randrange(256) for _ in range(self.es)); write(p, bs); ok = h.rnd.random() < 0.5; st = 0x100000 if ok else h.err()
            h.events.append(("construct", {"fn": bs, "ok": ok, "status": st})); return st
        return h.cfn(ctypes.c_uint32, [ctypes.c_void_p], f)

class Cmdline:
    """native mirror of zvc/args.py: a random command line over a small alphabet and its meaning"""
    def __init__(self, h, null_defs):
        self.h = h; rnd = h.rnd; pick = rnd.choice
        good = ["-a", "-b", "-c", "--x", "--ab", "--", "--a", "-\xe9", "--b"]; bad = ["", "-", "a", "-ab", "a-", "xyz", "-a-"]
        D = 0 if null_defs else rnd.randrange(5); odd = rnd.random() < 0.1
        self.names = [pick(good + bad * (1 if odd else 0)) for _ in range(D)]; self.bools = [pick([0, 1, 1, 255]) for _ in range(D)]; self.reqs = [pick([0, 0, 1, 2]) for _ in range(D)]
        letters = [n[1] for n in self.names if len(n) == 2] * 2 + ["a", "b", "c", "-"]
        def token():
            x = rnd.random()
            if x < 0.3 and self.names: return pick(self.names) + pick(["", "", "", "q", "a"])
            if x < 0.55: return "-" + "".join(pick(letters) for _ in range(rnd.randrange(1, 5)))
            if x < 0.65: return pick(["--", "-", "", "--zz", "--x=1", "-1"])
            return pick(["v", "value", "a", "x-y", "b"])
        argc = rnd.randrange(8); self.toks = [token() for _ in range(argc)]
        if rnd.random() < 0.5: self.min = 0; self.max = pick([8, M64, M64])
        else: self.max = rnd.randrange(5); self.min = rnd.randrange(self.max + (2 if odd else 1))
        h.values.update({"definitions": list(zip(self.names, self.bools, self.reqs)) if not null_defs else None, "argv": self.toks, "min_unnamed_args": self.min, "max_unnamed_args": self.max})
        def strs(ss, nm):
            out = []
            for x in ss:
                b = x.encode("latin1") + b"\0"; r = h.heap.new(len(b), nm); r.block = False; r.readonly = True; write(r.addr, b); out.append(r.addr)
            return out
        self.tok_at = strs(self.toks, "token"); self.name_at = strs(self.names, "name")
        def table(bs, nm): r = h.heap.new(len(bs), nm); r.block = False; r.readonly = True; write(r.addr, bs); return r.addr
        argv = table(b"".join(a.to_bytes(8, "little") for a in self.tok_at), "argv"); rec = h.lay.size("ZyanArgParseDefinition"); F = lambda f: h.lay.field("ZyanArgParseDefinition", f)[0]
        tb = bytearray(rec * (D + 1))
        for i in range(D): tb[i * rec + F("name"):i * rec + F("name") + 8] = self.name_at[i].to_bytes(8, "little"); tb[i * rec + F("boolean")] = self.bools[i]; tb[i * rec + F("required")] = self.reqs[i]
        self.defs = 0 if null_defs else table(bytes(tb), "definitions"); self.rec = rec; self.es = h.lay.size("ZyanArgParseArg")
        self.al = h.allocator(self.es); h.default_allocator(self.al); self.parsed = h.struct("ZyanVector", {}, name="parsed")
        self.cfg = h.struct("ZyanArgParseConfig", {"argv": argv, "argc": argc, "min_unnamed_args": self.min, "max_unnamed_args": self.max, "args": self.defs}, readonly=True, name="cfg"); self.parse()
    def parse(self):
        self.args = []; self.tok = self.miss = 0; self.out = self.meaning()
    def meaning(self):
        n = self.names; t = self.toks
        if self.min > self.max or any(len(x) < 2 or x[0] != "-" or x[1] != "-" and len(x) != 2 for x in n): return 0x80100004
        def err(code, i): self.tok = self.tok_at[i]; return 0x80300000 + code
        dashes = True; unnamed = 0; i = 1
        while i < len(t):
            x = t[i]
            if dashes and x == "--": dashes = False
            elif dashes and x.startswith("--"):
                if x not in n: return err(0, i)
                d = n.index(x)
                if self.bools[d]: self.args.append((d, None))
                elif i + 1 == len(t): return err(3, i)
                else: self.args.append((d, (i + 1, 0))); i += 1
            elif dashes and x.startswith("-") and len(x) > 1:
                at = i
                for j in range(1, len(x)):
                    if "-" + x[j] not in n: return err(0, at)
                    d = n.index("-" + x[j])
                    if self.bools[d]: self.args.append((d, None)); continue
                    if j + 1 < len(x): self.args.append((d, (i, j + 1)))
                    elif i + 1 == len(t): return err(3, at)
                    else: self.args.append((d, (i + 1, 0))); i += 1
                    break
            else:
                unnamed += 1
                if unnamed > self.max: return err(2, i)
                self.args.append((None, (i, 0)))
            i += 1
        if unnamed < self.min: return 0x80300001
        for d in range(len(n)):
            if self.reqs[d] and not any(a[0] == d for a in self.args): self.miss = self.name_at[d]; return 0x80300004
        return 0x00100000
    def args_of(self, fn, tok): return [self.cfg.ptr, self.parsed.ptr, tok] + ([self.al.ptr] if fn.endswith("Ex") else [])
    def outcome(self): return self.out
    def count(self): return len(self.args)
    def token(self): return self.tok
    def missing(self): return self.miss
    def blocks(self):
        lost = {e[1]["old"] for e in self.h.events if e[0] == "deallocate" and not e[1]["ok"]}
        return [r for r in self.h.heap.regions if r.owner is self.al and r.live and r.addr not in lost]
    def vector(self, r): return 1 if self.blocks() else 2
    def parsed_size(self, r): return r.field(self.parsed, "size")
    def element_ok(self, r):
        if r.field(self.parsed, "element_size") != self.es: return False
        data = r.field(self.parsed, "data"); blk = self.blocks(); L = self.h.lay
        if len(blk) != 1 or blk[0].addr != data or len(self.args) * self.es > blk[0].size or r.field(self.parsed, "size") > len(self.args): return False
        vo, vt = L.sub("ZyanArgParseArg", "value")
        for q in range(r.field(self.parsed, "size")):
            d, v = self.args[q]; g = lambda o, n: int.from_bytes(rd(data + q * self.es + o, n), "little")
            if g(0, 8) != (0 if d is None else self.defs + d * self.rec): return False
            if bool(g(L.field("ZyanArgParseArg", "has_value")[0], 1)) != (v is not None): return False
            if v is None: continue
            if g(72, 8) != self.tok_at[v[0]] + v[1] or g(40, 8) != len(self.toks[v[0]]) - v[1] + 1: return False
        return True

class NatR:
    sym = False
    def __init__(self, h, rv): self.h = h; self.ret = rv; self.events = h.events
    def decide(self, c): return bool(c)
    def ensure(self, props, name, cond):
        props = props.split() if isinstance(props, str) else list(props)
        if not cond:
            w = self.h.env.wanted
            if w and not set(props) & set(w): return
            raise Violation(name, props)
    def cover(self, name, cond=True): pass
    def fbytes(self, s, k, which):
        off, size = self.h.lay.field(s.tname, k); o = s.base + off
        return int.from_bytes((s.reg.cur if which else s.reg.pre)[o:o + size], "little")
    def field(self, s, k): return self.fbytes(s, k, True)
    def pre_field(self, s, k): return self.fbytes(s, k, False)
    def has_field(self, s, k): return True
    def fields_unchanged(self, s, names=None):
        return all(self.field(s, n) == self.pre_field(s, n) for n in names or self.h.lay.leaf_fields(s.tname))
    def same(self, a, b): return asint(a) == asint(b)
    def load(self, p, off, size): return int.from_bytes(rd(asint(p) + off, size), "little")
    def callable(self, p): return asint(p) != 0
    def outval(self, s): return int.from_bytes(s.reg.cur, "little")
    def out_unchanged(self, s): return s.reg.cur == s.reg.pre
    def is_null(self, p): return asint(p) == 0
    def ptr_at(self, p, base, cell, stride, byte=0): return asint(p) == asint(base) + u(cell) * u(stride) + u(byte)
    def ptr_in_block(self, p, data, cell, stride): return self.ptr_at(p, data, cell, stride)
    def byte(self, p, cell, byte, stride):
        a = asint(p) + u(cell) * u(stride) + u(byte); r = self.h.heap.find(asint(p))
        if r is None or not r.addr <= a < r.addr + r.size or r.cur is None: return 0
        return r.cur[a - r.addr]
    def _blk(self, p):
        r = self.h.heap.find(asint(p)); return r if r is not None and r.addr == asint(p) else None
    def valid_block(self, p):
        r = self._blk(p); return r is not None and r.live and r.block
    def buf_cells(self, p): return self._blk(p).cells
    def live(self, p): r = self._blk(p); return r is not None and r.live
    def buf_unchanged_at(self, buf, cell, byte=0):
        o = u(cell) * u(buf.stride) + u(byte)
        return not 0 <= o < buf.reg.size or buf.reg.cur[o] == buf.reg.pre[o]
    def destroyed(self, v): return sum(1 for i in self.h.counters["dtor_" + v.name] if i == u(v.kd))
    def constructed(self, ev, b): return ev[1]["fn"][u(b)] if u(b) < len(ev[1]["fn"]) else 0
    def ghost(self, n): return self.h.counters[n]
    def call(self, fname, args, post):
        """a further call; made once (its postcondition is evaluated for every index)"""
        if not self.nested: self.nested.append(1); self.h.call(fname, args, post)

class Env:
    """shared object + signatures"""
    def __init__(self, so, layout, sigs, wanted=None):
        self.so, self.layout, self.sigs, self.wanted = so, layout, sigs, wanted; self.lib = None; self.shared = None
    def load(self):
        if self.lib is None: self.lib = ctypes.CDLL(self.so)
    def fn(self, name):
        if name not in self.sigs: raise Violation("function %s exists" % name, None)
        f = getattr(self.lib, name); f.restype = ctypes.c_uint64; f.argtypes = None; return f, self.sigs[name]
    def fnptr(self, a, n):
        f = ctypes.CFUNCTYPE(ctypes.c_uint64, *[ctypes.c_uint64] * n)(a); return f, {"params": [(64, False)] * n, "ret": 32}
    def set_default(self, p):
        try: ctypes.c_void_p.in_dll(self.lib, "zvc_default_override").value = p or None
        except ValueError: pass
    def mark(self, h):
        """record the inputs of the call about to be made (survives a crash)"""
        if self.shared is not None:
            d = json.dumps({"values": h.values, "call": h.desc, "plan": h.plan[:h.plan_i]}, default=str).encode()[:60000]
            self.shared[16:16 + len(d) + 8] = struct.pack("<Q", len(d)) + d

def attempt(env, c, plan, seed, fixed, free_plan=False):
    """None or a violation dict"""
    h = NatH(env, c.name, list(plan), seed, fixed, free_plan)
    try:
        c.fn(h)
    except Skip: return "skip"
    except Violation as e:
        if e.props == "internal": return {"internal": e.what}
        w = env.wanted
        if e.props and w and not set(e.props) & set(w): return None
        return {"what": e.what, "props": e.props, "values": h.values, "call": h.desc, "seed": seed, "plan": h.plan[:h.plan_i]}
    finally:
        for c2 in h.heap.regions:
            if c2.live: _mprotect(c2.map + PAGE, c2.maplen, 3)
        h.heap.close()
    return None

def worker(env, c, plan, seeds, fixed, wfd, free_plan, per=4):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    fd = os.open("/dev/null", os.O_RDWR)
    for i in (1, 2): os.dup2(fd, i)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    env.load(); n = 0; sk = 0; internal = None
    for s in seeds:
        env.shared[0:8] = struct.pack("<Q", s); env.shared[8:16] = struct.pack("<Q", n); env.shared[16:24] = struct.pack("<Q", 0)
        signal.setitimer(signal.ITIMER_REAL, per)
        v = attempt(env, c, plan, s, fixed, free_plan)
        if v == "skip": sk += 1
        elif v and "internal" in v: internal = v["internal"]
        elif v: os.write(wfd, json.dumps(v, default=str).encode()); os._exit(3)
        else: n += 1
    signal.setitimer(signal.ITIMER_REAL, 0)
    os.write(wfd, json.dumps({"done": n, "skipped": sk, "internal": internal}).encode()); os._exit(0)

def search(env, c, plan, seconds, base=1, fixed=None, free_plan=False, batch=4000, max_attempts=10**9):
    """search for a failing input; returns (violation or None, attempts executed, internal error)"""
    env.shared = mmap.mmap(-1, 1 << 16); t_end = time.time() + seconds; s = base; total = 0; internal = None
    while time.time() < t_end and total < max_attempts:
        rfd, wfd = os.pipe(); pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd); worker(env, c, plan, range(s, s + batch), fixed, wfd, free_plan)
            except BaseException as e:
                try: os.write(wfd, json.dumps({"done": 0, "skipped": 0, "internal": traceback.format_exc()[-800:]}).encode())
                finally: os._exit(4)
        os.close(wfd); status = None; timed = False
        while status is None:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p: status = st; break
            if time.time() > t_end + 1: os.kill(pid, signal.SIGKILL); timed = True; status = os.waitpid(pid, 0)[1]; break
            time.sleep(0.01)
        data = b""
        while True:
            b = os.read(rfd, 65536)
            if not b: break
            data += b
        os.close(rfd)
        seed = struct.unpack("<Q", env.shared[0:8])[0]; ran = struct.unpack("<Q", env.shared[8:16])[0]; total += ran
        if data:
            d = json.loads(data)
            if "what" in d: return dict(d, search_plan=list(plan), fixed=fixed, free=free_plan), total, internal
            if d.get("internal"): internal = d["internal"]
            if d["done"] == 0 and d["skipped"] == 0: return None, total, internal
            s += batch; continue
        if timed: break
        if os.WIFSIGNALED(status):
            sig = os.WTERMSIG(status)
            n = struct.unpack("<Q", env.shared[16:24])[0]; info = {}
            if n:
                try: info = json.loads(env.shared[24:24 + n])
                except Exception: info = {}
            if n == 0 or sig == signal.SIGKILL: internal = "harness died with signal %d" % sig; s = seed + 1; continue
            what = {signal.SIGALRM: "the call returns", signal.SIGSEGV: "the call accesses only memory it is allowed to access", signal.SIGBUS: "the call accesses only memory it is allowed to access",
                    signal.SIGABRT: "no assertion fails", signal.SIGILL: "no undefined behaviour", signal.SIGTRAP: "no undefined behaviour", signal.SIGFPE: "no undefined arithmetic"}.get(sig, "the call returns")
            return dict(info, what=what, props=None, seed=seed, signal=sig, plan=info.get("plan", plan), search_plan=list(plan), fixed=fixed, free=free_plan), total, internal
        internal = "harness exit %d" % status; s = seed + 1
    return None, total, internal

def sigs_of(module):
    d = {}
    for n, f in module.funcs.items():
        ps = []
        for ty, nm, at in f.params:
            rt = module.resolve(ty); ps.append((rt.w if rt.k == "int" else 64, "signext" in (at or "")))
        r = module.resolve(f.rty); d[n] = {"params": ps, "ret": r.w if r.k == "int" else 64 if r.k == "ptr" else 0}
    return d
