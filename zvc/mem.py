"""Object memory.  StructMem: constant-size object, field map.  BufMem: cells x stride bytes, persistent
write log over an uninterpreted base (reads resolve to if-then-else terms; no array theory, no quantifiers)."""
import z3
from .terms import *

class Node:
    """persistent write log node"""
    __slots__ = ("kind", "prev", "a", "memo", "id")
    _n = 0
    def __init__(self, kind, prev, *a):
        self.kind, self.prev, self.a, self.memo = kind, prev, a, {}
        Node._n += 1; self.id = Node._n

def node_base(fn, axioms=None, const=None):
    """fn: python callable (cell, byte) -> BV8"""
    return Node("base", None, fn, axioms)

def log_read(node, cell, byte, ctx):
    key = (cell.get_id(), byte.get_id())
    m = node.memo.get(key)
    if m is not None: return m[0]
    k = node.kind
    if k == "base":
        v = node.a[0](cell, byte)
        if node.a[1]:
            for ax in node.a[1](cell, byte, v): ctx.add_axiom(ax)
    elif k == "store":
        c, b, val = node.a
        cond = And(beq(cell, c), beq(byte, b))
        v = val if is_t(cond) else ite(cond, val, log_read(node.prev, cell, byte, ctx))
    elif k == "copy":
        d, n, src, s = node.a
        rel = bsub(cell, d)
        cond = ult(rel, n)          # d + n does not wrap (bounds obligation): cell in [d, d+n)
        if is_f(cond): v = log_read(node.prev, cell, byte, ctx)
        elif is_t(cond): v = log_read(src, badd(rel, s), byte, ctx)
        else: v = ite(cond, log_read(src, badd(rel, s), byte, ctx), log_read(node.prev, cell, byte, ctx))
    elif k == "fill":
        d, n, val = node.a
        cond = ult(bsub(cell, d), n)
        v = val if is_t(cond) else ite(cond, val, log_read(node.prev, cell, byte, ctx))
    elif k == "fn":                 # region [d, d+n) := f(cell, byte)
        d, n, f = node.a
        cond = ult(bsub(cell, d), n)
        if is_t(cond): v = f(cell, byte)
        elif is_f(cond): v = log_read(node.prev, cell, byte, ctx)
        else: v = ite(cond, f(cell, byte), log_read(node.prev, cell, byte, ctx))
    else:
        raise Unsupported("log " + k)
    node.memo[key] = (v, cell, byte)
    return v

class StructMem:
    kind = "struct"
    def __init__(self, size, fields=None, live=True, garbage=None):
        self.size, self.fields, self.live = size, dict(fields or {}), live
        self.garbage = garbage      # None: reading an unset field is an obligation failure; else name prefix
    def copy(self):
        s = StructMem(self.size, self.fields, self.live, self.garbage); return s

class BufMem:
    kind = "buf"
    def __init__(self, cells, stride, node, live=True):
        self.cells, self.stride, self.node, self.live = cells, stride, node, live
    def copy(self): return BufMem(self.cells, self.stride, self.node, self.live)

class Obj:
    """static identity of an object"""
    def __init__(self, id, name, readonly=False, local=False):
        self.id, self.name, self.readonly, self.local = id, name, readonly, local
        self.base = z3.BitVec("addr_%s_%d" % (name, id), 64)
        self.info = {}
    def __repr__(self): return "%s#%d" % (self.name, self.id)
