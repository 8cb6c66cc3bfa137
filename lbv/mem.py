"""Memory model: objects with typed scalar cells and symbolic-index array segments."""
import z3
from .terms import *
from . import ir

class Structural(Exception):
    """the verifier cannot interpret this code (not a verdict about it)"""

class Undef:
    """indeterminate value; using it is an obligation failure"""
    def __repr__(self): return 'UNDEF'
UNDEF = Undef()

class Lin:
    """offset = const + sum coef*term  (mod 2^64)"""
    __slots__ = ('c', 't')
    def __init__(self, c, t):
        self.c, self.t = c, t
    def term(self):
        r = z3.BitVecVal(self.c, 64)
        for coef, x in self.t.values():
            r = r + (x if coef == 1 else x * z3.BitVecVal(coef & mask(64), 64))
        return simp(r)

def decompose(x):
    """64-bit term -> (const, [(coef, atom)])"""
    if isinstance(x, int): return to_signed(x, 64), []
    if z3.is_bv_value(x): return to_signed(x.as_long(), 64), []
    if x.decl().kind() == z3.Z3_OP_BADD:
        c, ts = 0, []
        for i in range(x.num_args()):
            c1, t1 = decompose(x.arg(i))
            c += c1; ts += t1
        return c, ts
    if x.decl().kind() == z3.Z3_OP_BMUL and x.num_args() == 2 and z3.is_bv_value(x.arg(0)):
        c1, t1 = decompose(x.arg(1))
        k = to_signed(x.arg(0).as_long(), 64)
        return c1 * k, [(a * k, b) for a, b in t1]
    return 0, [(1, x)]

def off_add(off, idx, scale):
    """off: int|Lin ; idx: int (canonical 64) | BV64"""
    c, ts = decompose(idx)
    if not ts and isinstance(off, int):
        return off + c * scale
    if isinstance(off, int): bc, bt = off, {}
    else: bc, bt = off.c, dict(off.t)
    bc += c * scale
    for coef, x in ts:
        k = x.get_id()
        if k in bt:
            n = bt[k][0] + coef * scale
            if n == 0: del bt[k]
            else: bt[k] = (n, x)
        else:
            bt[k] = (coef * scale, x)
    if not bt: return bc
    return Lin(bc, bt)

def off_term(off):
    return off & mask(64) if isinstance(off, int) else off.term()

class Ptr:
    __slots__ = ('obj', 'off', 'past')
    def __init__(self, obj, off=0, past=None):
        # past: condition under which it points just past the end of an array
        self.obj, self.off, self.past = obj, off, past
    def __repr__(self):
        if self.obj is None: return 'null' if self.off == 0 else 'badptr'
        return '&%s+%s' % (self.obj.name, self.off if isinstance(self.off, int) else self.off.term())
    @property
    def null(self): return self.obj is None
    def plus(self, idx, scale=1):
        return Ptr(self.obj, off_add(self.off, idx, scale))
NULL = Ptr(None, 0)

class FuncPtr:
    def __init__(self, name): self.name = name

KSIZE = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'f64': 8, 'ptr': 8}
def tkey(ty):
    if ty.k == 'int': return 'i%d' % ty.a
    if ty.k in ('ptr', 'f64'): return ty.k
    raise Structural('scalar type %r' % ty)
def kwidth(k): return int(k[1:])

# ---------------------------------------------------------------- functional arrays
def idx_eq(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    if not isinstance(a, int) and not isinstance(b, int) and a.eq(b): return True
    return icmp('eq', 64, a, b)

class Node:
    facts = None
    seen = None
    slen = None
    nuls = ()
    def add_fact(self, ctx, f):
        """f(ctx, idx, val): a fact true at every index of this array version"""
        if self.facts is None: self.facts = []
        self.facts.append(f)
        for i, v in list(self.seen or ()): f(ctx, i, v)
    def fire(self, ctx, idx, v):
        if self.seen is None: self.seen = []
        self.seen.append((idx, v))
        if self.facts:
            for f in list(self.facts): f(ctx, idx, v)

class BaseUF(Node):
    """unconstrained scalar array; value at idx is an uninterpreted function of idx"""
    def __init__(self, name, key):
        self.name, self.key = name, key
        if key == 'f64': self.f = z3.Function(name, z3.BitVecSort(64), F64S)
        else: self.f = z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(kwidth(key)))
        self.keys = []
        self.unary = []
        self.pair = []
    def read(self, ctx, idx):
        for k, v in self.keys:
            if idx_eq(k, idx) is True: return v
        v = self.f(bv(idx, 64))
        self.keys.append((idx, v))
        for f in list(self.unary): ctx.assume(f(idx, v))
        for k, w in list(self.keys):
            if k is idx: continue
            for f in list(self.pair):
                ctx.assume(f(k, w, idx, v)); ctx.assume(f(idx, v, k, w))
        self.fire(ctx, idx, v)
        return v
    def add_unary(self, ctx, f):
        self.unary.append(f)
        for k, v in list(self.keys): ctx.assume(f(k, v))
    def add_pair(self, ctx, f):
        self.pair.append(f)
        ks = list(self.keys)
        for i, (k, v) in enumerate(ks):
            for k2, v2 in ks[i + 1:]:
                ctx.assume(f(k, v, k2, v2)); ctx.assume(f(k2, v2, k, v))

class BaseObj(Node):
    """array of pointers: element objects are created on first access at an index
    (indices forked on equality with the ones already seen)"""
    def __init__(self, make):
        self.make = make         # make(ctx, idx) -> Ptr
        self.keys = []
    def read(self, ctx, idx):
        for k, v in self.keys:
            if idx_eq(k, idx) is True: return v
        for k, v in self.keys:
            if ctx.branch(idx_eq(k, idx)): return v
        v = self.make(ctx, idx)
        self.keys.append((idx, v))
        self.fire(ctx, idx, v)
        return v

class ConstArr(Node):
    def __init__(self, v): self.v = v
    def read(self, ctx, idx): return self.v

class Bytes(Node):
    def __init__(self, b): self.b = b
    def read(self, ctx, idx):
        if not isinstance(idx, int): idx = ctx.concretize(idx, 64)
        return self.b[idx] if 0 <= idx < len(self.b) else UNDEF

class Vals(Node):
    def __init__(self, vs, w=None): self.vs, self.w = vs, w
    def read(self, ctx, idx):
        if not isinstance(idx, int):
            if self.w and all(isinstance(v, int) for v in self.vs):
                # constant table at a symbolic index (the access itself has been checked)
                r = z3.BitVecVal(self.vs[-1], self.w)
                for i in reversed(range(len(self.vs) - 1)):
                    if self.vs[i] != self.vs[i + 1] or True: r = z3.If(bv(idx, 64) == i, z3.BitVecVal(self.vs[i], self.w), r)
                return simp(r)
            idx = ctx.concretize(idx, 64)
        return self.vs[idx] if 0 <= idx < len(self.vs) else UNDEF

class Wr(Node):
    def __init__(self, prev, idx, val):
        self.prev, self.idx, self.val = prev, idx, val
    def read(self, ctx, idx):
        c = idx_eq(self.idx, idx)
        if c is True: v = self.val
        elif c is False: v = self.prev.read(ctx, idx)
        else: v = pick(ctx, c, lambda: self.val, lambda: self.prev.read(ctx, idx))
        self.fire(ctx, idx, v)
        return v

class Rng(Node):
    """fn(idx) on [lo,hi), prev elsewhere"""
    def __init__(self, prev, lo, hi, fn, src=None, delta=None):
        self.prev, self.lo, self.hi, self.fn = prev, lo, hi, fn
        self.src, self.delta = src, delta
    def read(self, ctx, idx):
        c = And(ule(self.lo, idx), ult(idx, self.hi))
        c = simp(c)
        if c is True: v = self.fn(ctx, idx)
        elif c is False: v = self.prev.read(ctx, idx)
        else: v = pick(ctx, c, lambda: self.fn(ctx, idx), lambda: self.prev.read(ctx, idx))
        self.fire(ctx, idx, v)
        return v

class Fn(Node):
    def __init__(self, fn, nuls=()): self.fn = fn; self.nuls = nuls
    def read(self, ctx, idx):
        v = self.fn(ctx, idx)
        self.fire(ctx, idx, v)
        return v

def pick(ctx, c, fa, fb):
    """value of (c ? fa() : fb()), without forking for scalar values already decided"""
    d = ctx.known(c)
    if d is True: return fa()
    if d is False: return fb()
    if ctx.branch(c): return fa()
    return fb()

class Seg:
    def __init__(self, start, stride, count, layout, mk, name=''):
        self.start, self.stride, self.count = start, stride, count
        self.layout = layout           # list of (fieldoff, key)
        self.mk = mk                   # mk(ctx, fieldoff, key) -> Node
        self.comps = {}
        self.name = name
    def comp(self, ctx, fo, key):
        c = self.comps.get((fo, key))
        if c is None:
            if (fo, key) not in self.layout:
                raise Structural('access to %s field +%d as %s' % (self.name, fo, key))
            c = self.comps[(fo, key)] = self.mk(ctx, fo, key)
        return c
    def set(self, ctx, fo, key, idx, val):
        c = self.comp(ctx, fo, key)
        for (f2, k2) in self.layout:
            if (f2, k2) != (fo, key) and f2 < fo + KSIZE[key] and fo < f2 + KSIZE[k2]:
                self.comps[(f2, k2)] = Wr(self.comp(ctx, f2, k2), idx, UNDEF)
        self.comps[(fo, key)] = Wr(c, idx, val)

class Obj:
    _n = 0
    def __init__(self, name, size, layout=None, default='lazy', init=None, const=False, heap=False):
        self.name, self.size, self.layout = name, size, layout
        self.default, self.init, self.const, self.heap = default, init, const, heap
        self.cells = {}        # off -> (key, val)
        self.segs = []
        self.freed = False
        self.born = None
        self.tag = None
        self.recs = None       # {base: (size, {(rel, key): val})}: whole records with overlapping members
    def __repr__(self): return '<%s>' % self.name
    def seg_for(self, off, n, hint=None):
        if isinstance(off, int):
            for s in self.segs:
                if s.count is None or not isinstance(s.count, int):
                    if off >= s.start: return s
                elif s.start <= off < s.start + s.stride * s.count: return s
            return None
        for s in self.segs:
            if all(c % s.stride == 0 for c, _ in off.t.values()):
                if s.count is None or not isinstance(s.count, int): return s
                if s.start <= off.c < s.start + s.stride * s.count: return s
        c = [s for s in self.segs if all(c % s.stride == 0 for c, _ in off.t.values())]
        if len(c) == 1: return c[0]
        return None

def seg_index(s, off):
    """(index, fieldoff) of byte offset off within segment s"""
    if isinstance(off, int):
        d = off - s.start
        return d // s.stride, d % s.stride
    d = off.c - s.start
    k, f = d // s.stride, d % s.stride
    r = z3.BitVecVal(k & mask(64), 64)
    for coef, x in off.t.values():
        q = coef // s.stride
        r = r + (x if q == 1 else x * z3.BitVecVal(q & mask(64), 64))
    return simp(r), f
