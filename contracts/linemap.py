"""Contracts of Basic/linemap.c and bcode_index: the index is a finite map from line numbers
to instruction positions; a lookup finds the latest mapping of exactly that line number."""
from lbv.hlib import *
from lbv import terms

NULLCODE = 0
class Map:
    """arbitrary valid LINE_MAP: every chain runs through nodes of decreasing index below count"""
    def __init__(self, ctx, name='map'):
        self.ctx = ctx
        a = self.alloc = ctx.fresh(name + '.allocated', 32); ctx.assume(ule(a, 1 << 24, 32))
        c = self.count = ctx.fresh(name + '.count', 32); ctx.assume(ule(c, a, 32))
        self.nsz = ctx.prog.di.size('line_node')
        self.arr = None
        def nextp(cx, idx): return self.somenode(idx) if cx.choose(2) else NULL
        if not ctx.branch(eq(a, 0, 32)):
            nxt = BaseObj(nextp)
            def mkc(cx, fo, key): return nxt if key == 'ptr' else None
            self.arr = mk_array(ctx, name + '.nodes', z64(a), struct='line_node', mkcomp=mkc)
        m = self.p = mk(ctx, 'line_map', name, dict(allocated=a, count=c, nodes=self.arr or NULL))
        off, info = ctx.prog.di.field('line_map', 'hash[0]')
        n = 0
        for path, o, k in ctx.prog.di.scalars('line_map'):
            if path.startswith('hash['): n += 1
        self.size = n; self.hoff = off
        heads = BaseObj(lambda cx, idx: self.somenode(z64(c)) if self.arr is not None and cx.choose(2) else NULL)
        self.heads = heads
        m.obj.segs.append(Seg(off, 8, n, [(0, 'ptr')], lambda cx, fo, k: heads, 'hash'))
        for k in list(m.obj.layout):
            if off <= k < off + 8 * n: del m.obj.layout[k]
    def somenode(self, below):
        """pointer to an arbitrary node of index < below"""
        ctx = self.ctx
        j = ctx.fresh('node', 64)
        ctx.assume(ult(j, below)); ctx.assume(ult(j, z64(self.count)))
        return Ptr(self.arr.obj, Lin(0, {j.get_id(): (self.nsz, j)}))
    def code(self, p):
        if p.null: return 0
        idx, fo = seg_index(p.obj.segs[0], p.off)
        return add(idx, 1)
    def node(self, p, f):
        idx, fo = seg_index(p.obj.segs[0], p.off)
        return comp(self.ctx, self.arr, 'line_node', f).read(self.ctx, idx)

class Find:
    """ghost: does the chain from a node hold key k, and with which value (first match)"""
    def __init__(self, M, k, prev=None):
        self.M, self.k = M, k
        ctx = M.ctx
        n = ctx.name('FOUND')
        f = z3.Function(n, z3.BitVecSort(64), z3.BoolSort())
        v = z3.Function(ctx.name('VAL'), z3.BitVecSort(64), z3.BitVecSort(32))
        if prev is None: self.found, self.val = (lambda c: f(bv(c, 64))), (lambda c: v(bv(c, 64)))
        else:
            lim = z64(M.count0)
            self.found = lambda c: z3.If(B(ule(c, lim)), prev.found(c), f(bv(c, 64)))
            self.val = lambda c: z3.If(B(ule(c, lim)), prev.val(c), v(bv(c, 64)))
    def unfold(self, p):
        ctx, M = self.M.ctx, self.M
        c = M.code(p)
        if p.null:
            ctx.assume(Not(self.found(0))); return
        hit = B(eq(M.node(p, 'basic_line'), self.k, 32))
        nx = M.code(M.node(p, 'next'))
        ctx.assume(self.found(c) == z3.Or(hit, self.found(nx)))
        ctx.assume(self.val(c) == z3.If(hit, bv(M.node(p, 'val'), 32), self.val(nx)))
        if isinstance(nx, int): ctx.assume(Not(self.found(0)))
class Chain(LoopSpec):
    """the key's first match from the current node on is its first match from the chain head"""
    def __init__(self, F, head):
        LoopSpec.__init__(self, name='chain', roles={'node': ('ptr', ('node', 'n', 'p'))})
        self.F, self.head = F, head
    def inv(self, ctx, L, v):
        F, M = self.F, self.F.M
        h, c = M.code(self.head()), M.code(v['node'])
        return [('same-match', simp(F.found(c) == F.found(h))), ('same-value', Implies(simp(F.found(c)), simp(F.val(c) == F.val(h))))]
    def havoc_ptr(self, ctx, L, role, old):
        M = self.F.M
        p = M.somenode(z64(M.cur)) if M.arr is not None and ctx.choose(2) else NULL
        self.F.unfold(p)
        return p
    def variant(self, ctx, L, v): return self.F.M.code(v['node'])

def hidx(ctx, M, k): return ibin('urem', 32, k, M.size)
def head_of(ctx, M, k):
    sg = M.p.obj.segs[0]
    return sg.comp(ctx, 0, 'ptr').read(ctx, z64(hidx(ctx, M, k)))

def run_lookup(ctx, M, k, F, what):
    out = Obj('val', 4); out.cells[0] = ('i32', UNDEF)
    ctx.loopspecs = [Chain(F, lambda: head_of(ctx, M, k))]
    mark = len(ctx.wlog)
    kind, r = ctx.run('lookup_line_mapping', [M.p, k, Ptr(out)])
    ctx.loopspecs = []
    ctx.prove(kind == 'ret', what + ':returns')
    for (o, kd, off) in ctx.wlog[mark:]: ctx.prove(o is out, what + ':changes-nothing', o.name)
    r = as_bool(r)
    f = ctx.branch(r)
    return f, out.cells[0][1]

def lookup(ctx):
    terms.absrem = True
    ctx.stubs.update(ALLOC)
    M = Map(ctx); M.cur = M.count
    k = ctx.fresh('k', 32)
    F = Find(M, k)
    h = head_of(ctx, M, k)
    F.unfold(h)
    c = M.code(h)
    f, v = run_lookup(ctx, M, k, F, 'lookup')
    ctx.cover('lookup:%s' % f)
    ctx.prove(Iff(f, simp(F.found(c))), 'lookup:finds-exactly-mapped-lines')
    if f: ctx.prove(eq(v, simp(F.val(c)), 32), 'lookup:value')

def insert(ctx):
    terms.absrem = True
    ctx.stubs.update(ALLOC)
    M = Map(ctx); M.cur = M.count; M.count0 = M.count
    k, v, k2 = ctx.fresh('k', 32), ctx.fresh('v', 32), ctx.fresh('k2', 32)
    F = Find(M, k2)
    h = head_of(ctx, M, k2)
    F.unfold(h)
    old = M.code(h)
    full = ctx.branch(eq(M.count, M.alloc, 32))
    comps0 = {f: comp(ctx, M.arr, 'line_node', f) for f in ('basic_line', 'val', 'next')} if M.arr else {}
    heads0 = M.p.obj.segs[0].comp(ctx, 0, 'ptr')
    kind, r = ctx.run('insert_line_mapping', [M.p, k, v])
    ctx.prove(kind == 'ret', 'insert:returns')
    ctx.prove(Iff(as_bool(r), not full), 'insert:succeeds-unless-full')
    c1 = sgetf(ctx, M.p, 'line_map', 'count')
    ctx.prove(eq(c1, ibin('add', 32, M.count, 0 if full else 1), 32), 'insert:count')
    ctx.prove(eq(sgetf(ctx, M.p, 'line_map', 'allocated'), M.alloc, 32), 'insert:allocated')
    ctx.cover('insert:full=%s' % full)
    # frame: the mappings already there are untouched
    if M.arr:
        j = ctx.fresh('j', 64); ctx.assume(ult(j, z64(M.count)))
        for f, key in (('basic_line', 'i32'), ('val', 'i32'), ('next', 'ptr')):
            ctx.prove(same_value(ctx, comp(ctx, M.arr, 'line_node', f).read(ctx, j), comps0[f].read(ctx, j), key), 'insert:existing-nodes-unchanged')
    M.count = c1; M.cur = c1
    F2 = Find(M, k2, prev=F)
    h2 = head_of(ctx, M, k2)
    ok = h2.null or h2.obj is M.arr.obj
    ctx.prove(ok, 'insert:chain-head')
    if not h2.null: ctx.prove(ule(M.code(h2), z64(c1)), 'insert:chain-head-in-range')
    F2.unfold(h2)
    if not full:
        new = Ptr(M.arr.obj, off_add(0, z64(M.count0), M.nsz))
        nx = M.node(new, 'next')
        ctx.prove(isinstance(nx, Ptr) and (nx.null or nx.obj is M.arr.obj), 'insert:new-node-link')
        if not nx.null: ctx.prove(ule(M.code(nx), z64(M.count0)), 'insert:chain-rank')
    f, val = run_lookup(ctx, M, k2, F2, 'lookup-after-insert')
    if not full and ctx.branch(eq(k, k2, 32)):
        ctx.prove(f, 'insert:line-is-found-afterwards')
        if f: ctx.prove(eq(val, v, 32), 'insert:line-maps-to-the-value')
    else:
        ctx.prove(Iff(f, simp(F.found(old))), 'insert:other-lines-as-before')
        if f: ctx.prove(eq(val, simp(F.val(old)), 32), 'insert:other-values-as-before')

def new_map(ctx):
    """a new map holds no line"""
    terms.absrem = True
    ctx.stubs.update(ALLOC)
    def s_ecalloc(cx, a):
        p = ctx.malloc(ibin('mul', 64, a[0], a[1]), 'zero')
        if p.obj.size == cx.prog.di.size('line_map'):
            n = sum(1 for path, o, k in cx.prog.di.scalars('line_map') if path.startswith('hash['))
            p.obj.segs.append(Seg(cx.prog.di.field('line_map', 'hash[0]')[0], 8, n, [(0, 'ptr')], lambda c, fo, k: ConstArr(NULL), 'hash'))
        return p
    ctx.stubs['ecalloc'] = s_ecalloc
    n, k = ctx.fresh('n', 32), ctx.fresh('k', 32)
    ctx.assume(ule(n, 1 << 24, 32))
    kind, r = ctx.run('new_line_map', [n])
    ctx.prove(kind == 'ret' and isinstance(r, Ptr) and not r.null, 'new:returns-a-map')
    ctx.prove(eq(sgetf(ctx, r, 'line_map', 'allocated'), n, 32), 'new:capacity')
    ctx.prove(eq(sgetf(ctx, r, 'line_map', 'count'), 0, 32), 'new:empty')
    out = Obj('val', 4); out.cells[0] = ('i32', UNDEF)
    kind, f = ctx.run('lookup_line_mapping', [r, k, Ptr(out)])
    ctx.prove(kind == 'ret', 'new:lookup-returns')
    ctx.prove(Not(as_bool(f)), 'new:no-line-is-found')
    ctx.cover('new')
ALL = ['lookup', 'insert', 'new_map']
