"""Contracts of arrays.c: an array is a block of independent cells, one per subscript list within
the bounds, all zero or empty at first."""
from lbv.hlib import *
from lbv import terms

MAXE = 64 * 1024
def vec(ctx, name, n):
    o = Obj(ctx.name(name), 4 * max(n, 1))
    vs = []
    for i in range(n):
        v = ctx.fresh('%s%d' % (name, i), 32); vs.append(v); o.cells[4 * i] = ('i32', v)
    return Ptr(o), vs
def W(x): return z3.ZeroExt(16, bv(x, 32)) if not isinstance(x, int) else z3.BitVecVal(x, 48)
def small(ctx, nd, maxs):
    """fits: the number of elements is within the limit (exact arithmetic)"""
    if nd == 1: return ule(maxs[0], MAXE - 1, 32)
    a, b = maxs
    lim = And(ule(a, MAXE - 1, 32), ule(b, MAXE - 1, 32))
    return And(lim, simp(z3.ULE((W(a) + 1) * (W(b) + 1), z3.BitVecVal(MAXE, 48))))
KINDS = (('numeric_array', 'new_numeric_array', 'compute_numeric_element'), ('string_array', 'new_string_array', 'compute_string_element'))
def made(ctx):
    """run new_..._array on arbitrary bounds; the array or None"""
    ctx.stubs.update(ALLOC)
    st, new, el = KINDS[ctx.choose(2)]
    hdr, _ = ctx.prog.di.field(st, 'val')
    def ecalloc(cx, a):
        n = ibin('mul', 64, a[0], a[1])
        p = cx.malloc(n, 'zero')
        key = 'f64' if st == 'numeric_array' else 'ptr'
        cnt = simp(z3.UDiv(bv(sub(n, hdr), 64), z3.BitVecVal(8, 64)))
        p.obj.segs.append(Seg(hdr, 8, cnt, [(0, key)], lambda c, fo, k: ConstArr(0.0 if key == 'f64' else NULL), 'elements'))
        return p
    ctx.stubs['ecalloc'] = ecalloc
    nd = ctx.choose(4)
    mp, maxs = vec(ctx, 'max', nd)
    oc, r = ctx.run(new, [0, nd, mp])
    ctx.prove(oc == 'ret', 'new:returns')
    return st, el, hdr, nd, maxs, r
def create(ctx):
    """an array comes about iff it has one or two dimensions and at most 65536 elements, and its
    block holds exactly that many"""
    st, el, hdr, nd, maxs, r = made(ctx)
    ctx.cover('create:%s:%d:%s' % (st, nd, r.null))
    if nd not in (1, 2): ctx.prove(r.null, 'new:one-or-two-dimensions'); return
    fits = small(ctx, nd, maxs)
    if r.null: ctx.prove(Not(fits), 'new:an-array-that-fits-is-made'); return
    ctx.prove(fits, 'new:an-array-too-big-is-refused')
    n = simp(z3.ZeroExt(32, bv(maxs[0], 32)) + 1) if nd == 1 else simp(z3.ZeroExt(16, (W(maxs[0]) + 1) * (W(maxs[1]) + 1)))
    ctx.prove(eq(r.obj.size, add(hdr, ibin('mul', 64, n, 8)), 64), 'new:one-cell-per-element')
    ctx.prove(r.obj in ctx.alloc_live and not r.obj.freed, 'new:own-block')
def lemma(ctx):
    """over the integers: r*s+c is below the number of cells, and determines r and c (the products
    stay below 2^32, where 32-bit arithmetic is exact)"""
    i, j, i2, j2, s, m = z3.Ints('i j i2 j2 s m')
    R = [i >= 0, i <= m, j >= 0, j < s]; R2 = [i2 >= 0, i2 <= m, j2 >= 0, j2 < s]
    for hyp, c, nm in ((R, i * s + j < (m + 1) * s, 'below'), (R + R2 + [i * s + j == i2 * s + j2], z3.And(i == i2, j == j2), 'injective')):
        so = z3.Solver(); so.set('timeout', 20000); so.add(*hyp); so.add(z3.Not(c))
        if so.check() != z3.unsat: raise Structural('lemma %s not proved' % nm)
        ctx.prove(True, 'lemma:linear-layout-' + nm)
def access(ctx, nd):
    """valid subscripts denote a cell of the block, different ones different cells; others none"""
    ctx.stubs.update(ALLOC)
    st, new, el = KINDS[ctx.choose(2)]
    di = ctx.prog.di
    hdr, _ = di.field(st, 'val')
    mw = int(di.field(st, 'size.max[0]')[1][1:])
    ew = int(di.field(st, 'size.elements')[1][1:])
    raw = [ctx.fresh('max%d' % i, mw) for i in range(nd)]      # bounds as they are kept
    maxs = [zext(x, mw, 32) for x in raw]
    fits = small(ctx, nd, maxs)
    ctx.assume(fits)
    n = simp(bv(maxs[0], 32) + 1) if nd == 1 else simp(z3.Extract(31, 0, (W(maxs[0]) + 1) * (W(maxs[1]) + 1)))
    o = Obj(ctx.name('array'), add(hdr, ibin('mul', 64, z64(n), 8)), None, 'lazy', None, False, True)
    o.layout = {}
    for path, off, key in di.scalars(st):
        if off < hdr: o.layout.setdefault(off, key)
    key = 'f64' if st == 'numeric_array' else 'ptr'
    o.segs.append(Seg(hdr, 8, z64(n), [(0, key)], lambda c, fo, k: ConstArr(0.0 if key == 'f64' else NULL), 'elements'))
    p = Ptr(o)
    f = lambda path, v: ssetf(ctx, p, st, path, v)
    bw = int(di.field(st, 'size.base')[1][1:]); dw = int(di.field(st, 'size.dimensions')[1][1:])
    f('size.base', 0); f('size.dimensions', nd); f('size.elements', n if ew == 32 else trunc(n, 32, ew))
    for i in range(2): f('size.max[%d]' % i, raw[i] if i < nd else ctx.fresh('mx', mw))
    def at(name, k):
        ip, idx = vec(ctx, name, k)
        out = Obj('addr', 8); out.cells[0] = ('ptr', UNDEF)
        mark = len(ctx.wlog)
        oc, r = ctx.run(el, [p, k, ip, Ptr(out)])
        ctx.prove(oc == 'ret', 'element:returns')
        ctx.prove(all(x is not o for x, _, _ in ctx.wlog[mark:]), 'element:changes-nothing')
        return idx, ctx.branch(as_bool(r)), out.cells[0][1]
    k = nd if ctx.choose(2) == 0 else 3 - nd
    i1, ok, a1 = at('i', k)
    ctx.cover('access:%d:%s:%s' % (nd, k == nd, ok))
    if k != nd: ctx.prove(not ok, 'element:wrong-number-of-subscripts'); return
    valid = And(*[ule(x, m, 32) for x, m in zip(i1, maxs)])
    if not ok: ctx.prove(Not(valid), 'element:valid-subscripts-have-a-cell'); return
    ctx.prove(valid, 'element:out-of-range-is-refused')
    off = lambda a: a.off if isinstance(a.off, int) else a.off.term()
    ctx.prove(isinstance(a1, Ptr) and a1.obj is o, 'element:in-this-array')
    pos1 = sub(off(a1), hdr)
    lay = None
    if nd == 2:
        # the two linear layouts are settled over the integers; any other is left to the solver
        for nm, (r, c) in (('rows', (0, 1)), ('columns', (1, 0))):
            pos = lambda ix, r=r, c=c: ibin('mul', 64, z64(ibin('add', 32, ibin('mul', 32, ix[r], ibin('add', 32, maxs[c], 1)), ix[c])), 8)
            if ctx.valid(eq(pos1, pos(i1), 64)): lay = pos; break
    if lay:
        lemma(ctx)
        ctx.prove(eq(pos1, lay(i1), 64), 'element:layout')
        cells = ibin('mul', 64, z64(n), 8)
        ctx.assume(And(ult(lay(i1), cells), eq(ibin('urem', 64, pos1, 8), 0, 64)))
    tiny = And(*[ule(m, 3, 32) for m in maxs])
    def small_case(c, what):
        # a layout the lemma does not cover: look for a counterexample among small arrays first
        if nd == 2 and not lay and ctx._check([tiny, Not(c)]) == 'sat': ctx.assume(tiny); ctx.prove(c, what)
    small_case(ult(pos1, sub(o.size, hdr)), 'element:inside-the-block')
    ctx.prove(And(ult(pos1, sub(o.size, hdr)), eq(ibin('urem', 64, pos1, 8), 0, 64)), 'element:inside-the-block')
    i2, ok2, a2 = at('j', nd)
    if not ok2: return
    same = And(*[eq(x, y, 32) for x, y in zip(i1, i2)])
    if lay:
        ctx.prove(eq(sub(off(a2), hdr), lay(i2), 64), 'element:layout')
        ctx.assume(Iff(eq(lay(i1), lay(i2), 64), same))
    small_case(Iff(eq(off(a1), off(a2), 64), same), 'element:different-subscripts-different-cells')
    ctx.prove(Iff(eq(off(a1), off(a2), 64), same), 'element:different-subscripts-different-cells')
def access1(ctx): access(ctx, 1)
def access2(ctx): access(ctx, 2)
def zero(ctx):
    """a new array is all zeros or empty strings, and remembers its bounds"""
    st, el, hdr, nd, maxs, r = made(ctx)
    if r.null: return
    i = ctx.fresh('i', 64); ctx.assume(ult(i, r.obj.segs[0].count))
    key = 'f64' if st == 'numeric_array' else 'ptr'
    v = ctx.load(r.plus(hdr).plus(i, 8), key)
    ctx.prove(feq(v, 0.0) if key == 'f64' else v.null, 'new:cells-are-zero-or-empty')
    g = lambda f: sgetf(ctx, r, st, f)
    ctx.prove(eq(g('size.dimensions'), nd, 16), 'new:dimensions')
    ctx.prove(eq(g('size.base'), 0, 16), 'new:from-zero')
    for k in range(nd): ctx.prove(eq(z64(g('size.max[%d]' % k), 16), z64(maxs[k]), 64), 'new:bounds')
    ctx.cover('zero:%s:%d' % (st, nd))
class Cells(LoopSpec):
    def __init__(self, n, cells):
        LoopSpec.__init__(self, name='cells', roles={'i': ('i32', ('i', 'j', 'k'))}); self.n, self.cells = n, cells
    def inv(self, ctx, L, v): return [('in-array', ule(v['i'], self.n, 32))]
    def enter(self, ctx, L, v): L.g['first'] = eq(v['i'], 0, 32)
    def havoc(self, ctx, L, v): L.g['i'] = v['i']; self.last = L
    def variant(self, ctx, L, v): return sub(z64(self.n), z64(v['i']))
    def at_back(self, ctx, L, v):
        ctx.prove(eq(v['i'], ibin('add', 32, L.g['i'], 1), 32), 'loop-order:cells')
        ctx.prove(L.g['first'], 'delete:from-the-first')
        s = self.cells.read(ctx, z64(L.g['i']))
        ctx.prove(s.null or s.obj.freed, 'delete:every-string-released')
        ctx.cover('cells')
    def may_write(self, ctx, L, o, kind, off):
        s = self.cells.read(ctx, z64(L.g['i']))
        return o is s.obj
def release(ctx):
    """deleting an array releases its strings and its block, once each"""
    ctx.stubs.update(ALLOC)
    if ctx.choose(2) == 0:
        p = mk(ctx, 'numeric_array', 'array') if ctx.choose(2) else NULL
        oc, r = ctx.run('delete_numeric_array', [p])
        ctx.prove(oc == 'ret' and (p.null or p.obj.freed), 'delete:block-released'); ctx.cover('release:num'); return
    if ctx.choose(2) == 0:
        oc, r = ctx.run('delete_string_array', [NULL]); ctx.prove(oc == 'ret', 'delete:none'); return
    di = ctx.prog.di
    hdr, _ = di.field('string_array', 'val')
    n = ctx.fresh('n', 32); ctx.assume(ule(n, MAXE, 32))
    cells = BaseObj(lambda c, i: new_string(c, 'cell') if c.choose(2) else NULL)
    o = Obj(ctx.name('array'), add(hdr, ibin('mul', 64, z64(n), 8)), None, 'lazy', None, False, True)
    o.layout = {}
    for path, off, key in di.scalars('string_array'):
        if off < hdr: o.layout.setdefault(off, key)
    o.segs.append(Seg(hdr, 8, z64(n), [(0, 'ptr')], lambda c, fo, k: cells, 'elements'))
    ctx.objs += 1; o.born = ctx.objs
    p = Ptr(o)
    ssetf(ctx, p, 'string_array', 'size.elements', n)
    sp = Cells(n, cells)
    ctx.loopspecs = [sp]
    oc, r = ctx.run('delete_string_array', [p])
    ctx.prove(oc == 'ret' and o.freed, 'delete:block-released')
    if sp.uses: ctx.prove(not ctx.branch(ult(sp.last.cur['i'], n, 32)), 'delete:all-cells')
    ctx.cover('release:str')
ALL = ['create', 'access1', 'access2', 'zero', 'release']
