"""Contracts of Basic/bcode.c and Basic/emit.c: compiled code is a growing sequence of
instructions; the line index maps exactly the lines of the code; the copy of a function
definition is the instructions of the definition."""
from lbv.hlib import *

FIELDS = (('op', 'i16'), ('u.source_line', 'i32'), ('u.basic_line.bcode', 'i32'), ('u.num', 'f64'), ('u.str', 'ptr'), ('u.param.params', 'i8'))
def strops(ctx): return [v for k, v in ctx.prog.di.enums.items() if k in ('B_PUSH_STR', 'B_INPUT_BUF', 'B_DATA')]
def mk_bcode(ctx, name='code', wellformed=False, empty_ok=True):
    used, alloc = ctx.fresh(name + '.used', 32), ctx.fresh(name + '.alloc', 32)
    ctx.assume(ule(used, alloc, 32)); ctx.assume(ule(alloc, 1 << 26, 32))
    inst = NULL
    nops = max(v for k, v in ctx.prog.di.enums.items() if k.startswith('B_')) + 1
    if not (empty_ok and ctx.branch(eq(alloc, 0, 32))):
        ctx.assume(icmp('ne', 32, alloc, 0))
        def mkc(cx, fo, key):
            def strp(c, i):
                if wellformed and c.branch(Or(*[eq(comp(c, inst, 'BINST', 'op').read(c, i), v, 16) for v in strops(c)])): return new_string(c, name + '.str')
                return new_string(c, name + '.str') if c.choose(2) == 0 else NULL
            if key == 'ptr': return BaseObj(strp)
        inst = mk_array(ctx, name + '.inst', z64(alloc), struct='BINST', mkcomp=mkc)
        if wellformed: comp(ctx, inst, 'BINST', 'op').add_unary(ctx, lambda i, v: ult(v, nops, 16))
    hd = ctx.fresh(name + '.has_data', 8); ctx.assume(ule(hd, 1, 8))
    b = mk(ctx, 'BCODE', name, dict(inst=inst, used=used, allocated=alloc, has_data=hd))
    return dict(p=b, used=used, alloc=alloc, inst=inst, hd=hd)

def comps(ctx, inst): return {f: comp(ctx, inst, 'BINST', f) for f, k in FIELDS}

def grown(ctx, g, op, what):
    """one instruction more, everything before unchanged"""
    b = g['p']
    used1 = sgetf(ctx, b, 'BCODE', 'used')
    ctx.prove(eq(used1, ibin('add', 32, g['used'], 1), 32), what + ':one-more')
    ctx.prove(ule(used1, sgetf(ctx, b, 'BCODE', 'allocated'), 32), what + ':capacity')
    inst = sgetf(ctx, b, 'BCODE', 'inst')
    ctx.prove(isinstance(inst, Ptr) and inst.obj is not None and not inst.obj.freed, what + ':array-live')
    u = z64(g['used'])
    ctx.prove(eq(comp(ctx, inst, 'BINST', 'op').read(ctx, u), trunc(op, 32, 16), 16), what + ':opcode')
    hd1 = sgetf(ctx, b, 'BCODE', 'has_data')
    ctx.prove(Iff(icmp('ne', 8, hd1, 0), Or(icmp('ne', 8, g['hd'], 0), eq(op, enum(ctx, 'B_DATA'), 32))), what + ':has-data-iff-DATA')
    if not g['inst'].null:
        k = ctx.fresh('k', 64); ctx.assume(ult(k, u))
        for f, key in FIELDS:
            ctx.prove(same_value(ctx, comp(ctx, inst, 'BINST', f).read(ctx, k), g['c0'][f].read(ctx, k), key), what + ':earlier-instructions-unchanged')
    return inst, u

def emit_h(fn, args, expect):
    def h(ctx):
        ctx.stubs.update(ALLOC)
        g = mk_bcode(ctx)
        g['c0'] = comps(ctx, g['inst']) if not g['inst'].null else None
        op = ctx.fresh('op', 32); ctx.assume(ult(op, 1 << 16, 32))
        a = args(ctx)
        kind, r = ctx.run(fn, [g['p'], op] + a)
        ctx.prove(kind == 'ret', fn + ':returns', str(kind))
        inst, u = grown(ctx, g, op, fn)
        for f, key, i in expect:
            v = comp(ctx, inst, 'BINST', f).read(ctx, u)
            if key == 'dup':
                ctx.prove(isinstance(v, Ptr) and v.obj is not None and v.obj.heap and v.obj is not a[i].obj, fn + ':owned-copy')
                ctx.prove(strref(ctx, v).same(strref(ctx, a[i])), fn + ':operand')
            else: ctx.prove(same_value(ctx, v, trunc(a[i], 32, 8) if key == 'i8' else a[i], key), fn + ':operand')
        if fn == 'bcode_next':
            ctx.prove(isinstance(r, Ptr) and r.obj is inst.obj and simp(eq(off_term(r.off), ibin('mul', 64, u, ctx.prog.di.size('BINST')), 64)), fn + ':returns-the-new-instruction')
        if fn in ('emit', 'emit_param', 'emit_count'): ctx.prove(eq(r, g['used'], 32), fn + ':returns-its-index')
        ctx.cover(fn)
    return h
u32 = lambda ctx: [ctx.fresh('x', 32)]
bcode_next = emit_h('bcode_next', lambda c: [], [])
emit = emit_h('emit', lambda c: [], [])
emit_source_line = emit_h('emit_source_line', u32, [('u.source_line', 'i32', 0)])
emit_basic_line = emit_h('emit_basic_line', u32, [('u.basic_line.lineno', 'i32', 0)])
emit_num = emit_h('emit_num', lambda c: [c.fresh_f('x')], [('u.num', 'f64', 0)])
emit_str = emit_h('emit_str', lambda c: [new_string(c, 's')], [('u.str', 'dup', 0)])
emit_str_ptr = emit_h('emit_str_ptr', lambda c: [new_string(c, 's')], [('u.str', 'ptr', 0)])
emit_var = emit_h('emit_var', u32, [('u.symbol_id', 'i32', 0)])
emit_param = emit_h('emit_param', lambda c: [c.fresh('x', 32), c.fresh('n', 32)], [('u.param.symbol_id', 'i32', 0), ('u.param.params', 'i8', 1)])
emit_count = emit_h('emit_count', u32, [('u.count', 'i32', 0)])

def patch_h(fn, field, w):
    def h(ctx):
        ctx.stubs.update(ALLOC); ctx.stubs['fatal'] = noreturn('fatal')
        g = mk_bcode(ctx, empty_ok=False)
        c0 = comps(ctx, g['inst'])
        i, v = ctx.fresh('i', 32), ctx.fresh('v', 32)
        ok = ctx.branch(ult(i, g['used'], 32))
        kind, r = ctx.run(fn, [g['p'], i, v])
        ctx.prove(kind == ('ret' if ok else 'fatal'), fn + ':index-checked')
        if not ok: return
        k = ctx.fresh('k', 64); ctx.assume(ult(k, z64(g['used'])))
        for f, key in FIELDS:
            a = comp(ctx, g['inst'], 'BINST', f).read(ctx, k)
            if ctx.branch(eq(k, z64(i), 64)):
                if f == 'op' and field == 'op': ctx.prove(eq(a, trunc(v, 32, 16), 16), fn + ':patched')
                elif f == 'op': ctx.prove(same_value(ctx, a, c0[f].read(ctx, k), key), fn + ':opcode-unchanged')
                elif field == 'op': ctx.prove(same_value(ctx, a, c0[f].read(ctx, k), key), fn + ':operand-unchanged')
            else: ctx.prove(same_value(ctx, a, c0[f].read(ctx, k), key), fn + ':others-unchanged')
        if field != 'op':
            ctx.prove(eq(comp(ctx, g['inst'], 'BINST', field).read(ctx, z64(i)), v, 32), fn + ':patched')
        ctx.prove(eq(sgetf(ctx, g['p'], 'BCODE', 'used'), g['used'], 32), fn + ':length')
        ctx.cover(fn)
    return h
patch_opcode = patch_h('patch_opcode', 'op', 16)
patch_count = patch_h('patch_count', 'u.count', 32)

# ---------------------------------------------------------------- index
class Count:
    """ghost: number of line instructions before position i"""
    def __init__(self, ctx, g):
        self.ctx, self.g = ctx, g
        self.F = z3.Function(ctx.name('LINES'), z3.BitVecSort(64), z3.BitVecSort(64))
        ctx.assume(self.F(z3.BitVecVal(0, 64)) == 0)
        self.T = enum(ctx, 'B_SOURCE_LINE')
    def isline(self, i): return icmp('eq', 16, comp(self.ctx, self.g['inst'], 'BINST', 'op').read(self.ctx, i), self.T)
    def at(self, i):
        ctx = self.ctx
        t = bv(i, 64)
        # definition at i, and its consequences by induction on the positions: LINES(i) <= i,
        # LINES is monotone up to the end of the code
        if not self.g['inst'].null:
            if ctx.known(ult(i, z64(self.g['used']))) is not False and ctx.branch(ult(i, z64(self.g['used']))):
                ctx.assume(self.F(t + 1) == self.F(t) + z3.If(B(self.isline(i)), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))
                ctx.assume(z3.ULE(self.F(t + 1), self.F(bv(z64(self.g['used']), 64))))
        ctx.assume(z3.ULE(self.F(t), t))
        return self.F(t)
class CountLoop(LoopSpec):
    def __init__(self, C):
        LoopSpec.__init__(self, name='count', func='line_count', roles={'i': ('i32', ('i',)), 'n': ('i32', ('n', 'count'))})
        self.C = C
    def inv(self, ctx, L, v):
        return [('range', ule(v['i'], self.C.g['used'], 32)), ('count', eq(z64(v['n']), simp(self.C.at(z64(v['i']))), 64))]
    def variant(self, ctx, L, v): return sub(1 << 40, z64(v['i']))
class IndexLoop(LoopSpec):
    """one mapping per line instruction passed, in order"""
    def __init__(self, C, G):
        LoopSpec.__init__(self, name='index', func='bcode_index', roles={'i': ('i32', ('i',))})
        self.C, self.G = C, G
    def inv(self, ctx, L, v):
        return [('range', ule(v['i'], self.C.g['used'], 32)), ('mapped', eq(self.G['count'], simp(self.C.at(z64(v['i']))), 64))]
    def havoc(self, ctx, L, v):
        self.G['count'] = ctx.fresh('mapped', 64)
        L.g['n'] = len(self.G['ev'])
    def at_back(self, ctx, L, v):
        ev = self.G['ev'][L.g['n']:]
        i = L.cur['i']
        if ctx.branch(self.C.isline(z64(i))):
            ctx.prove(len(ev) == 1, 'index:each-line-is-mapped')
            ctx.prove(eq(ev[0][0], self.G['linenum'](ctx, comp(ctx, self.C.g['inst'], 'BINST', 'u.source_line').read(ctx, z64(i))), 32), 'index:under-its-line-number')
            ctx.prove(eq(ev[0][1], i, 32), 'index:to-its-position')
        else: ctx.prove(len(ev) == 0, 'index:nothing-else-is-mapped')
        ctx.prove(eq(v['i'], ibin('add', 32, i, 1), 32), 'index:every-instruction-is-visited')
    def variant(self, ctx, L, v): return sub(1 << 40, z64(v['i']))

def index(ctx):
    ctx.stubs.update(ALLOC)
    g = mk_bcode(ctx)
    C = Count(ctx, g)
    C.at(z64(g['used']))
    src = mk(ctx, 'SOURCE', 'source')
    num = z3.Function('linenum', z3.BitVecSort(32), z3.BitVecSort(32))
    G = dict(count=0, ev=[], linenum=lambda cx, l: num(bv(l, 32)))
    m = ctx.malloc(8, 'uninit', 'map')
    def s_new(cx, a):
        cx.prove(eq(z64(a[0]), simp(C.at(z64(g['used']))), 64), 'index:room-for-every-line')
        return m
    def s_insert(cx, a):
        cx.prove(a[0].obj is m.obj, 'index:into-the-new-map')
        cx.prove(ult(G['count'], simp(C.at(z64(g['used'])))), 'index:never-full')
        G['count'] = add(G['count'], 1); G['ev'].append((a[1], a[2]))
        return True
    ctx.stubs.update(new_line_map=s_new, insert_line_mapping=s_insert, source_linenum=lambda cx, a: G['linenum'](cx, a[1]))
    ctx.loopspecs = [CountLoop(C), IndexLoop(C, G)]
    kind, r = ctx.run('bcode_index', [g['p'], src])
    ctx.loopspecs = []
    ctx.prove(kind == 'ret' and isinstance(r, Ptr) and r.obj is m.obj, 'index:returns-the-map')
    ctx.prove(eq(G['count'], simp(C.at(z64(g['used']))), 64), 'index:all-lines-mapped')
    ctx.cover('index')

# ---------------------------------------------------------------- copy of a definition
class EndScan(LoopSpec):
    def __init__(self, start, q):
        LoopSpec.__init__(self, name='def-end', func='def_end', roles={'pc': ('i32', ('pc', 'i'))}); self.q, self.start = q, start
    def inv(self, ctx, L, v): return [('not-past-end', ule(v['pc'], self.q, 32)), ('from-start', ule(self.start, v['pc'], 32))]
    def variant(self, ctx, L, v): return sub(1 << 40, z64(v['pc']))
class CopyLoop(LoopSpec):
    """the first i instructions have been copied; strings are duplicated"""
    scratch = True
    def __init__(self, g, start):
        LoopSpec.__init__(self, name='copy', func='bcode_copy_def', roles={'i': ('i32', ('i',))})
        self.g, self.start = g, start
        self.dup = {}
    def dst(self, ctx, L):
        return self.alloc
    def inv(self, ctx, L, v): return [('range', ule(v['i'], self.len, 32))]
    def enter(self, ctx, L, v):
        L.g['modifies'] = (self.alloc.obj,)
    def node(self, L, i, f, key):
        c0 = self.g['c0'][f]
        s64 = z64(self.start)
        def rd(cx, k):
            v = c0.read(cx, add(s64, k))
            if f == 'u.str': return self.copied(cx, v, add(s64, k))
            return v
        return Rng(ConstArr(UNDEF), 0, z64(i), rd)
    def copied(self, cx, v, i):
        if not isinstance(v, Ptr) or v.null: return v
        if not cx.branch(self.isstr(cx, i)): return v
        if v.obj not in self.dup:
            n = cx.objs; self.dup[v.obj] = dup_string(cx, v)
        return self.dup[v.obj]
    def check(self, ctx, L, v):
        out = []
        k = ctx.fresh('w', 64)
        if not ctx.branch(ult(k, z64(v['i']))): return out
        for f, key in FIELDS:
            if not seg_of(self.alloc): break
            a = comp(ctx, self.alloc, 'BINST', f).read(ctx, k)
            b = self.g['c0'][f].read(ctx, add(z64(self.start), k))
            if key == 'ptr':
                if ctx.branch(self.isstr(ctx, add(z64(self.start), k))) and isinstance(b, Ptr) and not b.null:
                    ok = isinstance(a, Ptr) and a.obj is not None and a.obj is not b.obj and a.obj.heap
                    out.append(('copied-string-is-owned', ok))
                    if ok: out.append(('copied-string', strref(ctx, a).same(strref(ctx, b))))
                elif a is not UNDEF: out.append(('copied-operand', same_value(ctx, a, b, key)))
            elif a is not UNDEF or f == 'op': out.append(('copied-' + f, same_value(ctx, a, b, key)))
        return out
    def havoc(self, ctx, L, v):
        o = self.alloc.obj
        if not o.segs:
            lay = []
            for path, off, k in ctx.prog.di.scalars('BINST'):
                if (off, k) not in lay: lay.append((off, k))
            n = ctx.prog.di.size('BINST')
            o.segs.append(Seg(0, n, z64(self.n1), lay, lambda c, fo, k: ConstArr(UNDEF), o.name))
        for f, key in FIELDS: set_comp(ctx, self.alloc, 'BINST', f, self.node(L, v['i'], f, key))
    def variant(self, ctx, L, v): return sub(1 << 40, z64(v['i']))
def seg_of(p): return p.obj.segs

def copy_def(ctx):
    ctx.stubs.update(ALLOC)
    g = mk_bcode(ctx, wellformed=True, empty_ok=False)
    g['c0'] = comps(ctx, g['inst'])
    start = ctx.fresh('start', 32); ctx.assume(ult(start, g['used'], 32))
    q = ctx.fresh('end', 32); ctx.assume(ule(start, q, 32)); ctx.assume(ule(q, g['used'], 32))
    T = enum(ctx, 'B_END_DEF')
    ops = g['c0']['op']
    ops.add_unary(ctx, lambda i, v: Implies(And(ule(z64(start), i), ult(i, z64(q))), icmp('ne', 16, v, T)))
    if ctx.branch(ult(q, g['used'], 32)): ctx.assume(eq(ops.read(ctx, z64(q)), T, 16))
    cl = CopyLoop(g, start)
    cl.len = ibin('sub', 32, q, start); cl.n1 = ibin('add', 32, cl.len, 1)
    cl.isstr = lambda cx, i: Or(*[eq(ops.read(cx, i), v, 16) for v in strops(cx)])
    def s_emalloc(cx, a):
        p = cx.malloc(a[0], 'uninit')
        if not (isinstance(a[0], int) and a[0] == cx.prog.di.size('BCODE')): cl.alloc = p
        return p
    ctx.stubs['emalloc'] = s_emalloc
    ctx.loopspecs = [EndScan(start, q), cl]
    kind, r = ctx.run('bcode_copy_def', [g['p'], start])
    ctx.loopspecs = []
    ctx.prove(kind == 'ret' and isinstance(r, Ptr) and not r.null, 'copy:returns')
    ctx.cover('copy')
    n = sgetf(ctx, r, 'BCODE', 'used')
    ctx.prove(eq(n, cl.n1, 32), 'copy:length')
    ctx.prove(ule(n, sgetf(ctx, r, 'BCODE', 'allocated'), 32), 'copy:capacity')
    inst = sgetf(ctx, r, 'BCODE', 'inst')
    ctx.prove(eq(comp(ctx, inst, 'BINST', 'op').read(ctx, z64(cl.len)), T, 16), 'copy:ends-with-END_DEF')
    k = ctx.fresh('k', 64); ctx.assume(ult(k, z64(cl.len)))
    for f, key in FIELDS:
        a = comp(ctx, inst, 'BINST', f).read(ctx, k)
        b = g['c0'][f].read(ctx, add(z64(start), k))
        if key == 'ptr':
            if isinstance(b, Ptr) and not b.null and ctx.branch(cl.isstr(ctx, add(z64(start), k))):
                ctx.prove(isinstance(a, Ptr) and a.obj is not None and a.obj is not b.obj, 'copy:strings-owned')
                ctx.prove(strref(ctx, a).same(strref(ctx, b)), 'copy:strings')
        elif a is not UNDEF: ctx.prove(same_value(ctx, a, b, key), 'copy:' + f)
ALL = ['bcode_next', 'emit', 'emit_source_line', 'emit_basic_line', 'emit_num', 'emit_str', 'emit_str_ptr', 'emit_var', 'emit_param', 'emit_count',
       'patch_opcode', 'patch_count', 'index', 'copy_def']
