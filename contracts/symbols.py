"""Contracts of symbol.c, hash.c and def.c: the symbol table keeps names apart exactly by their
letters (case ignored) and by parenthesised or plain use; values are reset when promised."""
from lbv.hlib import *
from lbv import terms
from .vmstate import symw

KINDS = ('SYM_UNKNOWN', 'SYM_VARIABLE', 'SYM_ARRAY', 'SYM_DEF', 'SYM_BUILTIN')
def name_matches(ctx, kind, paren):
    """may a use with (paren) or without parentheses denote a symbol of this kind"""
    e = lambda k: enum(ctx, k)
    is_ = lambda k: B(icmp('eq', 8, kind, e(k)))
    p = bool(paren)
    if p: return simp(Or(is_('SYM_UNKNOWN'), is_('SYM_ARRAY'), is_('SYM_DEF'), is_('SYM_BUILTIN')))
    return simp(Or(is_('SYM_VARIABLE'), is_('SYM_BUILTIN')))
def some_kind(ctx, name):
    k = ctx.fresh(name, 8)
    ctx.assume(ule(k, 4, 8)); return k

class Table:
    """arbitrary valid symbol table.  The symbols are modelled as the elements of one arena, in
    order of insertion: psym[i] is element i, its id is i, and every chain runs through symbols
    of one hash value with decreasing i.  A name is an opaque string with a folded identity:
    two names are equal but for letter case iff the identities are equal."""
    def __init__(self, ctx):
        terms.absrem = True
        self.ctx = ctx
        u = self.used = ctx.fresh('used', 32)
        a = self.alloc = ctx.fresh('allocated', 32)
        ctx.assume(ule(u, a, 32)); ctx.assume(ule(a, 1 << 24, 32))
        self.size = ctx.prog.di.size('SYMBOL')
        self.fold = z3.Function(ctx.name('FOLD'), z3.BitVecSort(64), z3.BitVecSort(32))
        self.hash = z3.Function('HASH', z3.BitVecSort(32), z3.BitVecSort(32))
        self.names = Obj(ctx.name('names'), 1 << 40)
        self.have = not ctx.branch(eq(a, 0, 32))
        self.arena = self.psym = None
        if self.have:
            nxt = BaseObj(lambda cx, i: self.some(i) if cx.choose(2) else NULL)
            kinds = BaseUF(ctx.name('kind'), 'i8'); kinds.add_unary(ctx, lambda i, v: ule(v, 4, 8))
            oname, okind, oid, onext = (ctx.prog.di.field('SYMBOL', f)[0] for f in ('name', 'kind', 'id', 'next'))
            idw = symw(ctx)
            def mkc(cx, fo, key):
                if fo == oname: return Fn(lambda c, i: Ptr(self.names, off_add(0, i, 1)))
                if fo == onext: return nxt
                if fo == okind and key == 'i8': return kinds
                if fo == oid: return Fn(lambda c, i: trunc(i, 64, idw))
                if key == 'ptr': return BaseObj(lambda c, i: NULL)
            self.arena = mk_array(ctx, 'symbols', 1 << 24, struct='SYMBOL', mkcomp=mkc)
            self.psym = mk_array(ctx, 'psym', z64(a), key='ptr', mkcomp=lambda c, fo, k: Fn(lambda c2, i: Ptr(self.arena.obj, off_add(0, i, self.size)) if c2.branch(ult(i, z64(u))) else UNDEF))
        self.st = mk(ctx, 'SYMTAB', 'symtab', dict(psym=self.psym or NULL, allocated=a, used=u, next_id=u))
        off, _ = ctx.prog.di.field('SYMTAB', 'hash[0]')
        self.n = sum(1 for path, o, k in ctx.prog.di.scalars('SYMTAB') if path.startswith('hash['))
        self.heads = BaseObj(lambda cx, i: self.some(z64(u)) if self.have and cx.choose(2) else NULL)
        self.st.obj.segs.append(Seg(off, 8, self.n, [(0, 'ptr')], lambda c, fo, k: self.heads, 'hash'))
        for k in list(self.st.obj.layout):
            if off <= k < off + 8 * self.n: del self.st.obj.layout[k]
        self.new = None; self.newfold = None
        self.strs = {}
        st = ctx.stubs
        st.update(ALLOC)
        def cmp(cx, a):
            r = cx.fresh('strcasecmp', 32)
            x, y = self.fid(a[0]), self.fid(a[1])
            cx.assume(Iff(simp(eq(r, 0, 32)), simp(eq(x, y, 32))))
            return r
        st['strcasecmp'] = cmp
        st['hashpjw_upper'] = lambda cx, a: simp(self.hash(bv(self.fid(a[0]), 32)))
        def dup(cx, a):
            p = cx.malloc(cx.fresh('len', 64), 'uninit', 'name')
            self.strs[p.obj] = self.fid(a[0])
            return p
        st['estrdup'] = dup
        def ecalloc(cx, a):
            p = ctx.malloc(ibin('mul', 64, a[0], a[1]), 'zero')
            if p.obj.size == self.size:
                p.obj.layout = {}
                for path, o, k in cx.prog.di.scalars('SYMBOL'): p.obj.layout.setdefault(o, k)
            return p
        st['ecalloc'] = ecalloc
    def fid(self, p):
        if p.obj is None: self.ctx.fail('no-null-dereference', 'name')
        if p.obj is self.names: return simp(self.fold(bv(p.off if isinstance(p.off, int) else p.off.term(), 64)))
        if p.obj in self.strs:
            if p.obj.freed: self.ctx.fail('no-use-after-free', 'name')
            return self.strs[p.obj]
        raise Structural('name string')
    def some(self, below):
        ctx = self.ctx
        j = ctx.fresh('sym', 64)
        ctx.assume(ult(j, below)); ctx.assume(ult(j, z64(self.used)))
        return Ptr(self.arena.obj, off_add(0, j, self.size))
    def key(self, name):
        """an arbitrary name as a caller has it"""
        o = Obj(self.ctx.name(name), 64); self.strs[o] = self.ctx.fresh(name + '.id', 32)
        return Ptr(o)
    def code(self, p):
        if p.null: return 0
        if p.obj is self.new: return add(z64(self.used), 1)
        if self.arena is None or p.obj is not self.arena.obj: raise Structural('symbol pointer')
        i, fo = seg_index(p.obj.segs[0], p.off)
        return add(i, 1)
    def field(self, p, f):
        if p.obj is self.new: return sgetf(self.ctx, p, 'SYMBOL', f)
        i, fo = seg_index(p.obj.segs[0], p.off)
        return comp(self.ctx, self.arena, 'SYMBOL', f).read(self.ctx, i)
    def head(self, k):
        h = ibin('urem', 32, simp(self.hash(bv(k, 32))), self.n)
        return self.st.obj.segs[0].comp(self.ctx, 0, 'ptr').read(self.ctx, z64(h))

class Find:
    """ghost: the first symbol from a node on that a use of the name (with or without
    parentheses) denotes"""
    def __init__(self, T, k, paren, prev=None):
        self.T, self.k, self.paren = T, k, paren
        ctx = T.ctx
        f = z3.Function(ctx.name('FOUND'), z3.BitVecSort(64), z3.BoolSort())
        v = z3.Function(ctx.name('WHICH'), z3.BitVecSort(64), z3.BitVecSort(64))
        if prev is None: self.found, self.which = (lambda c: f(bv(c, 64))), (lambda c: v(bv(c, 64)))
        else:
            lim = z64(T.used)
            self.found = lambda c: z3.If(B(ule(c, lim)), prev.found(c), f(bv(c, 64)))
            self.which = lambda c: z3.If(B(ule(c, lim)), prev.which(c), v(bv(c, 64)))
    def unfold(self, p):
        T = self.T; ctx = T.ctx
        c = T.code(p)
        if p.null: ctx.assume(Not(self.found(0))); return
        hit = B(And(eq(T.fid(T.field(p, 'name')), self.k, 32), name_matches(ctx, T.field(p, 'kind'), self.paren)))
        nx = T.code(T.field(p, 'next'))
        ctx.assume(self.found(c) == z3.Or(hit, self.found(bv(nx, 64))))
        ctx.assume(self.which(c) == z3.If(hit, bv(c, 64), self.which(bv(nx, 64))))
        if isinstance(nx, int): ctx.assume(Not(self.found(0)))
class Chain(LoopSpec):
    def __init__(self, F, head):
        LoopSpec.__init__(self, name='chain', roles={'sym': ('ptr', ('sym', 's', 'p'))})
        self.F, self.hd = F, head
    def inv(self, ctx, L, v):
        F, T = self.F, self.F.T
        h, c = T.code(self.hd), T.code(v['sym'])
        return [('same-match', simp(F.found(c) == F.found(h))), ('same-symbol', Implies(simp(F.found(c)), simp(F.which(c) == F.which(h))))]
    def havoc_ptr(self, ctx, L, role, old):
        T = self.F.T
        n = ctx.choose(3 if T.new else 2)
        if n == 1 and not T.have: raise PathEnd('no symbols')
        p = NULL if n == 0 else Ptr(T.new) if n == 2 else T.some(z64(T.used))
        self.F.unfold(p)
        return p
    def variant(self, ctx, L, v): return self.F.T.code(v['sym'])

def run_lookup(ctx, T, name, paren, F, what):
    h = T.head(T.fid(name))
    F.unfold(h)
    ctx.loopspecs = [Chain(F, h)]
    mark = len(ctx.wlog)
    kind, r = ctx.run('sym_lookup', [T.st, name, 1 if paren else 0])
    ctx.loopspecs = []
    ctx.prove(kind == 'ret', what + ':returns')
    for (o, kd, off) in ctx.wlog[mark:]: ctx.prove(False, what + ':changes-nothing', o.name)
    c = T.code(h)
    f = simp(F.found(c))
    if r.null: ctx.prove(Not(f), what + ':finds-every-declared-name'); return None
    ctx.prove(f, what + ':finds-no-other-name')
    ctx.prove(simp(F.which(c) == bv(T.code(r), 64)), what + ':the-symbol-of-that-name')
    return r

def lookup(ctx):
    T = Table(ctx)
    paren = ctx.choose(2) == 1
    n = T.key('name')
    F = Find(T, T.fid(n), paren)
    r = run_lookup(ctx, T, n, paren, F, 'lookup')
    ctx.cover('lookup:%s:%s' % (paren, r is not None))

def kind_arg(ctx):
    k = ctx.fresh('newkind', 32); ctx.assume(ule(k, 4, 32)); return k

def insert(ctx):
    """after an insertion the new name is found by its uses and everything else as before"""
    T = Table(ctx)
    kind, ty = kind_arg(ctx), ctx.fresh('newtype', 32)
    ctx.assume(ule(ty, 4, 32))
    name, name2 = T.key('name'), T.key('name2')
    p2 = ctx.choose(2) == 1
    k2 = T.fid(name2)
    F = Find(T, k2, p2)
    h0 = T.head(k2); F.unfold(h0); old = T.code(h0)
    comps0 = {f: comp(ctx, T.arena, 'SYMBOL', f) for f in ('name', 'id', 'kind', 'type', 'defined', 'next')} if T.have else {}
    how = ctx.choose(2)
    if how == 0: oc, r = ctx.run('sym_insert', [T.st, name, kind, ty])
    else:
        args = mk(ctx, 'SOURCE', 'args'); op = ctx.fresh('op', 32); ctx.assume(ule(op, 200, 32))
        oc, r = ctx.run('sym_insert_builtin', [T.st, name, ty, args, op])
        kind = enum(ctx, 'SYM_BUILTIN')
    ctx.cover('insert:%s:%d' % (T.have, how))
    ctx.prove(oc == 'ret' and isinstance(r, Ptr) and r.obj in ctx.alloc_live and r.off == 0, 'insert:new-symbol')
    T.new = r.obj
    g = lambda f: sgetf(ctx, r, 'SYMBOL', f)
    nm = g('name')
    ctx.prove(isinstance(nm, Ptr) and nm.obj in ctx.alloc_live and eq(T.fid(nm), T.fid(name), 32), 'insert:own-copy-of-the-name')
    ctx.prove(eq(z64(g('id'), symw(ctx)), z64(T.used), 64), 'insert:id-is-its-position')
    ctx.prove(eq(sext(g('kind'), 8, 32) if not isinstance(g('kind'), int) else g('kind'), kind, 32), 'insert:kind')
    ctx.prove(eq(sext(g('type'), 8, 32) if not isinstance(g('type'), int) else g('type'), ty, 32), 'insert:type')
    ctx.prove(eq(g('defined'), how, 8), 'insert:not-yet-defined')
    if how == 0:
        if ctx.choose(2): ctx.prove(feq(g('val.num'), 0.0), 'insert:no-value'); return
        ctx.prove(g('val.str').null, 'insert:no-value')
    else:
        ctx.prove(g('val.builtin.args').obj is args.obj, 'insert:builtin-arguments')
        ctx.prove(eq(g('val.builtin.opcode'), trunc(op, 32, 16), 16), 'insert:builtin-opcode')
    s = lambda f: sgetf(ctx, T.st, 'SYMTAB', f)
    u1 = ibin('add', 32, T.used, 1)
    ctx.prove(eq(s('used'), u1, 32), 'insert:one-more')
    ctx.prove(eq(s('next_id'), u1, 32), 'insert:next-id')
    ctx.prove(ule(u1, s('allocated'), 32), 'insert:fits')
    ps = s('psym')
    ctx.prove(isinstance(ps, Ptr) and not ps.null and not ps.obj.freed, 'insert:table-alive')
    ctx.prove(eq(ps.obj.size, ibin('mul', 64, z64(s('allocated')), 8), 64), 'insert:capacity-is-real')
    mark = len(ctx.wlog)
    part = ctx.choose(3)
    if part == 0:
        if not T.have: return
        i = ctx.fresh('i', 64); ctx.assume(ult(i, z64(T.used)))
        q = ctx.load(ps.plus(i, 8), 'ptr')
        ctx.prove(eq(T.code(q), add(i, 1), 64), 'insert:other-ids-keep-their-symbols')
        for f, c0 in comps0.items():
            key = ctx.prog.di.field('SYMBOL', f)[1]
            a, b = comp(ctx, T.arena, 'SYMBOL', f).read(ctx, i), c0.read(ctx, i)
            ctx.prove(same_value(ctx, a, b, key), 'insert:other-symbols-unchanged')
        return
    q = ctx.load(ps.plus(z64(T.used), 8), 'ptr')
    ctx.prove(q.obj is r.obj, 'insert:id-denotes-the-new-symbol')
    if part == 1:
        oc, q = ctx.run('symbol', [T.st, T.used])
        ctx.prove(oc == 'ret' and q.obj is r.obj, 'symbol:by-id')
        oc, q = ctx.run('sym_name', [T.st, T.used])
        ctx.prove(oc == 'ret' and q.obj is nm.obj, 'sym_name:by-id')
        return
    if how == 1: return
    nx = g('next')
    ctx.prove(nx.null or (T.have and nx.obj is T.arena.obj), 'insert:chain')
    # lookups afterwards
    F2 = Find(T, k2, p2, prev=F)
    if T.have and not nx.null: ctx.prove(ule(T.code(nx), z64(T.used)), 'insert:chain-rank')
    f = run_lookup(ctx, T, name2, p2, F2, 'lookup-after-insert')
    hit = And(eq(T.fid(name), k2, 32), name_matches(ctx, trunc(kind, 32, 8) if not isinstance(kind, int) else kind, p2))
    if ctx.branch(hit): ctx.prove(f is not None and f.obj is r.obj, 'insert:name-is-found-by-its-uses')
    else:
        ctx.prove(Iff(f is not None, simp(F.found(old))), 'insert:other-names-as-before')
        if f is not None: ctx.prove(simp(F.which(bv(old, 64)) == bv(T.code(f), 64)), 'insert:other-names-same-symbol')

def new_table(ctx):
    """a new table knows no name"""
    T = Table(ctx)
    def ecalloc(cx, a):
        p = ctx.malloc(ibin('mul', 64, a[0], a[1]), 'zero')
        p.obj.segs.append(Seg(cx.prog.di.field('SYMTAB', 'hash[0]')[0], 8, T.n, [(0, 'ptr')], lambda c, fo, k: ConstArr(NULL), 'hash'))
        return p
    ctx.stubs['ecalloc'] = ecalloc
    oc, r = ctx.run('new_symbol_table', [])
    ctx.prove(oc == 'ret' and isinstance(r, Ptr) and not r.null, 'new:returns-a-table')
    for f in ('used', 'allocated', 'next_id'): ctx.prove(eq(sgetf(ctx, r, 'SYMTAB', f), 0, 32), 'new:empty')
    ctx.prove(sgetf(ctx, r, 'SYMTAB', 'psym').null, 'new:empty')
    oc, f = ctx.run('sym_lookup', [r, T.key('name'), ctx.choose(2)])
    ctx.prove(oc == 'ret' and f.null, 'new:no-name-is-found')
    ctx.cover('new')

# ---------------------------------------------------------------- hashing: letter case does not matter
class Hash(LoopSpec):
    """both strings pass through the same values G(i); the first run defines them"""
    def __init__(self, G, n, p, mode, at=None):
        LoopSpec.__init__(self, name='hash', roles={'h': ('i32', ('h', 'hash')), 'p': ('ptr', ('p', 's', 'q'))})
        self.G, self.n, self.str, self.mode, self.at = G, n, p, mode, at
    def idx(self, v):
        o = v['p'].off
        return o if isinstance(o, int) else o.term()
    def applies(self, ctx, fr, label, vals): return any(isinstance(x, Ptr) and x.obj is self.str.obj for x in vals.values())
    def enter(self, ctx, L, v):
        if self.mode == 'define': ctx.assume(simp(self.G(bv(0, 64)) == bv(v['h'], 32)))
    def inv(self, ctx, L, v):
        i = self.idx(v)
        return [('in-string', ule(i, self.n)), ('same-value', simp(self.G(bv(i, 64)) == bv(v['h'], 32)))]
    def variant(self, ctx, L, v): return sub(self.n, self.idx(v))
    def havoc(self, ctx, L, v):
        L.g['i'] = self.idx(v)
        if self.at is not None: ctx.assume(simp(eq(L.g['i'], self.at, 64)))
    def at_back(self, ctx, L, v):
        i = self.idx(v)
        ctx.prove(eq(i, add(L.g['i'], 1), 64), 'loop-order:hash')
        if self.mode == 'define':
            ctx.assume(simp(self.G(bv(i, 64)) == bv(v['h'], 32)))
            ctx.cover('hash:step')
            ctx.loopspecs = [Hash(self.G, self.n, self.other, 'compare', L.g['i'])]
            ctx.run(self.fn, self.args(self.other))
            raise PathEnd('other string is at its end here')
        if self.mode == 'use': raise PathEnd('step proved elsewhere')
def hashing(ctx):
    """hash values depend only on the letters, not on their case"""
    G = z3.Function(ctx.name('G'), z3.BitVecSort(64), z3.BitVecSort(32))
    n = ctx.fresh('n', 64); ctx.assume(ule(n, 1 << 30))
    s, t = new_string(ctx, 's', length=n), new_string(ctx, 't', length=n)
    up = lambda c: MODELS['toupper'](ctx, [sext(c, 8, 32)])
    cs, ct = (strref(ctx, p).node for p in (s, t))
    # equal but for letter case, at every position looked at
    ct.add_fact(ctx, lambda cx, i, v: cx.assume(simp(eq(up(v), up(cs.read(cx, i)), 32))))
    sp = Hash(G, n, s, 'define'); sp.other, sp.fn, sp.args = t, 'hashpjw_upper', lambda p: [p]
    ctx.loopspecs = [sp]
    oc, r1 = ctx.run('hashpjw_upper', [s])
    ctx.loopspecs = [Hash(G, n, t, 'use')]
    oc2, r2 = ctx.run('hashpjw_upper', [t])
    ctx.prove(oc == 'ret' and oc2 == 'ret', 'hash:returns')
    ctx.prove(eq(r1, r2, 32), 'hash:ignores-letter-case')
    ctx.cover('hash:end')

# ---------------------------------------------------------------- values and definitions
def valued(ctx, kind=None, ty=None, define=None):
    """a symbol of a given kind and type with a value, or none"""
    kind = kind or KINDS[ctx.choose(5)]
    ty = ty or ('TYPE_NUM', 'TYPE_STR')[ctx.choose(2)]
    d = ctx.choose(2) if define is None else define
    p = mk(ctx, 'SYMBOL', 'sym', dict(kind=enum(ctx, kind), type=enum(ctx, ty), defined=d))
    p.obj.tag = ('sym', kind, ty, d)
    own = []
    if kind == 'SYM_VARIABLE' and ty == 'TYPE_STR':
        v = new_string(ctx, 'value') if d and ctx.choose(2) == 0 else NULL
        ssetf(ctx, p, 'SYMBOL', 'val.str', v)
        if d: own = [v]
    elif kind in ('SYM_ARRAY', 'SYM_DEF'):
        v = NULL
        if d:
            v = Ptr(Obj(ctx.name('array' if kind == 'SYM_ARRAY' else 'def'), 64, None, 'lazy', None, False, True)); ctx.objs += 1; v.obj.born = ctx.objs
            own = [v]
        ssetf(ctx, p, 'SYMBOL', {'SYM_DEF': 'val.def'}.get(kind, 'val.numarr' if ty == 'TYPE_NUM' else 'val.strarr'), v)
    p.obj.own = own
    return p
def deleters(ctx):
    st = ctx.stubs
    st.update(ALLOC)
    def deleter(nm):
        def f(cx, a):
            cx.events.append((nm, a[0].obj))
            if not a[0].null: cx.free(a[0])
        st[nm] = f
    for nm in ('delete_numeric_array', 'delete_string_array', 'delete_def'): deleter(nm)
OWNER = {('SYM_ARRAY', 'TYPE_NUM'): 'delete_numeric_array', ('SYM_ARRAY', 'TYPE_STR'): 'delete_string_array', ('SYM_DEF', 'TYPE_NUM'): 'delete_def', ('SYM_DEF', 'TYPE_STR'): 'delete_def'}
def cleared(ctx, p, what, ev):
    """the symbol has no value any more, and what it owned is released by the right routine"""
    _, kind, ty, d = p.obj.tag
    g = lambda f: sgetf(ctx, p, 'SYMBOL', f)
    ctx.prove(eq(g('kind'), enum(ctx, kind), 8) if True else 0, what + ':kind-kept')
    ctx.prove(eq(g('type'), enum(ctx, ty), 8), what + ':type-kept')
    if kind == 'SYM_BUILTIN': ctx.prove(eq(g('defined'), d, 8), what + ':builtins-stay'); return
    ctx.prove(eq(g('defined'), 0, 8), what + ':no-value')
    for v in p.obj.own:
        if v.null: continue
        ctx.prove(v.obj.freed, what + ':old-value-released', kind)
        need = OWNER.get((kind, ty))
        if need: ctx.prove((need, v.obj) in ev, what + ':old-value-released', need)
    if kind == 'SYM_VARIABLE':
        if ty == 'TYPE_NUM' and d: ctx.prove(feq(g('val.num'), 0.0), what + ':zero')
        if ty == 'TYPE_STR': ctx.prove(g('val.str').null, what + ':empty')
    elif kind in ('SYM_ARRAY', 'SYM_DEF'): ctx.prove(g({'SYM_DEF': 'val.def'}.get(kind, 'val.numarr' if ty == 'TYPE_NUM' else 'val.strarr')).null, what + ':none')

class Psym:
    """symbol table whose symbols are separate blocks, made when first looked at"""
    def __init__(self, ctx, make):
        self.ctx = ctx
        u = self.used = ctx.fresh('used', 32); a = self.alloc = ctx.fresh('allocated', 32)
        ctx.assume(ule(u, a, 32)); ctx.assume(ule(a, 1 << 24, 32))
        self.have = not ctx.branch(eq(a, 0, 32))
        self.syms = BaseObj(make)
        self.psym = mk_array(ctx, 'psym', z64(a), key='ptr', mkcomp=lambda c, fo, k: Fn(lambda c2, i: self.syms.read(c2, i) if c2.branch(ult(i, z64(u))) else UNDEF)) if self.have else NULL
        self.st = mk(ctx, 'SYMTAB', 'symtab', dict(psym=self.psym, allocated=a, used=u))
        off, _ = ctx.prog.di.field('SYMTAB', 'hash[0]')
        self.n = sum(1 for path, o, k in ctx.prog.di.scalars('SYMTAB') if path.startswith('hash['))
        self.hseg = Seg(off, 8, self.n, [(0, 'ptr')], lambda c, fo, k: BaseObj(lambda c2, i: mk(c2, 'SYMBOL', 'head')), 'hash')
        self.st.obj.segs.append(self.hseg)
        for k in list(self.st.obj.layout):
            if off <= k < off + 8 * self.n: del self.st.obj.layout[k]
class Each(LoopSpec):
    """for every symbol of the table in turn"""
    def __init__(self, P, body, allow):
        LoopSpec.__init__(self, name='each', roles={'i': ('i32', ('i', 'j', 'k', 'n'))})
        self.P, self.body, self.allow = P, body, allow
    def inv(self, ctx, L, v): return [('in-table', ule(v['i'], self.P.used, 32))]
    def variant(self, ctx, L, v): return sub(z64(self.P.used), z64(v['i']))
    def enter(self, ctx, L, v): L.g['first'] = eq(v['i'], 0, 32)
    def havoc(self, ctx, L, v):
        L.g['i'] = v['i']; L.g['ev'] = len(ctx.events)
        self.last = L
    def at_back(self, ctx, L, v):
        ctx.prove(eq(v['i'], ibin('add', 32, L.g['i'], 1), 32), 'loop-order:each')
        ctx.prove(L.g['first'], 'each:from-the-first')
        s = self.P.syms.read(ctx, z64(L.g['i']))
        L.g['sym'] = s.obj
        self.body(ctx, s, ctx.events[L.g['ev']:])
        ctx.cover('each')
    def may_write(self, ctx, L, o, kind, off):
        s = self.P.syms.read(ctx, z64(L.g['i']))
        return o is s.obj and self.allow(off, kind) or any(o is v.obj for v in getattr(s.obj, 'own', ()))

def undefine(ctx):
    """clearing the values: every symbol loses its value, whatever its kind; built-ins stay"""
    deleters(ctx)
    P = Psym(ctx, lambda cx, i: valued(cx))
    offs = {ctx.prog.di.field('SYMBOL', f)[0] for f in ('defined', 'val.num')}
    sp = Each(P, lambda cx, s, ev: cleared(cx, s, 'clear', ev), lambda off, kind: kind != 'free' and off in offs)
    ctx.loopspecs = [sp]
    mark = len(ctx.wlog)
    oc, r = ctx.run('clear_symbol_table_values', [P.st])
    ctx.prove(oc == 'ret', 'clear:returns')
    if sp.uses: ctx.prove(not ctx.branch(ult(sp.last.cur['i'], P.used, 32)), 'clear:all-symbols')
    ctx.prove(eq(sgetf(ctx, P.st, 'SYMTAB', 'used'), P.used, 32), 'clear:names-stay')
    ctx.prove(all(o is not P.st.obj and not (P.have and o is P.psym.obj) for o, k, off in ctx.wlog[mark:]), 'clear:names-stay')
    ctx.cover('clear-values')

class Heads(LoopSpec):
    """emptying the chains in order"""
    def __init__(self, P):
        LoopSpec.__init__(self, name='heads', roles={'h': ('i32', ('h', 'i'))}); self.P = P
    def inv(self, ctx, L, v): return [('in-table', ule(v['h'], self.P.n, 32))]
    def check(self, ctx, L, v):
        j = ctx.fresh('bucket', 64)
        ctx.assume(ult(j, self.P.n)) 
        if not ctx.branch(ult(j, z64(v['h']))): return []
        p = self.P.st.obj.segs[0].comp(ctx, 0, 'ptr').read(ctx, j)
        return [('emptied', p is not UNDEF and p.null)]
    def havoc(self, ctx, L, v):
        sg = self.P.st.obj.segs[0]
        old = sg.comp(ctx, 0, 'ptr')
        sg.comps[(0, 'ptr')] = Rng(old, 0, z64(v['h']), lambda c, i: NULL)
    def variant(self, ctx, L, v): return sub(self.P.n, z64(v['h']))
    def may_write(self, ctx, L, o, kind, off): return o is self.P.st.obj and kind == 'seg'

def forget(ctx):
    """clearing the names: every value is cleared first, every symbol and name released once, and
    the table is empty afterwards"""
    deleters(ctx)
    def make(cx, i):
        p = mk(cx, 'SYMBOL', 'sym')
        nm = new_string(cx, 'name'); ssetf(cx, p, 'SYMBOL', 'name', nm)
        p.obj.own = [nm]
        return p
    P = Psym(ctx, make)
    def values(cx, a):
        cx.prove(a[0].obj is P.st.obj, 'forget:values-of-this-table')
        cx.prove(not any(v.obj.freed for k, v in P.syms.keys), 'forget:values-before-symbols')
        cx.prove(eq(sgetf(cx, P.st, 'SYMTAB', 'used'), P.used, 32), 'forget:values-before-symbols')
        cx.events.append(('values', None))
    ctx.stubs['clear_symbol_table_values'] = values
    def body(cx, s, ev):
        cx.prove(s.obj.freed and s.obj.own[0].obj.freed, 'forget:symbol-and-name-released')
        cx.prove(len([e for e in cx.events if e[0] == 'values']) == 1, 'forget:values-before-symbols')
    sp, hp = Each(P, body, lambda off, kind: kind == 'free'), Heads(P)
    class First(Each):
        pass
    sp.applies = lambda cx, fr, label, vals: not hp_first(cx)
    state = {'n': 0}
    def hp_first(cx): return bool(sp.uses)
    hp.applies = lambda cx, fr, label, vals: bool(sp.uses)
    ctx.loopspecs = [sp, hp]
    whole = ctx.choose(2) == 1
    oc, r = ctx.run('delete_symbol_table' if whole else 'clear_symbol_table_names', [P.st])
    ctx.prove(oc == 'ret', 'forget:returns')
    ctx.prove(len([e for e in ctx.events if e[0] == 'values']) == 1, 'forget:values-cleared')
    if sp.uses: ctx.prove(not ctx.branch(ult(sp.last.cur['i'], P.used, 32)), 'forget:all-symbols')
    ctx.cover('forget:%s' % whole)
    if whole:
        ctx.prove(P.st.obj.freed, 'delete:table-released')
        if P.have: ctx.prove(P.psym.obj.freed, 'delete:array-released')
        return
    for f in ('used', 'next_id'): ctx.prove(eq(sgetf(ctx, P.st, 'SYMTAB', f), 0, 32), 'forget:empty')
    ctx.prove(eq(sgetf(ctx, P.st, 'SYMTAB', 'allocated'), P.alloc, 32), 'forget:array-kept')
    ps = sgetf(ctx, P.st, 'SYMTAB', 'psym')
    ctx.prove(ps.obj is (P.psym.obj if P.have else None) and not (P.have and ps.obj.freed), 'forget:array-kept')
    j = ctx.fresh('bucket', 64); ctx.assume(ult(j, P.n))
    p = P.st.obj.segs[0].comp(ctx, 0, 'ptr').read(ctx, j)
    ctx.prove(p is not UNDEF and p.null, 'forget:no-name-is-found')

def unknown_arrays(ctx):
    """after parsing, exactly the parenthesised names never defined become arrays"""
    P = Psym(ctx, lambda cx, i: valued(cx, ty='TYPE_NUM', define=0))
    ok = ctx.prog.di.field('SYMBOL', 'kind')[0]
    def body(cx, s, ev):
        k = s.obj.tag[1]
        cx.prove(eq(sgetf(cx, s, 'SYMBOL', 'kind'), enum(cx, 'SYM_ARRAY' if k == 'SYM_UNKNOWN' else k), 8), 'unknown:becomes-array')
    sp = Each(P, body, lambda off, kind: kind != 'free' and off == ok)
    ctx.loopspecs = [sp]
    oc, r = ctx.run('sym_make_unknown_array', [P.st])
    ctx.prove(oc == 'ret', 'unknown:returns')
    if sp.uses: ctx.prove(not ctx.branch(ult(sp.last.cur['i'], P.used, 32)), 'unknown:all-symbols')
    ctx.cover('unknown')

def defs(ctx):
    """a definition takes its code over and releases it, once, with itself"""
    ctx.stubs.update(ALLOC)
    b, s = mk(ctx, 'BCODE', 'body'), (mk(ctx, 'SOURCE', 'source') if ctx.choose(2) else NULL)
    ln = ctx.fresh('line', 32)
    ctx.stubs['delete_bcode'] = lambda cx, a: cx.free(a[0])
    oc, d = ctx.run('new_def', [b, s, ln])
    g = lambda f: sgetf(ctx, d, 'def', f)
    ctx.prove(oc == 'ret' and g('bcode').obj is b.obj and g('source').obj is s.obj and eq(g('source_line'), ln, 32) is True, 'def:holds-its-code-and-line')
    oc, r = ctx.run('delete_def', [d])
    ctx.prove(oc == 'ret' and b.obj.freed and d.obj.freed and not (s.obj and s.obj.freed), 'def:releases-code-not-source')
    oc, r = ctx.run('delete_def', [NULL])
    ctx.prove(oc == 'ret', 'def:nothing-to-delete')
    ctx.cover('def')

# what the manual says: name, result type, argument types and code of each built-in function
BUILTINS = [(b'ABS', 'n', b'n', 'B_ABS'), (b'ASC', 'n', b's', 'B_ASC'), (b'ATN', 'n', b'n', 'B_ATN'), (b'CHR$', 's', b'n', 'B_CHR'), (b'COS', 'n', b'n', 'B_COS'), (b'EXP', 'n', b'n', 'B_EXP'),
    (b'INT', 'n', b'n', 'B_INT'), (b'LEFT$', 's', b'sn', 'B_LEFT'), (b'LEN', 'n', b's', 'B_LEN'), (b'LOG', 'n', b'n', 'B_LOG'), (b'MID$', 's', b'snn', 'B_MID3'), (b'RIGHT$', 's', b'sn', 'B_RIGHT'), (b'RND', 'n', b'd', 'B_RND'),
    (b'SGN', 'n', b'n', 'B_SGN'), (b'SIN', 'n', b'n', 'B_SIN'), (b'SQR', 'n', b'n', 'B_SQR'), (b'STR$', 's', b'n', 'B_STR'), (b'TAN', 'n', b'n', 'B_TAN'), (b'TIME$', 's', b'd', 'B_TIME_STR'), (b'VAL', 'n', b's', 'B_VAL')]
RESERVED = (b'FIX', b'GET$', b'HEX$', b'INKEY$', b'SPACE$', b'USR')
def builtins_table(ctx):
    """every documented function is declared with its types and its own code; the names reserved
    for unsupported ones are declared as such"""
    got = {}
    ctx.initial = ('builtins',)
    ctx.res.assumptions.add('the table of built-in functions is not modified at run time (nothing takes a writable pointer to it)')
    ctx.stubs.update(ALLOC)
    def ins(cx, a):
        p = mk(cx, 'SYMBOL', 'builtin', dict(kind=trunc(a[2], 32, 8), type=trunc(a[3], 32, 8), defined=0))
        n = strref(cx, a[1]).concrete()
        cx.prove(n not in got, 'builtins:declared-once', repr(n))
        got[n] = p
        return p
    ctx.stubs['sym_insert'] = ins
    oc, r = ctx.run('init_builtins', [mk(ctx, 'SYMTAB', 'symtab')])
    ctx.prove(oc == 'ret', 'builtins:returns')
    g = lambda p, f: sgetf(ctx, p, 'SYMBOL', f)
    for n, t, args, op in BUILTINS:
        p = got.get(n)
        ctx.prove(p is not None, 'builtins:declared', n.decode())
        ctx.prove(eq(g(p, 'kind'), enum(ctx, 'SYM_BUILTIN'), 8) is True and eq(g(p, 'defined'), 1, 8) is True, 'builtins:kind', n.decode())
        ctx.prove(eq(g(p, 'type'), enum(ctx, 'TYPE_STR' if t == 's' else 'TYPE_NUM'), 8) is True, 'builtins:result-type', n.decode())
        ctx.prove(strref(ctx, g(p, 'val.builtin.args')).concrete() == args, 'builtins:argument-types', n.decode())
        ctx.prove(eq(g(p, 'val.builtin.opcode'), enum(ctx, op), 16) is True, 'builtins:code', n.decode())
    for n in RESERVED:
        p = got.get(n)
        ctx.prove(p is not None, 'builtins:reserved', n.decode())
    ctx.cover('builtins')
ALL = ['lookup', 'insert', 'new_table', 'hashing', 'undefine', 'forget', 'unknown_arrays', 'defs', 'builtins_table']

# ---------------------------------------------------------------- the listing of code
def code_line(ctx):
    """an instruction in the code listing: its place, its operation and the operand the operation has"""
    from .system import file_arg, stream_name
    ops = sorted(set((v, k) for k, v in ctx.prog.di.enums.items() if k.startswith('B_') and not k.startswith('B_NUM_')))
    v, k = ops[ctx.choose(len(ops))]
    i = mk(ctx, 'BINST', 'inst', heap=False)
    ssetf(ctx, i, 'BINST', 'op', v)
    kind, fmt = ctx.run('bcode_format', [v])
    kind, nm = ctx.run('bcode_name', [v])
    fmts = {n: enum(ctx, n) for n in ('BF_IMPLICIT', 'BF_SOURCE_LINE', 'BF_BASIC_LINE', 'BF_NUM', 'BF_STR', 'BF_VAR', 'BF_PARAM', 'BF_COUNT')}
    f = [n for n in fmts if eq(fmt, fmts[n], 32) is True]
    ctx.prove(len(f) == 1, 'code-line:format', k)
    f = f[0]
    get = lambda path: sgetf(ctx, i, 'BINST', path)
    st, src = mk(ctx, 'SYMTAB', 'st'), (mk(ctx, 'SOURCE', 'src') if ctx.choose(2) == 0 else NULL)
    texts = {}
    def s_sym(cx, a):
        cx.prove(a[0].obj is st.obj, 'code-line:table')
        texts['sym'] = a[1]; texts['name'] = new_string(cx, 'name')
        return texts['name']
    def at(cx, a): cx.prove(a[0].obj is src.obj and B(eq(a[1], get('u.source_line'), 32)), 'code-line:source-line')
    def s_num(cx, a):
        at(cx, a); texts['num'] = cx.fresh('num', 32); return texts['num']
    def s_text(cx, a):
        at(cx, a); texts['text'] = new_string(cx, 'text'); return texts['text']
    ctx.stubs.update(sym_name=s_sym, source_linenum=s_num, source_text=s_text, fatal=noreturn('fatal'))
    if f == 'BF_STR': ssetf(ctx, i, 'BINST', 'u.str', NULL if ctx.choose(2) == 0 else new_string(ctx, 'lit'))
    j = ctx.fresh('place', 32)
    kind, r = ctx.run('print_binst', [i, j, src, st, file_arg(ctx, 'out')])
    ctx.cover(f)
    ctx.prove(kind == 'ret', 'code-line:returns', kind)
    out = flat_out(ctx, ctx.events, 'out')
    ctx.prove(all(e[0] != 'out' or e[1] == 'out' for e in ctx.events), 'code-line:stream')
    ctx.prove(bool(out) and out[-1][0] == 'lit' and out[-1][1].endswith(b'\n'), 'code-line:one-line', repr(out))
    ctx.prove(all(p[0] != 'lit' or b'\n' not in p[1][:-1] for p in out), 'code-line:one-line', repr(out))
    nums = [p[1] for p in out if p[0] not in ('lit', 's')]
    strs = [p[1] for p in out if p[0] == 's']
    lit = b''.join(p[1] for p in out if p[0] == 'lit')
    name = strref(ctx, nm).concrete()
    if strs and strs[0].same(strref(ctx, nm)): strs.pop(0)
    else: ctx.prove(name in lit, 'code-line:operation', repr(out))
    ctx.prove(bool(nums) and B(eq(nums[0], j, 32)), 'code-line:place', repr(out)); nums = nums[1:]
    def want(ns, ss=()):
        ctx.prove(len(nums) == len(ns) and len(strs) == len(ss), 'code-line:operands', '%s %r' % (k, out))
        for a, (b, w) in zip(nums, ns): ctx.prove(feq(a, b) if w == 'f' else eq(a, b, 32), 'code-line:operand', k)
        for a, b in zip(strs, ss): ctx.prove(a.same(strref(ctx, b)), 'code-line:operand', k)
    if f == 'BF_IMPLICIT': want([])
    elif f == 'BF_SOURCE_LINE': want([(get('u.source_line'), 32)] + ([(texts['num'], 32)] if not src.null else []), [texts['text']] if not src.null else [])
    elif f == 'BF_BASIC_LINE': want([(get('u.basic_line.lineno'), 32)])
    elif f == 'BF_NUM': want([(get('u.num'), 'f')])
    elif f == 'BF_STR': want([], [get('u.str')] if not get('u.str').null else [])
    elif f == 'BF_COUNT': want([(get('u.count'), 32)])
    else:
        path = 'u.symbol_id' if f == 'BF_VAR' else 'u.param.symbol_id'
        want([] if f == 'BF_VAR' else [(zext(get('u.param.params'), kwidth(ctx.prog.di.field('BINST', 'u.param.params')[1]), 32), 32)], [texts['name']])
        w = kwidth(ctx.prog.di.field('BINST', path)[1])
        ctx.prove(eq(zext(texts['sym'], 32, 64) , zext(get(path), w, 64), 64), 'code-line:symbol', k)
ALL += ['code_line']
def kind_names(ctx):
    """messages call each kind of name by its own words"""
    seen = {}
    ctx.unroll = 20
    for k in KINDS:
        oc, r = ctx.run('symbol_kind', [enum(ctx, k)])
        ctx.prove(oc == 'ret' and not r.null, 'kind:returns', k)
        t = strref(ctx, r).concrete()
        ctx.prove(bool(t) and t not in seen, 'kind:own-words', k)
        seen[t] = k
    ctx.cover('kinds')
ALL += ['kind_names']
