"""Contracts of Basic/source.c: the stored program is a strictly increasing sequence of
(line number, text) records, i.e. a finite map."""
from lbv.hlib import *

def mk_source(ctx, name='src', empty_ok=True):
    """arbitrary valid SOURCE: used <= allocated, strictly increasing positive line numbers,
    each text a distinct heap string"""
    ctx.stubs.setdefault('fatal', noreturn('fatal'))
    used = ctx.fresh(name + '.used', 32)
    alloc = ctx.fresh(name + '.alloc', 32)
    ctx.assume(ule(used, alloc, 32))
    ctx.assume(ule(alloc, 1 << 26, 32))     # capacity arithmetic does not wrap (memory is finite)
    g = dict(used=used, alloc=alloc)
    u64 = z64(used)
    def mkcomp(cx, fo, key):
        if key == 'ptr':
            def make(c, idx):
                if c.branch(ult(idx, u64)):
                    return new_string(c, name + '.text')
                return UNDEF
            return BaseObj(make)
        b = BaseUF(cx.name(name + '.num'), key)
        b.add_unary(cx, lambda i, v: Implies(ult(i, u64), icmp('ne', 32, v, 0)))
        b.add_pair(cx, lambda i, v, j, w: Implies(And(ult(i, j), ult(j, u64)), ult(v, w, 32)))
        return b
    if ctx.branch(eq(alloc, 0, 32)):
        lines = NULL
        g['arr'] = None
    else:
        lines = mk_array(ctx, name + '.lines', z64(alloc), struct='source_line', mkcomp=mkcomp)
        g['arr'] = lines
        g['num'] = comp(ctx, lines, 'source_line', 'num')
        g['text'] = comp(ctx, lines, 'source_line', 'text')
    nm = NULL if ctx.opts.get('noname', True) else new_string(ctx, name + '.name')
    p = mk(ctx, 'SOURCE', name, dict(used=used, allocated=alloc, lines=lines, name=nm))
    g['p'] = p
    return g

class FindPos(LoopSpec):
    """scan loops: every earlier line number is smaller than the target"""
    def __init__(self, name, p, used):
        LoopSpec.__init__(self, name=name, roles={'i': ('i32', ('i', 'index', 'line', 'n', 'k'))})
        self.p, self.used = p, used
    def inv(self, ctx, L, v):
        return [('scan-position', ule(v['i'], self.p, 32))]
    def variant(self, ctx, L, v): return sub(1 << 40, z64(v['i']))

class Shift(LoopSpec):
    """spread(): records above i have been moved up by one, the rest are as at loop entry"""
    def __init__(self, name, up):
        LoopSpec.__init__(self, name=name, roles={'i': ('i32', ('i', 'k', 'j', 'n'))})
        self.up = up
    def applies(self, ctx, fr, label, vals): return True
    def lines(self, ctx, L): return sgetf(ctx, self.src, 'SOURCE', 'lines')
    def enter(self, ctx, L, v):
        ln = self.lines(ctx, L)
        L.g['arr'] = ln.obj
        L.g['modifies'] = (ln.obj,)
        L.g['c0'] = {f: comp(ctx, ln, 'source_line', f) for f in ('num', 'text')}
        L.g['i0'] = v['i']
    def inv(self, ctx, L, v):
        used = sgetf(ctx, self.src, 'SOURCE', 'used')
        if self.up:
            return [('index-range', And(ule(v['i'], L.g['i0'], 32), ule(self.pos, v['i'], 32)))]
        return [('index-range', And(ule(L.g['i0'], v['i'], 32), ule(v['i'], used, 32)))]
    def state(self, L, i, f):
        c0, i0 = L.g['c0'][f], L.g['i0']
        if self.up:
            return Rng(c0, add(z64(i), 1), add(z64(i0), 1), lambda cx, k: c0.read(cx, sub(k, 1)))
        return Rng(c0, z64(self.pos), add(z64(self.pos), sub(z64(i), z64(i0))), lambda cx, k: c0.read(cx, add(k, 1)))
    def check(self, ctx, L, v):
        used = sgetf(ctx, self.src, 'SOURCE', 'used')
        k = ctx.fresh('w', 64)
        ctx.assume(ult(k, add(z64(used), 1)))
        out = []
        ln = Ptr(L.g['arr'])
        for f, key in (('num', 'i32'), ('text', 'ptr')):
            a = comp(ctx, ln, 'source_line', f).read(ctx, k)
            b = self.state(L, v['i'], f).read(ctx, k)
            out.append(('shifted-%s' % f, same_value(ctx, a, b, key)))
        return out
    def havoc(self, ctx, L, v):
        ln = Ptr(L.g['arr'])
        for f in ('num', 'text'):
            set_comp(ctx, ln, 'source_line', f, self.state(L, v['i'], f))
    def variant(self, ctx, L, v):
        return z64(v['i']) if self.up else sub(1 << 40, z64(v['i']))

def enter_line(ctx):
    g = mk_source(ctx)
    ctx.stubs.update(ALLOC)
    ctx.stubs['source_error'] = noreturn('source_error')
    num = ctx.fresh('num', 32)
    ctx.assume(icmp('ne', 32, num, 0))
    text = new_string(ctx, 'text')
    used = g['used']; src = g['p']
    # ghost: the position of num in the sequence
    p = ctx.fresh('pos', 32)
    ctx.assume(ule(p, used, 32))
    have = g['arr'] is not None
    p64 = z64(p)
    old = {}
    if have:
        n0, t0 = g['num'], g['text']
        n0.add_unary(ctx, lambda i, v: Implies(ult(i, p64), ult(v, num, 32)))
        n0.add_unary(ctx, lambda i, v: Implies(And(ule(p64, i), ult(i, z64(used))), ule(num, v, 32)))
        atp = n0.read(ctx, p64)
        found = ctx.branch(And(ult(p, used, 32), eq(atp, num, 32)))
    else:
        found = False
    sh = Shift('shift-up', True); sh.src = src; sh.pos = p
    sh.func = None
    sh.applies = lambda cx, fr, lab, vals: sgetf(cx, src, 'SOURCE', 'used') is not used
    fp = FindPos('scan', p, used)
    ctx.loopspecs = [sh, fp]
    kind, r = ctx.run('enter_source_line', [src, num, text])
    ctx.loopspecs = []
    ctx.prove(kind == 'ret', 'entering-a-line-succeeds', str(kind))
    ctx.cover('enter:' + ('replace' if found else 'insert'))
    u1 = sgetf(ctx, src, 'SOURCE', 'used')
    a1 = sgetf(ctx, src, 'SOURCE', 'allocated')
    ln = sgetf(ctx, src, 'SOURCE', 'lines')
    ctx.prove(eq(u1, used if found else ibin('add', 32, used, 1), 32), 'line-count')
    ctx.prove(ule(u1, a1, 32), 'capacity')
    ctx.prove(not ln.null and not ln.obj.freed, 'array-live')
    k = ctx.fresh('k', 64)
    ctx.assume(ult(k, z64(u1)))
    an = comp(ctx, ln, 'source_line', 'num').read(ctx, k)
    at = comp(ctx, ln, 'source_line', 'text').read(ctx, k)
    if ctx.branch(eq(k, p64, 64)):
        ctx.prove(eq(an, num, 32), 'entered-number-at-its-place')
        ok = isinstance(at, Ptr) and at.obj is not None and at.obj is not text.obj and not at.obj.freed and at.obj.heap
        ctx.prove(ok, 'entered-text-is-an-owned-copy')
        r1, r0 = strref(ctx, at), strref(ctx, text)
        ctx.prove(r1.same(r0) , 'entered-text-equal')
        if found:
            ctx.prove(t0.read(ctx, p64).obj.freed, 'replaced-text-released')
    else:
        ctx.prove(have, 'other-lines-only-from-before')
        j = k
        if not found and ctx.branch(ult(p64, k)): j = sub(k, 1)
        ctx.prove(eq(an, n0.read(ctx, j), 32), 'other-line-number-unchanged')
        ot = t0.read(ctx, j)
        ctx.prove(same_value(ctx, at, ot, 'ptr'), 'other-line-text-unchanged')
        ctx.prove(not ot.obj.freed, 'other-line-text-not-released')

# ---------------------------------------------------------------- deletion
def other_texts_live(ctx, g, gone, tag):
    """an arbitrary text other than the one at index `gone` has not been released"""
    w = ctx.fresh('w', 64); ctx.assume(ult(w, z64(g['used'])))
    t = g['text'].read(ctx, w)
    if gone is not None and ctx.branch(eq(w, gone, 64)): return
    ctx.prove(not t.obj.freed, tag + ':other-texts-not-released')

def delete_line(ctx):
    """line index i is removed, the order of the others is kept; an index outside changes nothing"""
    ctx.stubs.update(ALLOC)
    g = mk_source(ctx)
    i = ctx.fresh('line', 32)
    src, used = g['p'], g['used']
    inside = ctx.branch(ult(i, used, 32))
    sh = Shift('shift-down', False); sh.src = src; sh.pos = i
    ctx.loopspecs = [sh]
    kind, r = ctx.run('delete_source_line', [src, i])
    ctx.loopspecs = []
    ctx.prove(kind == 'ret', 'delete:returns')
    ctx.cover('delete:%s' % inside)
    u1 = sgetf(ctx, src, 'SOURCE', 'used')
    ctx.prove(eq(u1, ibin('sub', 32, used, 1) if inside else used, 32), 'delete:line-count')
    ctx.prove(ule(u1, sgetf(ctx, src, 'SOURCE', 'allocated'), 32), 'delete:capacity')
    if g['arr'] is None: return
    ln = sgetf(ctx, src, 'SOURCE', 'lines')
    n0, t0 = g['num'], g['text']
    k = ctx.fresh('k', 64)
    if inside:
        other_texts_live(ctx, g, z64(i), 'delete')
        ctx.prove(t0.read(ctx, z64(i)).obj.freed, 'delete:text-released')
    if not ctx.branch(ult(k, z64(u1))): return
    j = k
    if inside and ctx.branch(ule(z64(i), k)): j = add(k, 1)
    ctx.prove(eq(comp(ctx, ln, 'source_line', 'num').read(ctx, k), n0.read(ctx, j), 32), 'delete:other-numbers-unchanged')
    ctx.prove(same_value(ctx, comp(ctx, ln, 'source_line', 'text').read(ctx, k), t0.read(ctx, j), 'ptr'), 'delete:other-texts-unchanged')

class FreeAll(LoopSpec):
    """each line's text is released exactly once, in turn"""
    def __init__(self, g, func):
        LoopSpec.__init__(self, name='release-lines', func=func, roles={'i': ('i32', ('i', 'k', 'line'))})
        self.g = g
        self.done = 0
    def inv(self, ctx, L, v): return [('range', ule(v['i'], self.g['used'], 32)), ('released-so-far', eq(self.done, z64(v['i']), 64))]
    def havoc(self, ctx, L, v):
        self.done = z64(v['i']); L.g['n'] = len(ctx.events)
    def at_back(self, ctx, L, v):
        ev = [e[1] for e in ctx.events[L.g['n']:] if e[0] == 'free']
        t = self.g['text'].read(ctx, z64(L.cur['i']))
        ctx.prove(len(ev) == 1 and ev[0] is t.obj, 'clear:each-text-released-once')
        self.done = add(self.done, 1)
    def variant(self, ctx, L, v): return sub(1 << 40, z64(v['i']))

class FreeFromEnd(LoopSpec):
    """the same from the last line on, the number of lines being what is left"""
    def __init__(self, g, func):
        LoopSpec.__init__(self, name='release-lines', func=func, roles={}); self.g = g; self.done = 0
    def used(self, ctx): return sgetf(ctx, self.g['p'], 'SOURCE', 'used')
    def inv(self, ctx, L, v):
        u = self.used(ctx)
        return [('range', ule(u, self.g['used'], 32)), ('released-so-far', eq(self.done, sub(z64(self.g['used']), z64(u)), 64))]
    def havoc(self, ctx, L, v):
        u = ctx.fresh('left', 32); ssetf(ctx, self.g['p'], 'SOURCE', 'used', u)
        L.g['u'] = u; self.done = sub(z64(self.g['used']), z64(u)); L.g['n'] = len(ctx.events)
    def at_back(self, ctx, L, v):
        ev = [e[1] for e in ctx.events[L.g['n']:] if e[0] == 'free']
        t = self.g['text'].read(ctx, sub(z64(L.g['u']), 1))
        ctx.prove(len(ev) == 1 and ev[0] is t.obj, 'clear:each-text-released-once')
        self.done = add(self.done, 1)
    def variant(self, ctx, L, v): return z64(self.used(ctx))
    def may_write(self, ctx, L, o, kind, off): return o is self.g['p'].obj

def clear(ctx):
    ctx.stubs.update(ALLOC)
    g = mk_source(ctx)
    fa = (FreeFromEnd if ctx.opts.get('alt') else FreeAll)(g, 'clear_source')
    ctx.loopspecs = [fa]
    kind, r = ctx.run('clear_source', [g['p']])
    ctx.loopspecs = []
    ctx.prove(kind == 'ret', 'clear:returns')
    ctx.prove(eq(sgetf(ctx, g['p'], 'SOURCE', 'used'), 0, 32), 'clear:empty')
    ctx.prove(eq(fa.done, z64(g['used']), 64), 'clear:every-text-released')
    ctx.cover('clear')

def delete_all(ctx):
    """delete_source releases every text, the array, the name and the object, once each"""
    ctx.stubs.update(ALLOC)
    ctx.opts['noname'] = False
    g = mk_source(ctx)
    name = sgetf(ctx, g['p'], 'SOURCE', 'name')
    fa = FreeAll(g, 'delete_source')
    ctx.loopspecs = [fa]
    kind, r = ctx.run('delete_source', [g['p']])
    ctx.loopspecs = []
    ctx.prove(kind == 'ret', 'delete-source:returns')
    ctx.prove(eq(fa.done, z64(g['used']), 64), 'delete-source:every-text-released')
    ctx.prove(g['p'].obj.freed and name.obj.freed and (g['arr'] is None or g['arr'].obj.freed), 'delete-source:everything-released')
    ctx.cover('delete_source')

# ---------------------------------------------------------------- lookup
def find_linenum(ctx):
    g = mk_source(ctx)
    num = ctx.fresh('num', 32)
    p = ctx.fresh('pos', 32)
    ctx.assume(ule(p, g['used'], 32))
    found = False
    if g['arr'] is not None:
        p64 = z64(p)
        g['num'].add_unary(ctx, lambda i, v: Implies(ult(i, p64), ult(v, num, 32)))
        g['num'].add_unary(ctx, lambda i, v: Implies(And(ule(p64, i), ult(i, z64(g['used']))), ule(num, v, 32)))
        found = ctx.branch(And(ult(p, g['used'], 32), eq(g['num'].read(ctx, p64), num, 32)))
    out = ctx.new_obj('index', size=4, default='uninit')
    fp = FindPos('find', p, g['used'])
    fp.inv = lambda cx, L, v: [('scan-position', And(ule(v['i'], g['used'], 32), Implies(found, ule(v['i'], p, 32))))]
    ctx.loopspecs = [fp]
    kind, r = ctx.run('find_source_linenum', [g['p'], num, Ptr(out)])
    ctx.loopspecs = []
    ctx.prove(kind == 'ret', 'find:returns')
    ctx.prove(Iff(as_bool(r), found), 'find:true-iff-stored')
    if found: ctx.prove(eq(ctx.load(Ptr(out), 'i32'), p, 32), 'find:index')
    ctx.cover('find:%s' % found)

# ---------------------------------------------------------------- appending (loading)
def append(ctx):
    ctx.stubs.update(ALLOC)
    ctx.stubs['source_error'] = noreturn('source_error')
    g = mk_source(ctx)
    num = ctx.fresh('num', 32); text = new_string(ctx, 'text')
    used = g['used']
    ok = icmp('ne', 32, num, 0)
    if g['arr'] is not None:
        last = g['num'].read(ctx, sub(z64(used), 1)) if ctx.branch(ult(0, used, 32)) else None
        if last is not None: ok = ult(last, num, 32)
    ok = ctx.branch(ok)
    kind, r = ctx.run('append', [g['p'], num, text], module_of(ctx, 'source'))
    ctx.cover('append:%s' % ok)
    ctx.prove(kind == ('ret' if ok else 'source_error'), 'append:only-increasing-positive-numbers')
    if not ok: return
    src = g['p']
    u1 = sgetf(ctx, src, 'SOURCE', 'used'); ln = sgetf(ctx, src, 'SOURCE', 'lines')
    ctx.prove(eq(u1, ibin('add', 32, used, 1), 32), 'append:line-count')
    ctx.prove(ule(u1, sgetf(ctx, src, 'SOURCE', 'allocated'), 32), 'append:capacity')
    ctx.prove(not ln.null and not ln.obj.freed, 'append:array-live')
    nn, tt = comp(ctx, ln, 'source_line', 'num'), comp(ctx, ln, 'source_line', 'text')
    ctx.prove(eq(nn.read(ctx, z64(used)), num, 32), 'append:number')
    at = tt.read(ctx, z64(used))
    ctx.prove(isinstance(at, Ptr) and at.obj is not None and at.obj is not text.obj and at.obj.heap, 'append:owned-copy')
    ctx.prove(strref(ctx, at).same(strref(ctx, text)), 'append:text')
    if g['arr'] is not None:
        k = ctx.fresh('k', 64)
        if ctx.branch(ult(k, z64(used))):
            ctx.prove(eq(nn.read(ctx, k), g['num'].read(ctx, k), 32), 'append:others-unchanged')
            ctx.prove(same_value(ctx, tt.read(ctx, k), g['text'].read(ctx, k), 'ptr'), 'append:others-unchanged')
            ctx.prove(not g['text'].read(ctx, k).obj.freed, 'append:others-not-released')

def module_of(ctx, name):
    for m in ctx.prog.modules:
        if m.name == name: return m
    return None

# ---------------------------------------------------------------- numbers in text
LIM = (1 << 32) - 1
class Decimal:
    """ghost: V(i) is the value of the first i characters read as decimal digits, saturating
    beyond 2^32 (exact below)"""
    def __init__(self, ctx, node, nd, off=0):
        self.ctx, self.node, self.off, self.nd = ctx, node, off, nd
        self.V = z3.Function(ctx.name('VALUE'), z3.BitVecSort(64), z3.BitVecSort(64))
        ctx.assume(self.V(z3.BitVecVal(0, 64)) == 0)
    def char(self, i): return self.node.read(self.ctx, add(self.off, i))
    def isdigit(self, i):
        c = self.char(i)
        return And(ule(48, c, 8), ule(c, 57, 8))
    def at(self, i, step=True):
        ctx = self.ctx; t = bv(i, 64)
        if step:
            for j in (t, t + 1):      # lemma (by induction on the definition): saturation persists
                ctx.assume(Implies(And(ule(simp(j), self.nd), z3.UGT(self.V(j), LIM)), z3.UGT(self.V(bv(self.nd, 64)), LIM)))
            c = self.char(i)
            d = zext(ibin('sub', 8, c, 48), 8, 64)
            v = self.V(t)
            ctx.assume(Implies(self.isdigit(i), self.V(t + 1) == z3.If(z3.UGT(v, LIM), v, v * 10 + bv(d, 64))))
        ctx.assume(z3.ULE(self.V(t), LIM * 10 + 9))
        return self.V(t)
class DigitLoop(LoopSpec):
    """digits [0, i) have been read and their value is the accumulator"""
    def __init__(self, D, line, nd, func, get=None, put=None, sat=None, first=0):
        LoopSpec.__init__(self, name='digits', func=func, roles={'s': ('ptr', ('s', 'line', 'p'))})
        self.D, self.line, self.nd, self.get, self.put, self.sat, self.first = D, line, nd, get, put, sat, first
    def pos(self, v): return off_term(off_add(v['s'].off, off_term(self.line.off), -1)) if v['s'].obj is self.line.obj else None
    def expect(self, i):
        v = self.D.at(i)
        t = simp(z3.Extract(31, 0, v))
        if self.sat is None: return [('value-so-far', And(ule(simp(v), LIM), eq(self.get(), t, 32)))]
        return [('value-so-far', eq(self.get(), simp(z3.If(z3.UGT(v, LIM), z3.BitVecVal(LIM, 32), bv(t, 32))), 32))]
    def inv(self, ctx, L, v):
        i = self.pos(v)
        return [('in-line', i is not None and ule(i, self.nd))] + self.expect(i)
    def havoc_ptr(self, ctx, L, role, old):
        t = ctx.fresh('digits.i', 64)
        return Ptr(self.line.obj, off_add(self.line.off, t, 1))
    def havoc(self, ctx, L, v):
        self.put(ctx.fresh('acc', 32)); L.g['modifies'] = (self.cell,)
    def variant(self, ctx, L, v): return sub(1 << 40, self.pos(v))

def parse_number(ctx):
    """parse_line_number: the decimal value of the leading digits; one space after it is not
    part of the text; no digits or a value beyond 32 bits is refused"""
    ctx.stubs['source_error'] = noreturn('source_error')
    line = new_string(ctx, 'line')
    n = strref(ctx, line).len
    node = strref(ctx, line).node
    nd = ctx.fresh('ndigits', 64)          # ghost: number of leading digits
    ctx.assume(ule(nd, n))
    D = Decimal(ctx, node, nd)
    node.add_unary(ctx, lambda i, c: Implies(ult(i, nd), And(ule(48, c, 8), ule(c, 57, 8))))
    ctx.assume(Not(D.isdigit(nd)))
    total = D.at(nd, False)
    out = ctx.new_obj('num', size=4, default='uninit'); q = Ptr(out)
    dl = DigitLoop(D, line, nd, ('parse_line_number',), get=lambda: ctx.peek(q, 'i32'), put=lambda v: ctx.poke(q, 'i32', v))
    dl.cell = out
    src = mk(ctx, 'SOURCE', 'src', dict(name=NULL))
    ctx.loopspecs = [dl]
    kind, r = ctx.run('parse_line_number', [src, line, q], module_of(ctx, 'source'))
    ctx.loopspecs = []
    if kind == 'source_error':
        ctx.cover('number:refused')
        # refused: no digits, or some prefix (hence the whole) is beyond the limit
        if ctx.branch(eq(nd, 0, 64)): return
        ctx.prove(z3.UGT(total, LIM), 'number:refused-only-if-absent-or-too-big')
        return
    ctx.prove(kind == 'ret', 'number:returns')
    ctx.cover('number:accepted')
    ctx.prove(ult(0, nd), 'number:at-least-one-digit')
    ctx.prove(ule(simp(total), LIM), 'number:not-too-big')
    ctx.prove(eq(ctx.load(q, 'i32'), simp(z3.Extract(31, 0, total)), 32), 'number:value')
    sp = ctx.branch(icmp('eq', 8, D.char(nd), 32))
    ctx.prove(isinstance(r, Ptr) and r.obj is line.obj and simp(eq(off_term(r.off), add(nd, 1 if sp else 0), 64)), 'number:text-after-one-space')

# ---------------------------------------------------------------- files
class LoadLoop(LoopSpec):
    """each line read is appended, with its number and its text, or refused"""
    scratch = True
    def __init__(self, G):
        LoopSpec.__init__(self, name='load', func='load_source_file', roles={}); self.G = G
    def havoc(self, ctx, L, v):
        self.G['ev'] = []; self.G['line'] = None
        L.g['n'] = len(ctx.events)
    def at_back(self, ctx, L, v):
        G = self.G
        ev = G['ev']
        ctx.prove(len(ev) == 1, 'load:each-line-appended-once')
        G['check'](ctx, ev[0])

def load_file(ctx):
    ctx.stubs.update(ALLOC)
    F = file_stubs(ctx)
    G = dict(ev=[], line=None, src=None)
    name = new_string(ctx, 'name')
    ctx.stubs['source_error'] = noreturn('source_error')
    def s_fgets(cx, a):
        cx.prove(isinstance(a[2], Ptr) and F['open'] and a[2].obj is F['open'][0][0], 'load:reads-the-file')
        G['line'] = read_line(cx, a[0], a[1])
        G['buf'] = a[0].obj
        G['parsed'] = None
        return a[0] if G['line'] else NULL
    def s_parse(cx, a):
        l = G['line']
        cx.prove(l is not None and a[1].obj is G['buf'] and eq(off_term(a[1].off), 0, 64), 'load:number-is-at-the-start-of-the-line')
        if cx.choose(2) == 1: raise Outcome('refused', 'number')
        k = cx.fresh('textpos', 64)
        cx.assume(And(ult(0, k), ule(k, strref(cx, a[1]).len)))
        num = cx.fresh('num', 32)
        cx.store(a[2], 'i32', num)
        G['parsed'] = (num, k)
        return a[1].plus(k)
    def check(cx, e):
        num, text, l, parsed = e
        cx.prove(eq(num, parsed[0], 32), 'load:number-of-the-line')
        cx.prove(text['obj'] is G['buf'] and simp(eq(text['off'], parsed[1], 64)), 'load:text-after-the-number')
        cx.prove(eq(text['len'], sub(sub(l['len'], 1), parsed[1]), 64), 'load:text-to-the-end-of-the-line')
        cx.prove(icmp('eq', 8, l['node'].read(cx, sub(l['len'], 1)), 10), 'load:whole-line')
        k = cx.fresh('k', 64)
        if cx.branch(ult(k, text['len'])): cx.prove(eq(text['ref'].char(k), l['node'].read(cx, add(parsed[1], k)), 8), 'load:characters-of-the-text')
    def s_append(cx, a):
        r = strref(cx, a[2])
        cx.prove(G['parsed'] is not None, 'load:appended-after-parsing')
        G['ev'].append((a[1], dict(obj=a[2].obj, off=off_term(a[2].off), len=r.len, ref=r), G['line'], G['parsed']))
        G['src'] = a[0]
        if cx.choose(2) == 1: raise Outcome('refused', 'order')
        return None
    ctx.stubs.update(fgets=s_fgets, parse_line_number=s_parse, append=s_append)
    G['check'] = check
    ctx.loopspecs = [LoadLoop(G)]
    kind, r = ctx.run('load_source_file', [name])
    ctx.loopspecs = []
    if kind == 'refused':
        ctx.cover('load:refused'); return
    if kind == 'source_error':
        l = G['line']
        ctx.cover('load:bad-line')
        ctx.prove(l is not None, 'load:refusal-is-of-a-line')
        ok = eq(l['len'], 0, 64)
        if not ctx.branch(ok):
            ctx.prove(Or(icmp('ne', 8, l['node'].read(ctx, sub(l['len'], 1)), 10), eq(l['len'], 1, 64)), 'load:only-bad-lines-are-refused')
        return
    ctx.prove(kind == 'ret', 'load:returns', str(kind))
    if not F['open']:
        ctx.cover('load:no-file')
        ctx.prove(isinstance(r, Ptr) and r.null, 'load:absent-file-gives-no-program')
        return
    ctx.cover('load:ok')
    ctx.prove(G['line'] is None, 'load:whole-file-is-read')
    ctx.prove(F['closed'] == [F['open'][0][0]], 'load:file-closed')
    ctx.prove(isinstance(r, Ptr) and not r.null and not r.obj.freed, 'load:returns-the-program')

class SaveLoop(LoopSpec):
    """line i is written as number, space, text"""
    def __init__(self, g, F):
        LoopSpec.__init__(self, name='save', func='save_source_file', roles={'i': ('i32', ('i', 'k', 'line'))}); self.g, self.F = g, F
    def inv(self, ctx, L, v): return [('range', ule(v['i'], self.g['used'], 32)), ('all-written', eq(v['i'], self.g.get('written', 0), 32))]
    def havoc(self, ctx, L, v):
        self.g['written'] = v['i']; L.g['n'] = len(ctx.events)
    def at_back(self, ctx, L, v):
        o = flat_out(ctx, ctx.events[L.g['n']:], self.F['open'][0][0].name)
        i = z64(L.cur['i'])
        ok = len(o) == 4 and o[0][0] == 'u' and o[1] == ('lit', b' ') and o[2][0] == 's' and o[3] == ('lit', b'\n')
        ctx.prove(ok, 'save:number-space-text-newline')
        ctx.prove(eq(o[0][1], self.g['num'].read(ctx, i), 32), 'save:number')
        ctx.prove(o[2][1].same(strref(ctx, self.g['text'].read(ctx, i))), 'save:text')
        self.g['written'] = ibin('add', 32, L.cur['i'], 1)
    def variant(self, ctx, L, v): return sub(1 << 40, z64(v['i']))

def save_file(ctx):
    g = mk_source(ctx)
    F = file_stubs(ctx)
    name = new_string(ctx, 'name')
    ctx.loopspecs = [SaveLoop(g, F)]
    kind, r = ctx.run('save_source_file', [g['p'], name])
    ctx.loopspecs = []
    ctx.prove(kind == 'ret', 'save:returns')
    if not F['open']:
        ctx.cover('save:cannot-create')
        ctx.prove(Not(as_bool(r)), 'save:failure-is-reported')
        return
    o = F['open'][0]
    ctx.prove(o[1].same(strref(ctx, name)) and o[2] in (b'w', b'wt'), 'save:the-named-file-is-written')
    ctx.prove(F['closed'] == [o[0]], 'save:file-closed')
    ctx.prove(eq(g.get('written', 0), g['used'], 32), 'save:every-line-written')
    n = sum(e[0] == 'out' and e[1] == o[0].name for e in ctx.events)
    final = F['lasterr'] is not None and F['lasterr'][0] == n
    bad = F['close_failed'] or (final and F['lasterr'][1])
    ctx.cover('save:%s' % ('error' if bad else 'ok'))
    if bad: ctx.prove(Not(as_bool(r)), 'save:failure-is-reported')
    else:
        ctx.prove(as_bool(r), 'save:success')
        ctx.prove(final, 'save:errors-are-checked-after-writing')
    after = ctx.events[ctx.events.index(('fclose', o[0])):]
    ctx.prove(not any(e[0] == 'out' and e[1] == o[0].name for e in after), 'save:nothing-written-after-closing')

def wrap(ctx):
    ctx.stubs.update(ALLOC)
    text = new_string(ctx, 'text')
    kind, r = ctx.run('wrap_source_text', [text])
    ctx.prove(kind == 'ret' and isinstance(r, Ptr) and not r.null, 'wrap:returns')
    ctx.prove(eq(sgetf(ctx, r, 'SOURCE', 'used'), 1, 32), 'wrap:one-line')
    ctx.prove(ule(1, sgetf(ctx, r, 'SOURCE', 'allocated'), 32), 'wrap:capacity')
    ln = sgetf(ctx, r, 'SOURCE', 'lines')
    o1, k1 = ctx.prog.di.field('source_line', 'num'); o2, k2 = ctx.prog.di.field('source_line', 'text')
    ctx.prove(eq(ctx.load(ln.plus(o1), k1), 0, 32), 'wrap:line-number-zero')
    t = ctx.load(ln.plus(o2), k2)
    ctx.prove(isinstance(t, Ptr) and t.obj is not text.obj and t.obj.heap and not t.obj.freed, 'wrap:owned-copy')
    ctx.prove(strref(ctx, t).same(strref(ctx, text)), 'wrap:text')
    ctx.prove(sgetf(ctx, r, 'SOURCE', 'name').null, 'wrap:no-name')
    ctx.cover('wrap')

def replace(ctx):
    """source_replace: the text at pos, if it is `from`, becomes `to`; nothing else changes"""
    ctx.stubs.update(ALLOC)
    g = mk_source(ctx)
    line = ctx.fresh('line', 32); pos = ctx.fresh('pos', 32)
    frm, to = new_string(ctx, 'from', maxlen=1 << 20), new_string(ctx, 'to', maxlen=1 << 20)
    src = g['p']
    inside = g['arr'] is not None and ctx.branch(ult(line, g['used'], 32))
    S = {}
    if inside:
        t = g['text'].read(ctx, z64(line))
        r0 = strref(ctx, t); n = r0.len; ctx.assume(ule(n, 1 << 20))
        fl, tl = strref(ctx, frm).len, strref(ctx, to).len
        fits = ctx.branch(And(ule(z64(pos), n), ule(fl, sub(n, z64(pos)))))
        def s_strncmp(cx, a):
            p = a[0] if a[0].obj is t.obj else a[1]; q = a[1] if p is a[0] else a[0]
            cx.prove(p.obj is t.obj and q.obj is frm.obj and simp(And(eq(off_term(p.off), z64(pos), 64), eq(off_term(q.off), 0, 64), eq(a[2], fl, 64))), 'replace:compares-the-text-at-the-position')
            S['match'] = cx.choose(2) == 1
            return 0 if S['match'] else 1
        ctx.stubs['strncmp'] = s_strncmp
        ctx.stubs['memcmp'] = s_strncmp
    kind, r = ctx.run('source_replace', [src, line, pos, frm, to])
    ctx.prove(kind == 'ret', 'replace:returns')
    ctx.prove(eq(sgetf(ctx, src, 'SOURCE', 'used'), g['used'], 32), 'replace:line-count')
    if not inside:
        ctx.prove(Not(as_bool(r)), 'replace:no-such-line'); ctx.cover('replace:outside'); return
    do = fits and S.get('match')
    if fits: ctx.prove('match' in S, 'replace:compared')
    ctx.prove(Iff(as_bool(r), bool(do)), 'replace:true-iff-replaced')
    ctx.cover('replace:%s' % bool(do))
    ln = sgetf(ctx, src, 'SOURCE', 'lines')
    nn, tt = comp(ctx, ln, 'source_line', 'num'), comp(ctx, ln, 'source_line', 'text')
    k = ctx.fresh('k', 64)
    if ctx.branch(ult(k, z64(g['used']))):
        ctx.prove(eq(nn.read(ctx, k), g['num'].read(ctx, k), 32), 'replace:numbers-unchanged')
        if not do or not ctx.branch(eq(k, z64(line), 64)):
            ctx.prove(same_value(ctx, tt.read(ctx, k), g['text'].read(ctx, k), 'ptr'), 'replace:other-texts-unchanged')
            ctx.prove(not g['text'].read(ctx, k).obj.freed, 'replace:other-texts-not-released')
    if not do: return
    ctx.prove(t.obj.freed, 'replace:old-text-released')
    a = tt.read(ctx, z64(line))
    ctx.prove(isinstance(a, Ptr) and a.obj is not None and not a.obj.freed and a.obj.heap, 'replace:new-text-owned')
    na = strref(ctx, a)
    c = ctx.fresh('c', 64)
    total = add(sub(n, fl), tl)
    if not ctx.branch(ule(c, total)): return
    p64 = z64(pos)
    if ctx.branch(ult(c, p64)): e = r0.char(c)
    elif ctx.branch(ult(c, add(p64, tl))): e = strref(ctx, to).char(sub(c, p64))
    else: e = r0.char(add(sub(c, tl), fl))
    ctx.prove(eq(na.char(c), e, 8), 'replace:text-is-before-new-after')
ALL = ['enter_line', 'delete_line', 'clear', 'delete_all', 'find_linenum', 'append', 'parse_number', 'load_file', 'save_file', 'wrap', 'replace']
clear.alts = 2
