"""Helpers shared by the contract harnesses."""
import z3
from .terms import *
from .mem import *
from .engine import *
from .libc import new_string, dup_string, strref, StrRef, MODELS

def sgetf(ctx, p, struct, path):
    off, key = ctx.prog.di.field(struct, path)
    q = p.plus(off)
    return ctx.peek(q, key) if not q.obj.segs or q.obj.seg_for(q.off, 1) is None else ctx.load(q, key)
def ssetf(ctx, p, struct, path, v):
    off, key = ctx.prog.di.field(struct, path)
    ctx.poke(p.plus(off), key, v)
def field_off(ctx, struct, path):
    return ctx.prog.di.field(struct, path)
def enum(ctx, name): return ctx.prog.di.enums[name]

def mk(ctx, struct, name, fields=None, heap=True, default='lazy'):
    """object laid out as a named struct; given fields set, others arbitrary"""
    di = ctx.prog.di
    o = Obj(ctx.name(name), di.size(struct), None, default, None, False, heap)
    o.layout = {}
    for path, off, key in di.scalars(struct):
        o.layout.setdefault(off, key)
    ctx.objs += 1; o.born = ctx.objs
    p = Ptr(o)
    for k, v in (fields or {}).items(): ssetf(ctx, p, struct, k, v)
    return p

def mk_array(ctx, name, count, struct=None, key=None, mkcomp=None, heap=True, stride=None):
    """heap array of `count` (term64) records/scalars with symbolic indexing"""
    di = ctx.prog.di
    if struct:
        stride = di.size(struct)
        lay = []
        for path, off, k in di.scalars(struct):
            if (off, k) not in lay: lay.append((off, k))
    else:
        stride = KSIZE[key]; lay = [(0, key)]
    o = Obj(ctx.name(name), ibin('mul', 64, count, stride), None, 'lazy', None, False, heap)
    def default_comp(cx, fo, k):
        if mkcomp is not None:
            n = mkcomp(cx, fo, k)
            if n is not None: return n
        if k == 'ptr': raise Structural('unspecified pointer array %s+%d' % (name, fo))
        return BaseUF(cx.name('%s.%d.%s' % (o.name, fo, k)), k)
    o.segs.append(Seg(0, stride, count, lay, default_comp, o.name))
    ctx.objs += 1; o.born = ctx.objs
    return Ptr(o)

def seg(p): return p.obj.segs[0]
def comp(ctx, p, struct, path):
    off, key = ctx.prog.di.field(struct, path)
    return seg(p).comp(ctx, off, key)
def set_comp(ctx, p, struct, path, node):
    off, key = ctx.prog.di.field(struct, path)
    seg(p).comps[(off, key)] = node

def z64(x, w=32): return zext(x, w, 64)

def same_value(ctx, a, b, key):
    if a is UNDEF or b is UNDEF: return a is b
    if key == 'ptr':
        if isinstance(a, Ptr) and isinstance(b, Ptr): return ctx.ptr_cmp('eq', a, b)
        return a is b
    if key == 'f64': return feq(a, b)
    return icmp('eq', kwidth(key), a, b)

# ------------------------------------------------ contracts of Shared/utils.c allocation
def s_emalloc(ctx, a): return ctx.malloc(a[0], 'uninit')
def s_ecalloc(ctx, a): return ctx.malloc(ibin('mul', 64, a[0], a[1]), 'zero')
def s_estrdup(ctx, a): return dup_string(ctx, a[0])
def s_efree(ctx, a): ctx.free(a[0]); return None
def s_erealloc(ctx, a):
    p, n = a
    if p.obj is None: return ctx.malloc(n, 'uninit')
    if p.obj.freed: ctx.fail('no-use-after-free', 'realloc')
    if p.off != 0 or not p.obj.heap: ctx.fail('realloc-of-heap-object', p.obj.name)
    o = p.obj
    q = Obj(ctx.name(o.name + '+'), n, o.layout, o.default, o.init, False, True)
    q.cells = dict(o.cells)
    for s in o.segs:
        cnt = None
        if s.count is not None:
            cnt = n // s.stride if isinstance(n, int) else simp(z3.UDiv(n, z3.BitVecVal(s.stride, 64)))
        t = Seg(s.start, s.stride, cnt, s.layout, s.mk, s.name)
        t.comps = dict(s.comps); t.mk = lambda cx, fo, k, s=s: s.comp(cx, fo, k)
        q.segs.append(t)
    ctx.objs += 1; q.born = ctx.objs; q.tag = o.tag
    o.freed = True
    ctx.events.append(('realloc', o, q))
    return Ptr(q)
ALLOC = {'emalloc': s_emalloc, 'ecalloc': s_ecalloc, 'estrdup': s_estrdup, 'efree': s_efree, 'erealloc': s_erealloc}

def noreturn(kind):
    def st(ctx, a):
        raise Outcome(kind, a)
    return st

# ------------------------------------------------ output and files
def flat_out(ctx, events, st):
    """what was written to a stream, with adjacent literal text merged"""
    out = []
    for e in events:
        if e[0] != 'out' or e[1] != st: continue
        for k, v in e[2]:
            if k == 'c' and isinstance(v, int): k, v = 'lit', bytes([v & 255])
            if k == 's':
                c = v.concrete()
                if c is not None: k, v = 'lit', c
            if k == 'lit' and out and out[-1][0] == 'lit': out[-1] = ('lit', out[-1][1] + v)
            elif k == 'lit' and v == b'': pass
            else: out.append((k, v))
    return out

def file_stubs(ctx):
    """contracts of the file functions; state in ctx.files"""
    F = ctx.files = dict(open=[], closed=[], err=None, lasterr=None)
    def s_fopen(cx, a):
        if cx.choose(2) == 1: return NULL
        o = Obj(cx.name('FILE'), None); o.tag = ('FILE', o.name)
        F['open'].append((o, strref(cx, a[0]), strref(cx, a[1]).concrete()))
        cx.events.append(('fopen', o))
        return Ptr(o)
    def s_fclose(cx, a):
        cx.prove(isinstance(a[0], Ptr) and any(a[0].obj is x[0] for x in F['open']), 'file:close-what-was-opened')
        cx.prove(a[0].obj not in F['closed'], 'file:closed-once')
        F['closed'].append(a[0].obj)
        F['close_failed'] = cx.choose(2) == 1
        cx.events.append(('fclose', a[0].obj))
        return mask(32) if F['close_failed'] else 0
    def s_ferror(cx, a):
        # write errors may still happen later: only an answer after the last write is final
        if F['lasterr'] is None or F['lasterr'][0] != sum(e[0] == 'out' and e[1] == a[0].obj.name for e in cx.events):
            F['lasterr'] = (sum(e[0] == 'out' and e[1] == a[0].obj.name for e in cx.events), cx.choose(2) == 1)
        return 1 if F['lasterr'][1] else 0
    ctx.stubs.update(fopen=s_fopen, fclose=s_fclose, ferror=s_ferror)
    return F

def read_line(ctx, p, size, name='line'):
    """contract of fgets: NULL at the end of input, else a line of at most size-1 characters,
    with a line end only as its last character"""
    if ctx.choose(2) == 1: return None
    n = ctx.fresh(name + '.len', 64)
    ctx.assume(ule(n, sub(z64(size), 1)))
    node = BaseUF(ctx.name(name + '.ch'), 'i8')
    node.strlen = n; node.nuls = (n,)
    node.add_unary(ctx, lambda i, v: And(Implies(ult(i, n), icmp('ne', 8, v, 0)), Implies(idx_eq(i, n), icmp('eq', 8, v, 0)),
                                         Implies(ult(add(i, 1), n), icmp('ne', 8, v, 10))))
    ctx.check_range(p, z64(size), 'write')
    sg, old, di = ctx.bytes_node(p)
    if di != 0: raise Structural('fgets into the middle of an object')
    ctx.wlog.append((p.obj, 'seg', sg.start))
    sg.comps[(0, 'i8')] = node
    return dict(node=node, len=n)
