"""Arbitrary valid VM states and the total-state comparison used by the B-code contracts."""
from lbv.hlib import *

MAXN, MAXS, MAXR, MAXF = 16, 8, 8, 8

def symw(ctx): return kwidth(ctx.prog.di.field('SYMBOL', 'id')[1])
def symid(ctx, v):
    w = symw(ctx)
    return trunc(v, 32, w) if w < 32 else v

class NewStr:
    """expected: a freshly owned string of this length and these characters"""
    def __init__(self, length, charfn, node=None): self.length, self.charfn, self.node = length, charfn, node
    @staticmethod
    def of(ctx, p):
        r = strref(ctx, p)
        return NewStr(r.len, lambda k: r.char(k), r)

class Error(Exception):
    """the specification says: run-time error"""
    def __init__(self, why): self.why = why

class Exp:
    def __init__(self):
        self.vm = {}          # vm field path -> value / NewStr
        self.other = []       # (ptr, struct, path, value)
        self.freed = []       # Ptr
        self.out = []         # expected output pieces (stream, piece)
        self.calls = []
        self.npush, self.spush = [], []
        self.dontcare = set() # vm paths whose value is not specified
        self.skip_out = False

class VM:
    def __init__(self, ctx, code='stored'):
        self.ctx = ctx
        self.bcodes = {}
        o = mk(ctx, 'VM', 'vm')
        self.p = o
        self.paths = {}
        for path, off, key in ctx.prog.di.scalars('VM'):
            self.paths.setdefault(off, path)
        o.obj.init = self.init
        self.owned = []        # live heap strings reachable from the state (lazily)
        di = ctx.prog.di
        def addseg(path, stride, n, key, mk):
            off = di.field('VM', path + '[0]')[0]
            sg = Seg(off, stride, n, [(0, key)], mk, 'vm.' + path)
            o.obj.segs.append(sg)
            for k in list(o.obj.layout):
                if off <= k < off + stride * n: del o.obj.layout[k]
            return sg
        self.nbase = BaseUF(ctx.name('vm.stack'), 'f64')
        def mkstr(c, idx):
            if c.branch(ult(idx, z64(self.ssp0))):
                p = new_string(c, 'sstk', 1 << 20); self.owned.append(p); return p
            return UNDEF
        self.sbase = BaseObj(mkstr)
        self.nseg = addseg('stack', 8, MAXN, 'f64', lambda c, fo, k: self.nbase)
        self.sseg = addseg('strstack', 8, MAXS, 'ptr', lambda c, fo, k: self.sbase)
        self.inbase = BaseUF(ctx.name('vm.input'), 'i8')
        self.inseg = addseg('input', 1, 128, 'i8', lambda c, fo, k: self.inbase)
        self.st = mk(ctx, 'SYMTAB', 'symtab')
        self.set('st', self.st)
        for f in ('trace_basic', 'trace_for', 'trace_log'): self.set(f, 0)
        ctx.res.assumptions.add('tracing options are off')
        if isinstance(code, str): code = (code,)
        self.bcodes = {}
        self.sources = {}
        if code is not None:
            self.codename = code[ctx.choose(len(code))] if len(code) > 1 else code[0]
            self.code = self.codeptr(self.codename)
            self.set('code_state.code', self.code)
        for f, m in (('sp', MAXN), ('ssp', MAXS), ('rsp', MAXR), ('for_sp', MAXF)):
            v = ctx.fresh('vm.' + f, 32)
            ctx.assume(ule(v, m, 32))
            self.set(f, v)
        self.sp0, self.ssp0 = self.get('sp'), self.get('ssp')
        if code is not None:
            b = self.bcode(self.codename)
            self.pc = ctx.fresh('vm.pc', 32)
            self.set('code_state.pc', self.pc)
            ctx.assume(ult(self.pc, self.get_used(), 32))
        self.symbols = {}
        self.symarr = BaseObj(self.make_symbol)
        self.kinds = {}
    # ---- pieces
    def codeptr(self, name):
        off, _ = self.ctx.prog.di.field('VM', {'stored': 'stored_program', 'imm': 'immediate_code', 'def': 'def_code'}[name])
        return self.p.plus(off)
    def bcode(self, name):
        """the BCODE of a code (arbitrary instructions)"""
        if name in self.bcodes: return self.bcodes[name]
        ctx = self.ctx
        used = ctx.fresh(name + '.used', 32)
        alloc = ctx.fresh(name + '.alloc', 32)
        ctx.assume(ule(used, alloc, 32)); ctx.assume(ule(alloc, 1 << 26, 32)); ctx.assume(icmp('ne', 32, alloc, 0))
        def mkcomp(cx, fo, key):
            if key == 'ptr':
                return BaseObj(lambda c, i: new_string(c, name + '.lit') if c.choose(2) == 0 else NULL)
        inst = mk_array(ctx, name + '.inst', z64(alloc), struct='BINST', mkcomp=mkcomp)
        b = mk(ctx, 'BCODE', name + '.bcode', dict(inst=inst, used=used, allocated=alloc))
        self.bcodes[name] = b
        path = {'stored': 'stored_program', 'imm': 'immediate_code', 'def': 'def_code'}.get(name)
        if path: self.set(path + '.bcode', b)
        return b
    def get_used(self, name=None):
        return sgetf(self.ctx, self.bcode(name or self.codename), 'BCODE', 'used')
    def inst(self, name=None): return sgetf(self.ctx, self.bcode(name or self.codename), 'BCODE', 'inst')
    def icomp(self, path, name=None): return comp(self.ctx, self.inst(name), 'BINST', path)
    def iget(self, idx, path, name=None): return self.icomp(path, name).read(self.ctx, z64(idx))
    def iset(self, idx, path, val, name=None):
        off, key = self.ctx.prog.di.field('BINST', path)
        seg(self.inst(name)).comps[(off, key)] = Wr(self.icomp(path, name), z64(idx), val)
    def get(self, path): return sgetf(self.ctx, self.p, 'VM', path)
    def set(self, path, v): ssetf(self.ctx, self.p, 'VM', path, v)
    def init(self, ctx, o, off, key):
        path = self.paths.get(off)
        if path is None: return None
        if key == 'i8':
            v = ctx.fresh('vm.' + path, 8); ctx.assume(ule(v, 1, 8))     # _Bool
            return v
        if key != 'ptr': return None
        import re
        m = re.match(r'(retstack\[(\d)\]|for_stack\[(\d)\]\.code_state|stopped_program|fn\.code_state)\.code$', path)
        if m:
            if m.group(2) and not ctx.branch(ult(int(m.group(2)), self.get('rsp'), 32)): return UNDEF
            if m.group(3) and not ctx.branch(ult(int(m.group(3)), self.get('for_sp'), 32)): return UNDEF
            # which code a saved position refers to matters only by identity
            return self.saved_code(ctx, path)
        if path == 'code_state.code': return NULL if ctx.choose(2) == 0 else ctx.opaque(path, [self.codeptr('stored'), self.codeptr('imm')])
        m = re.match(r'(stored_program|immediate_code|def_code)\.(source|bcode|index)$', path)
        if m:
            if m.group(2) == 'index':
                return mk(ctx, 'LINE_MAP', 'index') if ctx.choose(2) == 0 else NULL
            if m.group(2) == 'source':
                return mk(ctx, 'SOURCE', 'source') if ctx.choose(2) == 0 else NULL
            return self.bcode({'stored_program': 'stored', 'immediate_code': 'imm', 'def_code': 'def'}[m.group(1)]) \
                if ctx.choose(2) == 0 else NULL
        return None
    def saved_code(self, ctx, path):
        if path.startswith(('fn', 'stopped')):
            return NULL if ctx.choose(2) == 0 else ctx.opaque(path, [self.codeptr('stored'), self.codeptr('imm')])
        return ctx.opaque(path, [self.codeptr('stored'), self.codeptr('imm')])
    # ---- symbols
    def make_symbol(self, ctx, idx):
        p = mk(ctx, 'SYMBOL', 'sym')
        k = self.kinds.get(None)
        o = p.obj
        o.init = self.sym_init
        o.tag = ('sym', idx)
        ssetf(ctx, p, 'SYMBOL', 'id', trunc(idx, 64, symw(ctx)) if not isinstance(idx, int) else idx)
        return p
    def sym_init(self, ctx, o, off, key):
        if key == 'i8':
            v = ctx.fresh(o.name + '.flag', 8); ctx.assume(ule(v, 1, 8))
            return v
        if off == ctx.prog.di.field('SYMBOL', 'name')[0]:
            return new_string(ctx, 'symname', 127, heap=True)
        if off == ctx.prog.di.field('SYMBOL', 'next')[0]:
            raise Structural('symbol chain')
        if key == 'ptr' and off == ctx.prog.di.field('SYMBOL', 'val.str')[0]:
            d = ctx.cell_get(o, ctx.prog.di.field('SYMBOL', 'defined')[0], 'i8')
            kind = o.tag[2] if len(o.tag) > 2 else 'str'
            if not ctx.branch(icmp('ne', 8, d, 0)): return NULL
            if kind == 'str':
                if ctx.choose(2) == 0: return NULL
                s = new_string(ctx, 'symval', 1 << 20); self.owned.append(s)
                return s
            if kind == 'def':
                return self.make_def(ctx, o)
            return self.make_array(ctx, o, kind)
        return None
    def symbol(self, ident, kind=None, ty=None):
        """the symbol with this (16-bit) id"""
        ctx = self.ctx
        p = self.symarr.read(ctx, zext(ident, symw(self.ctx), 64))
        if kind is not None:
            ssetf(ctx, p, 'SYMBOL', 'kind', enum(ctx, kind))
            if ty: ssetf(ctx, p, 'SYMBOL', 'type', enum(ctx, ty))
            p.obj.tag = p.obj.tag[:2] + ({'SYM_DEF': 'def', 'SYM_ARRAY': 'strarr' if ty == 'TYPE_STR' else 'numarr'}.get(kind, 'str'),)
        return p
    def s_symbol(self, ctx, a):
        return self.symarr.read(ctx, zext(a[1], symw(ctx), 64))
    def make_def(self, ctx, o): raise Structural('def')
    def make_array(self, ctx, o, kind):
        p = ctx.malloc(ctx.fresh('arrsize', 64), 'lazy', 'array')
        ctx.alloc_live.pop()
        p.obj.tag = ('array', kind)
        return p

def sget(ctx, p, path): return sgetf(ctx, p, 'SYMBOL', path)

def check_newstr(ctx, act, exp, what, others):
    ok = isinstance(act, Ptr) and act.obj is not None and act.obj.heap and not act.obj.freed and act.off == 0 and all(act.obj is not q for q in others)
    ctx.prove(ok, what + ':fresh-owned-string')
    r = strref(ctx, act)
    if exp.node is not None and r.same(exp.node): 
        ctx.prove(True, what + ':content'); return
    ctx.prove(eq(r.len, exp.length, 64), what + ':length')
    k = ctx.fresh('k', 64)
    ctx.assume(ult(k, exp.length))
    ctx.prove(eq(r.char(k), exp.charfn(k), 8), what + ':content')

def snapshot(ctx, V):
    return dict(cells={o: dict(o.cells) for o in [V.p.obj]}, mark=len(ctx.wlog), born=ctx.objs, ev=len(ctx.events), live=len(ctx.alloc_live))

def flat_out(ctx, evs):
    out = []
    for e in evs:
        if e[0] == 'out':
            for p in e[2]: out.append((e[1], p))
        elif e[0] == 'rep': out.append(('stdout', e))
    # merge literals
    r = []
    for st, p in out:
        if p[0] == 'c' and isinstance(p[1], int): p = ('lit', bytes([p[1] & 255]))
        if p[0] == 's' and p[1].concrete() is not None: p = ('lit', p[1].concrete())
        if p[0] == 'lit' and p[1] == b'': continue
        if r and r[-1][0] == st and r[-1][1][0] == 'lit' and p[0] == 'lit':
            r[-1] = (st, ('lit', r[-1][1][1] + p[1]))
        else: r.append((st, p))
    return r

def piece_eq(ctx, a, b):
    if a[0] != b[0]: return False
    if a[0] == 'lit': return a[1] == b[1]
    if a[0] == 's': return a[1].same(b[1])
    if a[0] == 'rep': return And(a[1] == b[1], eq(a[2], b[2], 64))
    if isinstance(a[1], float) or (hasattr(a[1], 'sort') and a[1].sort() == F64S): return feq(a[1], b[1])
    return eq(a[1], b[1], a[1].size() if hasattr(a[1], 'size') else 64)

def compare(ctx, V, snap, E, nm):
    """total-state comparison: everything the specification does not change is unchanged"""
    vm = V.p.obj
    dead = dead_slots(ctx, V, E)
    expoff = {}
    for path, v in E.vm.items():
        off, key = ctx.prog.di.field('VM', path)
        expoff[off] = path
        act = ctx.peek(V.p.plus(off), key)
        if isinstance(v, NewStr):
            check_newstr(ctx, act, v, '%s:%s' % (nm, path), [q.obj for q in V.owned])
        else:
            ctx.prove(same_value(ctx, act, v, key), '%s:%s' % (nm, path))
    other = {}
    for p, st, path, v in E.other:
        off, key = ctx.prog.di.field(st, path)
        other[(p.obj, (p.off if isinstance(p.off, int) else 0) + off)] = 1
        act = ctx.peek(p.plus(off), key)
        if isinstance(v, NewStr): check_newstr(ctx, act, v, '%s:%s.%s' % (nm, st, path), [q.obj for q in V.owned])
        else: ctx.prove(same_value(ctx, act, v, key), '%s:%s.%s' % (nm, st, path))
    freed = set(p.obj for p in E.freed)
    for o in freed: ctx.prove(o.freed, nm + ':released', o.name)
    for (o, kind, off) in ctx.wlog[snap['mark']:]:
        if o.born is None or o.born > snap['born']: continue
        if kind == 'free':
            ctx.prove(o in freed, nm + ':frame:not-released', o.name); continue
        if o.freed: continue
        if o is vm and kind == 'cell':
            if off in expoff: continue
            path = V.paths.get(off, '?')
            if path in E.dontcare or path in dead: continue
            old = snap['cells'][vm].get(off)
            new = vm.cells.get(off)
            if old is None or new is None or old[0] != new[0]:
                ctx.fail(nm + ':frame:' + path); continue
            ctx.prove(same_value(ctx, new[1], old[1], old[0]), nm + ':frame:' + path)
        elif (o, off) in other or (o, kind, off) in E.calls: continue
        elif o is vm and kind == 'seg': continue      # compared below
        else:
            okeys = [x for x in E.dontcare if x == (o, off) or x is o]
            if okeys: continue
            ctx.fail(nm + ':frame', '%s+%s' % (o.name, off))
    stacks(ctx, V, E, nm)
    # ownership: everything allocated is owned by an expected slot or released
    reach = set()
    for path, v in list(E.vm.items()):
        off, key = ctx.prog.di.field('VM', path)
        if key == 'ptr':
            a = ctx.peek(V.p.plus(off), key)
            if isinstance(a, Ptr): reach.add(a.obj)
    for p, st, path, v in E.other:
        off, key = ctx.prog.di.field(st, path)
        if key == 'ptr':
            a = ctx.peek(p.plus(off), key)
            if isinstance(a, Ptr): reach.add(a.obj)
    for i, v in E.spush:
        a = V.sseg.comp(ctx, 0, 'ptr').read(ctx, i)
        if isinstance(a, Ptr): reach.add(a.obj)
    reach |= set(getattr(E, 'owns', ()))
    for o in ctx.alloc_live[snap['live']:]:
        ctx.prove(o.freed or o in reach, nm + ':no-leak', o.name)
    if not E.skip_out:
        act = flat_out(ctx, ctx.events[snap['ev']:])
        exp = flat_out(ctx, [('out', s, [p]) for s, p in E.out])
        ok = len(act) == len(exp) and all(a[0] == b[0] for a, b in zip(act, exp))
        ctx.prove(ok, nm + ':output', '%r / %r' % (act[:4], exp[:4]))
        for a, b in zip(act, exp): ctx.prove(piece_eq(ctx, a[1], b[1]), nm + ':output')

def stacks(ctx, V, E, nm):
    """the operand stacks below the (expected) stack pointers, at an arbitrary position"""
    di = ctx.prog.di
    nn, sn, inn = V.nseg.comp(ctx, 0, 'f64'), V.sseg.comp(ctx, 0, 'ptr'), V.inseg.comp(ctx, 0, 'i8')
    for i, v in E.npush: ctx.prove(same_value(ctx, nn.read(ctx, i), v, 'f64'), nm + ':result')
    for i, v in E.spush:
        a = sn.read(ctx, i)
        if isinstance(v, NewStr): check_newstr(ctx, a, v, nm + ':result', [q.obj for q in V.owned])
        else: ctx.prove(same_value(ctx, a, v, 'ptr'), nm + ':result')
    for node, base, push, top, key, what in ((nn, V.nbase, E.npush, V.get('sp'), 'f64', 'numeric-stack'), (sn, V.sbase, E.spush, V.get('ssp'), 'ptr', 'string-stack')):
        if node is base: continue
        k = ctx.fresh('slot', 64)
        ctx.assume(ult(k, sub(z64(top), len(push))))
        ctx.assume(ule(len(push), z64(top)))
        a, b = node.read(ctx, k), base.read(ctx, k)
        ctx.prove(same_value(ctx, a, b, key), '%s:frame:%s' % (nm, what))
        if key == 'ptr': ctx.prove(not a.obj.freed, '%s:frame:%s' % (nm, what), 'released')
    if inn is not V.inbase and 'input' not in E.dontcare:
        k = ctx.fresh('inpos', 64); ctx.assume(ult(k, 128))
        ctx.prove(same_value(ctx, inn.read(ctx, k), V.inbase.read(ctx, k), 'i8'), nm + ':frame:input-buffer')

def dead_slots(ctx, V, E):
    """stack slots above the (expected) stack pointers hold no state"""
    dead = set()
    for f, arr, n, subs in (('rsp', 'retstack', MAXR, ('.code', '.source_line', '.pc')),
                            ('for_sp', 'for_stack', MAXF, ('.code_state.code', '.code_state.source_line', '.code_state.pc', '.symbol_id', '.step', '.limit'))):
        v = E.vm.get(f)
        if v is None: v = V.pre[f]
        if isinstance(v, int):
            for i in range(v, n):
                for s in subs: dead.add('%s[%d]%s' % (arr, i, s))
    return dead
