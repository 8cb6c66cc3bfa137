"""Contracts of the remaining instructions of execute(): input, data, random numbers, number
and string conversion, source lines, CLEAR; and of convert()."""
from .vmops import *
from lbv.engine import LoopSpec, Loop

LF, CR, SP, HT, COMMA = 10, 13, 32, 9, 44

# ---------------------------------------------------------------- text to number
class Conv:
    """convert(s) by contract: whether the text at a position starts with a number, its value
    and the position of the first character after it, as functions of the position"""
    def __init__(self): self.memo = []
    def at(self, ctx, ref):
        """(ok, value, end relative to the text)"""
        for r, v in self.memo:
            if r.same(ref): return v
            if r.node is ref.node and ctx.branch(idx_eq(r.off, ref.off)): return v
        ok = ctx.choose(2) == 0
        val = ctx.fresh_key('number', 'f64') if ok else None
        end = None
        if ok:
            end = ctx.fresh('number.end', 64)
            ctx.assume(ule(end, ref.len))
            # what follows the number is not a blank
            c = ref.char(end)
            ctx.assume(And(icmp('ne', 8, c, SP), icmp('ne', 8, c, HT)))
        self.memo.append((ref, (ok, val, end)))
        return self.memo[-1][1]
    def stub(self, cx, a):
        ok, val, end = self.at(cx, strref(cx, a[0]))
        if not ok: return NULL
        cx.store(a[1], 'f64', val)
        return a[0].plus(end)
def use_conv(ctx, V, S):
    if not hasattr(S, 'conv'): S.conv = Conv()
    ctx.stubs['convert'] = S.conv.stub
def conv(S, ref):
    if not hasattr(S, 'conv'): S.conv = Conv()
    return S.conv.at(S.ctx, ref)

# ---------------------------------------------------------------- source lines, CLEAR
@spec('B_SOURCE_LINE')
def source_line(S, op): S.E.vm['code_state.source_line'] = S.operand('u.source_line')
def stub_clear(ctx, V, S):
    def f(cx, a):
        cx.prove(a[0].obj is V.st.obj, 'clears-the-values-of-the-symbol-table')
        cx.events.append(('clear-values', a)); return None
    ctx.stubs['clear_symbol_table_values'] = f
@spec('B_CLEAR', setup=(stub_clear,))
def clear_(S, op):
    S.E.post.append(lambda cx: cx.prove(sum(e[0] == 'clear-values' for e in cx.events) == 1, 'values-cleared-once'))
def stub_print(ctx, V, S): ctx.stubs['print_binst'] = lambda c, a: None
@spec('B_PARAM', 'B_ON_LINE', 'B_INKEY', setup=(stub_print,))
def never(S, op): raise Error('not an instruction to execute')

# ---------------------------------------------------------------- the typed line
def typed(S):
    """the line being consumed: text of length n at vm->input, consumed up to inp"""
    ctx, V = S.ctx, S.V
    if not hasattr(S, 'line'):
        n = ctx.fresh('typed.len', 64)
        ctx.assume(ult(n, 128))
        V.inbase.strlen = n; V.inbase.nuls = (n,)
        V.inbase.add_unary(ctx, lambda i, v: And(Implies(ult(i, n), icmp('ne', 8, v, 0)), Implies(idx_eq(i, n), icmp('eq', 8, v, 0))))
        S.n = n
        S.inp = V.get('inp')
        ctx.assume(icmp('sle', 32, 0, S.inp)); ctx.assume(ule(z64(S.inp), n))
        S.line = StrRef(ctx, V.inbase, z64(S.inp), 128)
    return S.line
def scan(S, stop, name='scan'):
    """the first position from inp on whose character satisfies stop (it does at the terminator)"""
    ctx, V = S.ctx, S.V
    typed(S)
    e = ctx.fresh(name, 32)
    lo = S.inp
    ctx.assume(And(ule(lo, e, 32), ule(z64(e), S.n)))
    V.inbase.add_unary(ctx, lambda i, v: Implies(And(ule(z64(lo), i), ult(i, z64(e))), Not(stop(v))))
    ctx.assume(stop(V.inbase.read(ctx, z64(e))))
    S.loops = [Scan(V, lo, e)]
    return e
class Scan(LoopSpec):
    """a scan of the typed line by vm->inp or by a local position"""
    def __init__(self, V, lo, e):
        LoopSpec.__init__(self, name='scan', roles={}, func='execute')
        self.V, self.lo, self.e = V, lo, e
        self.off = V.ctx.prog.di.field('VM', 'inp')[0]
        self.ioff = V.ctx.prog.di.field('VM', 'input')[0]
    def bind(self, ctx, fr, label, vals):
        ph = [i for i in fr.fn.blocks[label] if i.op == 'phi']
        if any(isinstance(vals.get(i.dst), int) for i in ph): return None     # counts from a constant: another loop
        self.uses += 1
        ip = [i for i in ph if (i.ty.k == 'int' and i.ty.a == 32) or i.ty.k == 'ptr']
        return Loop(self, fr, label, {'i': ip[0].dst} if len(ip) == 1 else {})
    def pos(self, v):
        if 'i' not in v: return z64(self.V.get('inp'))
        if isinstance(v['i'], Ptr): return sub(off_term(v['i'].off), self.ioff)
        return z64(v['i'])
    def inv(self, ctx, L, v):
        p = self.pos(v)
        ok = True if 'i' not in v or not isinstance(v['i'], Ptr) else v['i'].obj is self.V.p.obj
        return [('in-the-line', ok), ('not-past-the-end', And(ule(z64(self.lo), p), ule(p, z64(self.e))))]
    def havoc(self, ctx, L, v):
        if 'i' not in v: self.V.set('inp', ctx.fresh('scan.inp', 32))
    def may_write(self, ctx, L, o, kind, off): return o is self.V.p.obj and off == self.off and 'i' not in L.binding
    def variant(self, ctx, L, v): return sub(1 << 40, self.pos(v))

def s_input(ctx, V, S):
    """fgets: the next line typed"""
    def f(cx, a):
        cx.prove(a[0].obj is V.p.obj and off_term(a[0].off) == cx.prog.di.field('VM', 'input')[0], 'reads-into-the-input-line')
        cx.prove(a[2].obj.tag == ('FILE', 'stdin'), 'reads-what-is-typed')
        cx.prove(And(ult(1, a[1], 32), ule(a[1], 128, 32)), 'line-fits')
        cx.events.append(('fgets',))
        if S.newline is None: return NULL
        node, n = S.newline
        V.inseg.comps[(0, 'i8')] = node
        cx.wlog.append((V.p.obj, 'seg', V.inseg.start))
        return a[0]
    ctx.stubs['fgets'] = f
    ctx.stubs['ferror'] = lambda c, a: c.choose(2)
@spec('B_INPUT_BUF', setup=(s_input,))
def input_buf(S, op):
    ctx, V = S.ctx, S.V
    p = S.operand('u.str')
    if not p.null: S.E.out.append(('stdout', ('s', strref(ctx, p))))
    if S.br(icmp('ne', 8, V.get('input_prompt'), 0)): S.E.out.append(('stdout', ('lit', b'? ')))
    if ctx.choose(2) == 1:
        S.newline = None
        raise Error('end of input')
    n = ctx.fresh('line.len', 64); ctx.assume(ult(n, 128))
    node = BaseUF(ctx.name('line.ch'), 'i8')
    node.strlen = n; node.nuls = (n,)
    node.add_unary(ctx, lambda i, v: And(Implies(ult(i, n), icmp('ne', 8, v, 0)), Implies(idx_eq(i, n), icmp('eq', 8, v, 0))))
    S.newline = (node, n)
    S.E.vm['inp'] = 0
    S.E.vm['input_pc'] = V.pc
    S.E.dontcare.add('input')
    def post(cx):
        cx.prove(V.inseg.comp(cx, 0, 'i8') is node, 'line-as-typed')
        ev = [e[0] for e in cx.events if e[0] in ('out', 'fgets')]
        cx.prove(ev.count('fgets') == 1 and ev[-1] == 'fgets', 'prompt-before-one-line-is-read')
    S.E.post.append(post)
def blank(v): return Or(eq(v, SP, 8), eq(v, HT, 8))
@spec('B_INPUT_END')
def input_end(S, op):
    e = scan(S, lambda v: Not(Or(blank(v), eq(v, LF, 8), eq(v, CR, 8))))
    S.E.dontcare.add('inp')
    if S.br(icmp('ne', 8, S.V.inbase.read(S.ctx, z64(e)), 0)):
        S.E.out.append(('stdout', ('lit', b'* Extra input was discarded *\n')))
def again(S, msg):
    S.E.out.append(('stdout', ('lit', msg)))
    S.E.dontcare.add('inp')
    S.E.vm['code_state.pc'] = S.V.get('input_pc')
@spec('B_INPUT_SEP')
def input_sep(S, op):
    e = scan(S, lambda v: Not(blank(v)))
    if S.br(eq(S.V.inbase.read(S.ctx, z64(e)), COMMA, 8)): S.E.vm['inp'] = ibin('add', 32, e, 1)
    else: again(S, b'* More input items are expected *\n')

def assign(S, ty, nd, val):
    """val becomes the value of the variable or array element of the instruction"""
    if nd == 0:
        sym = S.V.symbol(S.symid('u.param.symbol_id'), 'SYM_VARIABLE', ty)
        if ty == 'TYPE_NUM': S.E.other += [(sym, 'SYMBOL', 'val.num', val), (sym, 'SYMBOL', 'defined', 1)]
        else: set_simple_str(S, sym, val)
    else: set_elem_spec(S, array_sym(S, 'u.param.symbol_id', ty), ty, nd, val)
class Pops(LoopSpec):
    """k numbers popped"""
    def __init__(self, V, n):
        LoopSpec.__init__(self, name='pops', roles={'k': ('i32', ('k', 'i', 'j', 'n'))}, func='execute')
        self.V, self.n = V, n
        self.off = V.ctx.prog.di.field('VM', 'sp')[0]
    def inv(self, ctx, L, v):
        return [('count', ule(v['k'], self.n, 32)), ('popped', eq(self.V.get('sp'), ibin('sub', 32, self.V.sp0, v['k']), 32))]
    def havoc(self, ctx, L, v): self.V.set('sp', ibin('sub', 32, self.V.sp0, v['k']))
    def may_write(self, ctx, L, o, kind, off): return o is self.V.p.obj and off == self.off
    def variant(self, ctx, L, v): return sub(1 << 40, z64(v['k']))
@spec('B_INPUT_NUM', arrays=True, absf2i=True, setup=(use_conv,))
def input_num(S, op):
    ctx, V = S.ctx, S.V
    ok, x, end = conv(S, typed(S))
    good = False
    if ok:
        c = S.line.char(end)
        good = S.br(Or(eq(c, 0, 8), eq(c, LF, 8), eq(c, COMMA, 8)))
    if good:
        assign(S, 'TYPE_NUM', ndims(S, lo=0), x)
        S.E.vm['inp'] = ibin('add', 32, S.inp, trunc(end, 64, 32))
        return
    # the repeated statement evaluates its subscripts again: those on the stack are dropped
    n = zext(S.operand('u.param.params'), 8, 32)
    ctx.assume(ule(n, V.sp0, 32))               # well-formed code has pushed them
    S.E.vm['sp'] = ibin('sub', 32, V.sp0, n)
    S.loops = [Pops(V, n)]
    again(S, b'* Invalid input *\n')
@spec('B_INPUT_STR', arrays=True, absf2i=True)
def input_str(S, op):
    ctx = S.ctx
    e = scan(S, lambda v: Or(eq(v, 0, 8), eq(v, LF, 8), eq(v, COMMA, 8)))
    lo, line = z64(S.inp), S.V.inbase
    n = sub(z64(e), lo)
    assign(S, 'TYPE_STR', ndims(S, lo=0), NewStr(n, lambda k: line.read(ctx, add(lo, k))))
    S.E.vm['inp'] = e
@spec('B_INPUT_LINE', arrays=True, absf2i=True)
def input_line(S, op):
    ctx = S.ctx
    typed(S)
    line = S.V.inbase
    e = ctx.fresh('eol', 64)
    ctx.assume(ule(e, S.n))
    line.add_unary(ctx, lambda i, v: Implies(ult(i, e), icmp('ne', 8, v, LF)))
    ctx.assume(Or(eq(line.read(ctx, e), LF, 8), eq(e, S.n, 64)))
    S.E.dontcare.add('input')
    assign(S, 'TYPE_STR', ndims(S, lo=0), NewStr(e, lambda k: line.read(ctx, k)))

# ---------------------------------------------------------------- DATA
class DataScan(LoopSpec):
    def __init__(self, V, lo, q):
        LoopSpec.__init__(self, name='data', roles={'d': ('i32', ('dp', 'p', 'i'))})
        self.lo, self.q = lo, q
    def applies(self, ctx, fr, label, vals):
        return not any(isinstance(vals.get(i.dst), int) for i in fr.fn.blocks[label] if i.op == 'phi')
    def inv(self, ctx, L, v): return [('no-item-passed-over', And(ule(v['d'], self.q, 32), ule(self.lo, v['d'], 32)))]
    def variant(self, ctx, L, v): return sub(1 << 40, z64(v['d']))
def has_data(S, name):
    ctx = S.ctx
    v = sgetf(ctx, S.V.bcode(name), 'BCODE', 'has_data')
    ctx.assume(ule(v, 1, 8))
    return S.br(icmp('ne', 8, v, 0))
def data_item(S):
    """the next DATA item: of the direct line if it has any, else of the program"""
    ctx, V = S.ctx, S.V
    V.get('stored_program.bcode')
    if V.codename == 'imm' and has_data(S, 'imm'): name, fld = 'imm', 'immediate_data'
    else:
        name, fld = 'stored', 'program_data'
        if V.get('stored_program.bcode').null or not has_data(S, 'stored'): raise Error('no DATA')
    dp, used = V.get(fld), V.get_used(name)
    # everything past the end has been read
    S.err(ule(used, dp, 32), 'out of DATA')
    q = ctx.fresh('item', 32)
    ctx.assume(And(ule(dp, q, 32), ule(q, used, 32)))
    ops = V.icomp('op', name)
    while isinstance(ops, Wr): ops = ops.prev
    D = enum(ctx, 'B_DATA')
    ops.add_unary(ctx, lambda i, v: Implies(And(ule(z64(dp), i), ult(i, z64(q))), icmp('ne', 16, v, D)))
    S.loops = [DataScan(V, dp, q)]
    S.err(eq(q, used, 32), 'out of DATA')
    ctx.assume(eq(V.iget(q, 'op', name), D, 16))
    s = V.iget(q, 'u.str', name)
    S.err(s.null, 'null DATA')
    S.E.vm[fld] = ibin('add', 32, q, 1)
    return s
@spec('B_READ_NUM', code=('stored', 'imm'), arrays=True, absf2i=True, setup=(use_conv,))
def read_num(S, op):
    s = strref(S.ctx, data_item(S))
    ok, x, end = conv(S, s)
    if not ok: raise Error('numeric data expected')
    S.err(icmp('ne', 8, s.char(end), 0), 'numeric data expected')
    assign(S, 'TYPE_NUM', ndims(S, lo=0), x)
@spec('B_READ_STR', code=('stored', 'imm'), arrays=True, absf2i=True)
def read_str(S, op):
    s = data_item(S)
    assign(S, 'TYPE_STR', ndims(S, lo=0), NewStr.of(S.ctx, s))
@spec('B_RESTORE')
def restore(S, op): S.E.vm['program_data'] = 0; S.E.vm['immediate_data'] = 0
@spec('B_RESTORE_LINE', code=('stored', 'imm'))
def restore_line(S, op):
    ok, v = S.V.linemap(S.ctx, S.operand('u.basic_line.lineno'))
    if S.V.get('stored_program.index').null or not ok: raise Error('line not found')
    S.E.vm['program_data'] = v

# ---------------------------------------------------------------- random numbers
def s_srand(ctx, V, S):
    def f(cx, a): cx.events.append(('srand', a[0])); return None
    ctx.stubs['srand'] = f
    ctx.stubs['time'] = lambda c, a: S.__dict__.setdefault('now', c.fresh('now', 64))
@spec('B_RAND', setup=(s_srand,))
def randomize(S, op):
    S.E.post.append(lambda cx: cx.prove(sum(e[0] == 'srand' for e in cx.events) == 1, 'generator-seeded'))
@spec('B_SEED', setup=(s_srand,))
def seed(S, op):
    u = S.unsigned()
    def post(cx):
        ev = [e for e in cx.events if e[0] == 'srand']
        cx.prove(len(ev) == 1 and eq(ev[0][1], u, 32), 'seeded-with-n')
    S.E.post.append(post)
class Draw(LoopSpec):
    def __init__(self): LoopSpec.__init__(self, name='draw', roles={}, func='execute')
def s_rand(ctx, V, S):
    def f(cx, a):
        r = cx.fresh('rand', 32); cx.assume(ule(r, 0x7fffffff, 32))
        cx.events.append(('rand', r))
        # the quotient of numbers 0 <= a, 0 < b lies between 0 and 1 if a <= b (IEEE division)
        x = int_to_fp(r, 32, True)
        q = fbin('fdiv', x, 2147483647.0)
        cx.assume(And(fcmp('oge', q, 0.0), fcmp('ole', q, 1.0)))
        q = fbin('fdiv', x, 2147483648.0)
        cx.assume(And(fcmp('oge', q, 0.0), fcmp('olt', q, 1.0)))
        return r
    ctx.stubs['rand'] = f
@spec('B_RND', setup=(s_rand,))
def rnd(S, op):
    V, ctx = S.V, S.ctx
    S.loops = [Draw()]
    S.err(ule(MAXN, V.sp0, 32), 'numeric stack overflow')
    S.E.vm['sp'] = ibin('add', 32, V.sp0, 1)
    def post(cx):
        x = V.nseg.comp(cx, 0, 'f64').read(cx, z64(V.sp0))
        cx.prove(And(fcmp('oge', x, 0.0), fcmp('olt', x, 1.0)), 'random-number-in-[0,1)')
        d = [e for e in cx.events if e[0] == 'rand']
        cx.prove(len(d) > 0 and not any(e[0] == 'srand' for e in cx.events), 'drawn-from-the-generator')
        cx.prove(any(feq(x, fbin('fdiv', int_to_fp(d[-1][1], 32, True), c)) is True for c in (2147483647.0, 2147483648.0)), 'function-of-the-last-draw')
        S.E.npush.append((z64(V.sp0), x))
    S.E.post.append(post)

# ---------------------------------------------------------------- STR$, VAL, TIME$
class Formatted:
    """the text sprintf produces, as a function of what is formatted"""
    def __init__(self): self.memo = []
    def node(self, ctx, pieces, maxlen):
        for p, n in self.memo:
            if len(p) == len(pieces) and all(a[0] == b[0] and piece_eq(ctx, a, b) is True for a, b in zip(p, pieces)): return n
        n = ctx.fresh('text.len', 64); ctx.assume(ule(n, maxlen))
        b = BaseUF(ctx.name('text.ch'), 'i8')
        b.strlen = n; b.nuls = (n,)
        b.add_unary(ctx, lambda i, v: And(Implies(ult(i, n), icmp('ne', 8, v, 0)), Implies(idx_eq(i, n), icmp('eq', 8, v, 0))))
        self.memo.append((pieces, b))
        return b
def width(p):
    if p[0] == 'g': return 13                    # -1.23457e+308
    if p[0] == 'lit': return len(p[1])
    if p[0] == '02u': return 2
    return 64
def s_sprintf(ctx, V, S):
    def f(cx, a, limit=None):
        pcs = cx.libm['fmt_pieces'](cx, a[1], a[2:])
        m = sum(width(p) for p in pcs)
        if limit is None: cx.check_range(a[0], m + 1, 'write')
        else: cx.prove(ult(m, z64(limit)), 'formatted-text-fits')
        nd = S.fmt.node(cx, pcs, m)
        sg, oldn, di = cx.bytes_node(a[0]); sg.comps[(0, 'i8')] = nd
        cx.wlog.append((a[0].obj, 'seg', sg.start))
        return trunc(nd.strlen, 64, 32)
    ctx.stubs['sprintf'] = f
    ctx.stubs['snprintf'] = lambda c, a: f(c, [a[0]] + list(a[2:]), a[1])
@spec('B_STR', setup=(s_sprintf,))
def str_(S, op):
    S.fmt = Formatted()
    nd = S.fmt.node(S.ctx, [('g', S.pop())], 13)
    S.pushs(NewStr(nd.strlen, lambda k: nd.read(S.ctx, k), StrRef(S.ctx, nd, 0, None)))
def s_time(ctx, V, S):
    ctx.stubs['time'] = lambda c, a: c.fresh('now', 64)
    def lt(cx, a):
        for f, m in (('tm_hour', 23), ('tm_min', 59), ('tm_sec', 60)): cx.assume(ule(sgetf(cx, S.tm, 'tm', f), m, 32))
        return S.tm
    ctx.stubs['localtime'] = lt
@spec('B_TIME_STR', setup=(s_sprintf, s_time))
def time_(S, op):
    S.fmt = Formatted()
    S.tm = mk(S.ctx, 'tm', 'tm', heap=False)
    g = lambda f: sgetf(S.ctx, S.tm, 'tm', f)
    nd = S.fmt.node(S.ctx, [('02u', g('tm_hour')), ('lit', b':'), ('02u', g('tm_min')), ('lit', b':'), ('02u', g('tm_sec'))], 8)
    S.pushs(NewStr(nd.strlen, lambda k: nd.read(S.ctx, k), StrRef(S.ctx, nd, 0, None)))
@spec('B_VAL', setup=(use_conv,))
def val(S, op):
    p = S.pops(); r = strref(S.ctx, p)
    ok, x, end = conv(S, r)
    if not ok: raise Error('invalid number')
    S.err(icmp('ne', 8, r.char(end), 0), 'invalid number')
    S.free(p)
    S.push(x)

# ---------------------------------------------------------------- convert()
class Blanks(LoopSpec):
    """skipping blanks from the loop's start up to the ghost end"""
    def __init__(self, name, base, lo, hi):
        LoopSpec.__init__(self, name=name, roles={'p': ('ptr', ('s', 'end', 'p', 'string', 't'))})
        self.base, self.lo, self.hi = base, lo, hi
        self.cell = None
    def bind(self, ctx, fr, label, vals):
        L = LoopSpec.bind(self, ctx, fr, label, vals)
        if L is None and self.cell is not None and self.applies(ctx, fr, label, vals):
            self.uses += 1
            return Loop(self, fr, label, {})
        return L
    def pos(self, ctx, v): return v['p'] if 'p' in v else ctx.peek(self.cell, 'ptr')
    def inv(self, ctx, L, v):
        p = self.pos(ctx, v)
        ok = isinstance(p, Ptr) and p.obj is self.base.obj
        return [('position', ok and And(ule(self.lo, off_term(p.off)), ule(off_term(p.off), self.hi)))]
    def havoc(self, ctx, L, v):
        if 'p' not in v: ctx.poke(self.cell, 'ptr', self.base.plus(ctx.fresh('pos', 64)))
    def may_write(self, ctx, L, o, kind, off): return self.cell is not None and o is self.cell.obj
    def variant(self, ctx, L, v): return sub(1 << 40, off_term(self.pos(ctx, v).off))
def convert(ctx):
    """blanks, a number as strtod reads it, blanks; NULL when the first character that is not
    blank cannot start a number"""
    p = new_string(ctx, 'text', 1 << 20)
    r = strref(ctx, p); n = r.len
    s = ctx.fresh('start', 64); ctx.assume(ule(s, n))
    r.node.add_unary(ctx, lambda i, v: Implies(ult(i, s), blank(v)))
    c = r.char(s)
    ctx.assume(Not(blank(c)))
    starts = ctx.branch(Or(And(ule(48, c, 8), ule(c, 57, 8)), *[eq(c, ord(x), 8) for x in '.-+']))
    x = ctx.fresh_key('value', 'f64')
    e = ctx.fresh('numend', 64); ctx.assume(And(ule(s, e), ule(e, n)))
    f = ctx.fresh('after', 64); ctx.assume(And(ule(e, f), ule(f, n)))
    r.node.add_unary(ctx, lambda i, v: Implies(And(ule(e, i), ult(i, f)), blank(v)))
    ctx.assume(Not(blank(r.char(f))))
    def strtod(cx, a):
        cx.prove(a[0].obj is p.obj and eq(off_term(a[0].off), s, 64), 'number-read-at-the-first-non-blank')
        if not a[1].null: cx.store(a[1], 'ptr', p.plus(e)); b2.cell = a[1]
        cx.events.append(('strtod',))
        return x
    ctx.stubs['strtod'] = strtod
    out = Ptr(ctx.new_obj('val', size=8, default='uninit'))
    done = []
    b1, b2 = Blanks('leading', p, 0, s), Blanks('trailing', p, e, f)
    b1.applies = lambda cx, *a: not any(v[0] == 'strtod' for v in cx.events)
    b2.applies = lambda cx, *a: any(v[0] == 'strtod' for v in cx.events)
    ctx.loopspecs = [b1, b2]
    from .store import module_of
    kind, res = ctx.run('convert', [p, out], module_of(ctx, 'run'))
    ctx.loopspecs = []
    ctx.cover('convert:%s' % starts)
    ctx.prove(kind == 'ret', 'convert:returns')
    if not starts:
        ctx.prove(isinstance(res, Ptr) and res.null, 'convert:refuses-what-is-not-a-number'); return
    ctx.prove(isinstance(res, Ptr) and res.obj is p.obj and eq(off_term(res.off), f, 64), 'convert:stops-after-the-number-and-blanks')
    ctx.prove(feq(ctx.load(out, 'f64'), x), 'convert:value')
ALL = ['convert']
