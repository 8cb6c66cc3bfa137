"""Contracts of Monitor/interactive.c: program lines, LIST, RENUM, SAVE/LOAD and command dispatch."""
from lbv.hlib import *
from . import store
from .store import Decimal, DigitLoop, module_of, LIM

NL, SPC, TAB, QUOTE, DASH, COMMA = 10, 32, 9, 34, 45, 44
def mod(ctx): return module_of(ctx, 'interactive')
def run(ctx, f, args): return ctx.run(f, args, mod(ctx))
def rel(p, base):
    return simp(sub(off_term(p.off), off_term(base.off)))
def isdig(c): return And(ule(48, c, 8), ule(c, 57, 8))
def blank(c): return Or(eq(c, SPC, 8), eq(c, TAB, 8))

class Text:
    """a command line with the ghost functions of its lexical helpers: SP(i) is the first
    position from i on that is not a space or tab, RN(i) the end of the number at i and
    VAL(i) its value (saturated)"""
    def __init__(self, ctx, name='line', n=None):
        self.ctx = ctx
        self.p = new_string(ctx, name, 1 << 20)
        self.n = strref(ctx, self.p).len
        self.node = strref(ctx, self.p).node
        f = lambda s, w=64: z3.Function(ctx.name(name + '.' + s), z3.BitVecSort(64), z3.BitVecSort(w))
        self.fSP, self.fRN, self.fVAL = f('SP'), f('RN'), f('VAL', 32)
    def ch(self, i): return self.node.read(self.ctx, i)
    def SP(self, i):
        c = self.ctx
        r = simp(self.fSP(bv(i, 64)))
        c.assume(And(ule(i, r), ule(r, self.n)))
        c.assume(Not(blank(self.ch(r))))
        c.assume(Implies(Not(blank(self.ch(i))), eq(r, i, 64)))
        c.assume(eq(self.fSP(bv(r, 64)), r, 64))
        return r
    def RN(self, i):
        c = self.ctx
        r = simp(self.fRN(bv(i, 64)))
        c.assume(And(ult(i, r), ule(r, self.n)))
        c.assume(Not(isdig(self.ch(r))))
        return r
    def VAL(self, i): return simp(self.fVAL(bv(i, 64)))
    def digit(self, i): return self.ctx.branch(isdig(self.ch(i)))
    def at(self, i, c): return self.ctx.branch(eq(self.ch(i), c, 8))
    def pos(self, ctx, p, what):
        ctx.prove(isinstance(p, Ptr) and p.obj is self.p.obj, what + ':in-the-line')
        return rel(p, self.p)
    def stubs(self):
        def s_skip(cx, a): return self.p.plus(self.SP(self.pos(cx, a[0], 'skip-space')))
        def s_num(cx, a):
            i = self.pos(cx, a[0], 'read-number')
            cx.prove(isdig(self.ch(i)), 'read-number:at-a-digit')
            cx.store(a[1], 'i32', self.VAL(i))
            return self.p.plus(self.RN(i))
        return dict(skip_space=s_skip, read_num=s_num)
def word(ctx, name='x'):
    o = ctx.new_obj(name, size=4, default='uninit')
    return Ptr(o)
def ev(ctx, name, ret=None):
    def st(cx, a):
        cx.events.append((name, a))
        return ret(cx, a) if callable(ret) else ret
    return st
def events(ctx, *names): return [e for e in ctx.events if e[0] in names]

# ---------------------------------------------------------------- lexical helpers
class SkipLoop(LoopSpec):
    def __init__(self, T, stop, func, roles=('s', 'p', 'line')):
        LoopSpec.__init__(self, name='skip', func=func, roles={'s': ('ptr', roles)}); self.T, self.stop = T, stop
    def inv(self, ctx, L, v):
        ok = isinstance(v['s'], Ptr) and v['s'].obj is self.T.p.obj
        return [('position', ok and (ult if ctx.opts.get('alt') else ule)(rel(v['s'], self.T.p), self.stop))]
    def havoc_ptr(self, ctx, L, role, old):
        return self.T.p.plus(ctx.fresh('skip.i', 64))
    def variant(self, ctx, L, v): return sub(1 << 40, rel(v['s'], self.T.p))

def skip_space(ctx):
    T = Text(ctx)
    e = ctx.fresh('end', 64); ctx.assume(ule(e, T.n))
    T.node.add_unary(ctx, lambda i, c: Implies(ult(i, e), blank(c)))
    ctx.assume(Not(blank(T.ch(e))))
    ctx.loopspecs = [SkipLoop(T, e, 'skip_space')]
    kind, r = run(ctx, 'skip_space', [T.p])
    ctx.loopspecs = []
    ctx.prove(kind == 'ret' and eq(T.pos(ctx, r, 'skip-space'), e, 64), 'skip-space:first-non-blank')
    ctx.cover('skip_space')

def read_num(ctx):
    T = Text(ctx)
    nd = ctx.fresh('ndigits', 64); ctx.assume(And(ult(0, nd), ule(nd, T.n)))
    D = Decimal(ctx, T.node, nd)
    T.node.add_unary(ctx, lambda i, c: Implies(ult(i, nd), isdig(c)))
    ctx.assume(Not(D.isdigit(nd)))
    total = D.at(nd, False)
    out = word(ctx, 'num')
    dl = DigitLoop(D, T.p, nd, ('read_num',), get=lambda: ctx.peek(out, 'i32'), put=lambda v: ctx.poke(out, 'i32', v), sat=True)
    dl.cell = out.obj
    inv0 = dl.inv
    # a do-while loop: there is a digit at the loop position, except on leaving
    dl.inv = lambda cx, L, v: inv0(cx, L, v) + [('at-a-digit', ult(dl.pos(v), nd))]
    ctx.loopspecs = [dl]
    kind, r = run(ctx, 'read_num', [T.p, out])
    ctx.loopspecs = []
    ctx.prove(kind == 'ret' and eq(T.pos(ctx, r, 'read-number'), nd, 64), 'read-number:after-the-digits')
    ctx.prove(eq(ctx.load(out, 'i32'), simp(z3.If(z3.UGT(total, LIM), z3.BitVecVal(LIM, 32), z3.Extract(31, 0, total))), 32), 'read-number:value-or-too-big')
    ctx.cover('read_num')

def check_eol(ctx):
    T = Text(ctx)
    ctx.stubs.update(T.stubs()); ctx.stubs['error'] = ev(ctx, 'error')
    kind, r = run(ctx, 'check_eol', [T.p])
    c = T.ch(T.SP(0))
    ok = Or(eq(c, 0, 8), eq(c, NL, 8))
    ctx.prove(kind == 'ret' and Iff(as_bool(r), ok), 'check-eol:nothing-but-blanks')
    ctx.prove(Iff(len(events(ctx, 'error')) == 1, Not(ok)), 'check-eol:error-reported')
    ctx.cover('check_eol')

def demarcate(ctx):
    """the quoted text at the start of the line, up to the closing quote or the line end"""
    T = Text(ctx)
    s = T.SP(0)
    ctx.stubs.update(T.stubs())
    q = ctx.fresh('close', 64)             # ghost: first quote, line end or end of text after the opening quote
    ctx.assume(And(ult(s, q), ule(q, T.n)))
    quoted = T.at(s, QUOTE)
    def term(c): return Or(eq(c, 0, 8), eq(c, NL, 8), eq(c, QUOTE, 8))
    if quoted:
        ctx.assume(term(T.ch(q)))
        T.node.add_unary(ctx, lambda i, c: Implies(And(ult(s, i), ult(i, q)), Not(term(c))))
        cq = T.ch(q)
        closed = ctx.branch(eq(cq, QUOTE, 8))
    sl = SkipLoop(T, q, 'demarcate_string')
    i0 = sl.inv
    sl.inv = lambda cx, L, v: i0(cx, L, v) + [('after-the-quote', ult(s, rel(v['s'], T.p)))]
    out = Ptr(ctx.new_obj('str', size=8, default='uninit'))
    old = T.node
    ctx.loopspecs = [sl]
    kind, r = run(ctx, 'demarcate_string', [T.p, out])
    ctx.loopspecs = []
    ctx.prove(kind == 'ret', 'quoted:returns')
    if not quoted:
        ctx.prove(isinstance(r, Ptr) and r.null, 'quoted:refused-without-quote'); ctx.cover('quoted:none'); return
    ctx.cover('quoted:%s' % closed)
    p = ctx.load(out, 'ptr')
    ctx.prove(eq(T.pos(ctx, p, 'quoted'), add(s, 1), 64), 'quoted:starts-after-the-quote')
    now = strref(ctx, p)
    ctx.prove(eq(now.char(sub(q, add(s, 1))), 0, 8), 'quoted:ends-at-the-closing-quote')
    k = ctx.fresh('k', 64)
    if ctx.branch(And(ult(s, k), ult(k, q))): ctx.prove(eq(now.node.read(ctx, k), old.read(ctx, k), 8), 'quoted:text-unchanged')
    ctx.prove(eq(T.pos(ctx, r, 'quoted'), add(q, 1) if closed else q, 64), 'quoted:rest-of-the-line')

# ---------------------------------------------------------------- program lines
def program_line(ctx):
    T = Text(ctx)
    ctx.assume(isdig(T.ch(0)))
    ctx.stubs.update(T.stubs())
    ctx.stubs.update(error=ev(ctx, 'error'), vm_delete_source_line=ev(ctx, 'delete'), vm_enter_source_line=ev(ctx, 'enter'))
    vm = mk(ctx, 'VM', 'vm')
    kind, r = run(ctx, 'program_line', [vm, T.p])
    ctx.prove(kind == 'ret', 'line:returns')
    num, i = T.VAL(0), T.RN(0)
    E = events(ctx, 'error', 'delete', 'enter')
    ctx.prove(len(E) == 1, 'line:exactly-one-effect')
    e = E[0]
    bad = ctx.branch(Or(eq(num, 0, 32), eq(num, LIM, 32)))
    empty = not bad and ctx.branch(Or(eq(T.ch(i), 0, 8), eq(T.ch(i), NL, 8)))
    ctx.cover('line:%s' % ('refused' if bad else 'delete' if empty else 'enter'))
    if bad: ctx.prove(e[0] == 'error', 'line:zero-or-too-big-is-refused'); return
    ctx.prove(e[0] == ('delete' if empty else 'enter'), 'line:bare-number-deletes-text-enters')
    ctx.prove(e[1][0].obj is vm.obj and eq(e[1][1], num, 32), 'line:number')
    if not empty:
        sp = T.at(i, SPC)
        ctx.prove(eq(T.pos(ctx, e[1][2], 'line'), add(i, 1 if sp else 0), 64), 'line:text-as-typed-after-the-number')

def list_numbers(ctx):
    T = Text(ctx)
    ctx.stubs.update(T.stubs())
    a, b = word(ctx, 'start'), word(ctx, 'end')
    kind, r = run(ctx, 'get_list_numbers', [T.p, a, b])
    ctx.prove(kind == 'ret', 'range:returns')
    start, end = 0, LIM
    i = T.SP(0); f = ''
    if T.digit(i): start = T.VAL(i); i = T.SP(T.RN(i)); f += 'n'
    if T.at(i, DASH):
        i = T.SP(add(i, 1)); f += '-'
        if T.digit(i): end = T.VAL(i); i = T.RN(i); f += 'n'
    ctx.cover('range:' + f)
    ctx.prove(eq(ctx.load(a, 'i32'), start, 32), 'range:start')
    ctx.prove(eq(ctx.load(b, 'i32'), end, 32), 'range:end')
    ctx.prove(eq(T.SP(T.pos(ctx, r, 'range')), T.SP(i), 64), 'range:rest-of-the-line')

def renum_numbers(ctx):
    T = Text(ctx)
    ctx.stubs.update(T.stubs())
    w = [word(ctx, x) for x in ('new', 'old', 'inc')]
    kind, r = run(ctx, 'get_renum_numbers', [T.p] + w)
    ctx.prove(kind == 'ret', 'renum-args:returns')
    val = [10, 1, 10]
    i = T.SP(0)
    if T.digit(i): val[0] = T.VAL(i); i = T.SP(T.RN(i))
    for k in (1, 2):
        if T.at(i, COMMA):
            i = T.SP(add(i, 1))
            if T.digit(i): val[k] = T.VAL(i); i = T.RN(i)
    for k in range(3): ctx.prove(eq(ctx.load(w[k], 'i32'), val[k], 32), 'renum-args:' + ('new', 'start', 'step')[k])
    ctx.prove(eq(T.SP(T.pos(ctx, r, 'renum-args')), T.SP(i), 64), 'renum-args:rest-of-the-line')
    ctx.cover('renum_numbers')

def page_flag(ctx):
    T = Text(ctx)
    ctx.stubs.update(T.stubs())
    out = Ptr(ctx.new_obj('page', size=1, default='uninit'))
    kind, r = run(ctx, 'get_page_flag', [T.p, out])
    i = T.SP(0)
    p = ctx.branch(Or(eq(T.ch(i), ord('p'), 8), eq(T.ch(i), ord('P'), 8)))
    ctx.prove(kind == 'ret' and eq(ctx.load(out, 'i8'), int(p), 8), 'page-flag:p-or-P')
    ctx.prove(eq(T.SP(T.pos(ctx, r, 'page-flag')), T.SP(add(i, 1) if p else i), 64), 'page-flag:rest-of-the-line')
    ctx.cover('page_flag:%s' % p)

# ---------------------------------------------------------------- LIST
def nointerrupt(ctx):
    """the user does not interrupt: the flag stays false"""
    ctx.opts.setdefault('globals', {})['interrupted'] = lambda cx, o: o.cells.update({0: ('i8', 0) if o.size == 1 else ('i32', 0)})

class ListLoop(LoopSpec):
    """line i is printed iff its number is in the range, whole and in order"""
    def __init__(self, g, G):
        LoopSpec.__init__(self, name='list', func='list', roles={'i': ('i32', ('i', 'line')), 'n': ('i32', ('count', 'n'))}); self.g, self.G = g, G
    def inv(self, ctx, L, v):
        return [('range', ule(v['i'], self.g['used'], 32)), ('lines-listed', eq(v['n'], self.G['n'], 32)), ('position', eq(v['i'], self.G['i'], 32))]
    def havoc(self, ctx, L, v):
        self.G['n'] = v['n']; self.G['i'] = v['i']; self.G['mark'] = len(ctx.events)
    def at_back(self, ctx, L, v): self.G['step'](ctx, L.cur['i'])
    def variant(self, ctx, L, v): return sub(1 << 40, z64(v['i']))

def list_(ctx):
    g = store.mk_source(ctx)
    start, end = ctx.fresh('start', 32), ctx.fresh('end', 32)
    page = ctx.fresh('page', 8); ctx.assume(ule(page, 1, 8))
    ispage = ctx.branch(eq(page, 1, 8))
    nointerrupt(ctx)
    vm = mk(ctx, 'VM', 'vm')
    G = dict(n=0, i=0, mark=0)
    have = ctx.choose(2) == 0
    ctx.stubs.update(vm_stored_source=lambda cx, a: g['p'] if have else NULL, trap_interrupt=lambda cx, a: None, untrap_interrupt=lambda cx, a: None,
                     await_newline=ev(ctx, 'await'))
    def step(cx, i):
        E = cx.events[G['mark']:]
        num = g['num'].read(cx, z64(i))
        inr = cx.branch(And(ule(start, num, 32), ule(num, end, 32)))
        o = flat_out(cx, E, 'stdout')
        w = [e for e in E if e[0] == 'await']
        if inr:
            G['n'] = ibin('add', 32, G['n'], 1)
            pause = ispage and cx.branch(And(eq(ibin('urem', 32, G['n'], 24), 23, 32), ult(ibin('add', 32, i, 1), g['used'], 32)))
            want = 3 if pause else 4
            # a page is paused on without its line end: the ENTER typed by the user supplies it
            cx.prove(len(o) == want and o[0][0] == 'u' and o[1] == ('lit', b' ') and o[2][0] == 's' and (pause or o[3] == ('lit', b'\n')), 'list:number-space-text')
            cx.prove(eq(o[0][1], num, 32), 'list:number')
            cx.prove(o[2][1].same(strref(cx, g['text'].read(cx, z64(i)))), 'list:text')
            cx.prove(len(w) == (1 if pause else 0), 'list:pause-after-each-full-page')
            if w: cx.prove(E[-1] is w[0] or all(e[0] != 'out' for e in E[E.index(w[0]):]), 'list:pause-after-the-line')
        else: cx.prove(not o and not w, 'list:lines-outside-the-range-are-not-printed')
        G['i'] = ibin('add', 32, i, 1)
    G['step'] = step
    ctx.loopspecs = [ListLoop(g, G)]
    kind, r = run(ctx, 'list', [vm, start, end, page])
    ctx.loopspecs = []
    ctx.prove(kind == 'ret', 'list:returns')
    ctx.cover('list:%s' % have)
    ctx.prove(not flat_out(ctx, ctx.events[G['mark']:], 'stdout') and not events_after(ctx, G['mark'], 'await'), 'list:nothing-else-printed')
    if not have or g['arr'] is None: return
    k = ctx.fresh('k', 64)
    if ctx.branch(And(ule(z64(G['i']), k), ult(k, z64(g['used'])))):
        g['num'].read(ctx, z64(G['i']))
        ctx.prove(Not(And(ule(start, g['num'].read(ctx, k), 32), ule(g['num'].read(ctx, k), end, 32))), 'list:every-line-of-the-range-is-printed')
def events_after(ctx, mark, name): return [e for e in ctx.events[mark:] if e[0] == name]

# ---------------------------------------------------------------- commands
COMMANDS = {'BYE': 'CMD_BYE', 'COMPILE': 'CMD_COMPILE', 'CONT': 'CMD_CONT', 'HELP': 'CMD_HELP', 'LIST': 'CMD_LIST', 'LOAD': 'CMD_LOAD', 'NEW': 'CMD_NEW',
            'RENUM': 'CMD_RENUM', 'RENUMBER': 'CMD_RENUM', 'RUN': 'CMD_RUN', 'SAVE': 'CMD_SAVE'}
def find_command(ctx):
    """a command is recognised iff the word is its name, in any letter case"""
    w = new_string(ctx, 'word'); n = ctx.fresh('len', 32)
    ctx.assume(ule(z64(n), strref(ctx, w).len)); ctx.assume(ult(0, n, 32))
    same = {}
    def s_cmp(cx, a):
        name = strref(cx, a[0]).concrete(); q = a[1]
        if name is None: name = strref(cx, a[1]).concrete(); q = a[0]
        cx.prove(name is not None and q.obj is w.obj and q.off == 0, 'command:compares-the-word')
        cx.prove(eq(a[2], z64(n), 64), 'command:compares-the-whole-word')
        # contract of strncasecmp on the first n characters; n equals the name's length here
        cx.prove(eq(z64(n), len(name), 64), 'command:same-length')
        if name not in same:
            if any(v for k, v in same.items() if len(k) == len(name) and k != name): same[name] = False
            else: same[name] = cx.choose(2) == 1
        return 0 if same[name] else 1
    ctx.stubs['strncasecmp'] = s_cmp
    kind, r = run(ctx, 'find_command', [w, n])
    ctx.prove(kind == 'ret', 'command:returns')
    hit = [k for k, v in same.items() if v]
    want = enum(ctx, COMMANDS[hit[0].decode()]) if hit and hit[0].decode() in COMMANDS else enum(ctx, 'CMD_NONE')
    ctx.prove(eq(r, want, 32), 'command:the-named-command')
    if not hit:      # every name of this length has been compared
        for k in COMMANDS:
            if ctx.branch(eq(n, len(k), 32)): ctx.prove(k.encode() in same, 'command:every-name-is-tried')
    ctx.cover('command:%s' % bool(hit))

def interpret(ctx):
    T = Text(ctx)
    ctx.stubs.update(T.stubs())
    for f in ('program_line', 'immediate', 'oscli'): ctx.stubs[f] = ev(ctx, f)
    vm = mk(ctx, 'VM', 'vm'); q = Ptr(ctx.new_obj('quit', size=1, default='uninit'))
    kind, r = run(ctx, 'interpret', [vm, T.p, q])
    ctx.prove(kind == 'ret', 'interpret:returns')
    E = events(ctx, 'program_line', 'immediate', 'oscli')
    i = T.SP(0)
    if T.digit(i): want, at = 'program_line', i
    elif T.at(i, ord('*')): want, at = 'oscli', add(i, 1)
    elif T.at(i, 0) or T.at(i, NL): want = None
    else: want, at = 'immediate', i
    ctx.cover('interpret:%s' % want)
    ctx.prove([e[0] for e in E] == ([want] if want else []), 'interpret:number-command-or-statement')
    if want:
        p = E[0][1][0 if want == 'oscli' else 1]
        ctx.prove(eq(T.pos(ctx, p, 'interpret'), at, 64), 'interpret:whole-line')

class AlphaLoop(SkipLoop): pass
def immediate(ctx):
    T = Text(ctx)
    ctx.assume(Not(isdig(T.ch(0))))
    def alpha(c): return Or(And(ule(65, c, 8), ule(c, 90, 8)), And(ule(97, c, 8), ule(c, 122, 8)))
    e = ctx.fresh('wordend', 64); ctx.assume(ule(e, T.n))
    T.node.add_unary(ctx, lambda i, c: Implies(ult(i, e), alpha(c)))
    ctx.assume(Not(alpha(T.ch(e))))
    k = ctx.fresh('cmd', 32)
    def s_find(cx, a):
        cx.prove(eq(T.pos(cx, a[0], 'immediate'), 0, 64), 'immediate:first-word'); cx.prove(eq(z64(a[1]), e, 64), 'immediate:whole-word')
        return k
    ctx.assume(ule(e, 1 << 20))
    ctx.stubs.update(find_command=s_find, command=ev(ctx, 'command'), run_immediate=ev(ctx, 'run_immediate'))
    vm = mk(ctx, 'VM', 'vm'); q = Ptr(ctx.new_obj('quit', size=1, default='uninit'))
    ctx.loopspecs = [SkipLoop(T, e, 'immediate')]
    kind, r = run(ctx, 'immediate', [vm, T.p, q])
    ctx.loopspecs = []
    ctx.prove(kind == 'ret', 'immediate:returns')
    E = events(ctx, 'command', 'run_immediate')
    ctx.prove(len(E) == 1, 'immediate:one-effect')
    cmd = ctx.branch(And(ult(0, e), icmp('ne', 32, k, 0)))
    ctx.cover('immediate:%s' % cmd)
    if cmd:
        ctx.prove(E[0][0] == 'command' and eq(E[0][1][1], k, 32), 'immediate:command')
        ctx.prove(eq(T.pos(ctx, E[0][1][2], 'immediate'), e, 64), 'immediate:rest-of-the-line')
    else:
        ctx.prove(E[0][0] == 'run_immediate' and eq(T.pos(ctx, E[0][1][1], 'immediate'), 0, 64), 'immediate:whole-line-is-a-statement')

def command(ctx):
    """each command does exactly its own effect, and only if the rest of the line is well-formed"""
    T = Text(ctx)
    names = sorted(set(COMMANDS.values()))
    cmd = names[ctx.choose(len(names))]
    vm = mk(ctx, 'VM', 'vm')
    q = Ptr(ctx.new_obj('quit', size=1, default='uninit')); ctx.poke(q, 'i8', 0)
    eol = ctx.choose(2) == 1
    quoted = ctx.choose(2) == 1
    S = new_string(ctx, 'quoted')
    cont = ctx.choose(2) == 1 if cmd == 'CMD_CONT' else True
    nums = [ctx.fresh(x, 32) for x in 'abc']
    rest = T.p.plus(ctx.fresh('rest', 64))
    def s_eol(cx, a):
        cx.events.append(('check_eol', a)); return int(eol)
    def s_quote(cx, a):
        cx.events.append(('quote', a))
        if not quoted: return NULL
        cx.store(a[1], 'ptr', S); return rest
    def s_list(cx, a):
        cx.store(a[1], 'i32', nums[0]); cx.store(a[2], 'i32', nums[1]); return rest
    def s_page(cx, a):
        cx.prove(a[0].obj is T.p.obj and a[0].off is rest.off, 'command:page-flag-follows-the-range')
        cx.store(a[1], 'i8', int(eol)); return rest
    def s_renum(cx, a):
        for i in range(3): cx.store(a[1 + i], 'i32', nums[i])
        return rest
    ctx.stubs.update(check_eol=s_eol, demarcate_string=s_quote, get_list_numbers=s_list, get_page_flag=s_page, get_renum_numbers=s_renum,
                     trap_interrupt=lambda c, a: None, untrap_interrupt=lambda c, a: None, error=ev(ctx, 'error'))
    acts = ['vm_compile', 'help', 'vm_new_program', 'vm_clear_names', 'list', 'vm_load_source', 'vm_save_source', 'renumber', 'vm_clear_values', 'run_program']
    for f in acts: ctx.stubs[f] = ev(ctx, f)
    ctx.stubs['vm_continue'] = ev(ctx, 'vm_continue', int(cont))
    ctx.stubs['vm_load_source'] = ev(ctx, 'vm_load_source', lambda c, a: c.choose(2))
    ctx.stubs['vm_save_source'] = ev(ctx, 'vm_save_source', lambda c, a: c.choose(2))
    kind, r = run(ctx, 'command', [vm, enum(ctx, cmd), T.p, q])
    ctx.prove(kind == 'ret', 'command:returns')
    E = [e for e in ctx.events if e[0] in acts + ['vm_continue']]
    err = len(events(ctx, 'error'))
    ne = [e[0] for e in E]
    quit = ctx.load(q, 'i8')
    ctx.prove(eq(quit, int(cmd == 'CMD_BYE' and eol), 8), 'command:only-BYE-ends-the-session')
    ctx.cover(cmd)
    want = {'CMD_BYE': [], 'CMD_COMPILE': ['vm_compile'], 'CMD_CONT': ['vm_continue'], 'CMD_HELP': ['help'], 'CMD_NEW': ['vm_clear_names', 'vm_new_program'] if eol else [],
            'CMD_LIST': ['list'] if eol else [], 'CMD_LOAD': ['vm_load_source'] if quoted and eol else [], 'CMD_SAVE': ['vm_save_source'] if quoted and eol else [],
            'CMD_RENUM': ['renumber'] if eol else [], 'CMD_RUN': ['vm_clear_values', 'run_program']}[cmd]
    ctx.prove((sorted(ne) if cmd == 'CMD_NEW' else ne) == want, 'command:%s-does-its-effect-only' % cmd, str(ne))
    ctx.prove(err == int((cmd == 'CMD_CONT' and not cont) or (cmd in ('CMD_LOAD', 'CMD_SAVE') and not (quoted and eol))), 'command:error-reported')
    for e in E: 
        if e[0] != 'help': ctx.prove(e[1][0].obj is vm.obj, 'command:on-this-machine')
    if 'list' in ne:
        a = E[0][1]; ctx.prove(And(eq(a[1], nums[0], 32), eq(a[2], nums[1], 32), eq(trunc(a[3], 32, 8) if False else a[3], 1, 1) if isinstance(a[3], int) else as_bool(a[3])), 'command:list-range')
    if 'renumber' in ne: ctx.prove(And(*[eq(E[0][1][1 + i], nums[i], 32) for i in range(3)]), 'command:renum-numbers')
    if 'vm_load_source' in ne or 'vm_save_source' in ne: ctx.prove(E[0][1][1].obj is S.obj and E[0][1][1].off == 0, 'command:file-name')
# ---------------------------------------------------------------- RENUM
class Ren:
    """ghost state of a renumbering: TARGET(i) is the number line i is to get"""
    def __init__(self, ctx, g, new, old, inc):
        self.ctx, self.g, self.new, self.old, self.inc = ctx, g, new, old, inc
        self.phase = 'start'
        self.first = ctx.fresh('first', 32)          # ghost: the first line numbered old or more
        ctx.assume(ule(self.first, g['used'], 32))
        f64 = z64(self.first)
        if g['arr'] is not None:
            g['num'].add_unary(ctx, lambda i, v: Implies(ult(i, f64), ult(v, old, 32)))
            g['num'].add_unary(ctx, lambda i, v: Implies(And(ule(f64, i), ult(i, z64(g['used']))), ule(old, v, 32)))
        self.N = z3.Function(ctx.name('NEWNUM'), z3.BitVecSort(32), z3.BitVecSort(32))   # new, new+inc, ...
        ctx.assume(self.N(z3.BitVecVal(0, 32)) == bv(new, 32))
        self.has = z3.Function(ctx.name('STORED'), z3.BitVecSort(32), z3.BoolSort())
        self.tgt = z3.Function(ctx.name('TARGET_OF'), z3.BitVecSort(32), z3.BitVecSort(32))
        self.mode, self.tok = 'plain', None
        self.x = self.word = self.wpos = None
        self.looked = self.replaced = None
        self.ins = []; self.sets = []
        self.cur = None
    def n_at(self, j):
        t = bv(j, 32)
        self.ctx.assume(self.N(t + 1) == self.N(t) + bv(self.inc, 32))
        return simp(self.N(t))
    def target(self, i):
        c = self.ctx
        if c.branch(ult(i, self.first, 32)): return self.g['num'].read(c, z64(i))
        return self.n_at(ibin('sub', 32, i, self.first))
    def KW(self): return [enum(self.ctx, 'TOK_' + x) for x in ('ELSE', 'GOSUB', 'GOTO', 'RESTORE', 'THEN')]
    def is_(self, *names):
        return self.ctx.branch(Or(*[eq(self.tok, enum(self.ctx, n) if isinstance(n, str) else n, 32) for n in names]))
    def settle(self):
        """the current token is left: a line number that is stored has been replaced, nothing else has"""
        c = self.ctx
        if self.mode == 'ref' and self.tok is not None and self.is_('TOK_NUM'):
            x = self.x
            c.i2f_used = True
            whole = And(fcmp('ogt', x, 0.0), fcmp('ole', x, 65535.0), fcmp('oeq', ffloor(x), x))
            if c.branch(whole):
                c.prove(self.looked is not None, 'renum:every-line-reference-is-looked-up')
                c.prove(Iff(self.looked, self.replaced is not None), 'renum:references-to-renumbered-lines-follow')
            else: c.prove(self.replaced is None, 'renum:other-numbers-unchanged')
    def expect(self):
        """what the next token is: a possible line reference, a DATA item or other text"""
        if self.tok is None: return self.mode
        if self.mode == 'afterdata': return 'data' if self.is_(44) else ('ref' if self.is_(*self.KW()) else 'data' if self.is_('TOK_DATA') else 'plain')
        if self.is_('TOK_DATA'): return 'data'
        if self.is_(*self.KW()): return 'ref'
        if self.mode == 'ref' and self.is_('TOK_NUM'): return 'after'
        if self.mode in ('ref', 'after') and self.is_(44): return 'ref'
        return 'plain'
    def fresh_token(self, mode):
        c = self.ctx
        self.mode = mode; self.tok = c.fresh('tok', 32); self.looked = self.replaced = None
        self.x = c.fresh_f('num'); self.word = new_string(c, 'word'); self.wpos = c.fresh('tokpos', 32)
        return self.tok

class MapLoop(LoopSpec):
    """every line so far has been given its target, in increasing order"""
    def __init__(self, R):
        LoopSpec.__init__(self, name='renum-map', func='renumber', roles={'i': ('i32', ('line', 'i')), 'n': ('i32', ('new_linenum',)), 'p': ('i32', ('prev_basic_line',))})
        self.R = R
    def applies(self, ctx, fr, label, vals): return self.R.phase == 'start' and len(vals) >= 3
    def inv(self, ctx, L, v):
        R = self.R; i = v['i']
        r = [('range', ule(i, R.g['used'], 32))]
        if ctx.branch(ult(i, R.first, 32)): want = R.new
        else: want = R.n_at(ibin('sub', 32, i, R.first))
        r.append(('next-number', eq(v['n'], want, 32)))
        if ctx.branch(eq(i, 0, 32)): r.append(('previous', eq(v['p'], 0, 32)))
        else: r.append(('previous', eq(v['p'], R.target(ibin('sub', 32, i, 1)), 32)))
        return r
    def enter(self, ctx, L, v): self.R.phase = 'map'
    def havoc(self, ctx, L, v):
        self.R.cur = v['i']; self.R.ins = []
    def at_back(self, ctx, L, v):
        R = self.R; i = L.cur['i']
        ctx.prove(len(R.ins) == 1, 'renum:every-line-gets-a-number')
        t = R.target(i)
        ctx.prove(eq(R.ins[0][0], R.g['num'].read(ctx, z64(i)), 32), 'renum:for-its-old-number')
        ctx.prove(eq(R.ins[0][1], t, 32), 'renum:lines-from-start-get-new,new+step,...')
        if not ctx.branch(eq(i, 0, 32)): ctx.prove(ult(R.target(ibin('sub', 32, i, 1)), t, 32), 'renum:numbers-stay-in-order')
        if ctx.branch(ule(R.first, i, 32)): ctx.prove(And(ule(t, 65535, 32), ult(0, t, 32)), 'renum:numbers-are-usable')
    def variant(self, ctx, L, v): return sub(1 << 40, z64(v['i']))
class ApplyLoop(LoopSpec):
    def __init__(self, R):
        LoopSpec.__init__(self, name='renum-apply', func='renumber', scratch=True, roles={'i': ('i32', ('line', 'i'))}); self.R = R
    def applies(self, ctx, fr, label, vals): return self.R.phase == 'map'
    def enter(self, ctx, L, v):
        self.R.phase = 'apply'
        ctx.prove(eq(v['i'], 0, 32), 'renum:all-lines-from-the-first')
    def inv(self, ctx, L, v): return [('range', ule(v['i'], self.R.g['used'], 32))]
    def havoc(self, ctx, L, v): self.R.sets = []; self.R.cur = v['i']
    def at_back(self, ctx, L, v):
        R = self.R; i = L.cur['i']
        ctx.prove(eq(v['i'], ibin('add', 32, i, 1), 32), 'renum:line-after-line')
        if not R.sets: ctx.prove(eq(R.target(i), R.g['num'].read(ctx, z64(i)), 32), 'renum:every-line-is-renumbered'); return
        ctx.prove(len(R.sets) == 1 and eq(R.sets[0][0], i, 32) and eq(R.sets[0][1], R.target(i), 32), 'renum:every-line-is-renumbered')
    def variant(self, ctx, L, v): return sub(1 << 40, z64(v['i']))
class TextLoop(LoopSpec):
    def __init__(self, R):
        LoopSpec.__init__(self, name='renum-text', func='renumber', scratch=True, roles={'i': ('i32', ('line', 'i'))}); self.R = R
    def applies(self, ctx, fr, label, vals): return self.R.phase == 'apply'
    def enter(self, ctx, L, v):
        self.R.phase = 'text'
        ctx.prove(eq(v['i'], 0, 32), 'renum:all-texts-from-the-first')
    def inv(self, ctx, L, v): return [('range', ule(v['i'], self.R.g['used'], 32))]
    def havoc(self, ctx, L, v): self.R.cur = v['i']; self.R.tok = None; self.R.lexed = False
    def at_back(self, ctx, L, v):
        R = self.R
        ctx.prove(R.lexed, 'renum:every-text-is-scanned')
        ctx.prove(eq(v['i'], ibin('add', 32, L.cur['i'], 1), 32), 'renum:text-after-text')
        if not R.ended:
            R.settle()
            ctx.prove(R.is_('TOK_EOF', 10, 'TOK_REM'), 'renum:scanned-to-the-end-or-a-remark')
    def variant(self, ctx, L, v): return sub(1 << 40, z64(v['i']))
class TokLoop(LoopSpec):
    """nothing is pending at the current token"""
    def __init__(self, R):
        LoopSpec.__init__(self, name='renum-tokens', func='renumber', scratch=True, roles={'t': ('i32', ('tok',))}); self.R = R
    def applies(self, ctx, fr, label, vals): return self.R.phase == 'text' and self.R.tok is not None
    def enter(self, ctx, L, v): self.R.phase = 'tokens'
    def inv(self, ctx, L, v):
        R = self.R
        if R.ended: return [('ended', eq(v['t'], 10, 32))]
        R.settle()
        e = R.expect()
        # a reference list goes on: it must not be left
        ok = not (R.mode in ('ref', 'after') and R.is_(44)) and not (R.mode == 'afterdata' and R.is_(44))
        return [('current-token', eq(v['t'], R.tok, 32)), ('list-finished', ok)]
    def havoc(self, ctx, L, v):
        R = self.R
        R.fresh_token('plain'); R.tok = v['t']; R.ended = False
class InnerLoop(LoopSpec):
    def __init__(self, R):
        LoopSpec.__init__(self, name='renum-list', func='renumber', scratch=True, roles={}); self.R = R
    def applies(self, ctx, fr, label, vals): return self.R.phase == 'tokens'
    def enter(self, ctx, L, v):
        self.R.phase = 'inner'
        L.g['kind'] = 'data' if self.R.is_('TOK_DATA') else 'ref'
    def inv(self, ctx, L, v):
        R = self.R
        if R.ended: return [('ended', False)]
        if R.tok is None: return []
        R.settle()
        return [('list', R.expect() == L.g['kind'])]
    def havoc(self, ctx, L, v):
        R = self.R; R.tok = None; R.mode = L.g['kind']

def renumber(ctx):
    g = store.mk_source(ctx)
    new, old, inc = ctx.fresh('new', 32), ctx.fresh('old', 32), ctx.fresh('inc', 32)
    R = Ren(ctx, g, new, old, inc)
    R.ended = False; R.lexed = False
    vm = mk(ctx, 'VM', 'vm')
    have = ctx.choose(2) == 0
    m = ctx.malloc(8, 'uninit', 'map'); lex = ctx.malloc(8, 'uninit', 'lex')
    used = g['used']
    src = g['p']
    def idx(cx, a):
        cx.prove(a[0].obj is src.obj and ult(a[1], used, 32), 'renum:line-index-in-range'); return a[1]
    def s_linenum(cx, a):
        i = idx(cx, a)
        if R.phase == 'apply': cx.prove(eq(i, R.cur, 32), 'renum:old-number-of-the-current-line')
        return g['num'].read(cx, z64(i))
    def s_set(cx, a):
        cx.prove(R.phase == 'apply', 'renum:numbers-change-only-after-all-are-known')
        idx(cx, a); R.sets.append((a[1], a[2])); return None
    def s_text(cx, a):
        i = idx(cx, a)
        if R.replaced is not None: return R.newtext
        p = new_string(cx, 'text'); p.obj.tag = ('text', i); return p
    def s_insert(cx, a):
        cx.prove(a[0].obj is m.obj and R.phase == 'map', 'renum:into-the-map')
        R.ins.append((a[1], a[2])); return True
    def s_newmap(cx, a):
        cx.prove(ule(used, a[0], 32), 'renum:room-for-every-line'); return m
    def s_lookup(cx, a):
        if R.phase == 'apply':
            cx.prove(eq(a[1], g['num'].read(cx, z64(R.cur)), 32), 'renum:looks-up-the-current-line')
            cx.store(a[2], 'i32', R.target(R.cur)); return True
        cx.prove(R.mode == 'ref' and R.is_('TOK_NUM'), 'renum:only-line-references-are-looked-up')
        cx.prove(eq(a[1], fp_to_int(R.x, 32, False), 32), 'renum:looks-up-the-number-referred-to')
        R.key = a[1]
        R.looked = cx.branch(self_has(a[1]))
        if not R.looked: return False
        cx.store(a[2], 'i32', simp(R.tgt(bv(a[1], 32)))); return True
    def self_has(k): return R.has(bv(k, 32))
    def s_lex_line(cx, a):
        cx.prove(R.phase in ('text',) and isinstance(a[2], Ptr) and a[2].obj.tag and a[2].obj.tag[0] == 'text', 'renum:scans-the-source-text')
        cx.prove(eq(a[2].obj.tag[1], R.cur, 32), 'renum:scans-the-current-line')
        R.lexed = True; R.ended = False
        return R.fresh_token('plain')
    def s_next(cx, a):
        R.settle()
        e = R.expect()
        cx.prove(e != 'data', 'renum:DATA-items-are-not-line-references')
        return R.fresh_token(e if e != 'dataitem' else 'afterdata')
    def s_next_data(cx, a):
        R.settle()
        cx.prove(R.expect() == 'data', 'renum:DATA-items-only-after-DATA')
        if cx.choose(2) == 1: R.ended = True; return NULL
        R.mode, R.tok = 'dataitem', None
        return Ptr(m.obj)
    def s_replace(cx, a):
        cx.prove(R.mode == 'ref' and R.is_('TOK_NUM') and R.looked is True and R.replaced is None, 'renum:only-references-to-stored-lines-are-replaced')
        idx(cx, a); cx.prove(eq(a[1], R.cur, 32), 'renum:replaces-in-the-current-line')
        cx.prove(eq(a[2], R.wpos, 32) and a[3].obj is R.word.obj, 'renum:replaces-the-number-itself')
        n = strref(cx, a[4]).node
        pcs = getattr(n, 'pieces', None)
        cx.prove(pcs is not None and len(pcs) == 1 and pcs[0][0] == 'u' and eq(pcs[0][1], simp(R.tgt(bv(R.key, 32))), 32), 'renum:by-the-new-number')
        R.replaced = True; R.newtext = new_string(cx, 'text'); return True
    def s_refresh(cx, a):
        cx.prove(R.replaced is not None and a[1].obj is R.newtext.obj, 'renum:goes-on-in-the-new-text')
        # the token is read again from the changed text: the same number token
        return enum(cx, 'TOK_NUM')
    def s_sprintf(cx, a):
        cx.check_range(a[0], 11, 'write')
        pcs = cx.libm['fmt_pieces'](cx, a[1], a[2:])
        nd = BaseUF(cx.name('digits'), 'i8'); ln = cx.fresh('digits.len', 64); cx.assume(ule(ln, 10))
        nd.strlen = ln; nd.pieces = pcs
        sg, oldn, di = cx.bytes_node(a[0]); sg.comps[(0, 'i8')] = nd
        cx.wlog.append((a[0].obj, 'seg', sg.start))
        return trunc(ln, 64, 32)
    def freed(p):
        return lambda cx, a: cx.free(p) if a[0].obj is p.obj else cx.prove(False, 'renum:releases-its-own')
    ctx.stubs.update(vm_stored_source=lambda c, a: src if have else NULL, vm_keywords_anywhere=lambda c, a: 0, new_lex=lambda c, a: lex, new_line_map=s_newmap,
                     insert_line_mapping=s_insert, lookup_line_mapping=s_lookup, source_lines=lambda c, a: used, source_linenum=s_linenum, set_source_linenum=s_set,
                     source_text=s_text, vm_source_changed=ev(ctx, 'changed'), lex_line=s_lex_line, lex_next=s_next, lex_next_data=s_next_data,
                     lex_num=lambda c, a: R.x, lex_word=lambda c, a: R.word, lex_token_pos=lambda c, a: R.wpos, lex_refresh=s_refresh, source_replace=s_replace,
                     sprintf=s_sprintf, snprintf=lambda c, a: s_sprintf(c, [a[0]] + a[2:]), error=ev(ctx, 'error'), delete_line_map=freed(m), delete_lex=freed(lex))
    ctx.loopspecs = [MapLoop(R), ApplyLoop(R), TextLoop(R), TokLoop(R), InnerLoop(R)]
    kind, r = run(ctx, 'renumber', [vm, new, old, inc])
    ctx.loopspecs = []
    ctx.prove(kind == 'ret', 'renum:returns')
    changed = len(events(ctx, 'changed'))
    if not have: ctx.prove(changed == 0, 'renum:no-program'); ctx.cover('renum:no-program'); return
    ctx.prove(m.obj.freed and lex.obj.freed, 'renum:releases-what-it-made')
    if events(ctx, 'error'):
        ctx.cover('renum:refused')
        ctx.prove(R.phase == 'map' and not changed, 'renum:refusal-changes-nothing')
        i = R.cur
        ctx.prove(ule(R.first, i, 32), 'renum:refused-only-for-a-bad-number')
        t = R.target(i)
        prev = 0 if ctx.branch(eq(i, 0, 32)) else R.target(ibin('sub', 32, i, 1))
        ctx.prove(Or(ult(65535, t, 32), ule(t, prev, 32)), 'renum:refused-only-for-a-bad-number')
        return
    ctx.cover('renum:done')
    ctx.prove(changed >= 1, 'renum:the-change-is-announced')
    ctx.prove(R.phase == 'text' and eq(R.cur, used, 32), 'renum:all-texts-scanned')
ALL = ['skip_space', 'read_num', 'check_eol', 'demarcate', 'program_line', 'list_numbers', 'renum_numbers', 'page_flag', 'list_', 'find_command', 'interpret', 'immediate', 'command', 'renumber']
for f in (skip_space, demarcate, immediate): f.alts = 2
