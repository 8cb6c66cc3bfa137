"""Contracts of parse.c.  The token stream is arbitrary (contract of the lexer); a nonterminal is
checked against a reference grammar, its callees being replaced by their contracts: a nonterminal
reads some tokens, emits its own code, and yields a type.  The reference grammar is written as
generators and replayed against the trace of what the code did; loops are cut at the points the
reference marks, with the loop state linked to the code's loop variables."""
from lbv.hlib import *
from .store import module_of
from lbv.engine import LongJmp

EXPR = ('expression', 'OR_expression', 'AND_expression', 'NOT_expression', 'relational_expression', 'add_expr', 'mult_expr', 'neg_expr', 'power_expr', 'primary_expression')
NUM, STR, ERR = 'TYPE_NUM', 'TYPE_STR', 'TYPE_ERR'

class RefErr(Exception): pass

class World:
    def __init__(self, ctx, sub=EXPR, idstub=True, if_then=None):
        self.ctx = ctx
        di = ctx.prog.di
        ctx.P = self
        self.E = lambda n: enum(ctx, n)
        self.pos = (0, 0); self.nseg = 0
        self.toks, self.nums, self.words, self.blt, self.isw = {}, {}, {}, {}, {}
        self.trace = []          # what the code did
        self.ri = 0; self.rpos = (0, 0)
        self.gen = None; self.rstate = 'run'; self.rval = None; self.pending = None
        self.lex = mk(ctx, 'LEX', 'lex')
        off, _ = di.field('LEX', 'word[0]')
        self.nword = di.size('LEX') - off
        n = sum(1 for path, o, k in di.scalars('LEX') if path.startswith('word['))
        for k in list(self.lex.obj.layout):
            if off <= k < off + n: del self.lex.obj.layout[k]
        self.lex.obj.segs.append(Seg(off, 1, n, [(0, 'i8')], lambda c, fo, k: BaseUF(c.name('word'), 'i8'), 'word'))
        self.wordp = self.lex.plus(off)
        self.wmax = n
        self.st = mk(ctx, 'SYMTAB', 'symtab')
        self.bcode = mk(ctx, 'BCODE', 'bcode')
        self.if_then0 = ctx.fresh('if_then', 32) if if_then is None else if_then
        self.p = mk(ctx, 'PARSER', 'parser', dict(lex=self.lex, bcode=self.bcode, st=self.st, if_then=self.if_then0))
        self.syms = []
        self.latest0 = self.rlatest = self.anyop()
        self.sync()
        ctx.unroll = 10
        S = ctx.stubs
        S.update(ALLOC)
        S['lex_token'] = lambda cx, a: self.tok(self.pos)
        def nxt(cx, a):
            self.pos = (self.pos[0], self.pos[1] + 1); self.sync(); return self.tok(self.pos)
        S['lex_next'] = nxt
        S['lex_word'] = lambda cx, a: self.wordp
        S['lex_num'] = lambda cx, a: self.num(self.pos)
        def data(cx, a):
            ev = ['data', self.pos, None]; self.trace.append(ev)
            self.jump()
            ev[2] = self.pos
            if cx.choose(2) == 1: ev.append(False); return NULL
            ev.append(True); return self.wordp
        S['lex_next_data'] = data
        def discard(cx, a):
            ev = ['discard', self.pos, None]; self.trace.append(ev); self.jump()
            ev[2] = self.pos
            cx.assume(eq(self.tok(self.pos), 10, 32))
        S['lex_discard'] = discard
        def emitter(name, kind):
            def f(cx, a):
                cx.prove(isinstance(a[0], Ptr) and a[0].obj is self.bcode.obj, 'grammar:emits-into-this-code')
                v = list(a[2:])
                if kind in ('str', 'ptr'): v = [None if a[2].null else strref(cx, a[2])]
                if kind == 'ptr' and not a[2].null: cx.prove(a[2].obj.heap and a[2].off == 0 and a[2].obj is not self.lex.obj, 'grammar:own-copy-of-text')
                i = cx.fresh('index', 32); cx.assume(icmp('ne', 32, i, 0))
                self.trace.append(['emit', a[1], 'str' if kind == 'ptr' else kind, v, i])
                return i
            S[name] = f
        for n, k in (('emit', 'none'), ('emit_source_line', 'line'), ('emit_basic_line', 'basic'), ('emit_num', 'num'), ('emit_str', 'str'), ('emit_str_ptr', 'ptr'), ('emit_var', 'var'),
                     ('emit_param', 'param'), ('emit_count', 'count')): emitter(n, k)
        def patch(kind):
            def f(cx, a): self.trace.append(['patch', kind, a[1], a[2]])
            return f
        S['patch_opcode'] = patch('op'); S['patch_count'] = patch('count')
        def latest(cx, a):
            ems = [e for e in self.trace if e[0] == 'emit']
            p = mk(cx, 'BINST', 'latest')
            ssetf(cx, p, 'BINST', 'op', trunc(ems[-1][1] if ems else self.latest0, 32, kwidth(cx.prog.di.field('BINST', 'op')[1])))
            return p
        S['bcode_latest'] = latest
        def err(cx, a): raise Outcome('error', a)
        S['parse_error'] = err; S['parse_error_no_token'] = err
        S['print_token'] = lambda cx, a: None
        S['symbol_kind'] = lambda cx, a: cx.cstr('kind', 'kind')
        def lookup(cx, a):
            w = strref(cx, a[1]); par = a[2]
            par = as_bool(par) if not isinstance(par, int) else bool(par & 1)
            if not isinstance(par, bool): par = cx.branch(par)
            s = None
            if cx.choose(2): s = self.symbol('found', (('SYM_UNKNOWN', 'SYM_ARRAY', 'SYM_DEF', 'SYM_BUILTIN') if par else ('SYM_VARIABLE', 'SYM_BUILTIN')), self.type_of(w))
            self.trace.append(['lookup', w, par, s])
            return s['p'] if s else NULL
        S['sym_lookup'] = lookup
        def insert(cx, a):
            w = strref(cx, a[1])
            s = self.symbol('new', None, trunc(a[3], 32, 8), kind=trunc(a[2], 32, 8))
            self.trace.append(['insert', w, a[2], a[3], s])
            return s['p']
        S['sym_insert'] = insert
        S['builtin'] = self.s_builtin
        def strcasecmp(cx, a):
            w = strref(cx, a[0]); lit = strref(cx, a[1]).concrete()
            if lit is None: w, lit = strref(cx, a[1]), strref(cx, a[0]).concrete()
            if lit is None: raise Structural('strcasecmp')
            return 0 if cx.branch(self.word_is(w.node, lit.upper())) else 1
        S['strcasecmp'] = strcasecmp
        for n in sub: S[n] = self.exprstub(n)
        if idstub: S['identifier'] = self.s_identifier
        ctx.loopspecs.append(GLoop())
    def anyop(self):
        r = self.ctx.fresh('latest', 32); self.ctx.assume(ult(r, 200, 32)); return r
    # ---- tokens
    def tok(self, pos):
        t = self.toks.get(pos)
        if t is None:
            t = self.toks[pos] = self.ctx.fresh('tok', 32)
        return t
    def num(self, pos):
        if pos not in self.nums: self.nums[pos] = self.ctx.fresh_f('num')
        return self.nums[pos]
    def word(self, pos):
        if pos not in self.words:
            ctx = self.ctx
            n = ctx.fresh('word.len', 64)
            ctx.assume(ult(n, self.wmax)); ctx.assume(Implies(eq(self.tok(pos), self.E('TOK_ID'), 32), icmp('ne', 64, n, 0)))
            node = BaseUF(ctx.name('word.ch'), 'i8')
            node.strlen = n; node.nuls = (n,)
            node.add_unary(ctx, lambda i, v: And(Implies(ult(i, n), icmp('ne', 8, v, 0)), Implies(idx_eq(i, n), icmp('eq', 8, v, 0))))
            self.words[pos] = StrRef(ctx, node, 0, self.wmax)
        return self.words[pos]
    def sync(self):
        ctx = self.ctx
        ssetf(ctx, self.lex, 'LEX', 'token', self.tok(self.pos)); ssetf(ctx, self.lex, 'LEX', 'num', self.num(self.pos))
        self.lex.obj.segs[0].comps[(0, 'i8')] = self.word(self.pos).node
    def jump(self):
        self.left = dict(self.left); self.left[self.pos[0]] = self.pos[1]
        self.nseg += 1; self.pos = (self.nseg, 0); self.sync()
    def base_word(self, w):
        """the token word a string is a copy of"""
        k = self.ctx.fresh('k', 64)
        for pos, r in self.words.items():
            if r.node is w.node and w.off == 0 or self.same_text(w, r): return r
        raise Structural('not the text of a token')
    def same_text(self, a, b):
        ctx = self.ctx
        if a is None or b is None: return a is b
        if a.same(b): return True
        if not ctx.valid(eq(a.len, b.len, 64)): return False
        k = ctx.fresh('k', 64)
        if not ctx.branch(ult(k, b.len)): return True
        x, y = a.char(k), b.char(k)
        if x is UNDEF or y is UNDEF: return False
        return ctx.valid(eq(x, y, 8))
    def type_of(self, w):
        """the type a name denotes"""
        n = w.len
        c = And(icmp('ne', 64, n, 0), eq(w.char(sub(n, 1)), ord('$'), 8))
        return z3.If(B(c), z3.BitVecVal(self.E(STR), 8), z3.BitVecVal(self.E(NUM), 8))
    def word_is(self, node, lit):
        k = (id(node), lit)
        if k not in self.isw:
            v = self.isw[k] = self.ctx.fresh_bool('is')
            for (n, l), o in list(self.isw.items()):
                if n == id(node) and l != lit: self.ctx.assume(Not(And(v, o)))
            self.isw[k + (node,)] = v if False else v
            del self.isw[k + (node,)]
            self.keep = getattr(self, 'keep', []) + [node]
        return self.isw[k]
    # ---- symbols
    def symbol(self, name, kinds, typ, kind=None):
        ctx = self.ctx
        if kind is None:
            kind = ctx.fresh(name + '.kind', 8)
            ctx.assume(Or(*[B(eq(kind, self.E(k), 8)) for k in kinds]))
        p = mk(ctx, 'SYMBOL', name, dict(kind=kind, type=typ))
        nm = new_string(ctx, name + '.name')
        ssetf(ctx, p, 'SYMBOL', 'name', nm)
        s = dict(p=p, kind=kind, type=typ, id=sgetf(ctx, p, 'SYMBOL', 'id'))
        self.syms.append(s)
        return s
    def s_identifier(self, cx, a):
        """contract of identifier(): a variable or a name with numeric arguments in parentheses"""
        n = cx.fresh('params', 32)
        kind = a[2]
        ev = ['sub', 'identifier', self.pos, None, kind, n, None]
        self.trace.append(ev); self.jump(); ev[3] = self.pos
        typ = cx.fresh('idtype', 8)
        cx.assume(Or(B(eq(typ, self.E(NUM), 8)), B(eq(typ, self.E(STR), 8))))
        s = self.symbol('id', ('SYM_UNKNOWN', 'SYM_VARIABLE', 'SYM_ARRAY', 'SYM_DEF', 'SYM_BUILTIN'), typ)
        k = zext(s['kind'], 8, 32)
        cx.assume(Implies(eq(n, 0, 32), eq(k, self.E('SYM_VARIABLE'), 32)))
        cx.assume(Implies(icmp('ne', 32, n, 0), And(icmp('ne', 32, k, self.E('SYM_VARIABLE')), Or(B(eq(kind, self.E('SYM_UNKNOWN'), 32)), B(eq(k, kind, 32))))))
        ev[6] = s
        cx.store(a[1], 'i32', n)
        return s['p']
    def s_builtin(self, cx, a):
        w = strref(cx, a[0])
        if w.node not in [x[0] for x in self.blt.values()]:
            args = (None, b'n', b's', b'd', b'sn', b'snn', b'absent')[cx.choose(7)]
            b = None
            if args != b'absent':
                typ = cx.fresh('btype', 32); op = cx.fresh('bop', 32)
                b = mk(cx, 'BUILTIN', 'builtin')
                if args is None: cx.assume(eq(typ, self.E(ERR), 32)); ssetf(cx, b, 'BUILTIN', 'args', NULL)
                else:
                    cx.assume(Or(B(eq(typ, self.E(NUM), 32)), B(eq(typ, self.E(STR), 32))))
                    ssetf(cx, b, 'BUILTIN', 'args', cx.cstr(args.decode(), 'args'))
                ssetf(cx, b, 'BUILTIN', 'type', typ); ssetf(cx, b, 'BUILTIN', 'opcode', op)
                b = dict(p=b, args=args, type=typ, op=op)
            self.blt[id(w.node)] = (w.node, b)
        b = self.blt[id(w.node)][1]
        return b['p'] if b else NULL
    def exprstub(self, name):
        def f(cx, a):
            cx.prove(a[0].obj is self.p.obj, 'grammar:same-parser')
            ev = ['sub', name, self.pos, None, None]
            self.trace.append(ev); self.jump(); ev[3] = self.pos
            t = cx.fresh('type', 32)
            cx.assume(Or(*[B(eq(t, self.E(k), 32)) for k in (NUM, STR, ERR)]))
            ev[4] = t
            return t
        return f
    # ---- the reference
    def start(self, gen):
        self.gen = gen
    def step(self, send=None):
        try: self.pending = next(self.gen) if self.pending is None else self.gen.send(send)
        except StopIteration as e:
            self.rstate = 'done'; self.rval = e.value
        except RefErr: self.rstate = 'err'
    def advance(self, final=False):
        """reference state after the trace so far: ('point', key, state) | ('wait', what) | None"""
        polled = False
        while self.rstate == 'run':
            r = self.pending
            if r is None: self.step()
            elif r[0] == 'wait':
                if polled: return r
                polled = True
                self.step()
            else:
                self.drain()
                if self.resume is None and not final and self.ri == len(self.trace) and self.rpos == self.pos: return r
                send = r[2] if self.resume is None else self.resume
                self.resume = None; polled = False
                self.step(send)
        return None
    resume = None
    def want(self, what):
        self.drain()
        while self.ri >= len(self.trace):
            yield ('wait', what)
            self.drain()
        e = self.trace[self.ri]; self.ri += 1
        return e
    # a change of an instruction already emitted may come before or after other instructions are emitted
    def drain(self):
        while self.ri < len(self.trace) and self.trace[self.ri][0] == 'patch':
            self.given = self.given + [self.trace[self.ri]]; self.ri += 1
        self.settle()
    given, owed = [], []
    over = False
    left = {}
    def settle(self):
        while self.given and self.owed:
            e, (kind, i, v) = self.given[0], self.owed[0]
            self.given, self.owed = self.given[1:], self.owed[1:]
            if e[1] != kind: self.mismatch('patches-' + kind, e)
            self.ctx.prove(And(eq(e[2], i, 32), eq(e[3], v, 32)), 'grammar:patch')
    # requests of the reference
    def at(self, *toks):
        if self.rpos[1] > (self.pos[1] if self.rpos[0] == self.pos[0] else self.left.get(self.rpos[0], 0)) + 6:
            self.ctx.prove(False, 'grammar:reads-exactly-its-tokens' if self.over else 'loop-order:grammar', 'the reference reads on')
        c = [B(eq(self.tok(self.rpos), t if isinstance(t, int) else ord(t) if len(t) == 1 else self.E(t), 32)) for t in toks]
        return self.ctx.branch(simp(Or(*c) if len(c) > 1 else c[0]))
    def next(self): self.rpos = (self.rpos[0], self.rpos[1] + 1)
    def need(self, t):
        if not self.at(t): raise RefErr()
        self.next()
    def mismatch(self, what, e=None):
        # an event out of place: the code does not implement the grammar
        self.ctx.prove(False, 'grammar:' + what, '' if e is None else repr(e[:3]))
    def emit(self, op, kind='none', *vals):
        e = yield from self.want('emit %s' % op)
        ctx = self.ctx
        if e[0] != 'emit': self.mismatch('emits-%s' % (op if isinstance(op, str) else 'code'), e)
        ctx.prove(eq(e[1], self.E(op) if isinstance(op, str) else op, 32), 'grammar:instruction', str(op))
        self.rlatest = e[1]
        if kind == 'str' or e[2] == 'str':
            ctx.prove(e[2] == kind and self.same_text(e[3][0], vals[0]), 'grammar:operand-text', str(op))
        else:
            ctx.prove(e[2] == kind or not vals and e[2] == 'none', 'grammar:operand-kind', str(op))
            for x, v in zip(e[3], vals):
                ctx.prove(feq(x, v) if kind == 'num' else eq(x, v, 32), 'grammar:operand', str(op))
        return e[4]
    def patch(self, kind, i, v):
        self.owed = self.owed + [(kind, i, v)]
        self.settle()
        return
        yield
    def sub(self, name, *alt):
        e = yield from self.want('sub ' + name)
        if e[0] != 'sub' or e[1] not in (name,) + alt: self.mismatch('parses-' + name, e)
        self.ctx.prove(e[2] == self.rpos, 'grammar:parses-from-here', name)
        self.rpos = e[3]
        return e
    def expr(self, name='expression'):
        e = yield from self.sub(name)
        if self.ctx.branch(eq(e[4], self.E(ERR), 32)): raise RefErr()
        return NUM if self.ctx.branch(eq(e[4], self.E(NUM), 32)) else STR
    def numeric(self):
        t = yield from self.expr()
        if t != NUM: raise RefErr()
    def ident(self, kind):
        e = yield from self.sub('identifier')
        self.ctx.prove(eq(e[4], self.E(kind), 32), 'grammar:kind-of-name')
        s, n = e[6], e[5]
        return s, n
    def is_str(self, s): return self.ctx.branch(eq(s['type'], self.E(STR), 8))
    def point(self, key, **state):
        r = yield ('point', key, state)
        return r if r is not None else state
    # ---- end of the function
    def finish(self, kind, ret=None, typed=False, err_ret=False):
        """the code has returned (kind 'ret') or reported an error"""
        ctx = self.ctx
        self.over = True
        r = self.advance(True)
        if kind == 'error':
            ctx.cover('error')
            ctx.prove(self.rstate == 'err', 'grammar:accepted-by-the-language', repr(r[:2]) if r else self.rstate)
            return 'error'
        if kind != 'ret': ctx.prove(False, 'grammar:outcome', kind)
        if self.rstate == 'err':
            ctx.cover('error')
            ctx.prove(eq(ret, self.E(ERR), 32) if err_ret else False, 'grammar:refused-by-the-language')
            return 'error'
        ctx.cover('accept')
        ctx.prove(self.rstate == 'done', 'grammar:complete', repr(r[:2]) if r else '')
        self.drain()
        ctx.prove(not self.owed and not self.given, 'grammar:patch', 'one for each')
        ctx.prove(self.ri == len(self.trace), 'grammar:nothing-more', repr([e[:2] for e in self.trace[self.ri:]]))
        ctx.prove(self.rpos == self.pos, 'grammar:reads-exactly-its-tokens')
        if typed: ctx.prove(eq(ret, self.E(self.rval) if isinstance(self.rval, str) else self.rval, 32), 'grammar:type')
        return 'ok'

class GLoop(LoopSpec):
    name = 'grammar'
    allow_other = True
    def bind(self, ctx, fr, label, vals):
        P = ctx.P
        if P.gen is None: return None
        r = P.advance()
        if r is None or r[0] != 'point': return None
        if P.owed or P.given: ctx.weak = True
        b = {}; used = set()
        L = Loop(self, fr, label, b)
        L.key, L.state, L.cell = r[1], r[2], {}
        tys = {ins.dst: tkey(ins.ty) if ins.ty.k in ('int', 'ptr', 'f64') else None for ins in fr.fn.blocks[label] if ins.op == 'phi'}
        for name in L.state:
            if name.startswith('mem_'): continue
            c = [d for d in tys if tys[d] == 'i32' and d not in used and name.rstrip('_') in fr.fn.dbg.get(d, set())]
            if len(c) != 1: c = [d for d in tys if tys[d] == 'i32' and d not in used]
            if len(c) != 1: ctx.weak = True; continue
            b[name] = c[0]; used.add(c[0])
        if any(d not in used for d in tys): ctx.weak = True
        self.uses += 1
        return L
    def link(self, ctx, L, v, state, what):
        for n, t in state.items():
            if n in v: ctx.prove(eq(v[n], t, 32), 'loop-state:' + what, n)
            elif n.startswith('mem_'):
                ctx.prove(eq(ctx.load(L.P_mem[n], 'i32'), t, 32), 'grammar:state-' + what, n)
    def enter(self, ctx, L, v):
        P = ctx.P
        L.P_mem = getattr(P, 'mem', {})
        self.link(ctx, L, v, L.state, 'entry')
    def havoc(self, ctx, L, v):
        P = ctx.P
        new = {}
        for n in L.state:
            if n in v: new[n] = v[n]
            else:
                new[n] = ctx.fresh(n, 32)
                if n in L.P_mem: ctx.poke(L.P_mem[n], 'i32', new[n])
        P.jump(); P.rpos = P.pos
        P.trace = []; P.ri = 0
        P.latest0 = P.rlatest = P.anyop()
        P.resume = new
    def at_back(self, ctx, L, v):
        P = ctx.P
        r = P.advance()
        ctx.prove(r is not None and r[0] == 'point' and r[1] == L.key, 'loop-order:grammar', '%s %s' % (P.rstate, r and r[:2]))
        self.link(ctx, L, v, r[2], 'iteration')
    def may_write(self, ctx, L, o, kind, off):
        P = ctx.P
        return o is P.lex.obj or any(isinstance(q, Ptr) and q.obj is o for q in L.P_mem.values())

# ---------------------------------------------------------------- the grammar
def r_logic(P, lower, tok, op):
    t = yield from P.expr(lower)
    while True:
        yield from P.point(tok)
        if not P.at(tok): return t
        if t != NUM: raise RefErr()
        P.next()
        u = yield from P.expr(lower)
        if u != NUM: raise RefErr()
        yield from P.emit(op)
def r_prefix(P, lower, tok, op, name):
    n = 0
    if P.at(tok):
        while True:
            s = yield from P.point(tok, **{name: n})
            n = ibin('add', 32, s[name], 1)
            P.next()
            if not P.at(tok): break
    t = yield from P.expr(lower)
    if P.ctx.branch(icmp('ne', 32, n, 0)):
        if t != NUM: raise RefErr()
        if P.ctx.branch(eq(ibin('urem', 32, n, 2), 1, 32)): yield from P.emit(op)
    return t
RELOPS = (('=', 'EQ'), ('<', 'LT'), ('>', 'GT'), ('TOK_NE', 'NE'), ('TOK_LE', 'LE'), ('TOK_GE', 'GE'))
def r_relational(P):
    t = yield from P.expr('add_expr')
    op = None
    for tk, nm in RELOPS:
        if P.at(tk): op = nm; break
    if op is None: return t
    P.next()
    u = yield from P.expr('add_expr')
    if t != u: raise RefErr()
    yield from P.emit('B_%s_%s' % (op, 'STR' if t == STR else 'NUM'))
    return NUM
def r_add(P):
    t = yield from P.expr('mult_expr')
    while True:
        yield from P.point('+')
        if P.at('+'): op = 'B_ADD' if t == NUM else 'B_CONCAT'
        elif t == NUM and P.at('-'): op = 'B_SUB'
        else: return t
        P.next()
        u = yield from P.expr('mult_expr')
        if t != u: raise RefErr()
        yield from P.emit(op)
def r_mult(P):
    t = yield from P.expr('neg_expr')
    while True:
        yield from P.point('*')
        if P.at('*'): op = 'B_MUL'
        elif P.at('/'): op = 'B_DIV'
        else: return t
        if t != NUM: raise RefErr()
        P.next()
        u = yield from P.expr('neg_expr')
        if u != NUM: raise RefErr()
        yield from P.emit(op)
def r_power(P):
    t = yield from P.expr('primary_expression')
    if t == NUM and P.at('^'):
        P.next()
        u = yield from P.expr('power_expr')
        if u != NUM: raise RefErr()
        yield from P.emit('B_POW')
    return t
def r_primary(P):
    ctx = P.ctx
    if P.at('TOK_NUM'):
        yield from P.emit('B_PUSH_NUM', 'num', P.num(P.rpos)); P.next(); return NUM
    if P.at('TOK_STR'):
        yield from P.emit('B_PUSH_STR', 'str', P.word(P.rpos)); P.next(); return STR
    if P.at('TOK_ID'):
        while id(P.word(P.rpos).node) not in P.blt: yield ('wait', 'builtin')
        b = P.blt[id(P.word(P.rpos).node)][1]
        if b is not None:
            if b['args'] is None: raise RefErr()
            P.next()
            if b['args'] == b'd':
                if P.at('('):
                    P.next()
                    if not P.at(')'):
                        t = yield from P.expr()
                        yield from P.emit('B_POP_NUM' if t == NUM else 'B_POP_STR')
                    P.need(')')
            else:
                P.need('(')
                for i, c in enumerate(b['args']):
                    if i: P.need(',')
                    t = yield from P.expr()
                    if t != (NUM if c == ord('n') else STR): raise RefErr()
                P.need(')')
            yield from P.emit(b['op'])
            return b['type']
        s, n = yield from P.ident('SYM_UNKNOWN')
        sfx = 'STR' if P.is_str(s) else 'NUM'
        if ctx.branch(icmp('ne', 32, n, 0)): yield from P.emit('B_GET_PAREN_' + sfx, 'param', s['id'], n)
        else: yield from P.emit('B_GET_SIMPLE_' + sfx, 'var', s['id'])
        return STR if sfx == 'STR' else NUM
    if P.at('('):
        P.next()
        t = yield from P.expr()
        P.need(')')
        return t
    raise RefErr()
LEVELS = {
    'expression': None,
    'OR_expression': lambda P: r_logic(P, 'AND_expression', 'TOK_OR', 'B_OR'),
    'AND_expression': lambda P: r_logic(P, 'NOT_expression', 'TOK_AND', 'B_AND'),
    'NOT_expression': lambda P: r_prefix(P, 'relational_expression', 'TOK_NOT', 'B_NOT', 'not'),
    'relational_expression': r_relational,
    'add_expr': r_add,
    'mult_expr': r_mult,
    'neg_expr': lambda P: r_prefix(P, 'power_expr', '-', 'B_NEG', 'neg'),
    'power_expr': r_power,
    'primary_expression': r_primary,
}
def level(name):
    def h(ctx):
        P = World(ctx)
        def top():
            r = yield from P.expr('OR_expression')
            return r
        P.start(LEVELS[name](P) if LEVELS[name] else top())
        kind, r = ctx.run(name, [P.p], module_of(ctx, 'parse'))
        P.finish(kind, r, typed=True, err_ret=True)
        ctx.prove(eq(sgetf(ctx, P.p, 'PARSER', 'if_then'), P.if_then0, 32), 'grammar:if-untouched')
    h.__name__ = name
    return h

# ---------------------------------------------------------------- names
def identifier(ctx):
    """variable, or name with one or more numeric arguments; the table entry it denotes"""
    P = World(ctx, idstub=False)
    kind = ctx.fresh('paren_kind', 32)
    ctx.assume(Or(B(eq(kind, P.E('SYM_UNKNOWN'), 32)), B(eq(kind, P.E('SYM_ARRAY'), 32))))
    cell = Obj(ctx.name('dims'), 4, None, 'uninit'); ctx.objs += 1; cell.born = ctx.objs
    cell.layout = {0: 'i32'}
    q = Ptr(cell)
    P.mem = {'mem_n': q}
    res = {}
    def ref():
        if not P.at('TOK_ID'): raise RefErr()
        w = P.word(P.rpos)
        P.next()
        n = 0
        if P.at('('):
            while True:
                st = yield from P.point('(', mem_n=n)
                n = ibin('add', 32, st['mem_n'], 1)
                P.next()
                yield from P.numeric()
                if not P.at(','): break
            P.need(')')
        ctx.assume(icmp('ne', 32, n, 0) if not isinstance(n, int) else True)      # fewer than 2^32 arguments
        paren = not isinstance(n, int) or n != 0
        e = yield from P.want('lookup')
        if e[0] != 'lookup': P.mismatch('looks-the-name-up', e)
        ctx.prove(P.same_text(e[1], w), 'name:as-written')
        ctx.prove(e[2] == paren, 'name:plain-or-parenthesised')
        s = e[3]
        res['n'] = n
        if s is None:
            e = yield from P.want('insert')
            if e[0] != 'insert': P.mismatch('enters-the-name', e)
            ctx.prove(P.same_text(e[1], w), 'name:as-written')
            ctx.prove(eq(e[2], kind if paren else P.E('SYM_VARIABLE'), 32), 'name:kind')
            ctx.prove(eq(trunc(e[3], 32, 8), P.type_of(w), 8), 'name:type')
            res['s'] = e[4]; res['k'] = trunc(e[2], 32, 8)
            return
        res['s'] = s
        if not paren:
            if not ctx.branch(eq(s['kind'], P.E('SYM_VARIABLE'), 8)): raise RefErr()
            res['k'] = s['kind']
        elif ctx.branch(eq(s['kind'], P.E('SYM_UNKNOWN'), 8)): res['k'] = trunc(kind, 32, 8)
        else:
            if not ctx.branch(Or(B(eq(kind, P.E('SYM_UNKNOWN'), 32)), B(eq(zext(s['kind'], 8, 32), kind, 32)))): raise RefErr()
            res['k'] = s['kind']
    P.start(ref())
    k, r = ctx.run('identifier', [P.p, q, kind], module_of(ctx, 'parse'))
    if P.finish(k, r) == 'ok':
        ctx.prove(r.obj is res['s']['p'].obj and eq(ctx.load(q, 'i32'), res['n'], 32), 'name:result')
        ctx.prove(eq(sgetf(ctx, r, 'SYMBOL', 'kind'), res['k'], 8), 'name:kind-afterwards')

# ---------------------------------------------------------------- statements
def r_line(P):
    """a line number: 1 to 65535"""
    ctx = P.ctx
    if not P.at('TOK_NUM'): raise RefErr()
    x = P.num(P.rpos)
    ok = And(fcmp('ogt', x, 0.0), fcmp('ole', x, 65535.0), feq(ffloor(x), x))
    if not ctx.branch(ok): raise RefErr()
    P.next()
    return fp_to_int(x, 32, False)
def r_simple(P):
    """numeric simple variable"""
    s, n = yield from P.ident('SYM_UNKNOWN')
    if not P.ctx.branch(eq(n, 0, 32)): raise RefErr()
    if P.is_str(s): raise RefErr()
    return s
def eos(P): return P.at('TOK_EOF', '\n', ':', 'TOK_ELSE')
def one(op):
    def r(P):
        P.next()
        yield from P.emit(op)
    return r
def r_list(P, item):
    """item, item, ..."""
    yield from item()
    while True:
        yield from P.point('list')
        if not P.at(','): return
        P.next()
        yield from item()
def r_data(P):
    first = True
    while True:
        if not first:
            yield from P.point('data')
            P.next()
            if not P.at(','): return
        first = False
        e = yield from P.want('data')
        if e[0] != 'data': P.mismatch('reads-data', e)
        P.ctx.prove(e[1] == P.rpos, 'grammar:data-from-here')
        P.rpos = e[2]
        if not e[3]: raise RefErr()
        yield from P.emit('B_DATA', 'str', P.word(P.rpos))
def r_read(P):
    P.next()
    def item():
        s, n = yield from P.ident('SYM_ARRAY')
        yield from P.emit('B_READ_STR' if P.is_str(s) else 'B_READ_NUM', 'param', s['id'], n)
    yield from r_list(P, item)
def r_restore(P):
    P.next()
    if P.at('TOK_NUM'): yield from P.emit('B_RESTORE_LINE', 'basic', r_line(P))
    else: yield from P.emit('B_RESTORE')
def r_def(P):
    ctx = P.ctx
    P.next()
    if not P.at('TOK_ID'): raise RefErr()
    w = P.word(P.rpos)
    t = P.type_of(w)
    e = yield from P.want('lookup')
    if e[0] != 'lookup': P.mismatch('looks-the-name-up', e)
    ctx.prove(P.same_text(e[1], w) and e[2], 'def:name')
    s = e[3]
    if s is None:
        e = yield from P.want('insert')
        if e[0] != 'insert': P.mismatch('enters-the-name', e)
        ctx.prove(P.same_text(e[1], w), 'def:name'); ctx.prove(eq(e[2], P.E('SYM_DEF'), 32), 'def:kind'); ctx.prove(eq(trunc(e[3], 32, 8), t, 8), 'def:type')
        s = e[4]
    elif not ctx.branch(Or(B(eq(s['kind'], P.E('SYM_UNKNOWN'), 8)), B(eq(s['kind'], P.E('SYM_DEF'), 8)))): raise RefErr()
    P.post.append(lambda: ctx.prove(eq(sgetf(ctx, s['p'], 'SYMBOL', 'kind'), P.E('SYM_DEF'), 8), 'def:kind-afterwards'))
    P.next()
    yield from P.emit('B_DEF', 'param', s['id'], 1)
    P.need('(')
    v = yield from r_simple(P)
    yield from P.emit('B_PARAM', 'var', v['id'])
    P.need(')'); P.need('=')
    u = yield from P.expr()
    if not ctx.branch(eq(t, P.E(u), 8)): raise RefErr()
    yield from P.emit('B_END_DEF')
def r_dim(P):
    P.next()
    def item():
        s, n = yield from P.ident('SYM_ARRAY')
        if P.ctx.branch(eq(n, 0, 32)): raise RefErr()
        yield from P.emit('B_DIM_STR' if P.is_str(s) else 'B_DIM_NUM', 'param', s['id'], n)
    yield from r_list(P, item)
def r_for(P):
    P.next()
    s = yield from r_simple(P)
    P.need('=')
    yield from P.numeric()
    P.need('TOK_TO')
    yield from P.numeric()
    if P.at('TOK_STEP'):
        P.next(); yield from P.numeric()
    else: yield from P.emit('B_PUSH_NUM', 'num', 1.0)
    yield from P.emit('B_FOR', 'var', s['id'])
def r_next(P):
    P.next()
    if not P.at('TOK_ID'):
        yield from P.emit('B_NEXT_IMP'); return
    def item():
        s = yield from r_simple(P)
        yield from P.emit('B_NEXT_VAR', 'var', s['id'])
    yield from r_list(P, item)
def r_go(op):
    def r(P):
        P.next()
        yield from P.emit(op, 'basic', r_line(P))
    return r
def r_if(P):
    P.next()
    yield from P.numeric()
    P.need('TOK_THEN')
    if P.at('TOK_NUM'):
        yield from P.emit('B_GOTRUE', 'basic', r_line(P))
        P.pending_if = 0
        return
    P.pending_if = yield from P.emit('B_IF_THEN')
    return True
def r_prompt(P):
    w = None
    if P.at('TOK_STR'):
        w = P.word(P.rpos)
        P.next()
        if P.at(';', ','): P.next()
    yield from P.emit('B_INPUT_BUF', 'str', w)
def r_input(P):
    P.next()
    yield from r_prompt(P)
    first = True
    while True:
        if not first:
            yield from P.point('list')
            if not P.at(','): break
            P.next()
            yield from P.emit('B_INPUT_SEP')
        first = False
        s, n = yield from P.ident('SYM_ARRAY')
        yield from P.emit('B_INPUT_STR' if P.is_str(s) else 'B_INPUT_NUM', 'param', s['id'], n)
    yield from P.emit('B_INPUT_END')
def r_line_input(P):
    P.next()
    P.need('TOK_INPUT')
    yield from r_prompt(P)
    s, n = yield from P.ident('SYM_ARRAY')
    if not P.is_str(s): raise RefErr()
    yield from P.emit('B_INPUT_LINE', 'param', s['id'], n)
def r_assign(P):
    ctx = P.ctx
    s, n = yield from P.ident('SYM_ARRAY')
    P.need('=')
    t = yield from P.expr()
    if (t == STR) != P.is_str(s): raise RefErr()
    if ctx.branch(icmp('ne', 32, n, 0)): yield from P.emit('B_SET_ARRAY_' + t[5:], 'param', s['id'], n)
    else: yield from P.emit('B_SET_SIMPLE_' + t[5:], 'var', s['id'])
def r_let(P):
    P.next()
    yield from r_assign(P)
def r_on(P):
    P.next()
    yield from P.numeric()
    if P.at('TOK_GOTO'): op = 'B_ON_GOTO'
    elif P.at('TOK_GOSUB'): op = 'B_ON_GOSUB'
    else: raise RefErr()
    if P.ctx.opts.get('alt'):       # the same list, taken as a separator and a number each time
        i = yield from P.emit(op, 'count')
        n = 0
        while True:
            st = yield from P.point('list', count=n)
            P.next()
            yield from P.emit('B_ON_LINE', 'basic', r_line(P))
            n = ibin('add', 32, st['count'], 1)
            if not P.at(','): break
        yield from P.patch('count', i, n)
        return
    P.next()
    i = yield from P.emit(op, 'count')
    n = 0
    while True:
        if not (isinstance(n, int) and n == 0):
            st = yield from P.point('list', count=n)
            n = st['count']
            if not P.at(','): break
            P.next()
        yield from P.emit('B_ON_LINE', 'basic', r_line(P))
        n = ibin('add', 32, n, 1)
    yield from P.patch('count', i, n)
def r_print(P):
    ctx = P.ctx
    P.next()
    sep = 0
    while True:
        st = yield from P.point('print', sep=sep)
        sep = st['sep']
        if eos(P): break
        if P.at('TOK_ID'):
            op = None
            w = P.word(P.rpos)
            for nm in ('SPC', 'TAB'):
                if ctx.branch(P.word_is(w.node, nm.encode())): op = 'B_PRINT_' + nm; break
            if op:
                P.next(); P.need('(')
                yield from P.numeric()
                P.need(')')
                yield from P.emit(op)
                sep = 0; continue
        if P.at(';'):
            P.next(); sep = ord(';'); continue
        if P.at(','):
            P.next(); yield from P.emit('B_PRINT_COMMA'); sep = ord(','); continue
        t = yield from P.expr()
        yield from P.emit('B_PRINT_' + t[5:])
        sep = 0
    if ctx.branch(eq(sep, 0, 32)): yield from P.emit('B_PRINT_LN')
def r_randomize(P):
    P.next()
    if eos(P): yield from P.emit('B_RAND')
    else:
        yield from P.numeric()
        yield from P.emit('B_SEED')
def r_rem(P):
    e = yield from P.want('discard')
    if e[0] != 'discard': P.mismatch('skips-the-rest', e)
    P.rpos = e[2]
def r_nothing(P):
    return
    yield
STATEMENTS = dict(CLEAR=one('B_CLEAR'), CLS=one('B_CLS'), DATA=r_data, DEF=r_def, DIM=r_dim, END=one('B_END'), FOR=r_for, GOSUB=r_go('B_GOSUB'), GOTO=r_go('B_GOTO'), IF=r_if,
    INPUT=r_input, LET=r_let, LINE=r_line_input, NEXT=r_next, ON=r_on, PRINT=r_print, RANDOMIZE=r_randomize, READ=r_read, REM=r_rem, RESTORE=r_restore,
    RETURN=one('B_RETURN'), STOP=one('B_STOP'), ID=r_assign)
def r_statement(P, body):
    """one statement; returns whether another statement must follow (IF c THEN, ELSE)"""
    ctx = P.ctx
    more = (yield from body(P)) or False
    if P.at('TOK_ELSE'):
        P.next()
        if ctx.branch(icmp('ne', 32, P.pending_if, 0)):
            yield from P.patch('op', P.pending_if, P.E('B_IF_ELSE'))
            yield from P.emit('B_ELSE')
            P.pending_if = 0
            return 1
        if not ctx.branch(eq(P.rlatest, P.E('B_GOTRUE'), 32)): raise RefErr()
        yield from P.emit('B_GOTO', 'basic', r_line(P))
        return 0
    return 1 if more else 0
def statement(name):
    def h(ctx):
        P = World(ctx)
        P.post = []; P.pending_if = P.if_then0
        t = P.tok(P.pos)
        if name in STATEMENTS:
            tk = ('TOK_' + name,)
            if name == 'PRINT': tk += ('?',)
            ctx.assume(Or(*[B(eq(t, P.E(x) if len(x) > 1 else ord(x), 32)) for x in tk]))
            body = STATEMENTS[name]
        else:
            for n in STATEMENTS: ctx.assume(icmp('ne', 32, t, P.E('TOK_' + n)))
            ctx.assume(icmp('ne', 32, t, ord('?')))
            def body(P):
                if not P.at(':', '\n'): raise RefErr()
                return
                yield
        P.start(r_statement(P, body))
        kind, r = ctx.run('statement', [P.p], module_of(ctx, 'parse'))
        if kind == 'ret': r = trunc(r, 8, 1) if False else r
        if P.finish(kind, r) == 'ok':
            ctx.prove(P.ctx.branch(as_bool(r)) == bool(P.rval), 'statement:another-follows')
            ctx.prove(eq(sgetf(ctx, P.p, 'PARSER', 'if_then'), P.pending_if, 32), 'statement:open-if')
            for f in P.post: f()
    h.__name__ = name
    h.alts = 2 if name == 'ON' else 1
    return h

# ---------------------------------------------------------------- lines and programs
def s_statement(P):
    """contract of statement(): parses one statement, may open or close an IF, and says whether another must follow"""
    def f(cx, a):
        ev = ['sub', 'statement', P.pos, None, sgetf(cx, P.p, 'PARSER', 'if_then'), None, cx.choose(2)]
        P.trace.append(ev); P.jump(); ev[3] = P.pos
        ev[5] = cx.fresh('if_then', 32)
        ssetf(cx, P.p, 'PARSER', 'if_then', ev[5])
        return bool(ev[6])
    return f
def r_complete(P):
    while True:
        st = yield from P.point('statement', mem_if=P.rift)
        P.rift = st['mem_if']
        e = yield from P.sub('statement')
        P.ctx.prove(eq(e[4], P.rift, 32), 'line:open-if-kept')
        P.rift = e[5]
        if not e[6]: return
def complete_statement(ctx):
    P = World(ctx)
    ctx.stubs['statement'] = s_statement(P)
    P.mem = {'mem_if': P.p.plus(ctx.prog.di.field('PARSER', 'if_then')[0])}
    P.rift = P.if_then0
    P.start(r_complete(P))
    kind, r = ctx.run('complete_statement', [P.p], module_of(ctx, 'parse'))
    P.finish(kind, r)
def parse_line(ctx):
    """one source line: statements separated by colons; no IF is open at its start"""
    P = World(ctx)
    ctx.stubs['statement'] = s_statement(P)
    P.mem = {'mem_if': P.p.plus(ctx.prog.di.field('PARSER', 'if_then')[0])}
    index, lineno = ctx.fresh('index', 32), ctx.fresh('lineno', 32)
    text = new_string(ctx, 'text')
    def line(cx, a):
        P.trace.append(['line', a]); P.jump(); P.lpos = P.pos; return P.tok(P.pos)
    ctx.stubs['lex_line'] = line
    def ref():
        first = ['line', 'emit']
        for _ in range(2):
            e = yield from P.want('line')
            if e[0] not in first: P.mismatch('starts-the-line', e)
            first.remove(e[0])
            if e[0] == 'line': ctx.prove(e[1][0].obj is P.lex.obj and e[1][2].obj is text.obj and e[1][2].off == 0 and B(eq(e[1][1], lineno, 32)), 'line:text'); P.rpos = P.lpos
            else: ctx.prove(And(eq(e[1], P.E('B_SOURCE_LINE'), 32), e[2] == 'line', eq(e[3][0], index, 32)), 'line:marked')
        P.rift = 0
        yield from r_complete(P)
        while True:
            st = yield from P.point('colon', mem_if=P.rift)
            P.rift = st['mem_if']
            if not P.at(':'): break
            P.next()
            yield from r_complete(P)
        P.need('\n')
    P.start(ref())
    kind, r = ctx.run('parse_line', [P.p, index, lineno, text], module_of(ctx, 'parse'))
    P.finish(kind, r)
def parse_source(ctx):
    """every line of the text in order; the code, or none when a line is refused; nothing is left behind"""
    P = World(ctx)
    S = ctx.stubs
    n = ctx.fresh('lines', 32)
    ctx.assume(ule(n, 1 << 26, 32))
    src = mk(ctx, 'SOURCE', 'source')
    LN = z3.Function(ctx.name('LN'), z3.BitVecSort(32), z3.BitVecSort(32))
    T = Obj(ctx.name('text'), 1 << 40)
    S['source_lines'] = lambda cx, a: n
    def chk(cx, a):
        cx.prove(a[0].obj is src.obj, 'source:this-text'); cx.prove(ult(a[1], n, 32), 'source:line-exists')
    S['source_linenum'] = lambda cx, a: (chk(cx, a), simp(LN(bv(a[1], 32))))[1]
    S['source_text'] = lambda cx, a: (chk(cx, a), Ptr(T, off_add(0, z64(a[1]), 1)))[1]
    nm = new_string(ctx, 'name')
    S['source_name'] = lambda cx, a: nm
    made, gone = {}, []
    flag = ctx.fresh('prefixes', 8); ctx.assume(ule(flag, 1, 8))
    def maker(kind, struct):
        def f(cx, a):
            made[kind] = mk(cx, struct, kind); made[kind + '.args'] = a
            cx.alloc_live.append(made[kind].obj)
            return made[kind]
        return f
    S['new_lex'] = maker('lex', 'LEX'); S['new_bcode'] = maker('bcode', 'BCODE')
    def deleter(cx, a):
        if not a[0].null: cx.free(a[0])
    S['delete_lex'] = deleter; S['delete_bcode'] = deleter
    st = P.st
    S['sym_make_unknown_array'] = lambda cx, a: P.trace.append(['unknown', a[0].obj is st.obj])
    outcome = {}
    def pline(cx, a):
        p = a[0]
        g = lambda f: sgetf(cx, p, 'PARSER', f)
        cx.prove(g('lex').obj is made['lex'].obj and g('bcode').obj is made['bcode'].obj and g('st').obj is st.obj, 'source:parser-set-up')
        cx.prove(not made['lex'].obj.freed and not made['bcode'].obj.freed, 'source:parser-alive')
        ev = ['parse', a, cx.choose(2)]
        P.trace.append(ev)
        if ev[2]: raise LongJmp(cx.jmpkey(p.plus(cx.prog.di.field('PARSER', 'errjmp')[0])), 1)
    S['parse_line'] = pline
    res = {}
    def ref():
        i = 0
        while True:
            s = yield from P.point('line', i=i)
            i = s['i']
            if not ctx.branch(ult(i, n, 32)): ok = True; break
            e = yield from P.want('parse')
            if e[0] != 'parse': P.mismatch('parses-the-next-line', e)
            a = e[1]
            ctx.prove(eq(a[1], i, 32), 'source:in-order'); ctx.prove(eq(a[2], LN(bv(i, 32)), 32), 'source:line-number')
            ctx.prove(ctx.ptr_cmp('eq', a[3], Ptr(T, off_add(0, z64(i), 1))), 'source:line-text')
            if e[2]: ok = False; break
            i = ibin('add', 32, i, 1)
        res['ok'] = ok
        e = yield from P.want('unknown')
        if e[0] != 'unknown': P.mismatch('undeclared-arrays', e)
        ctx.prove(e[1], 'source:undeclared-arrays')
    P.start(ref())
    kind, r = ctx.run('parse_source', [src, st, flag], module_of(ctx, 'parse'))
    P.finish(kind, r)
    ctx.cover('parsed:%s' % res.get('ok'))
    m = made['lex.args'][1]
    m = as_bool(m) if not isinstance(m, z3.BoolRef) else m
    ctx.prove(made['lex.args'][0].obj is nm.obj and ctx.branch(m) == ctx.branch(simp(icmp('ne', 8, flag, 0))), 'source:mode')
    ctx.prove(made['lex'].obj.freed, 'source:no-leak', 'lex')
    if res['ok']: ctx.prove(r.obj is made['bcode'].obj and not r.obj.freed, 'source:code')
    else: ctx.prove(r.null and made['bcode'].obj.freed, 'source:no-code')
def error_report(ctx):
    """a refused line: its number and text, a mark under the token, the message; then back to parse_source"""
    P = World(ctx)
    S = ctx.stubs
    for f in ('parse_error', 'parse_error_no_token', 'lex_word', 'lex_num', 'lex_token'): S.pop(f)
    text = new_string(ctx, 'text')
    lineno, tpos = ctx.fresh('lineno', 32), ctx.fresh('token_pos', 32)
    tok = P.tok(P.pos)
    for f, v in (('text', text), ('lineno', lineno), ('token_pos', tpos)): ssetf(ctx, P.lex, 'LEX', f, v)
    S['space'] = lambda cx, a: cx.events.append(('out', a[1].obj.tag[1], [('spaces', a[0])]))
    S['print_token'] = lambda cx, a: cx.events.append(('out', a[1].obj.tag[1], [('token', a[0])]))
    shown = ctx.choose(2) == 0
    fmt = ctx.cstr('the message %s')
    arg = new_string(ctx, 'arg')
    try:
        r = ctx.run('parse_error' if shown else 'parse_error_no_token', [P.p, fmt, arg], module_of(ctx, 'parse'))
        ctx.prove(False, 'report:stops-parsing')
    except LongJmp as e:
        ctx.prove(e.buf == ctx.jmpkey(P.p.plus(ctx.prog.di.field('PARSER', 'errjmp')[0])), 'report:back-to-parse-source')
        ctx.prove(icmp('ne', 32, e.val, 0), 'report:back-to-parse-source')
    ctx.prove(not any(e[0] == 'out' and e[1] == 'stdout' for e in ctx.events), 'report:to-stderr')
    out = flat_out(ctx, ctx.events, 'stderr')
    i = 0
    def lit(x, what):
        nonlocal i
        ctx.prove(i < len(out) and out[i] == ('lit', x), 'report:' + what, repr(out[i:i + 1])); i += 1
    def val(kinds, v, what):
        nonlocal i
        ctx.prove(i < len(out) and out[i][0] in kinds, 'report:' + what)
        ctx.prove(eq(out[i][1], v, 32) if not isinstance(v, StrRef) else P.same_text(out[i][1], v), 'report:' + what); i += 1
    width = 0
    if ctx.branch(icmp('ne', 32, lineno, 0)):
        ctx.cover('report:numbered')
        val(('u', 'd'), lineno, 'line-number'); lit(b' ', 'line-number')
        width = ctx.fprintfs[0][1]
    val(('s',), strref(ctx, text), 'line-text')
    lit(b'\n', 'line-text')
    ctx.prove(out[i][0] == 'spaces', 'report:mark')
    ctx.prove(eq(out[i][1], ibin('add', 32, width, tpos), 32), 'report:mark-under-the-token')
    i += 1
    lit(b'^\nError: ', 'message')
    ctx.prove(out[i][0] == 'v' and out[i][1].concrete() == b'the message %s', 'report:message'); i += 1
    if shown:
        ctx.cover('report:token')
        if ctx.branch(eq(tok, P.E('TOK_ID'), 32)): lit(b': name: ', 'token'); val(('s',), P.word(P.pos), 'token'); lit(b'\n', 'token')
        elif ctx.branch(eq(tok, P.E('TOK_STR'), 32)): lit(b': string: "', 'token'); val(('s',), P.word(P.pos), 'token'); lit(b'"\n', 'token')
        elif ctx.branch(eq(tok, P.E('TOK_NUM'), 32)):
            lit(b': number: ', 'token'); ctx.prove(out[i][0] == 'g' and B(feq(out[i][1], P.num(P.pos))), 'report:token'); i += 1; lit(b'\n', 'token')
        else: lit(b': ', 'token'); val(('token',), tok, 'token'); lit(b'\n', 'token')
    else: lit(b'\n', 'message')
    ctx.prove(i == len(out), 'report:nothing-more')
def print_builtin_name(ctx):
    """SPC and TAB, in any letter case, and no other names"""
    P = World(ctx)
    w = P.wordp
    node = P.word(P.pos).node
    kind, r = ctx.run('name_is_print_builtin', [w], module_of(ctx, 'parse'))
    ctx.cover('ran')
    want = Or(P.word_is(node, b'SPC'), P.word_is(node, b'TAB'))
    ctx.prove(kind == 'ret' and ctx.branch(as_bool(r)) == ctx.branch(want), 'print-builtin:spc-tab')
ALL = list(LEVELS) + ['complete_statement', 'parse_line', 'parse_source', 'error_report', 'print_builtin_name'] + ['identifier'] + ['stmt_' + n for n in STATEMENTS] + ['stmt_other']
def harness(name):
    if name in LEVELS: return level(name)
    if name.startswith('stmt_'): return statement(name[5:])
    raise KeyError(name)
