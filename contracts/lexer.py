"""Contracts of lexer.c and token.c: how a line of text is split into tokens.  FIRST(cls, a) is the
first position at or after a whose character is not of the class; tokens are described with it,
and every loop of the lexer is a scan that never passes the FIRST of the position it started at."""
from lbv.hlib import *
from .store import module_of

END = 10
def rng_(c, lo, hi): return And(uge_(c, lo), ule(c, hi, 32))
def uge_(c, lo): return ule(lo, c, 32)
def one_of(*cs): return lambda c: Or(*[B(eq(c, ord(x), 32)) for x in cs])
def digit(c): return rng_(c, 48, 57)
def alpha(c): return Or(rng_(c, 65, 90), rng_(c, 97, 122))
def alnum(c): return Or(digit(c), alpha(c))
def unless(*cs): return lambda c: And(icmp('ne', 32, c, END), *[icmp('ne', 32, c, ord(x)) for x in cs])

class Lexer:
    def __init__(self, ctx, crunch=None, data=False):
        self.ctx = ctx
        di = ctx.prog.di
        ctx.X = self
        self.text = new_string(ctx, 'text', 1 << 30)
        self.node = self.text.obj.segs[0].comp(ctx, 0, 'i8')
        self.node.add_unary(ctx, lambda i, v: Implies(ult(i, self.N), And(ult(v, 127, 8), icmp('ne', 8, v, END))))
        self.N = self.node.strlen
        self.E = lambda n: enum(ctx, n)
        self.lex = mk(ctx, 'LEX', 'lex')
        off, _ = di.field('LEX', 'word[0]')
        n = self.wmax = sum(1 for path, o, k in di.scalars('LEX') if path.startswith('word['))
        for k in list(self.lex.obj.layout):
            if off <= k < off + n: del self.lex.obj.layout[k]
        self.lex.obj.segs.append(Seg(off, 1, n, [(0, 'i8')], lambda c, fo, k: BaseUF(c.name('word'), 'i8'), 'word'))
        self.woff = off
        self.wordp = self.lex.plus(off)
        self.pos0 = ctx.fresh('pos', 32)
        ctx.assume(ule(z64(self.pos0), self.N))
        self.set('text', self.text); self.set('pos', self.pos0)
        if crunch is not None:
            self.crunch = crunch; self.set('recognise_keyword_prefixes', int(crunch))
        self.firsts = {}
        self.nloops = 0
        self.qs = []
        self.ghosts = []
        self.last = None
        self.errors = []
        S = ctx.stubs
        S['lex_error'] = lambda cx, a: self.errors.append(a[1])
        S['lex_fatal'] = noreturn('fatal')
        self.idt = None
        def idt(cx, a):
            t = cx.fresh('idtoken', 32)
            cx.assume(Or(B(eq(t, self.E('TOK_ID'), 32)), rng_(t, self.E('TOK_AND'), self.E('TOK_TO'))))
            self.idt = (strref(cx, a[0]), t); return t
        S['identifier_token'] = idt
        self.KWP = z3.Function(ctx.name('KWP'), z3.BitVecSort(64), z3.BoolSort())
        self.kws = []
        def kwp(cx, a):
            if a[0].obj is not self.text.obj: raise Structural('keyword_prefix of another text')
            k = off_term(a[0].off)
            if not cx.branch(self.KWP(bv(k, 64))): return NULL
            for kk, w in self.kws:
                if idx_eq(kk, k) is True or cx.known(eq(kk, k, 64)) is True: return w['p']
            n = cx.fresh('kw.len', 64)
            cx.assume(And(ult(0, n), ult(n, 20), ule(add(k, n), self.N)))
            nm = new_string(cx, 'kw.name', length=n)
            w = dict(len=n, name=nm, token=cx.fresh('kw.token', 32), p=mk(cx, 'KEYWORD', 'keyword'))
            ssetf(cx, w['p'], 'KEYWORD', 'name', nm); ssetf(cx, w['p'], 'KEYWORD', 'len', trunc(n, 64, 16)); ssetf(cx, w['p'], 'KEYWORD', 'token', w['token'])
            self.kws.append((k, w))
            return w['p']
        S['keyword_prefix'] = kwp
        self.strtods = []
        def strtod(cx, a):
            w = strref(cx, a[0])
            x = cx.fresh_f('value')
            full = cx.choose(2) == 0
            n = w.len
            if not full:
                m = cx.fresh('consumed', 64); cx.assume(ult(m, n)); n = m
            if not a[1].null: cx.store(a[1], 'ptr', Ptr(a[0].obj, off_add(a[0].off, n, 1)))
            self.strtods.append((w, x, full))
            return x
        S['strtod'] = strtod
        self.blank = one_of(' ', '\t') if data else one_of(' ', '\t', '\r')
        self.data = data
        ctx.loopspecs.append(Scan())
    def get(self, f): return sgetf(self.ctx, self.lex, 'LEX', f)
    def set(self, f, v): ssetf(self.ctx, self.lex, 'LEX', f, v)
    def CH(self, k):
        """character at position k, or the end of the line"""
        v = self.node.read(self.ctx, k)
        return simp(z3.If(B(eq(k, self.N, 64)), z3.BitVecVal(END, 32), bv(zext(v, 8, 32), 32)))
    def first(self, name, cls, a, indexed=False):
        """first position at or after a whose character is outside the class"""
        ctx = self.ctx
        f0 = z3.Function('FIRST_' + name, z3.BitVecSort(64), z3.BitVecSort(64))
        f = simp(f0(bv(a, 64)))
        key = (name, f.get_id())
        if key not in self.firsts:
            self.firsts[key] = f
            test = (lambda k: cls(self.CH(k), k)) if indexed else (lambda k: cls(self.CH(k)))
            g = ule(a, self.N)
            ctx.assume(Implies(g, And(ule(a, f), ule(f, self.N))))
            ctx.assume(Implies(g, Not(test(f))))
            busy = []
            def fact(i, v):
                c = z3.If(B(eq(i, self.N, 64)), z3.BitVecVal(END, 32), bv(zext(v, 8, 32), 32))
                return Implies(And(g, ule(a, i), ult(i, f)), cls(c, i) if indexed else cls(c))
            self.node.add_unary(ctx, fact)
        return f
    def trimmed(self, b, n):
        """length of the n characters from b without the blanks at their end"""
        ctx = self.ctx
        f0 = z3.Function('TRIMMED', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
        t = simp(f0(bv(b, 64), bv(n, 64)))
        if ('t', t.get_id()) not in self.firsts:
            self.firsts['t', t.get_id()] = t
            ctx.assume(ule(t, n))
            ctx.assume(Or(B(eq(t, 0, 64)), Not(self.blank(self.CH(add(b, sub(t, 1)))))))
            self.node.add_unary(ctx, lambda i, v: Implies(And(ule(add(b, t), i), ult(i, add(b, n))), self.blank(zext(v, 8, 32))))
        return t
    def nameclass(self):
        if self.crunch: return ('crunched', lambda c, k: And(alnum(c), Not(And(alpha(c), self.KWP(bv(k, 64))))), True)
        return ('alnum', alnum, False)
    def start(self): return self.first('blank', self.blank, z64(self.pos0))
    def kind(self):
        """(class name, class, indexed, base) of the token at its start"""
        ctx = self.ctx
        s = self.start()
        c = self.CH(s)
        if ctx.branch(eq(c, ord('"'), 32)): return ('string', unless('"'), False, add(s, 1), self.wmax - 1)
        if self.data: return ('data', unless('"', ',', ':'), False, s, self.wmax - 1)
        if ctx.branch(alpha(c)): return self.nameclass() + (s, self.wmax - 2)
        if ctx.branch(Or(digit(c), B(eq(c, ord('.'), 32)))): return ('digit', digit, False, s, self.wmax - 1)
        raise Structural('a loop in a one-character token')
    def word_is(self, what, start, n):
        """the word is the n characters of the text from start"""
        ctx = self.ctx
        w = self.lex.obj.segs[0].comps[(0, 'i8')]
        ctx.prove(ult(n, self.wmax), what + ':fits')
        self.same(what, StrRef(ctx, w, 0, self.wmax), start, n)
    def same(self, what, w, start, n):
        ctx = self.ctx
        z = w.char(n)
        ctx.prove(z is not UNDEF and B(eq(z, 0, 8)), what + ':terminated')
        k = ctx.fresh('k', 64)
        if ctx.branch(ult(k, n)):
            x = w.char(k)
            ctx.prove(x is not UNDEF and B(eq(x, self.node.read(ctx, add(start, k)), 8)), what + ':text')
            raise PathEnd('case done')
    def hint(self):
        """where the last scan stopped (a lemma for the solver)"""
        ctx = self.ctx
        if self.last:
            q, F = self.last
            for t in (q, add(q, 1)):
                t = eq(simp(t), F, 64)
                if valid(ctx, t): ctx.assume(t); break
        self.last = None
    def at(self, e, what): self.ctx.prove(eq(z64(self.get('pos')), e, 64), what + ':reads-exactly-the-token')

class Scan(LoopSpec):
    name = 'scan'
    def bind(self, ctx, fr, label, vals):
        if getattr(ctx, 'X', None) is None or ctx.X.get('text').null: return None
        self.uses += 1
        ctx.X.nloops += 1
        return ScanLoop(self, fr, label, {})
def is_i32(v): return isinstance(v, int) or (z3.is_bv(v) and v.size() == 32)
def valid(ctx, c): return ctx.valid(c)
class ScanLoop(Loop):
    """at the head: q characters are behind, q <= FIRST(class, where the scan began), the word holds
    those from the base of the token on, and c (if the loop carries it) is the character at q"""
    def where(self, ctx, vals, cphi=None):
        X = ctx.X
        pos = z64(X.get('pos'))
        if cphi is None: X.hint()
        for d in self.phis:
            if cphi is not None and d != cphi: continue
            v = vals[d]
            if not is_i32(v): continue
            for q in (X.ghosts[:] if cphi is None and X.nloops > 1 else []) + [sub(pos, 1), pos] + X.qs[-1:]:
                if valid(ctx, And(ule(q, X.N), B(eq(pos, self.after(X, q), 64)), B(eq(v, X.CH(q), 32)))):
                    if cphi is None:
                        for i, g in enumerate(X.ghosts):
                            if g is q: del X.ghosts[:i + 1]; break
                    return simp(q), d
        return pos, None
    def after(self, X, q): return simp(z3.If(B(eq(q, X.N, 64)), bv(X.N, 64), bv(add(q, 1), 64)))
    def rel(self, ctx, x, q):
        if not is_i32(x): return None
        if self.base is not None and valid(ctx, B(eq(z64(x), sub(q, self.base), 64))): return 'i'
        if self.base is None and valid(ctx, B(eq(z64(x), q, 64))): return 'q'
        return None
    def used_cells(self):
        fr = self.fr
        out = []
        for ins in fr.fn.blocks[fr.fn.entry]:
            if ins.op != 'alloca': continue
            o = fr.env.get(ins.dst)
            if not isinstance(o, Ptr) or o.obj.size != 4: continue
            body = fr.fn.loops()[self.label]
            if any(mentions(x.a, ins.dst) for b in body for x in fr.fn.blocks[b]): out.append(o.obj)
        return out
    def enter(self, ctx, vals):
        X = ctx.X
        f = self.fr.fn
        self.phis = [ins.dst for ins in f.blocks[self.label] if ins.op == 'phi']
        self.base = None
        if X.nloops == 1: self.cls, self.pred, self.ix, self.bound = 'blank', X.blank, False, None
        else: self.cls, self.pred, self.ix, self.base, self.bound = X.kind()
        self.q0, self.c = self.where(ctx, vals)
        self.trim = self.cls == 'data' and self.c is None
        self.link, self.cell = {}, {}
        q0 = self.q0
        if self.trim:
            i = [d for d in self.phis if is_i32(vals[d])]
            if len(i) != 1: raise Structural('loop over the word')
            self.link[i[0]] = 't'
            self.i0 = z64(vals[i[0]])
            ctx.prove(ule(self.i0, X.wmax), 'loop-entry:scan:word-fits')
            self.T = X.trimmed(self.base, self.i0)
        else:
            ctx.prove(ule(q0, X.N), 'loop-entry:scan:in-text')
            self.F = X.first(self.cls, self.pred, q0, self.ix)
            self.strict = self.c is not None and ctx.opts.get('alt', 0) == 0 and valid(ctx, ult(q0, self.F))
            for d in self.phis:
                self.link[d] = 'c' if d == self.c else self.rel(ctx, vals[d], q0)
            for o in self.used_cells():
                if 0 in o.cells and o.cells[0][1] is not UNDEF:
                    r = self.rel(ctx, o.cells[0][1], q0)
                    if r: self.cell[o] = r
            self.word(ctx, q0, 'entry')
        new = dict(vals)
        seg = X.lex.obj.segs[0]
        if self.trim:
            q = self.q = ctx.fresh('t', 32)
            ctx.assume(And(ule(self.T, z64(q)), ule(z64(q), self.i0)))
        else:
            p = ctx.fresh('pos', 32)
            lt = ult if self.strict else ule
            if self.c is None: q = z64(p)
            elif not self.strict and ctx.branch(And(eq(z64(p), X.N, 64), ule(q0, X.N), B(eq(self.F, X.N, 64)), B(eq(ctx.fresh('end', 1), 1, 1)))): q = bv(X.N, 64)
            else:
                ctx.assume(And(ult(0, z64(p)), ule(z64(p), X.N)))
                q = sub(z64(p), 1)
            self.q = q
            X.qs.append(q); X.last = (q, self.F)
            ctx.assume(And(ule(q0, q), lt(q, self.F)))
            if self.base is not None: ctx.assume(ule(sub(q, self.base), self.bound))
            X.set('pos', p)
            if self.base is not None:
                b = self.base
                seg.comps[(0, 'i8')] = Rng(BaseUF(ctx.name('word'), 'i8'), 0, sub(q, b), lambda cx, k: X.node.read(cx, add(b, k)))
        for ins in f.blocks[self.label]:
            if ins.op != 'phi': break
            d = ins.dst
            new[d] = self.value(ctx, self.link.get(d), ins)
        for o, r in self.cell.items(): ctx.poke(Ptr(o), 'i32', self.value(ctx, r, None))
        self.mark = len(ctx.wlog); self.born = ctx.objs
        return new
    def value(self, ctx, r, ins):
        X = ctx.X
        if r == 't': return self.q
        if r == 'c': return X.CH(self.q)
        if r == 'i': return simp(trunc(sub(self.q, self.base), 64, 32))
        if r == 'q': return simp(trunc(self.q, 64, 32))
        if ins.ty.k == 'ptr': raise Structural('pointer carried by a scan')
        ctx.weak = True
        return ctx.fresh_bool('x') if tkey(ins.ty) == 'i1' else ctx.fresh_key('x', tkey(ins.ty))
    def word(self, ctx, q, what):
        X = ctx.X
        if self.base is None: return
        n = sub(q, self.base)
        ctx.prove(ule(n, self.bound), 'loop-%s:scan:word-fits' % what)
        w = X.lex.obj.segs[0].comp(ctx, 0, 'i8')
        k = ctx.fresh('k', 64)
        if ctx.branch(ult(k, n)):
            x = w.read(ctx, k)
            ctx.prove(x is not UNDEF and B(eq(x, X.node.read(ctx, add(self.base, k)), 8)), 'loop-%s:scan:word' % what)
            raise PathEnd('case done')
    def back(self, ctx, vals):
        X = ctx.X
        if self.trim:
            i = [d for d in self.phis if self.link.get(d) == 't'][0]
            t = z64(vals[i])
            ctx.prove(And(ule(self.T, t), ult(t, z64(self.q))), 'loop-invariant:scan:trim')
            return
        q, c = self.where(ctx, vals, self.c) if self.c is not None else (z64(X.get('pos')), None)
        ctx.prove(c == self.c, 'loop-invariant:scan:current')
        ctx.prove(And(ult(self.q, q), (ult if self.strict else ule)(q, self.F)), 'loop-invariant:scan:progress')
        for d in self.phis:
            r = self.link.get(d)
            if r in ('i', 'q'): ctx.prove(self.rel(ctx, vals[d], q) == r, 'loop-invariant:scan:link')
        for o, r in self.cell.items(): ctx.prove(self.rel(ctx, o.cells[0][1], q) == r, 'loop-invariant:scan:link')
        for (o, kind, off) in ctx.wlog[self.mark:]:
            if o.born is not None and o.born > self.born or o is X.lex.obj or o in self.cell: continue
            ctx.fail('loop-frame:scan', 'writes %s' % o.name)
        self.word(ctx, q, 'invariant')
def mentions(a, reg):
    if isinstance(a, (list, tuple)):
        if len(a) == 2 and a[1] == reg and isinstance(a[0], str): return True
        return any(mentions(x, reg) for x in a)
    return a == reg

# ---------------------------------------------------------------- tokens
KINDS = dict(name=alpha, number=digit, point=one_of('.'), string=one_of('"'))
KINDS['other'] = lambda c: And(*[Not(KINDS[k](c)) for k in ('name', 'number', 'point', 'string')])
def shape(X, s):
    """end of the whole part, of the fraction, of the exponent (or None)"""
    ctx = X.ctx
    X.ghosts = [s]
    e = X.first('digit', digit, s)
    frac = ctx.branch(eq(X.CH(e), ord('.'), 32))
    if frac: X.ghosts.append(simp(add(e, 1))); e = X.first('digit', digit, add(e, 1))
    exp = 1 if ctx.branch(Or(B(eq(X.CH(e), ord('e'), 32)), B(eq(X.CH(e), ord('E'), 32)))) else 0
    if exp:
        x = add(e, 1)
        if ctx.branch(eq(X.CH(x), ord('-'), 32)): x = add(x, 1); exp = 2
        X.ghosts.append(simp(x)); e = X.first('digit', digit, x)
    return frac, exp, e
def run_lexer(ctx, what, crunch=None, want=None):
    X = Lexer(ctx, crunch)
    ctx.assume(KINDS[what](X.CH(X.start())))
    if want:
        got = shape(X, X.start())
        if got[:2] != want: raise PathEnd('another harness')
    kind, r = ctx.run('lex_next', [X.lex], module_of(ctx, 'lexer'))
    ctx.prove(kind == 'ret', 'lexer:returns', kind)
    X.hint()
    E = X.E
    tok = lambda t: t if isinstance(t, int) else ord(t) if len(t) == 1 else E(t)
    is_ = lambda t: ctx.branch(eq(r, tok(t), 32))
    ctx.prove(eq(r, X.get('token'), 32), 'lexer:token-kept')
    s = X.start()
    ctx.prove(eq(z64(X.get('token_pos')), s, 64), 'lexer:token-position')
    c = X.CH(s)
    def token(t, what): ctx.prove(eq(r, tok(t), 32), 'lexer:' + what)
    def noerr(): ctx.prove(not X.errors, 'lexer:no-false-error')
    def too_long(n, limit=127):
        """longer than 127 characters (a name: 126 and a $) is refused, and nothing shorter"""
        if ctx.branch(ule(n, limit)): return False
        token('TOK_ERROR', 'too-long-refused'); ctx.cover('too-long'); ctx.prove(len(X.errors) == 1, 'lexer:error-reported')
        return True
    if ctx.branch(eq(s, X.N, 64)):
        ctx.cover('end'); token(END, 'end-of-line'); X.at(s, 'end'); noerr()
    elif ctx.branch(alpha(c)):
        if crunch and ctx.branch(X.KWP(bv(s, 64))):
            ctx.cover('keyword')
            k, w = X.kws[0]
            token_ok = eq(r, w['token'], 32)
            ctx.prove(And(eq(k, s, 64), token_ok), 'lexer:keyword'); X.at(add(s, w['len']), 'keyword'); noerr()
            wr = StrRef(ctx, X.lex.obj.segs[0].comps[(0, 'i8')], 0, X.wmax); nm = strref(ctx, w['name'])
            k2 = ctx.fresh('k', 64)
            if ctx.branch(ule(k2, w['len'])):
                x = wr.char(k2); ctx.prove(x is not UNDEF and B(eq(x, nm.char(k2), 8)), 'lexer:keyword-name')
            return
        e = X.first(*((X.nameclass()[0:2]) + (add(s, 1), X.nameclass()[2])))
        end = e
        if ctx.branch(eq(X.CH(e), ord('$'), 32)): end = add(e, 1)
        n = simp(sub(end, s))
        if too_long(sub(e, s), 126): return
        ctx.cover('name')
        if crunch: token('TOK_ID', 'name')
        else:
            ctx.prove(X.idt is not None and B(eq(r, X.idt[1], 32)), 'lexer:name-or-keyword')
            X.same('lexer:word-looked-up', X.idt[0], s, n)
        X.at(end, 'name'); X.word_is('lexer:name', s, n); noerr()
    elif ctx.branch(Or(digit(c), B(eq(c, ord('.'), 32)))):
        frac, exp, e = shape(X, s)
        n = simp(sub(e, s))
        if too_long(n): return
        ctx.prove(len(X.strtods) == 1, 'lexer:number-converted')
        w, v, full = X.strtods[0]
        X.same('lexer:number-text', w, s, n)
        if full:
            ctx.cover('number'); token('TOK_NUM', 'number'); ctx.prove(feq(X.get('num'), v), 'lexer:number-value'); X.at(e, 'number'); noerr()
        else:
            ctx.cover('bad-number'); token('TOK_ERROR', 'bad-number'); ctx.prove(len(X.errors) == 1, 'lexer:error-reported')
    elif ctx.branch(eq(c, ord('"'), 32)):
        e = X.first('string', unless('"'), add(s, 1))
        n = simp(sub(e, add(s, 1)))
        if too_long(n): return
        if ctx.branch(eq(e, X.N, 64)):
            ctx.cover('unterminated'); token('TOK_ERROR', 'unterminated'); ctx.prove(len(X.errors) == 1, 'lexer:error-reported')
        else:
            ctx.cover('string'); token('TOK_STR', 'string'); X.at(add(e, 1), 'string'); X.word_is('lexer:string', add(s, 1), n); noerr()
    else:
        c2 = X.CH(add(s, 1))
        two = None
        if ctx.branch(eq(c, ord('<'), 32)): two = 'TOK_NE' if ctx.branch(eq(c2, ord('>'), 32)) else 'TOK_LE' if ctx.branch(eq(c2, ord('='), 32)) else None
        elif ctx.branch(eq(c, ord('>'), 32)): two = 'TOK_GE' if ctx.branch(eq(c2, ord('='), 32)) else None
        noerr()
        if two: ctx.cover('two'); token(two, 'operator'); X.at(add(s, 2), 'operator')
        else: ctx.cover('one'); ctx.prove(eq(r, c, 32), 'lexer:character'); X.at(add(s, 1), 'character')
def words(ctx): run_lexer(ctx, 'name', 0)
def crunched(ctx): run_lexer(ctx, 'name', 1)
def integer(ctx): run_lexer(ctx, 'number', want=(False, False))
def integer_exponent(ctx): run_lexer(ctx, 'number', want=(False, True))
def integer_negative(ctx): run_lexer(ctx, 'number', want=(False, 2))
def decimal(ctx): run_lexer(ctx, 'number', want=(True, False))
def decimal_exponent(ctx): run_lexer(ctx, 'number', want=(True, True))
def decimal_negative(ctx): run_lexer(ctx, 'number', want=(True, 2))
def point(ctx): run_lexer(ctx, 'point', want=(True, False))
def point_exponent(ctx): run_lexer(ctx, 'point', want=(True, True))
def point_negative(ctx): run_lexer(ctx, 'point', want=(True, 2))
def string(ctx): run_lexer(ctx, 'string')
def other(ctx): run_lexer(ctx, 'other')
def no_text(ctx):
    """before the first line there is only the end"""
    X = Lexer(ctx, ctx.choose(2))
    X.set('text', NULL)
    kind, r = ctx.run('lex_next', [X.lex], module_of(ctx, 'lexer'))
    ctx.cover('ran')
    ctx.prove(kind == 'ret' and B(eq(r, X.E('TOK_EOF'), 32)), 'lexer:end-of-file')
def data(ctx):
    """an item of DATA: a quoted string, or the characters up to a comma, colon or quote without
    the blanks around them"""
    X = Lexer(ctx, data=True)
    kind, r = ctx.run('lex_next_data', [X.lex], module_of(ctx, 'lexer'))
    ctx.prove(kind == 'ret', 'data:returns', kind)
    s = X.start()
    ctx.prove(eq(z64(X.get('token_pos')), s, 64), 'data:position')
    quoted = ctx.branch(eq(X.CH(s), ord('"'), 32))
    b = add(s, 1) if quoted else s
    e = X.first('string', unless('"'), b) if quoted else X.first('data', unless('"', ',', ':'), b)
    n = simp(sub(e, b))
    if not ctx.branch(ule(n, 127)):
        ctx.cover('too-long'); ctx.prove(r.null, 'data:too-long-refused'); ctx.prove(len(X.errors) == 1, 'data:error-reported'); return
    if quoted and ctx.branch(eq(e, X.N, 64)):
        ctx.cover('unterminated'); ctx.prove(r.null and len(X.errors) == 1, 'data:unterminated'); return
    ctx.prove(not r.null and r.obj is X.lex.obj and r.off == X.woff and not X.errors, 'data:item')
    if quoted: ctx.cover('quoted'); X.at(add(e, 1), 'data'); X.word_is('data', b, n)
    else:
        ctx.cover('plain'); X.at(e, 'data')
        X.word_is('data', b, X.trimmed(b, n))
def small(ctx):
    """the other functions of the lexer"""
    X = Lexer(ctx, ctx.choose(2))
    M = module_of(ctx, 'lexer')
    del ctx.stubs['lex_error']
    which = ('lex_discard', 'lex_peek', 'lex_token', 'lex_word', 'lex_num', 'lex_token_pos', 'lex_line_num', 'lex_line_text', 'lex_remaining', 'lex_line', 'lex_refresh', 'lex_unsigned', 'new_lex')[ctx.choose(13)]
    ctx.cover(which)
    g = X.get
    before = {f: g(f) for f in ('token', 'num', 'token_pos', 'lineno', 'pos')}
    nxt = ctx.fresh('next', 32)
    seen = {}
    def lex_next(cx, a):
        seen.update({f: g(f) for f in ('text', 'pos', 'lineno')}); return nxt
    ctx.stubs['lex_next'] = lex_next
    args = [X.lex]
    t2, ln = new_string(ctx, 'new'), ctx.fresh('line', 32)
    cell = None
    if which == 'lex_line': args += [ln, t2]
    if which == 'lex_refresh': args += [t2]
    if which == 'lex_unsigned':
        o = Obj(ctx.name('val'), 4, {0: 'i32'}, 'uninit'); ctx.objs += 1; o.born = ctx.objs
        cell = Ptr(o); args += [cell]
    if which == 'new_lex':
        ctx.stubs.update(ALLOC)
        nm = new_string(ctx, 'name')
        flag = ctx.choose(2)
        args = [nm, bool(flag)]
    kind, r = ctx.run(which, args, M)
    ctx.prove(kind == 'ret', which)
    if which == 'lex_discard':
        ctx.prove(And(eq(g('token'), END, 32), eq(z64(g('pos')), X.N, 64), eq(z64(g('token_pos')), X.N, 64)), 'remark:to-the-end-of-the-line')
    elif which == 'lex_peek': ctx.prove(eq(r, X.CH(z64(X.pos0)), 32), 'lexer:peek')
    elif which in ('lex_token', 'lex_token_pos', 'lex_line_num'): ctx.prove(eq(r, before[dict(lex_token='token', lex_token_pos='token_pos', lex_line_num='lineno')[which]], 32), which)
    elif which == 'lex_num': ctx.prove(feq(r, before['num']), which)
    elif which == 'lex_word': ctx.prove(r.obj is X.lex.obj and r.off == X.woff, which)
    elif which == 'lex_line_text': ctx.prove(r.obj is X.text.obj and r.off == 0, which)
    elif which == 'lex_remaining': ctx.prove(r.obj is X.text.obj and B(eq(off_term_(r.off), z64(X.pos0), 64)), which)
    elif which == 'lex_line':
        ctx.prove(seen and seen['text'].obj is t2.obj and B(And(eq(seen['pos'], 0, 32), eq(seen['lineno'], ln, 32), eq(r, nxt, 32))), which)
    elif which == 'lex_refresh':
        ctx.prove(seen and seen['text'].obj is t2.obj and B(And(eq(seen['pos'], before['token_pos'], 32), eq(r, nxt, 32))), which)
    elif which == 'lex_unsigned':
        x = before['num']
        ok = And(eq(before['token'], X.E('TOK_NUM'), 32), fcmp('ogt', x, 0.0), fcmp('ole', x, 65535.0), feq(ffloor(x), x))
        ctx.prove(ctx.branch(as_bool(r)) == ctx.branch(ok), 'lexer:line-number')
        if ctx.branch(ok): ctx.prove(eq(ctx.load(cell, 'i32'), fp_to_int(x, 32, False), 32), 'lexer:line-number')
    else:
        q = lambda f: sgetf(ctx, r, 'LEX', f)
        ctx.prove(r.obj.heap and q('name').obj is nm.obj and q('text').null and eq(q('pos'), 0, 32) and eq(q('recognise_keyword_prefixes'), flag, 8) is True, 'lexer:new')
def off_term_(o): return o if isinstance(o, int) else o.term()
ALL = ['words', 'crunched', 'integer', 'integer_exponent', 'integer_negative', 'decimal', 'decimal_exponent', 'decimal_negative', 'point', 'point_exponent', 'point_negative', 'string', 'other', 'no_text', 'data', 'small']
for f in (words, crunched, integer, integer_exponent, integer_negative, decimal, decimal_exponent, decimal_negative, point, point_exponent, point_negative, string, other, data): f.alts = 2
