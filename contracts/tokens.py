"""Contracts of token.c: which words are keywords, in either letter case, how a keyword is found at
the start of a run of letters, and how a token is named in messages; and of the error messages of
the lexer."""
from lbv.hlib import *
from .store import module_of
from .lexer import Lexer

WORDS = 'AND CLEAR CLS DATA DEF DIM ELSE END FOR GOSUB GOTO IF INPUT LET LINE NEXT NOT ON OR PRINT RANDOMIZE READ REM RESTORE RETURN STEP STOP THEN TO'.split()
def tok(ctx, w): return enum(ctx, 'TOK_' + w)

def text(ctx, p):
    """the text of a constant string"""
    t = strref(ctx, p).concrete()
    if t is None: raise Structural('not a constant string')
    return t.decode('latin1')

class Words:
    """the table as init_keywords leaves it, and an arbitrary word s: the keyword `which`
    (or, for None, no keyword) in any letter case"""
    def __init__(self, ctx, lookup=True):
        self.ctx = ctx
        ctx.stubs.update(ALLOC)
        ctx.stubs['fatal'] = noreturn('fatal')
        self.s = new_string(ctx, 'word')
        M = module_of(ctx, 'token')
        if lookup:
            o = ctx.global_obj('keyword_hash', M)
            o = o.obj if isinstance(o, Ptr) else o
            for k in range(0, o.size, 8): ctx.poke(Ptr(o, k), 'ptr', NULL)
            kind, r = ctx.run('init_keywords', [], M)
            ctx.prove(kind == 'ret', 'keywords:table', kind)
        self.which = ([None] + WORDS)[ctx.choose(1 + len(WORDS))]
        h = None
        if self.which is not None: kind, h = ctx.run('hashpjw_upper', [ctx.cstr(self.which.lower())])
        else: h = ctx.fresh('hash', 32)
        S = ctx.stubs
        def hash_(cx, a):
            if a[0].obj is not self.s.obj or a[0].off != 0: raise Structural('hash of another word')
            return h
        S['hashpjw_upper'] = hash_
        S['strcasecmp'] = self.cmp
        S['strncasecmp'] = self.ncmp
        self.mem = {}
    def sides(self, a):
        mine = [p.obj is self.s.obj for p in a[:2]]
        if sum(mine) != 1 or a[mine.index(True)].off != 0: raise Structural('comparison of another word')
        return text(self.ctx, a[mine.index(False)]).upper()
    def result(self, same):
        r = self.ctx.fresh('strcasecmp', 32)
        self.ctx.assume(Iff(eq(r, 0, 32), same))
        return r
    def cmp(self, cx, a):
        w = self.sides(a)
        if w == (self.which or '').upper(): return self.result(True)
        if self.which is not None or w in WORDS: return self.result(False)
        return self.result(self.memo(w))
    def memo(self, k):
        if k not in self.mem: self.mem[k] = self.ctx.fresh_bool('same')
        return self.mem[k]
    def ncmp(self, cx, a):
        """`which` is at the start of s; no keyword is the start of another"""
        w = self.sides(a)
        n = cx.concretize(a[2], 64)
        w = w[:n]
        if self.which is not None and self.which.startswith(w): return self.result(True)
        if self.which is not None and not w.startswith(self.which): return self.result(False)
        if self.which is None and w in WORDS: return self.result(False)
        return self.result(self.memo(w))

def identifier(ctx):
    """a word is a keyword exactly when it is one of the words of the language"""
    W = Words(ctx)
    kind, r = ctx.run('identifier_token', [W.s], module_of(ctx, 'token'))
    ctx.cover(W.which or 'name')
    ctx.prove(kind == 'ret' and B(eq(r, tok(ctx, W.which or 'ID'), 32)), 'keywords:token-of-a-word', W.which or 'name')
def prefix(ctx):
    """the keyword at the start of a run of letters"""
    W = Words(ctx, lookup=False)
    assert not [1 for a in WORDS for b in WORDS if a != b and a.startswith(b)]
    kind, r = ctx.run('keyword_prefix', [W.s], module_of(ctx, 'token'))
    ctx.prove(kind == 'ret', 'keywords:prefix')
    ctx.cover(W.which or 'none')
    if W.which is None: ctx.prove(r.null, 'keywords:no-keyword-here'); return
    g = lambda f: sgetf(ctx, r, 'KEYWORD', f)
    ctx.prove(not r.null, 'keywords:prefix', W.which)
    ctx.prove(text(ctx, g('name')) == W.which and B(And(eq(g('len'), len(W.which), 16), eq(g('token'), tok(ctx, W.which), 32))), 'keywords:prefix', W.which)
NAMES = {'end of line': 10, 'no token': 'NONE', 'invalid token': 'ERROR', 'end of file': 'EOF', 'name': 'ID', 'number': 'NUM', 'string': 'STR', '<>': 'NE', '<=': 'LE', '>=': 'GE'}
def names(ctx):
    """the name of a token in a message"""
    M = module_of(ctx, 'token')
    table = {(v if isinstance(v, int) else tok(ctx, v)): k for k, v in NAMES.items()}
    table.update({tok(ctx, w): w for w in WORDS})
    ctx.prove(len(table) == len(NAMES) + len(WORDS), 'token:codes-distinct')
    ks = sorted(table)
    ctx.prove(not [k for k in ks if 31 < k < 127], 'token:codes-distinct')
    i = ctx.choose(len(ks) + 1)
    t = ks[i] if i < len(ks) else ctx.fresh('token', 32)
    if i == len(ks):
        for k in ks: ctx.assume(icmp('ne', 32, t, k))
    fp = file_obj(ctx, 'out')
    kind, r = ctx.run('print_token', [t, fp], M)
    ctx.prove(kind == 'ret', 'token:print')
    out = flat_out(ctx, ctx.events, 'out')
    ctx.cover('named' if i < len(ks) else 'other')
    if i < len(ks): ctx.prove(out == [('lit', table[t].encode())], 'token:name', repr(out))
    elif ctx.branch(And(icmp('sgt', 32, t, 31), icmp('slt', 32, t, 127))):
        ctx.cover('character')
        ctx.prove(len(out) == 3 and out[0] == out[2] == ('lit', b"'") and out[1][0] == 'c' and B(eq(out[1][1], t, 32)), 'token:character', repr(out))
    else:
        ctx.prove(len(out) == 2 and out[0] == ('lit', b'unknown token: ') and out[1][0] == 'd' and B(eq(out[1][1], t, 32)), 'token:number', repr(out))
def keyword_names(ctx):
    M = module_of(ctx, 'token')
    table = {tok(ctx, w): w for w in WORDS}
    t2 = ctx.fresh('token2', 32)
    ctx.cover('called')
    kind, r = ctx.run('keyword_name', [t2], M)
    isk = And(icmp('sge', 32, t2, tok(ctx, 'AND')), icmp('sle', 32, t2, tok(ctx, 'TO')))
    if not ctx.branch(isk): ctx.prove(r.null, 'token:not-a-keyword')
    else:
        k = ctx.concretize(t2, 32)
        ctx.prove(not r.null and k in table and text(ctx, r) == table[k], 'token:keyword-name')
def file_obj(ctx, name):
    f = ctx.global_obj('stderr', module_of(ctx, 'lexer'))
    p = ctx.load(Ptr(f) if not isinstance(f, Ptr) else f, 'ptr')
    p.obj.tag = ('FILE', name)
    return p
def lex_errors(ctx):
    """the message about a character or token that is not of the language names the line"""
    X = Lexer(ctx)
    del ctx.stubs['lex_error'], ctx.stubs['lex_fatal']
    which = ('lex_error', 'lex_fatal')[ctx.choose(2)]
    name = new_string(ctx, 'file') if ctx.choose(2) == 0 else NULL
    X.set('name', name)
    ln = X.get('lineno')
    kind, r = ctx.run(which, [X.lex, ctx.cstr('the message %s'), new_string(ctx, 'arg')], module_of(ctx, 'lexer'))
    ctx.prove(kind == ('ret' if which == 'lex_error' else 'exit'), 'report:then', kind)
    ctx.cover(which)
    ctx.prove(not any(e[0] == 'out' and e[1] == 'stdout' for e in ctx.events), 'report:to-stderr')
    out = flat_out(ctx, ctx.events, 'stderr')
    want = []
    if not name.null: want += [('s', name), ('lit', b'('), ('u', ln), ('lit', b'): ')]
    if ctx.branch(icmp('ne', 32, ln, 0)): want += [('u', ln), ('lit', b' ')]
    want += [('s', X.text), ('lit', b'\n'), ('v', b'the message %s'), ('lit', b'\n')]
    ctx.prove(len(out) == len(want), 'report:message', repr(out))
    for (k, v), (k2, v2) in zip(out, want):
        if k2 == 'lit': ctx.prove((k, v) == (k2, v2), 'report:message', repr(out))
        elif k2 == 's': ctx.prove(k == 's' and v.node is strref(ctx, v2).node if hasattr(v, 'node') else k == 's', 'report:line-text')
        elif k2 == 'u': ctx.prove(k in ('u', 'd') and B(eq(v, v2, 32)), 'report:line-number')
        else: ctx.prove(k == 'v' and v.concrete() == v2, 'report:message')
ALL = ['identifier', 'prefix', 'names', 'keyword_names', 'lex_errors']
