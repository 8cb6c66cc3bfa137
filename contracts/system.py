"""Contracts of the parts around the interpreter: allocation and its accounting (utils.c), release
functions, the set of names (stringuniq.c, stringlist.c), the command line and main (lbasic.c,
options.c), interrupt.c, os.c."""
from lbv.hlib import *
from .store import module_of

def counters(ctx):
    M = module_of(ctx, 'utils')
    out = {}
    for n in ('malloc_count', 'free_count'):
        p = ctx.global_obj(n, M)
        p = p if isinstance(p, Ptr) else Ptr(p)
        out[n] = (p, ctx.load(p, 'i64'))
    return out
def counted(ctx, C, m, f, what):
    for n, d in (('malloc_count', m), ('free_count', f)):
        p, old = C[n]
        ctx.prove(eq(ctx.load(p, 'i64'), add(old, d) if d else old, 64), what + ':' + n)
def maybe(ctx, size, default):
    """the library allocator: memory, or none"""
    if ctx.choose(2) == 1: return NULL
    return ctx.malloc(size, default)

# ---------------------------------------------------------------- utils.c: allocation
def alloc(ctx):
    """memory or the end of the process; exactly one allocation counted"""
    C = counters(ctx)
    ctx.stubs['fatal'] = noreturn('fatal')
    which = ('emalloc', 'ecalloc')[ctx.choose(2)]
    n, m = ctx.fresh('size', 64), ctx.fresh('count', 64)
    ctx.assume(ule(n, 1 << 30)); ctx.assume(ule(m, 1 << 30))
    seen = []
    def s_malloc(cx, a): seen.append(('malloc', a)); return maybe(cx, a[0], 'uninit')
    def s_calloc(cx, a): seen.append(('calloc', a)); return maybe(cx, ibin('mul', 64, a[0], a[1]), 'zero')
    ctx.stubs.update(malloc=s_malloc, calloc=s_calloc)
    kind, r = ctx.run(which, [n] if which == 'emalloc' else [m, n])
    ctx.cover(which + ':' + kind)
    ctx.prove(len(seen) == 1, 'alloc:one-block')
    ctx.prove(seen[0][0] == which[1:] or which == 'emalloc' and seen[0][0] == 'calloc', 'alloc:zeroed-when-asked')
    a = seen[0][1]
    size = a[0] if len(a) == 1 else ibin('mul', 64, a[0], a[1])
    want = n if which == 'emalloc' else ibin('mul', 64, m, n)
    ctx.prove(size is want or eq(size, want, 64), 'alloc:size')
    if kind == 'fatal': ctx.prove(not ctx.alloc_live, 'alloc:gives-up-only-without-memory'); return
    ctx.prove(kind == 'ret' and len(ctx.alloc_live) == 1 and r.obj is ctx.alloc_live[0] and r.off == 0, 'alloc:the-block', kind)
    counted(ctx, C, 1, 0, 'alloc')
def realloc(ctx):
    C = counters(ctx)
    ctx.stubs['fatal'] = noreturn('fatal')
    n = ctx.fresh('size', 64); ctx.assume(ule(n, 1 << 30)); ctx.assume(icmp('ne', 64, n, 0))
    old = NULL if ctx.choose(2) == 1 else ctx.malloc(ctx.fresh('old', 64), 'lazy')
    ctx.alloc_live[:] = []
    seen = []
    def s_realloc(cx, a):
        seen.append(a)
        if cx.choose(2) == 1: return NULL
        return s_erealloc(cx, a)
    def s_malloc(cx, a):
        cx.prove(old.null, 'realloc:of-the-block')
        seen.append((NULL, a[0])); return maybe(cx, a[0], 'uninit')
    ctx.stubs.update(realloc=s_realloc, malloc=s_malloc)
    kind, r = ctx.run('erealloc', [old, n])
    ctx.cover('erealloc:%s:%s' % (kind, old.null))
    ctx.prove(len(seen) == 1 and seen[0][0].obj is old.obj and B(eq(seen[0][1], n, 64)), 'realloc:of-the-block')
    if kind == 'fatal': ctx.prove(old.null or not old.obj.freed, 'realloc:gives-up-only-without-memory'); return
    ctx.prove(kind == 'ret' and not r.null and not r.obj.freed and r.off == 0, 'realloc:the-block', kind)
    counted(ctx, C, 1, 0 if old.null else 1, 'realloc')
def dup(ctx):
    """a copy of the text in a block of its own; no text, no copy"""
    C = counters(ctx)
    ctx.stubs['fatal'] = noreturn('fatal')
    s = new_string(ctx, 's') if ctx.choose(2) == 0 else NULL
    kind, r = ctx.run('estrdup', [s])
    ctx.prove(kind == 'ret', 'dup:returns', kind)
    ctx.cover('dup:%s' % s.null)
    if s.null: ctx.prove(r.null, 'dup:nothing'); counted(ctx, C, 0, 0, 'dup'); return
    ctx.prove(len(ctx.alloc_live) == 1 and r.obj is ctx.alloc_live[0] and r.off == 0 and r.obj is not s.obj, 'dup:its-own-block')
    counted(ctx, C, 1, 0, 'dup')
    b = strref(ctx, s)
    n = b.len
    ctx.prove(ule(add(n, 1), r.obj.size), 'dup:room')
    if ctx.branch(eq(n, 0, 64)): ctx.prove(eq(ctx.load(r, 'i8'), 0, 8), 'dup:same-text'); return
    a = strref(ctx, r)
    i = ctx.fresh('i', 64)
    ctx.assume(ule(i, n))
    ctx.prove(eq(a.char(i), b.char(i), 8), 'dup:same-text')
def release(ctx):
    C = counters(ctx)
    p = ctx.malloc(ctx.fresh('n', 64), 'lazy') if ctx.choose(2) == 0 else NULL
    kind, r = ctx.run('efree', [p])
    ctx.prove(kind == 'ret', 'release:returns', kind)
    ctx.cover('release:%s' % p.null)
    ctx.prove(p.null or p.obj.freed, 'release:released')
    ctx.prove(len([e for e in ctx.events if e[0] == 'free']) == (0 if p.null else 1), 'release:once')
    counted(ctx, C, 0, 0 if p.null else 1, 'release')
def stringname(ctx):
    """a name of a string ends in a dollar sign"""
    s = new_string(ctx, 's') if ctx.choose(2) == 0 else NULL
    kind, r = ctx.run('string_name', [s])
    ctx.prove(kind == 'ret', 'string-name:returns', kind)
    if s.null: ctx.prove(Not(as_bool(r)), 'string-name:none'); ctx.cover('none'); return
    f = strref(ctx, s); n = f.len
    if ctx.branch(eq(n, 0, 64)): ctx.prove(Not(as_bool(r)), 'string-name:empty'); ctx.cover('empty'); return
    ctx.cover('name')
    ctx.prove(Iff(as_bool(r), eq(f.char(sub(n, 1)), 36, 8)), 'string-name:ends-in-dollar')

def file_arg(ctx, name):
    o = Obj(ctx.name('FILE'), None); o.tag = ('FILE', name)
    return Ptr(o)
class Repeat(LoopSpec):
    """a loop that writes one character n times"""
    def __init__(self, name, func, st, ch, n):
        LoopSpec.__init__(self, name=name, func=func, roles={'n': ('i32', ('n', 'i', 'k', 'count'))})
        self.st, self.ch, self.n = st, ch, n
        self.done = None
    def enter(self, ctx, L, v):
        self.down = ctx.branch(eq(v['n'], self.n, 32)); self.start = v['n']
        if self.done is None: self.done = 0
    def inv(self, ctx, L, v):
        total = ibin('add', 32, v['n'], self.done) if self.down else self.done
        return [('written-so-far', eq(total, self.n, 32) if self.down else eq(v['n'], self.done, 32)), ('range', ule(v['n'], self.n, 32))]
    def havoc(self, ctx, L, v):
        self.done = ibin('sub', 32, self.n, v['n']) if self.down else v['n']
        L.g['ev'] = len(ctx.events)
    def at_back(self, ctx, L, v):
        out = flat_out(ctx, ctx.events[L.g['ev']:], self.st)
        ctx.prove(len(out) == 1 and (out[0] == ('lit', bytes([self.ch])) or out[0][0] == 'c' and B(eq(out[0][1], self.ch, 32))), 'repeat:one-character-each-time', repr(out))
        self.done = ibin('add', 32, self.done, 1)
    def variant(self, ctx, L, v): return z64(v['n']) if self.down else sub(z64(self.n), z64(v['n']))
def spaces(ctx):
    n = ctx.fresh('n', 32)
    sp = Repeat('space', None, 'out', 32, n)
    ctx.loopspecs = [sp]
    kind, r = ctx.run('space', [n, file_arg(ctx, 'out')])
    ctx.loopspecs = []
    ctx.cover('space')
    ctx.prove(kind == 'ret', 'space:returns', kind)
    ctx.prove(sp.done is not None and B(eq(sp.done, n, 32)), 'space:count')
def messages(ctx):
    """fatal: the program and the message on stderr, then the end; error: the message on stdout"""
    M = module_of(ctx, 'utils')
    which = ('fatal', 'error')[ctx.choose(2)]
    g = ctx.global_obj('progname', M)
    named = ctx.choose(2) == 0
    name = new_string(ctx, 'progname') if named else NULL
    ctx.poke(g if isinstance(g, Ptr) else Ptr(g), 'ptr', name)
    def s_vprintf(cx, a): cx.events.append(('out', 'stdout', [('v', strref(cx, a[0]))])); return 0
    ctx.stubs['vprintf'] = s_vprintf
    kind, r = ctx.run(which, [ctx.cstr('the message %s'), new_string(ctx, 'arg')], M)
    ctx.cover('%s:%s' % (which, named))
    st = 'stderr' if which == 'fatal' else 'stdout'
    ctx.prove(not [e for e in ctx.events if e[0] == 'out' and e[1] != st], 'message:stream')
    out = flat_out(ctx, ctx.events, st)
    if which == 'error':
        ctx.prove(kind == 'ret', 'message:then-on', kind)
        want = ['v', b'\n']
    else:
        ctx.prove(kind == 'exit' and B(icmp('ne', 32, r, 0)), 'message:then-failure', kind)
        want = (['s', b': fatal: '] if named else [b'fatal: ']) + ['v']
    ctx.prove([v if k == 'lit' else k for k, v in out] == want, 'message:text', repr(out))
    for k, v in out:
        if k == 'v': ctx.prove(v.concrete() == b'the message %s', 'message:text')
        if k == 's': ctx.prove(v.same(strref(ctx, name)), 'message:program-name')

ALL = ['alloc', 'realloc', 'dup', 'release', 'stringname', 'spaces', 'messages']

# ---------------------------------------------------------------- compiled code, line index, keywords
class FreeOperands(LoopSpec):
    """the text of each instruction that owns one is released, once, in turn"""
    def __init__(self, g):
        LoopSpec.__init__(self, name='release-code', roles={'i': ('i32', ('i', 'k', 'pc', 'n'))})
        self.g, self.done = g, None
    def inv(self, ctx, L, v):
        if self.done is None: self.done = 0
        return [('range', ule(v['i'], self.g['used'], 32)), ('released-so-far', eq(self.done, v['i'], 32))]
    def havoc(self, ctx, L, v): self.done = v['i']; L.g['n'] = len(ctx.events); L.g['i'] = v['i']
    def at_back(self, ctx, L, v):
        ev = [e[1] for e in ctx.events[L.g['n']:] if e[0] == 'free']
        i = z64(L.g['i'])
        c = {f: comp(ctx, self.g['inst'], 'BINST', f) for f in ('op', 'u.str')}
        op = c['op'].read(ctx, i)
        own = ctx.branch(Or(*[eq(op, k, 16) for k in self.g['strops']]))
        if own:
            t = c['u.str'].read(ctx, i)
            ctx.prove(len(ev) == (0 if t.null else 1) and (t.null or ev[0] is t.obj), 'release-code:its-text-once')
            ctx.cover('owner')
        else: ctx.prove(not ev, 'release-code:nothing-else')
        self.done = ibin('add', 32, self.done, 1)
    def variant(self, ctx, L, v): return sub(z64(self.g['used']), z64(v['i']))
    def may_write(self, ctx, L, o, kind, off): return kind == 'free'
def delete_code(ctx):
    """releasing compiled code: each text it owns, the instructions and the object, once each"""
    from . import bcode
    ctx.stubs.update(ALLOC)
    if ctx.choose(2) == 1:
        kind, r = ctx.run('delete_bcode', [NULL]); ctx.cover('none')
        ctx.prove(kind == 'ret' and not ctx.events, 'release-code:nothing'); return
    g = bcode.mk_bcode(ctx, wellformed=True)
    g['strops'] = bcode.strops(ctx)
    sp = FreeOperands(g)
    ctx.loopspecs = [sp]
    kind, r = ctx.run('delete_bcode', [g['p']])
    ctx.loopspecs = []
    ctx.cover('code:%s' % g['inst'].null)
    ctx.prove(kind == 'ret', 'release-code:returns', kind)
    ctx.prove(g['p'].obj.freed and (g['inst'].null or g['inst'].obj.freed), 'release-code:everything')
    if not g['inst'].null: ctx.prove(sp.done is not None and B(eq(sp.done, g['used'], 32)), 'release-code:every-instruction')
def new_code(ctx):
    ctx.stubs.update(ALLOC)
    kind, r = ctx.run('new_bcode', [])
    ctx.cover('new')
    ctx.prove(kind == 'ret' and r.obj.heap, 'new-code:returns')
    ctx.prove(sgetf(ctx, r, 'BCODE', 'inst').null, 'new-code:empty')
    for f, w in (('used', 32), ('allocated', 32), ('has_data', 8)): ctx.prove(eq(sgetf(ctx, r, 'BCODE', f), 0, w), 'new-code:empty', f)
def latest(ctx):
    from . import bcode
    g = bcode.mk_bcode(ctx)
    kind, r = ctx.run('bcode_latest', [g['p']])
    ctx.prove(kind == 'ret', 'latest:returns')
    if ctx.branch(eq(g['used'], 0, 32)): ctx.prove(r.null, 'latest:none'); ctx.cover('none'); return
    ctx.cover('latest')
    sz = ctx.prog.di.size('BINST')
    ctx.prove(r.obj is g['inst'].obj and B(eq(off_term(r.off), ibin('mul', 64, sub(z64(g['used']), 1), sz), 64)), 'latest:the-last')
def delete_index(ctx):
    ctx.stubs.update(ALLOC)
    have = ctx.choose(2) == 0
    nodes = ctx.malloc(ctx.fresh('n', 64), 'lazy') if have and ctx.choose(2) == 0 else NULL
    m = mk(ctx, 'LINE_MAP', 'map', dict(nodes=nodes)) if have else NULL
    kind, r = ctx.run('delete_line_map', [m])
    ctx.cover('%s' % have)
    ctx.prove(kind == 'ret' and (not have or m.obj.freed) and (nodes.null or nodes.obj.freed), 'release-index:everything')
def keywords(ctx):
    """the table of keywords is released completely: as many blocks as were made, each once"""
    ctx.stubs.update(ALLOC)
    ctx.stubs['fatal'] = noreturn('fatal')
    M = module_of(ctx, 'token')
    o = ctx.global_obj('keyword_hash', M)
    o = o.obj if isinstance(o, Ptr) else o
    for k in range(0, o.size, 8): ctx.poke(Ptr(o, k), 'ptr', NULL)
    ctx.alloc_live[:] = []
    kind, r = ctx.run('init_keywords', [], M)
    made = list(ctx.alloc_live); ctx.unroll = 400
    n0 = len(ctx.events)
    kind, r = ctx.run('deinit_keywords', [], M)
    ctx.cover('keywords')
    ctx.prove(kind == 'ret', 'release-keywords:returns', kind)
    ctx.prove(bool(made) and all(x.freed for x in made), 'release-keywords:everything')
    ctx.prove(len([e for e in ctx.events[n0:] if e[0] == 'free']) == len(made), 'release-keywords:once')
def lex_object(ctx):
    ctx.stubs.update(ALLOC)
    p = ctx.malloc(64, 'lazy') if ctx.choose(2) == 0 else NULL
    kind, r = ctx.run('delete_lex', [p])
    ctx.cover('%s' % p.null)
    ctx.prove(kind == 'ret' and (p.null or p.obj.freed), 'release-lexer:everything')
def opcode_formats(ctx):
    """the format of every operation: exactly the operations with a text own one"""
    from . import bcode
    ops = sorted(set((v, k) for k, v in ctx.prog.di.enums.items() if k.startswith('B_') and not k.startswith('B_NUM_')))
    v, k = ops[ctx.choose(len(ops))]
    M = module_of(ctx, 'bcode')
    kind, r = ctx.run('bcode_format', [v], M)
    ctx.prove(kind == 'ret', 'format:returns', kind)
    ctx.cover('op')
    ctx.prove(Iff(eq(r, enum(ctx, 'BF_STR'), 32), v in bcode.strops(ctx)), 'format:owns-a-text', k)
    kind, r = ctx.run('bcode_name', [v], M)
    ctx.prove(kind == 'ret' and not r.null and bool(strref(ctx, r).concrete()), 'format:has-a-name', k)
ALL += ['delete_code', 'new_code', 'latest', 'delete_index', 'keywords', 'lex_object', 'opcode_formats']

# ---------------------------------------------------------------- the machine
def new_machine(ctx):
    """a new machine: nothing stored, nothing compiled, built-ins known, given options"""
    ctx.stubs.update(ALLOC)
    st = mk(ctx, 'SYMTAB', 'st')
    def s_new(cx, a): cx.events.append(('table', a)); return st
    def s_builtins(cx, a):
        cx.prove(a[0].obj is st.obj, 'new-machine:builtins-of-its-table'); cx.events.append(('builtins', a))
    ctx.stubs.update(new_symbol_table=s_new, init_builtins=s_builtins)
    opt = [ctx.fresh_bool('opt') for _ in range(4)]
    kind, r = ctx.run('new_vm', [zext(o, 1, 8) if False else o for o in opt])
    ctx.cover('new')
    ctx.prove(kind == 'ret' and not r.null, 'new-machine:returns', kind)
    g = lambda f: sgetf(ctx, r, 'vm', f)
    ctx.prove([e[0] for e in ctx.events] == ['table', 'builtins'], 'new-machine:builtins-of-its-table')
    ctx.prove(g('st').obj is st.obj, 'new-machine:table')
    for c in ('stored_program', 'immediate_code'):
        for f in ('source', 'bcode', 'index'): ctx.prove(g('%s.%s' % (c, f)).null, 'new-machine:nothing-stored')
    for f in ('code_state.code', 'fn.code_state.code', 'stopped_program.code'): ctx.prove(g(f).null, 'new-machine:not-running', f)
    for f in ('sp', 'ssp', 'rsp', 'for_sp', 'program_data', 'immediate_data'): ctx.prove(eq(g(f), 0, 32), 'new-machine:empty', f)
    ctx.prove(eq(g('col'), 1, 32), 'new-machine:column')
    ctx.prove(eq(g('array_base'), 0, 16), 'new-machine:array-base')
    for f, w in zip(('keywords_anywhere', 'trace_basic', 'trace_for', 'trace_log'), opt): ctx.prove(Iff(icmp('ne', 8, g(f), 0), w), 'new-machine:option', f)
    ctx.prove(eq(g('input_prompt'), 1, 8), 'new-machine:prompts')
    for f in ('strict_dim', 'strict_for', 'strict_on', 'strict_variables', 'verbose', 'stopped'): ctx.prove(eq(g(f), 0, 8), 'new-machine:not-strict', f)
def delete_machine(ctx):
    """releasing the machine releases its texts, codes, indexes, table and pending strings"""
    from .session import World, depth, strings
    if ctx.choose(4) == 3:
        kind, r = ctx.run('delete_vm', [NULL]); ctx.cover('none'); ctx.prove(kind == 'ret' and not ctx.events, 'release-machine:nothing'); return
    W = World(ctx); V = W.V
    k = depth(ctx, V, 'ssp', 3)
    ss = strings(ctx, V, k)
    V.p.obj.heap = True
    def s_del(cx, a):
        cx.prove(a[0].obj is V.st.obj, 'release-machine:its-table'); cx.events.append(('table', a))
    ctx.stubs['delete_symbol_table'] = s_del
    kind, r = ctx.run('delete_vm', [V.p])
    ctx.cover('%s:%d' % (W.state, k))
    ctx.prove(kind == 'ret', 'release-machine:returns', kind)
    ctx.prove(all(s.obj.freed for s in ss), 'release-machine:pending-strings')
    ctx.prove(all(p.null or p.obj.freed for p in [W.src, W.bc, W.ix] + list(W.imm.values())), 'release-machine:programs')
    ctx.prove(len(W.ev('table')) == 1 and V.p.obj.freed, 'release-machine:everything')
def small_machine(ctx):
    """accessors, NEW's and CLEAR's entry points"""
    from .session import World
    W = World(ctx); V = W.V
    which = ('vm_keywords_anywhere', 'vm_stored_source', 'vm_clear_names', 'vm_clear_values', 'vm_source_changed')[ctx.choose(5)]
    mark = len(ctx.wlog)
    kind, r = ctx.run(which, [V.p])
    ctx.cover(which)
    ctx.prove(kind == 'ret', which, kind)
    if which == 'vm_keywords_anywhere': ctx.prove(Iff(as_bool(r), icmp('ne', 8, V.get('keywords_anywhere'), 0)), which)
    if which == 'vm_stored_source': ctx.prove(r.obj is W.src.obj, which)
    if which == 'vm_clear_names': ctx.prove(W.names() == ['clear_symbol_table_names', 'init_builtins'], which, repr(W.names()))
    if which == 'vm_clear_values': ctx.prove(W.names() == ['clear_symbol_table_values'], which)
    if which != 'vm_source_changed': ctx.prove(len(ctx.wlog) == mark, which + ':nothing-else'); return
    ctx.prove(V.get('stored_program.bcode').null and V.get('stored_program.index').null, which + ':compiled-again')
    ctx.prove(V.get('stored_program.source').obj is W.src.obj and (W.src.null or not W.src.obj.freed), which + ':text-kept')
    ctx.prove(all(p.null or p.obj.freed for p in (W.bc, W.ix)), which + ':released')
ALL += ['new_machine', 'delete_machine', 'small_machine']

# ---------------------------------------------------------------- Monitor: the dialogue
EOFC = mask(32)
class Discard(LoopSpec):
    """a loop that reads and drops characters up to the end of the line or of the input"""
    def __init__(self, G): LoopSpec.__init__(self, name='discard', roles={}); self.G = G
    def applies(self, ctx, fr, label, vals): return True
    def havoc(self, ctx, L, v): self.G['got'] = []
    def at_back(self, ctx, L, v):
        g = self.G['got']
        ctx.prove(len(g) == 1 and B(And(icmp('ne', 32, g[0], EOFC), icmp('ne', 32, g[0], 10))), 'discard:up-to-the-line-end')
    def havoc_role(self, ctx, L, role, old, ty): return LoopSpec.havoc_role(self, ctx, L, role, old, ty)
def reading(ctx):
    G = dict(got=[], any=False)
    def s_getchar(cx, a):
        c = cx.fresh('char', 32)
        cx.assume(Or(eq(c, EOFC, 32), ule(c, 255, 32)))
        for p in G['got'][-1:]: cx.prove(And(icmp('ne', 32, p, EOFC), icmp('ne', 32, p, 10)), 'discard:not-beyond-the-line-end')
        G['got'].append(c); G['any'] = True
        return c
    ctx.stubs.update(getchar=s_getchar, getc=s_getchar, fgetc=s_getchar)
    return G
def ended(ctx, G, what):
    g = G['got']
    ctx.prove(G['any'] and len(g) > 0 and B(Or(eq(g[-1], EOFC, 32), eq(g[-1], 10, 32))), what)
def line_complete(ctx):
    """a whole line is taken without its line end; of a longer one everything is dropped, with a message"""
    M = module_of(ctx, 'interactive')
    buf = mk_array(ctx, 'cmd', 128, key='i8', heap=False)
    G = reading(ctx)
    l = None
    while l is None:
        l = read_line(ctx, buf, 128)
        if l is None: raise PathEnd('case done')
    n, ch = l['len'], l['node']
    ctx.stubs['error'] = lambda cx, a: cx.events.append(('error', strref(cx, a[0]).concrete()))
    ctx.loopspecs = [Discard(G)]
    kind, r = ctx.run('line_complete', [buf], M)
    ctx.loopspecs = []
    ctx.prove(kind == 'ret', 'line:returns', kind)
    errs = [e[1] for e in ctx.events if e[0] == 'error']
    if ctx.branch(eq(n, 0, 64)): ctx.prove(Not(as_bool(r)), 'line:nothing'); ctx.cover('none'); return
    last = ch.read(ctx, sub(n, 1))
    if ctx.branch(eq(last, 10, 8)):
        ctx.cover('whole')
        ctx.prove(as_bool(r), 'line:whole-lines-are-taken')
        ctx.prove(not errs and not G['any'], 'line:nothing-else-is-read')
        f = strref(ctx, buf)
        ctx.prove(eq(f.len, sub(n, 1), 64), 'line:without-its-end')
        i = ctx.fresh('i', 64); ctx.assume(ult(i, sub(n, 1)))
        ctx.prove(eq(f.char(i), ch.read(ctx, i), 8), 'line:as-typed')
    else:
        ctx.cover('long')
        ctx.prove(Not(as_bool(r)), 'line:no-part-of-a-long-line-is-taken')
        ctx.prove(errs == [b'Command line too long'], 'line:message', repr(errs))
        ended(ctx, G, 'line:the-rest-is-dropped')
def await_newline(ctx):
    G = reading(ctx)
    ctx.loopspecs = [Discard(G)]
    kind, r = ctx.run('await_newline', [], module_of(ctx, 'interactive'))
    ctx.loopspecs = []
    ctx.cover('await')
    ctx.prove(kind == 'ret', 'await:returns', kind)
    ended(ctx, G, 'await:one-line')
class Prompting(LoopSpec):
    """every line is asked for, and lines are read until one is whole"""
    scratch = True
    def __init__(self, G): LoopSpec.__init__(self, name='prompt', roles={}); self.G = G
    def havoc(self, ctx, L, v): self.G['log'] = []; self.G['n'] = len(ctx.events)
    def at_back(self, ctx, L, v):
        ctx.prove([x[0] for x in self.G['log']] == ['read', 'complete'] and self.G['log'][0][1] and not self.G['log'][1][1], 'prompt:again-only-after-a-bad-line')
        ctx.prove(flat_out(ctx, ctx.events[self.G['n']:], 'stdout') == [('lit', b'> ')], 'prompt:text')
    def may_write(self, ctx, L, o, kind, off): return o is self.G['buf']
def get_line(ctx):
    M = module_of(ctx, 'interactive')
    size = ctx.fresh('size', 32); ctx.assume(And(ule(2, size, 32), ule(size, 1 << 16, 32)))
    buf = mk_array(ctx, 'cmd', z64(size), key='i8', heap=False)
    G = dict(log=[], n=0, buf=buf.obj)
    def s_fgets(cx, a):
        cx.prove(a[0].obj is buf.obj and B(And(eq(off_term(a[0].off), 0, 64), ule(a[1], size, 32))), 'prompt:within-the-buffer')
        cx.prove(stream_name(cx, a[2]) == 'stdin', 'prompt:from-the-terminal')
        l = read_line(cx, a[0], a[1])
        G['log'].append(('read', l is not None))
        return a[0] if l else NULL
    def s_complete(cx, a):
        cx.prove(a[0].obj is buf.obj, 'prompt:the-line-read')
        r = cx.choose(2)
        G['log'].append(('complete', bool(r)))
        return bool(r)
    ctx.stubs.update(fgets=s_fgets, line_complete=s_complete)
    ctx.loopspecs = [Prompting(G)]
    kind, r = ctx.run('get_line', [buf, size], M)
    ctx.loopspecs = []
    ctx.prove(kind == 'ret', 'prompt:returns', kind)
    ctx.cover('%r' % G['log'])
    if G['log'] == [('read', False)]: ctx.prove(Not(as_bool(r)), 'prompt:end-of-input')
    else: ctx.prove(G['log'] == [('read', True), ('complete', True)] and B(as_bool(r)), 'prompt:a-whole-line', repr(G['log']))
    ctx.prove(flat_out(ctx, ctx.events[G['n']:], 'stdout') == [('lit', b'> ')], 'prompt:text')
def stream_name(ctx, p): return p.obj.tag[1] if isinstance(p, Ptr) and p.obj is not None and p.obj.tag and p.obj.tag[0] == 'FILE' else None
class Dialogue(LoopSpec):
    """each line is interpreted once, in turn, until BYE or the end of the input"""
    def __init__(self, G): LoopSpec.__init__(self, name='dialogue', func='interact', roles={}); self.G = G
    def flags(self, L): return [p for p in L.fr.env.values() if isinstance(p, Ptr) and p.obj is not None and not p.obj.heap and p.obj.size == 1]
    def enter(self, ctx, L, v): pass
    def inv(self, ctx, L, v):
        f = self.flags(L)
        if len(f) != 1: return []
        q = icmp('ne', 8, ctx.load(f[0], 'i8'), 0)
        # the test of the flag may come before the body of the loop or after it
        return [('stops-when-told', Iff(q, self.G['ended']))] + ([('not-told-yet', Not(q))] if ctx.opts.get('alt') else [])
    def havoc(self, ctx, L, v):
        G = self.G; G['log'] = []
        for p in self.flags(L):
            q = ctx.fresh('quit', 8); ctx.assume(ule(q, 1, 8)); ctx.poke(p, 'i8', q)
            G['ended'] = ctx.branch(eq(q, 1, 8))
    def at_back(self, ctx, L, v):
        G = self.G
        ctx.prove(len(G['log']) == 2 and G['log'][0] == ('line', True) and G['log'][1][0] == 'interpret', 'dialogue:each-line-once', repr(G['log']))
    def may_write(self, ctx, L, o, kind, off): return not o.heap
def interact(ctx):
    """one machine for the whole dialogue, released at its end; every line read is interpreted"""
    M = module_of(ctx, 'interactive')
    opt = [ctx.fresh_bool('opt') for _ in range(4)]
    vm = mk(ctx, 'vm', 'vm')
    G = dict(log=[], init=[], ended=False)
    def s_new(cx, a):
        cx.events.append(('new', a)); return vm
    def s_line(cx, a):
        cx.prove(not G['ended'], 'dialogue:nothing-is-read-after-the-end')
        l = read_line(cx, a[0], a[1])
        if l is None: G['ended'] = True
        G['log'].append(('line', l is not None)); G['buf'] = a[0]
        return l is not None
    def s_int(cx, a):
        cx.prove(G['log'][-1:] == [('line', True)], 'dialogue:each-line-once')
        cx.prove(a[0].obj is vm.obj and a[1].obj is G['buf'].obj and not vm.obj.freed, 'dialogue:the-line-read')
        q = cx.choose(2)
        if q: cx.store(a[2], 'i8', 1); G['ended'] = True
        G['log'].append(('interpret', bool(q)))
    def s_del(cx, a):
        cx.prove(a[0].obj is vm.obj, 'dialogue:machine-released'); cx.events.append(('delete', a))
    ctx.stubs.update(new_vm=s_new, get_line=s_line, interpret=s_int, delete_vm=s_del)
    lp = Dialogue(G)
    ctx.loopspecs = [lp]
    kind, r = ctx.run('interact', opt, M)
    ctx.loopspecs = []
    ctx.prove(kind == 'ret', 'dialogue:returns', kind)
    ctx.cover('%r' % G['log'])
    ctx.prove(G['ended'], 'dialogue:until-the-end')
    ev = [e for e in ctx.events if e[0] != 'out']
    ctx.prove([e[0] for e in ev] == ['new', 'delete'], 'dialogue:one-machine', repr([e[0] for e in ev]))
    a = ev[0][1]
    for x, y in zip(a[:3], opt): ctx.prove(Iff(as_bool(x), y), 'dialogue:options')
    ctx.prove(Not(as_bool(a[3])), 'dialogue:options')
    first = flat_out(ctx, ctx.events, 'stdout')
    ctx.prove(Iff(not first, opt[3]), 'dialogue:quiet')
    if first: ctx.prove(first == [('lit', b'Type HELP to list commands\n\n')], 'dialogue:greeting', repr(first))
def oscli(ctx):
    """*COMMAND: the rest of the line goes to the operating system, once; a lone * does nothing"""
    from .monitor import Text
    T = Text(ctx)
    ctx.stubs.update(T.stubs())
    ctx.stubs['system'] = lambda cx, a: (cx.events.append(('system', a[0])), cx.fresh('status', 32))[1]
    kind, r = ctx.run('oscli', [T.p], module_of(ctx, 'interactive'))
    ctx.prove(kind == 'ret', 'oscli:returns', kind)
    s = T.SP(0); c = T.ch(s)
    ev = [e[1] for e in ctx.events if e[0] == 'system']
    if ctx.branch(Or(eq(c, 0, 8), eq(c, 10, 8))): ctx.cover('none'); ctx.prove(not ev, 'oscli:nothing'); return
    ctx.cover('command')
    ctx.prove(len(ev) == 1 and ev[0].obj is T.p.obj and B(eq(T.pos(ctx, ev[0], 'oscli'), s, 64)), 'oscli:the-rest-of-the-line')
COMMANDS = 'BYE COMPILE CONT HELP LIST LOAD NEW RENUM RUN SAVE'.split()
def help_text(ctx):
    kind, r = ctx.run('help', [], module_of(ctx, 'interactive'))
    out = flat_out(ctx, ctx.events, 'stdout')
    ctx.cover('help')
    ctx.prove(kind == 'ret' and len(out) == 1 and out[0][0] == 'lit', 'help:text')
    ctx.prove([l.split()[0].decode() for l in out[0][1].splitlines()] == COMMANDS + ['*DIR'], 'help:every-command')
ALL += ['line_complete', 'await_newline', 'get_line', 'interact', 'oscli', 'help_text']

# ---------------------------------------------------------------- run.c: messages
def run_error(ctx):
    """a run-time error: message, then the number and text of the line being executed, on stderr,
    and then back to the point where running was started"""
    from .session import World
    from lbv.engine import LongJmp
    W = World(ctx); V = W.V
    which = ctx.choose(4)
    src = mk(ctx, 'SOURCE', 'errsource')
    code = NULL
    if which == 0: pass
    else:
        code = mk(ctx, 'CODE', 'code', dict(source=NULL if which == 1 else src), heap=False) if 'CODE' in ctx.prog.di.structs else None
        if code is None: raise Structural('CODE')
    V.set('code_state.code', code)
    line = V.get('code_state.source_line')
    fmt = ctx.cstr('the message %s\n')
    res = None
    try: kind, r = ctx.run('run_error', [V.p, fmt, new_string(ctx, 'arg')], module_of(ctx, 'run'))
    except LongJmp as j: kind, r = 'longjmp', j
    ctx.cover('run_error:%d' % which)
    ctx.prove(kind == 'longjmp', 'run-error:stops-the-program', kind)
    off, key = ctx.prog.di.structs['vm'] if False else field_start(ctx, 'vm', 'errjmp')
    ctx.prove(r.buf == ctx.jmpkey(V.p.plus(off)) and B(icmp('ne', 32, r.val, 0)), 'run-error:where-running-was-started')
    ctx.prove(not any(e[0] == 'out' and e[1] != 'stderr' for e in ctx.events), 'run-error:on-stderr')
    seq = []
    for e in ctx.events:
        if e[0] == 'out': seq += [v if k == 'lit' else k for k, v in flat_out(ctx, [e], 'stderr')]
        elif e[0] == 'print_source_line':
            a = e[1]
            ctx.prove(a[0].obj is src.obj and B(eq(a[1], line, 32)), 'run-error:the-line-being-executed')
            ctx.prove(stream_name(ctx, a[2]) == 'stderr', 'run-error:on-stderr')
            seq.append('line')
    for e in ctx.events:
        if e[0] == 'out':
            for k, v in e[2]:
                if k == 'v': ctx.prove(v.concrete() == b'the message %s\n', 'run-error:message')
    seq = [b'\n' if s == 'c' else s for s in seq]
    ctx.prove(seq == [b'Runtime error: ', 'v'] + (['line', b'\n'] if which >= 2 else []), 'run-error:message', repr(seq))
def field_start(ctx, struct, name):
    return ctx.prog.di.field(struct, name)
interact.alts = 2
