"""Contracts of the command line and the listing modes (System/), of the set of names
(Shared/stringuniq.c), and of the small functions around them."""
from lbv.hlib import *
from .store import module_of, mk_source
from .system import file_arg, stream_name

def lb(ctx): return module_of(ctx, 'lbasic')
def out_of(ctx, st='stdout', start=0): return flat_out(ctx, ctx.events[start:], st)
def only(ctx, st, what): ctx.prove(not [e for e in ctx.events if e[0] == 'out' and e[1] != st], what + ':stream')

# ---------------------------------------------------------------- options.c
EFFECTS = {'-l': ('mode', 'LIST_MODE'), '-n': ('mode', 'LIST_NAMES_MODE'), '-p': ('mode', 'PARSE_MODE'), '-c': ('mode', 'CODE_MODE'), '-r': ('mode', 'RUN_MODE'),
           '-k': ('keywords_anywhere', 1), '-q': ('quiet', 1), '-m': ('report_memory', 1), '-t': ('trace_basic', 1), '-f': ('trace_for', 1), '-g': ('trace_log', 1), '-v': ('print_version', 1)}
LONG = {'--list': '-l', '--list-names': '-n', '--parse': '-p', '--code': '-c', '--run': '-r', '--keywords-anywhere': '-k', '--quiet': '-q', '--report-memory': '-m',
        '--trace-basic': '-t', '--trace-for': '-f', '--trace-log': '-g', '--version': '-v', '--randomize': '-z', '--help': '-h', '--help-full': '-hh'}
WORDS = sorted(list(EFFECTS) + list(LONG) + ['-z', '-h', '-hh', '-?', '/?'])
FIELDS = [('mode', 32), ('keywords_anywhere', 8), ('print_version', 8), ('quiet', 8), ('report_memory', 8), ('report_time', 8), ('trace_basic', 8), ('trace_for', 8), ('trace_log', 8)]
class Args(LoopSpec):
    """each argument in turn has the effect of that argument and no other"""
    def __init__(self, G):
        LoopSpec.__init__(self, name='arguments', roles={'arg': ('ptr', ('arg',)), 'argv': ('ptr', ('argv', 'p', 'a'))}); self.G = G
    def index(self, v): return simp(sub(off_term(v['argv'].off), 0)) if False else z3.UDiv(bv(off_term(v['argv'].off), 64), z3.BitVecVal(8, 64))
    def inv(self, ctx, L, v):
        G = self.G
        ok = v['argv'].obj is G['argv'].obj
        return [('in-the-arguments', ok and And(eq(simp(z3.URem(bv(off_term(v['argv'].off), 64), z3.BitVecVal(8, 64))), 0, 64), ule(simp(self.index(v)), G['n'])))]
    def check(self, ctx, L, v):
        a = ctx.load(v['argv'], 'ptr')
        return [('argument', a.obj is v['arg'].obj and (a.obj is None or B(eq(off_term(v['arg'].off), 0, 64))))]
    def havoc_role(self, ctx, L, role, old, ty):
        G = self.G
        if 'i' not in G:
            G['i'] = ctx.fresh('argument', 64); ctx.assume(ule(G['i'], G['n']))
        p = G['argv'].plus(ibin('mul', 64, G['i'], 8))
        return ctx.load(p, 'ptr') if role == 'arg' else p
    def enter(self, ctx, L, v): L.g['first'] = eq(off_term(v['argv'].off), 0, 64)
    def havoc(self, ctx, L, v):
        ctx.prove(L.g['first'], 'options:from-the-first')
        G = self.G
        for f, w in FIELDS:
            x = ctx.fresh('opt.' + f, w)
            if w == 8: ctx.assume(ule(x, 1, 8))
            ssetf(ctx, G['opt'], 'Options', f, x)
        ssetf(ctx, G['opt'], 'Options', 'file_name', NULL if ctx.choose(2) == 0 else new_string(ctx, 'file'))
        G['before'] = snap(ctx, G['opt']); G['which'] = 'unknown'; G['mark'] = len(ctx.events)
    def at_back(self, ctx, L, v):
        effect(ctx, self.G, 'ret')
        ctx.prove(eq(off_term(v['argv'].off), ibin('mul', 64, add(self.G['i'], 1), 8), 64), 'options:each-in-turn')
    def may_write(self, ctx, L, o, kind, off): return o is self.G['opt'].obj
class ArgsByIndex(Args):
    """the same loop counting the arguments"""
    def __init__(self, G, key):
        LoopSpec.__init__(self, name='arguments', roles={'i': (key, ('i', 'k', 'n'))}); self.G, self.w = G, int(key[1:])
    def inv(self, ctx, L, v): return [('in-the-arguments', ule(z64(v['i'], self.w), self.G['n']))]
    def check(self, ctx, L, v): return []
    def havoc_role(self, ctx, L, role, old, ty):
        i = ctx.fresh('argument', self.w)
        self.G['i'] = z64(i, self.w); ctx.assume(ule(self.G['i'], self.G['n']))
        return i
    def enter(self, ctx, L, v): L.g['first'] = eq(v['i'], 0, self.w)
    def at_back(self, ctx, L, v):
        effect(ctx, self.G, 'ret')
        ctx.prove(eq(z64(v['i'], self.w), add(self.G['i'], 1), 64), 'options:each-in-turn')
def snap(ctx, p): return {f: sgetf(ctx, p, 'Options', f) for f, w in FIELDS + [('file_name', 64)]}
def effect(ctx, G, kind, data=None):
    """what the argument did: its own effect and nothing else"""
    w, b, a = G['which'], G['before'], snap(ctx, G['opt'])
    word = LONG.get(w, w)
    arg = G['arg']
    ev = [e[0] for e in ctx.events[G['mark']:]]
    ctx.cover('arg:%s' % word)
    def same(*but):
        for f, wd in FIELDS:
            if f not in but: ctx.prove(eq(a[f], b[f], wd), 'options:nothing-else', '%s changes %s' % (w, f))
        if 'file_name' not in but: ctx.prove(a['file_name'].obj is b['file_name'].obj, 'options:nothing-else', '%s changes the file' % w)
    if word in ('-h', '-?', '/?', '-hh'):
        ctx.prove(kind == 'help' and B(Iff(as_bool(data[0]), word == '-hh')), 'options:help', repr(w)); return
    if word in EFFECTS:
        f, val = EFFECTS[word]
        ctx.prove(kind == 'ret', 'options:accepted', repr(w))
        ctx.prove(eq(a[f], enum(ctx, val) if isinstance(val, str) else val, dict(FIELDS)[f]), 'options:effect', repr(w))
        same(f); ctx.prove(not ev, 'options:nothing-else', repr(w)); return
    if word == '-z':
        ctx.prove(kind == 'ret' and ev == ['srand'], 'options:randomize'); same(); return
    r = strref(ctx, arg)
    dash = ctx.branch(eq(r.char(0), 45, 8))
    if dash: ctx.prove(kind == 'fatal', 'options:unknown-option-refused'); return
    if b['file_name'].null:
        ctx.prove(kind == 'ret' and a['file_name'].obj is arg.obj, 'options:file-name'); same('file_name')
    else: ctx.prove(kind == 'fatal', 'options:one-file')
def options(ctx):
    """every argument has its documented effect; unknown options and a second file are refused"""
    n = ctx.fresh('argc', 64); ctx.assume(ule(n, 1 << 20))
    G = dict(n=n, which='unknown', mark=0)
    def elem(cx, i):
        if cx.branch(ult(i, n)): return new_string(cx, 'arg')
        return NULL
    G['argv'] = mk_array(ctx, 'argv', add(n, 1), key='ptr', mkcomp=lambda cx, fo, k: BaseObj(elem), heap=False)
    G['opt'] = mk(ctx, 'Options', 'opt', heap=False)
    def s_strcmp(cx, a):
        lits = [strref(cx, p).concrete() for p in a]
        k = 0 if lits[1] is not None else 1
        w = lits[1 - k].decode()
        G['arg'] = a[k]
        if G['which'] == 'unknown': G['which'] = (WORDS + [None])[cx.choose(len(WORDS) + 1)]
        if w not in WORDS: return cx.fresh('strcmp', 32)
        if w == G['which']: return 0
        r = cx.fresh('strcmp', 32); cx.assume(icmp('ne', 32, r, 0)); return r
    ctx.stubs.update(strcmp=s_strcmp, help=noreturn('help'), fatal=noreturn('fatal'),
                     srand=lambda cx, a: cx.events.append(('srand', a)), time=lambda cx, a: cx.fresh('time', 64))
    alt = ctx.opts.get('alt', 0)
    lp = ArgsByIndex(G, ('i32', 'i64')[alt - 1]) if alt else Args(G)
    ctx.loopspecs = [lp]
    kind, r = ctx.run('parse_options', [G['opt'], G['argv']], module_of(ctx, 'options'))
    ctx.loopspecs = []
    if not lp.uses: raise Structural('no loop over the arguments')
    if kind == 'ret':
        ctx.prove(eq(G['i'], n, 64), 'options:every-argument'); ctx.cover('end'); return
    effect(ctx, G, kind, r)
options.alts = 3
def option_defaults(ctx):
    opt = mk(ctx, 'Options', 'opt', heap=False)
    kind, r = ctx.run('init_options', [opt])
    ctx.cover('defaults')
    ctx.prove(kind == 'ret' and B(eq(sgetf(ctx, opt, 'Options', 'mode'), enum(ctx, 'NO_MODE'), 32)), 'options:default-mode')
    for f, w in FIELDS[1:]: ctx.prove(eq(sgetf(ctx, opt, 'Options', f), 0, w), 'options:off', f)
    ctx.prove(sgetf(ctx, opt, 'Options', 'file_name').null, 'options:no-file')
def option_help(ctx):
    M = module_of(ctx, 'options')
    g = ctx.global_obj('progname', M)
    ctx.poke(g if isinstance(g, Ptr) else Ptr(g), 'ptr', ctx.cstr('legacy-basic'))
    full = ctx.choose(2) == 1
    kind, r = ctx.run('help', [full], M)
    ctx.cover('%s' % full)
    ctx.prove(kind == 'exit', 'help:ends')
    out = out_of(ctx)
    ctx.prove(len(out) == 1 and out[0][0] == 'lit', 'help:text')
    opts = [l.split(', ') for l in out[0][1].decode().splitlines() if l.startswith('-')]
    ctx.prove(sorted(map(tuple, opts)) == sorted((k, v) for k, v in LONG.items()), 'help:every-option')
ALL = ['options', 'option_defaults', 'option_help']

# ---------------------------------------------------------------- lbasic.c
MODES = ('NO_MODE', 'LIST_MODE', 'LIST_NAMES_MODE', 'PARSE_MODE', 'CODE_MODE', 'RUN_MODE')
def optfields(ctx, o, **kw):
    ctx.opt = {}
    for f, w in FIELDS[1:]:
        b = ctx.choose(2) if f in kw.get('split', ()) else None
        x = b if b is not None else ctx.fresh('opt.' + f, 8)
        if b is None: ctx.assume(ule(x, 1, 8))
        ssetf(ctx, o, 'Options', f, x); ctx.opt[f] = x
    m = ctx.choose(len(MODES)); ctx.mode = MODES[m]
    ssetf(ctx, o, 'Options', 'mode', enum(ctx, MODES[m]))
def main_function(ctx):
    """the program: options, then one file or the dialogue; the version unless quiet; the report of
    memory last, when asked for"""
    def s_parse(cx, a):
        cx.events.append(('parse', a))
        optfields(cx, a[0], split=('print_version', 'quiet', 'report_memory'))
        G['opt'] = a[0]
        G['file'] = new_string(cx, 'file') if cx.choose(2) == 0 else NULL
        ssetf(cx, a[0], 'Options', 'file_name', G['file'])
    G = {}
    S = ctx.stubs
    def ev(n):
        def f(cx, a): cx.events.append((n, a)); return None
        S[n] = f
    for n in ('init_keywords', 'deinit_keywords', 'process_file', 'interact', 'report_memory', 'print_version', 'init_options'): ev(n)
    S.update(parse_options=s_parse, fatal=noreturn('fatal'))
    argv = mk_array(ctx, 'argv', ctx.fresh('argc', 64), key='ptr', mkcomp=lambda cx, fo, k: BaseObj(lambda c, i: new_string(c, 'arg')), heap=False)
    ctx.assume(ule(2, seg(argv).count))
    kind, r = ctx.run('main', [ctx.fresh('argc', 32), argv], lb(ctx))
    names = [e[0] for e in ctx.events]
    ctx.prove(names[:2] == ['init_options', 'parse'], 'main:options-first', repr(names))
    a = dict(ctx.events[1:2])['parse']
    ctx.prove(a[1].obj is argv.obj and B(eq(off_term(a[1].off), 8, 64)), 'main:arguments-after-the-program-name')
    o = ctx.opt; seq = names[2:]
    if o['print_version']:
        ctx.cover('version'); ctx.prove(kind == 'exit' and seq == ['print_version'], 'main:version-only'); return
    want = ([] if o['quiet'] else ['print_version']) + ['init_keywords']
    if G['file'].null and ctx.mode != 'NO_MODE':
        ctx.cover('no file'); ctx.prove(kind == 'fatal' and seq == want, 'main:mode-needs-a-file', repr(seq)); return
    want += ['interact' if G['file'].null else 'process_file', 'deinit_keywords'] + (['report_memory'] if o['report_memory'] else [])
    ctx.cover('%s' % G['file'].null)
    ctx.prove(kind == 'ret' and B(eq(r, 0, 32)), 'main:success', kind)
    ctx.prove(seq == want, 'main:sequence', repr(seq))
    e = [x for x in ctx.events if x[0] in ('interact', 'process_file')][0]
    if e[0] == 'process_file': ctx.prove(e[1][0].obj is G['opt'].obj, 'main:file')
    else:
        for v, f in zip(e[1], ('keywords_anywhere', 'trace_basic', 'trace_for', 'quiet')): ctx.prove(Iff(as_bool(v), eq(o[f], 1, 8)), 'main:dialogue-options', f)
class EachInst(LoopSpec):
    def __init__(self, G):
        LoopSpec.__init__(self, name='code', roles={'i': ('i32', ('i', 'k', 'pc'))}); self.G = G; self.done = 0
    def inv(self, ctx, L, v): return [('range', ule(v['i'], self.G['used'] if ctx.mode == 'CODE_MODE' else 0, 32)), ('so-far', eq(self.done, v['i'], 32))]
    def havoc(self, ctx, L, v): self.done = v['i']; L.g['i'] = v['i']; L.g['n'] = len(ctx.events)
    def at_back(self, ctx, L, v):
        e = ctx.events[L.g['n']:]
        ctx.prove(len(e) == 1 and e[0][0] == 'print_binst', 'code:each-instruction-once')
        a = e[0][1]; i = L.g['i']
        ctx.prove(a[0].obj is self.G['inst'].obj and B(eq(off_term(a[0].off), ibin('mul', 64, z64(i), ctx.prog.di.size('BINST')), 64)) and B(eq(a[1], i, 32)), 'code:each-instruction-in-turn')
        ctx.prove(a[2].obj is self.G['src'].obj and a[3].obj is self.G['st'].obj and stream_name(ctx, a[4]) == 'stdout', 'code:of-this-program')
        self.done = ibin('add', 32, self.done, 1)
    def variant(self, ctx, L, v): return sub(z64(self.G['used']), z64(v['i']))
def one_file(ctx):
    """the file is listed, checked or run according to the mode; everything made is released"""
    o = mk(ctx, 'Options', 'opt', heap=False)
    optfields(ctx, o)
    name = new_string(ctx, 'file'); ssetf(ctx, o, 'Options', 'file_name', name)
    S = ctx.stubs
    S.update(ALLOC)
    G = dict(src=NULL, st=NULL, used=ctx.fresh('used', 32))
    ctx.assume(ule(G['used'], 1 << 26, 32))
    made = []
    def obj(k, st=None):
        p = mk(ctx, st, k) if st else Ptr(ctx.new_obj(k, size=64, heap=True))
        made.append((k, p)); return p
    def s_load(cx, a):
        cx.prove(a[0].obj is name.obj, 'file:the-named-file'); cx.events.append(('load', a))
        if cx.choose(2) == 1: return NULL
        G['src'] = obj('source', 'SOURCE'); return G['src']
    def s_table(cx, a): G['st'] = obj('table', 'SYMTAB'); return G['st']
    def s_builtins(cx, a): cx.prove(a[0].obj is G['st'].obj, 'file:builtins'); cx.events.append(('builtins', a))
    def s_parse(cx, a):
        cx.prove(a[0].obj is G['src'].obj and a[1].obj is G['st'].obj and B(Iff(as_bool(a[2]), eq(cx.opt['keywords_anywhere'], 1, 8))), 'file:parsed-as-asked')
        cx.events.append(('parse', a))
        if cx.choose(2) == 1: return NULL
        G['inst'] = mk_array(cx, 'inst', z64(G['used']), struct='BINST', mkcomp=lambda c, fo, k: BaseObj(lambda c2, i: NULL) if k == 'ptr' else None)
        b = mk(cx, 'BCODE', 'bcode', dict(inst=G['inst'], used=G['used'], allocated=G['used'])); made.append(('bcode', b)); return b
    def s_vm(cx, a):
        for v, f in zip(a, ('keywords_anywhere', 'trace_basic', 'trace_for', 'trace_log')): cx.prove(Iff(as_bool(v), eq(cx.opt[f], 1, 8)), 'file:machine-options', f)
        G['vm'] = obj('vm'); cx.events.append(('vm', a)); return G['vm']
    def s_vmload(cx, a):
        cx.prove(a[0].obj is G['vm'].obj and a[1].obj is name.obj, 'file:the-named-file'); cx.events.append(('vmload', a))
        G['loaded'] = cx.choose(2) == 0; return G['loaded']
    def s_run(cx, a): cx.prove(a[0].obj is G['vm'].obj, 'file:runs'); cx.events.append(('run', a))
    def s_del(cx, a):
        if not a[0].null: cx.free(a[0])
    def ev(n):
        def f(cx, a): cx.events.append((n, a)); return None
        S[n] = f
    for n in ('list_file', 'list_names', 'print_binst'): ev(n)
    S.update(load_source_file=s_load, new_symbol_table=s_table, init_builtins=s_builtins, parse_source=s_parse, new_vm=s_vm, vm_load_source=s_vmload, run_program=s_run,
             delete_bcode=s_del, delete_symbol_table=s_del, delete_source=s_del, delete_vm=s_del)
    sp = EachInst(G)
    ctx.loopspecs = [sp]
    kind, r = ctx.run('process_file', [o], lb(ctx))
    ctx.loopspecs = []
    names = [e[0] for e in ctx.events if e[0] not in ('free', 'print_binst')]
    m = ctx.mode
    ctx.cover('%s:%s' % (m, kind))
    if kind == 'exit': 
        ctx.prove(m in ('PARSE_MODE', 'CODE_MODE') and names == ['load', 'builtins', 'parse'] and not any(k == 'bcode' for k, p in made) and B(icmp('ne', 32, r, 0)), 'file:failure-status-only-for-errors', m); return
    ctx.prove(kind == 'ret', 'file:returns', kind)
    if not ctx.prove(all(p.obj.freed for k, p in made), 'file:everything-released', repr([k for k, p in made if not p.obj.freed])): return
    if m in ('LIST_MODE', 'LIST_NAMES_MODE'):
        want = 'list_file' if m == 'LIST_MODE' else 'list_names'
        ctx.prove(names == [want], 'file:listed', repr(names))
        a = [e for e in ctx.events if e[0] == want][0][1]
        ctx.prove(a[0].obj is name.obj, 'file:the-named-file')
        if m == 'LIST_NAMES_MODE': ctx.prove(Iff(as_bool(a[1]), eq(ctx.opt['keywords_anywhere'], 1, 8)), 'file:lexed-as-asked')
    elif m in ('PARSE_MODE', 'CODE_MODE'):
        if G['src'].null: ctx.prove(names == ['load'], 'file:no-file', repr(names)); return
        ctx.prove(names == ['load', 'builtins', 'parse'], 'file:checked', repr(names))
        ctx.prove(any(k == 'bcode' for k, p in made), 'file:errors-give-failure-status')
        if m == 'CODE_MODE': ctx.prove(sp.uses > 0 and B(eq(sp.done, G['used'], 32)), 'code:every-instruction')
        else: ctx.prove(not any(e[0] == 'print_binst' for e in ctx.events) and B(eq(sp.done, 0, 32)), 'file:checked-only')
    else:
        ctx.prove(names == ['vm', 'vmload'] + (['run'] if G['loaded'] else []), 'file:run-once', repr(names))
class ListLines(LoopSpec):
    """each line of the file, in order: number and text"""
    def __init__(self, g):
        LoopSpec.__init__(self, name='list-file', func='list_file', roles={'i': ('i32', ('i', 'k', 'line'))}); self.g, self.done = g, 0
    def inv(self, ctx, L, v): return [('range', ule(v['i'], self.g['used'], 32)), ('so-far', eq(self.done, v['i'], 32))]
    def havoc(self, ctx, L, v): self.done = v['i']; L.g['i'] = v['i']; L.g['n'] = len(ctx.events)
    def at_back(self, ctx, L, v):
        o = out_of(ctx, start=L.g['n'])
        i = z64(L.g['i'])
        ctx.prove(len(o) == 4 and o[0][0] == '5u' and o[1] == ('lit', b' ') and o[2][0] == 's' and o[3] == ('lit', b'\n'), 'list-file:number-and-text', repr(o))
        ctx.prove(eq(o[0][1], self.g['num'].read(ctx, i), 32), 'list-file:number')
        ctx.prove(o[2][1].same(strref(ctx, self.g['text'].read(ctx, i))), 'list-file:text')
        self.done = ibin('add', 32, self.done, 1)
    def variant(self, ctx, L, v): return sub(z64(self.g['used']), z64(v['i']))
def list_file(ctx):
    ctx.stubs.update(ALLOC)
    g = mk_source(ctx)
    name = new_string(ctx, 'file')
    G = {}
    def s_load(cx, a):
        cx.prove(a[0].obj is name.obj, 'list-file:the-named-file')
        G['src'] = NULL if cx.choose(2) == 1 else g['p']; return G['src']
    def s_del(cx, a):
        if not a[0].null: cx.prove(a[0].obj is g['p'].obj, 'list-file:released'); cx.free(a[0])
    ctx.stubs.update(load_source_file=s_load, delete_source=s_del)
    sp = ListLines(g)
    ctx.loopspecs = [sp]
    kind, r = ctx.run('list_file', [name], lb(ctx))
    ctx.loopspecs = []
    ctx.prove(kind == 'ret', 'list-file:returns', kind)
    only(ctx, 'stdout', 'list-file')
    if G['src'].null: ctx.prove(not sp.uses, 'list-file:no-file'); ctx.cover('none'); return
    ctx.cover('listed')
    ctx.prove(eq(sp.done, g['used'], 32), 'list-file:every-line')
    ctx.prove(g['p'].obj.freed, 'list-file:released')
class Lines(LoopSpec):
    def __init__(self, G):
        LoopSpec.__init__(self, name='name-lines', func='list_names', roles={'i': ('i32', ('i', 'k', 'line'))}); self.G, self.done = G, 0
    def applies(self, ctx, fr, label, vals): return not self.G['inner']
    def inv(self, ctx, L, v): return [('range', ule(v['i'], self.G['g']['used'], 32)), ('so-far', eq(self.done, v['i'], 32))]
    def havoc(self, ctx, L, v): self.done = v['i']; L.g['i'] = self.G['i'] = v['i']; self.G['log'] = []
    def at_back(self, ctx, L, v):
        G = self.G
        ctx.prove(G['log'][:1] == ['start'] and G['log'].count('start') == 1, 'names:each-line-once', repr(G['log']))
        ctx.prove(G['done'], 'names:to-the-end-of-the-line')
        G['inner'] = False
        self.done = ibin('add', 32, self.done, 1)
    def variant(self, ctx, L, v): return sub(z64(self.G['g']['used']), z64(v['i']))
    def may_write(self, ctx, L, o, kind, off): return False
class Tokens(LoopSpec):
    def __init__(self, G):
        LoopSpec.__init__(self, name='name-tokens', func='list_names', roles={'t': ('i32', ('t', 'tok', 'token'))}); self.G = G
    def applies(self, ctx, fr, label, vals): return self.G['inner']
    def inv(self, ctx, L, v): return [('current-token', eq(v['t'], self.G['t'], 32))]
    def havoc(self, ctx, L, v): self.G['t'] = v['t']; self.G['log'] = ['start']; self.G['fresh']()
    def at_back(self, ctx, L, v):
        G = self.G
        ident = ctx.branch(eq(G['was'], enum(ctx, 'TOK_ID'), 32))
        ctx.prove(G['log'] == ['start'] + (['insert'] if ident else []) + ['next'], 'names:every-name-and-no-other', repr(G['log']))
        ctx.cover('token:%s' % ident)
def list_names(ctx):
    """every name of every line, up to a remark, is noted once; then all are printed"""
    ctx.stubs.update(ALLOC)
    g = mk_source(ctx)
    name = new_string(ctx, 'file'); crunched = ctx.fresh_bool('crunched')
    G = dict(g=g, inner=False, log=[], done=False, t=None)
    lex = Ptr(ctx.new_obj('lex', size=64, heap=True)); names = Ptr(ctx.new_obj('names', size=8, heap=True))
    NL, REM = 10, enum(ctx, 'TOK_REM')
    def over(): return ctx.branch(Or(eq(G['t'], NL, 32), eq(G['t'], REM, 32)))
    def fresh(): G['done'] = over(); G['word'] = new_string(ctx, 'word'); G['was'] = G['t']
    G['fresh'] = fresh
    def s_load(cx, a):
        G['src'] = NULL if cx.choose(2) == 1 else g['p']; return G['src']
    def s_lex(cx, a):
        cx.prove(B(Iff(as_bool(a[1]), crunched)), 'names:lexed-as-asked'); return lex
    def s_line(cx, a):
        i = z64(G['i'])
        cx.prove(eq(a[1], g['num'].read(cx, i), 32), 'names:number-of-the-line')
        cx.prove(cx.ptr_cmp('eq', a[2], g['text'].read(cx, i)), 'names:text-of-the-line')
        G['log'].append('start'); G['t'] = cx.fresh('token', 32); fresh(); G['inner'] = True
        return G['t']
    def s_next(cx, a):
        cx.prove(not G['done'], 'names:nothing-after-a-remark')
        G['log'].append('next'); G['t'] = cx.fresh('token', 32); return G['t']
    def s_insert(cx, a):
        cx.prove(a[0].obj is names.obj and a[1].obj is G['word'].obj, 'names:the-name')
        G['log'].append('insert')
    def s_traverse(cx, a):
        cx.prove(a[0].obj is names.obj and isinstance(a[1], FuncPtr) and a[1].name == 'print_name', 'names:printed'); cx.events.append(('traverse', a))
    def s_del(cx, a):
        if not a[0].null: cx.free(a[0])
    ctx.stubs.update(load_source_file=s_load, new_lex=s_lex, lex_line=s_line, lex_token=lambda cx, a: G['t'], lex_next=s_next, lex_word=lambda cx, a: G['word'],
                     new_unique_strings=lambda cx, a: names, insert_unique_string=s_insert, traverse_unique_strings=s_traverse,
                     delete_source=s_del, delete_lex=s_del, delete_unique_strings=s_del)
    lp = Lines(G)
    ctx.loopspecs = [lp, Tokens(G)]
    kind, r = ctx.run('list_names', [name, crunched], lb(ctx))
    ctx.loopspecs = []
    ctx.prove(kind == 'ret', 'names:returns', kind)
    if G['src'].null: ctx.prove(not [e for e in ctx.events if e[0] == 'traverse'], 'names:no-file'); ctx.cover('none'); return
    ctx.cover('listed')
    ctx.prove(eq(lp.done, g['used'], 32), 'names:every-line')
    k = [e[0] for e in ctx.events]
    ctx.prove(k.count('traverse') == 1 and all(p.obj.freed for p in (lex, names, g['p'])), 'names:printed-once-and-released')
def one_name(ctx):
    """a built-in function is marked *, a printing operator =, any other name not"""
    name = new_string(ctx, 'name')
    b, p = ctx.choose(2), ctx.choose(2)
    S = ctx.stubs
    S['builtin'] = lambda cx, a: (cx.prove(a[0].obj is name.obj, 'name:asked'), mk(cx, 'BUILTIN', 'b', heap=False) if b else NULL)[1]
    S['name_is_print_builtin'] = lambda cx, a: (cx.prove(a[0].obj is name.obj, 'name:asked'), bool(p))[1]
    kind, r = ctx.run('print_name', [name], lb(ctx))
    ctx.cover('%d%d' % (b, p))
    ctx.prove(kind == 'ret', 'name:returns')
    only(ctx, 'stdout', 'name')
    out = out_of(ctx)
    lit = b'* ' if b else b'= ' if p else b'  '
    ctx.prove(len(out) == 3 and out[0] == ('lit', lit) and out[1][0] == 's' and out[1][1].same(strref(ctx, name)) and out[2] == ('lit', b'\n'), 'name:line', repr(out))
def memory_report(ctx):
    from .system import counters
    C = counters(ctx)
    kind, r = ctx.run('report_memory', [], lb(ctx))
    ctx.cover('report')
    out = out_of(ctx)
    ctx.prove(kind == 'ret' and len(out) == 5 and [out[i] for i in (0, 2, 4)] == [('lit', b'\nmalloc: '), ('lit', b'\nfree:   '), ('lit', b'\n')], 'report:text', repr(out))
    for i, n in ((1, 'malloc_count'), (3, 'free_count')): ctx.prove(out[i][0] == '10lu' and B(eq(out[i][1], C[n][1], 64)), 'report:counts')
def version(ctx):
    kind, r = ctx.run('print_version', [], lb(ctx))
    out = out_of(ctx)
    ctx.cover('version')
    ctx.prove(kind == 'ret' and all(k in ('lit', 's', 'u') for k, v in out), 'version:text')
    def t(k, v): return v if k == 'lit' else v.concrete() if k == 's' else str(v).encode()
    ctx.prove(b''.join(t(k, v) for k, v in out) == b'Legacy Basic 3.2.0 Copyright (c) 2022-24 Nigel Perks\n\n', 'version:text')
ALL += ['main_function', 'one_file', 'list_file', 'list_names', 'one_name', 'memory_report', 'version']

# ---------------------------------------------------------------- stringuniq.c
class Trees:
    """ordered trees of texts.  A text is known by its rank in the (case-folded) order; a subtree
    is opaque: for an arbitrary text of rank k, HAS says whether the subtree contains it"""
    def __init__(self, ctx):
        self.ctx = ctx
        self.ranks, self.has = {}, {}
        self.k = ctx.fresh('anyrank', 32)
        ctx.stubs.update(ALLOC)
        ctx.stubs['strcasecmp'] = self.cmp
    def rank(self, p):
        n = strref(self.ctx, p).node
        for m, r, keep in self.ranks.values():
            if m is n: return r
        r = self.ctx.fresh('rank', 32)
        self.ranks[id(n)] = (n, r, p)
        return r
    def cmp(self, cx, a):
        x, y = self.rank(a[0]), self.rank(a[1])
        r = cx.fresh('order', 32)
        cx.assume(Iff(eq(r, 0, 32), eq(x, y, 32)))
        cx.assume(Iff(icmp('slt', 32, r, 0), ult(x, y, 32)))
        return r
    def opaque(self, name):
        ctx = self.ctx
        if ctx.choose(2) == 1: return NULL
        p = Ptr(ctx.new_obj(name, size=ctx.prog.di.size('node'), heap=True))
        p.obj.tag = ('tree', name); self.has[p.obj] = ctx.fresh_bool('has')
        return p
    def HAS(self, p):
        if p.null: return False
        if p.obj in self.has: return self.has[p.obj]
        g = lambda f: self.get(p, f)
        return Or(eq(self.rank(g('s')), self.k, 32), self.HAS(g('left')), self.HAS(g('right')))
    def get(self, p, f):
        off, key = self.ctx.prog.di.field('node', f)
        return self.ctx.load(p.plus(off), key)
    def tree(self):
        """a non-empty ordered tree"""
        ctx = self.ctx
        self.l, self.r = self.opaque('left'), self.opaque('right')
        self.s = new_string(ctx, 'text')
        # heap block of a node
        p = mk(ctx, 'node', 'tree', dict(s=self.s, left=self.l, right=self.r))
        r = self.rank(self.s)
        if not self.l.null: ctx.assume(Implies(self.HAS(self.l), ult(self.k, r, 32)))
        if not self.r.null: ctx.assume(Implies(self.HAS(self.r), ult(r, self.k, 32)))
        return p
    def s_insert(self, cx, a):
        """the contract of insert_node, for a subtree"""
        t, s = a
        cx.events.append(('insert', t))
        had = self.HAS(t)
        new = Or(had, eq(self.rank(s), self.k, 32))
        if not t.null:
            self.has[t.obj] = new; return t
        p = Ptr(cx.new_obj('sub', size=cx.prog.di.size('node'), heap=True))
        p.obj.tag = ('tree', 'sub'); self.has[p.obj] = new
        return p
def name_insert(ctx):
    """the set has the text and whatever it had, in order; equal texts are kept once"""
    T = Trees(ctx)
    M = module_of(ctx, 'stringuniq')
    s = new_string(ctx, 'new')
    t = NULL if ctx.choose(2) == 1 else T.tree()
    before = T.HAS(t)
    ctx.stubs['insert_node'] = T.s_insert
    kind, r = ctx.run('insert_node', [t, s], M)
    ctx.prove(kind == 'ret' and isinstance(r, Ptr) and not r.null, 'set:insert-returns', kind)
    ctx.cover('%s' % t.null)
    ctx.prove(Iff(T.HAS(r), Or(before, eq(T.rank(s), T.k, 32))), 'set:has-the-text-and-the-others')
    if t.null: 
        p = T.get(r, 's')
        ctx.prove(p.obj is not s.obj and p.obj.heap and not p.obj.freed, 'set:owns-its-texts')
        ctx.prove(T.get(r, 'left').null and T.get(r, 'right').null, 'set:new-node'); return
    c = T.rank(T.get(r, 's'))
    for f, before_it in (('left', True), ('right', False)):
        sub_ = T.get(r, f)
        if sub_.null: continue
        h = T.HAS(sub_)
        ctx.prove(Implies(h, ult(T.k, c, 32) if before_it else ult(c, T.k, 32)), 'set:in-order')
    if ctx.branch(eq(T.rank(s), T.rank(T.s), 32)):
        ctx.prove(not ctx.alloc_live, 'set:kept-once')
    # the old text and both subtrees are still there
    ctx.prove(not T.s.obj.freed and T.get(r, 's').obj is T.s.obj, 'set:texts-stay')
def name_walk(ctx):
    """the callback gets every text in order, each once; releasing releases each once"""
    T = Trees(ctx)
    M = module_of(ctx, 'stringuniq')
    t = NULL if ctx.choose(2) == 1 else T.tree()
    S = ctx.stubs
    S['cb'] = lambda cx, a: cx.events.append(('text', a[0]))
    if ctx.choose(2) == 0:
        S['traverse_tree'] = lambda cx, a: cx.events.append(('sub', a[0])) if not a[0].null else None
        cb = FuncPtr('cb')
        kind, r = ctx.run('traverse_tree', [t, cb], M)
        ctx.cover('walk:%s' % t.null)
        ctx.prove(kind == 'ret', 'set:walk-returns', kind)
        got = [(e[0], e[1].obj) for e in ctx.events]
        want = [] if t.null else ([('sub', T.l.obj)] if not T.l.null else []) + [('text', T.s.obj)] + ([('sub', T.r.obj)] if not T.r.null else [])
        ctx.prove(got == want, 'set:every-text-in-order', repr(got))
    else:
        def s_del(cx, a):
            if not a[0].null: cx.free(a[0])
        S['delete_tree'] = s_del
        kind, r = ctx.run('delete_tree', [t], M)
        ctx.cover('delete:%s' % t.null)
        ctx.prove(kind == 'ret', 'set:release-returns', kind)
        ctx.prove(t.null or all(p.null or p.obj.freed for p in (t, T.s, T.l, T.r)), 'set:everything-released')
def name_set(ctx):
    """the operations of the set"""
    M = module_of(ctx, 'stringuniq')
    ctx.stubs.update(ALLOC)
    which = ('new_unique_strings', 'insert_unique_string', 'traverse_unique_strings', 'delete_unique_strings')[ctx.choose(4)]
    S = ctx.stubs
    root = NULL if ctx.choose(2) == 1 else Ptr(ctx.new_obj('root', size=24, heap=True))
    p = Ptr(ctx.new_obj('set', size=8, heap=True)); ctx.store(p, 'ptr', root)
    s = new_string(ctx, 's'); new = Ptr(ctx.new_obj('newroot', size=24, heap=True))
    def note(n, ret=None):
        def f(cx, a): cx.events.append((n, a)); return ret
        S[n] = f
    note('insert_node', new); note('traverse_tree'); note('delete_tree')
    cb = FuncPtr('cb')
    kind, r = ctx.run(which, {'n': [], 'i': [p, s], 't': [p, cb], 'd': [p]}[which[0]], M)
    ctx.cover(which)
    ctx.prove(kind == 'ret', which, kind)
    ev = [e for e in ctx.events if e[0] != 'free']
    if which[0] == 'n': ctx.prove(not r.null and ctx.load(r, 'ptr').null and not ev, 'set:new-is-empty'); return
    if which[0] == 'i':
        ctx.prove(len(ev) == 1 and ev[0][0] == 'insert_node' and ev[0][1][0].obj is root.obj and ev[0][1][1].obj is s.obj, 'set:insert')
        ctx.prove(ctx.load(p, 'ptr').obj is new.obj, 'set:insert-kept')
    elif which[0] == 't':
        ctx.prove([e[0] for e in ev] == ['traverse_tree'] and ev[0][1][0].obj is root.obj and ev[0][1][1].name == 'cb' or root.null and not ev, 'set:walk')
    else: ctx.prove(([e[0] for e in ev] == ['delete_tree'] and ev[0][1][0].obj is root.obj or root.null and not ev) and p.obj.freed, 'set:release')
ALL += ['name_insert', 'name_walk', 'name_set']

# ---------------------------------------------------------------- interrupt.c, os.c
def interrupts(ctx):
    """while code runs, an interrupt raises the flag, which starts down; otherwise it has its default effect"""
    M = module_of(ctx, 'interrupt')
    g = ctx.global_obj('interrupted', M); g = g if isinstance(g, Ptr) else Ptr(g)
    ctx.stubs['signal'] = lambda cx, a: (cx.events.append(('signal', a)), NULL)[1]
    which = ('trap_interrupt', 'untrap_interrupt', 'handler')[ctx.choose(3)]
    old = ctx.load(g, 'i8')
    def handler():
        c2, r2 = ctx.run('trap_interrupt', [], M)
        f = [e[1][1] for e in ctx.events if e[0] == 'signal']
        return f[0].name if f and isinstance(f[0], FuncPtr) else None
    h = None
    if which == 'handler':
        h = handler()
        ctx.prove(h is not None, 'interrupt:handler')
        kind, r = ctx.run(h, [2], M)
        ctx.prove(kind == 'ret' and B(icmp('ne', 8, ctx.load(g, 'i8'), 0)), 'interrupt:flag-raised'); ctx.cover('handler'); return
    kind, r = ctx.run(which, [], M)
    ctx.cover(which)
    a = [e[1] for e in ctx.events if e[0] == 'signal']
    ctx.prove(kind == 'ret' and len(a) == 1 and B(eq(a[0][0], 2, 32)), 'interrupt:of-the-terminal')
    if which == 'trap_interrupt':
        ctx.prove(eq(ctx.load(g, 'i8'), 0, 8), 'interrupt:flag-starts-down')
        ctx.prove(isinstance(a[0][1], FuncPtr), 'interrupt:handler')
    else:
        ctx.prove(isinstance(a[0][1], Ptr) and a[0][1].null and a[0][1].off == 0, 'interrupt:default')
        ctx.prove(eq(ctx.load(g, 'i8'), old, 8), 'interrupt:flag-kept')
def screen(ctx):
    ctx.stubs['system'] = lambda cx, a: (cx.events.append(('system', strref(cx, a[0]).concrete())), cx.fresh('status', 32))[1]
    kind, r = ctx.run('clear_screen', [], module_of(ctx, 'os'))
    ctx.cover('screen')
    ctx.prove(kind == 'ret' and [e[1] for e in ctx.events if e[0] == 'system'] == [b'clear'], 'screen:cleared')
    only(ctx, 'stdout', 'screen')
ALL += ['interrupts', 'screen']

# ---------------------------------------------------------------- the program text, as read by the rest
def text_access(ctx):
    """number and text of a line, and the number of lines"""
    g = mk_source(ctx)
    kind, r = ctx.run('source_lines', [g['p']])
    ctx.prove(kind == 'ret' and B(eq(r, g['used'], 32)), 'text:number-of-lines')
    kind, r = ctx.run('source_name', [g['p']]); ctx.prove(kind == 'ret' and r.obj is sgetf(ctx, g['p'], 'SOURCE', 'name').obj, 'text:file-name')
    i = ctx.fresh('line', 32)
    if g['arr'] is None: ctx.cover('empty'); return
    if not ctx.branch(ult(i, g['used'], 32)): ctx.cover('outside'); return
    ctx.cover('inside')
    kind, r = ctx.run('source_linenum', [g['p'], i]); ctx.prove(kind == 'ret' and B(eq(r, g['num'].read(ctx, z64(i)), 32)), 'text:number')
    kind, r = ctx.run('source_text', [g['p'], i]); ctx.prove(kind == 'ret' and B(ctx.ptr_cmp('eq', r, g['text'].read(ctx, z64(i)))), 'text:text')
    n = ctx.fresh('new', 32); ctx.assume(icmp('ne', 32, n, 0))
    kind, r = ctx.run('set_source_linenum', [g['p'], i, n]); ctx.prove(kind == 'ret', 'text:renumbered', kind)
    now = comp(ctx, g['arr'], 'source_line', 'num')
    ctx.prove(eq(now.read(ctx, z64(i)), n, 32), 'text:renumbered')
    j = ctx.fresh('other', 64); ctx.assume(ult(j, z64(g['used']))); 
    if not ctx.branch(eq(j, z64(i), 64)): ctx.prove(eq(now.read(ctx, j), g['num'].read(ctx, j), 32), 'text:others-keep-their-number')
def line_report(ctx):
    """a line in a message: its number and text; nothing for a line that is not there"""
    g = mk_source(ctx)
    p = NULL if ctx.choose(4) == 3 else g['p']
    i = ctx.fresh('line', 32)
    kind, r = ctx.run('print_source_line', [p, i, file_arg(ctx, 'out')])
    ctx.prove(kind == 'ret', 'line-report:returns', kind)
    only(ctx, 'out', 'line-report')
    out = out_of(ctx, 'out')
    if p.null or not ctx.branch(ult(i, g['used'], 32)): ctx.cover('none'); ctx.prove(not out, 'line-report:nothing', repr(out)); return
    ctx.cover('line')
    ctx.prove(len(out) == 3 and out[0][0] == 'u' and out[1] == ('lit', b' ') and out[2][0] == 's', 'line-report:number-and-text', repr(out))
    ctx.prove(eq(out[0][1], g['num'].read(ctx, z64(i)), 32), 'line-report:number')
    ctx.prove(out[2][1].same(strref(ctx, g['text'].read(ctx, z64(i)))), 'line-report:text')
def new_text(ctx):
    ctx.stubs.update(ALLOC)
    nm = NULL if ctx.choose(2) == 1 else new_string(ctx, 'name')
    kind, r = ctx.run('new_source', [nm])
    ctx.cover('%s' % nm.null)
    ctx.prove(kind == 'ret' and not r.null, 'new-text:returns')
    for f in ('used', 'allocated'): ctx.prove(eq(sgetf(ctx, r, 'SOURCE', f), 0, 32), 'new-text:empty', f)
    ctx.prove(sgetf(ctx, r, 'SOURCE', 'lines').null, 'new-text:empty')
    n = sgetf(ctx, r, 'SOURCE', 'name')
    ctx.prove(n.null == nm.null and (nm.null or n.obj is not nm.obj and strref(ctx, n).same(strref(ctx, nm))), 'new-text:name')
def text_error(ctx):
    """a line of a file that cannot be loaded: file, line and message on stderr, failure status"""
    g = mk_source(ctx)
    nm = NULL if ctx.choose(2) == 1 else new_string(ctx, 'name')
    ssetf(ctx, g['p'], 'SOURCE', 'name', nm)
    kind, r = ctx.run('source_error', [g['p'], ctx.cstr('the message'), new_string(ctx, 'arg')], module_of(ctx, 'source'))
    ctx.cover('%s' % nm.null)
    ctx.prove(kind == 'exit' and B(icmp('ne', 32, r, 0)), 'load-error:failure-status', kind)
    only(ctx, 'stderr', 'load-error')
    out = [v if k == 'lit' else k for k, v in out_of(ctx, 'stderr')]
    if out[-1:] == [b'\n']: out.pop()
    ctx.prove(out == ([] if nm.null else ['s', b'(', 'u', b'): ']) + ['v'], 'load-error:message', repr(out))
    for k, v in out_of(ctx, 'stderr'):
        if k == 'u': ctx.prove(eq(v, ibin('add', 32, g['used'], 1), 32), 'load-error:line')
def builtin_lookup(ctx):
    """a name, in either case, is a built-in (or reserved) name exactly when it is in the table"""
    from .symbols import BUILTINS, RESERVED
    from .tokens import Words
    M = module_of(ctx, 'builtin')
    ctx.initial = ('builtins',)
    names = [b[0].decode() for b in BUILTINS] + [r.decode() for r in RESERVED]
    W = Words.__new__(Words); W.ctx = ctx; W.mem = {}
    W.s = new_string(ctx, 'name')
    W.which = ([None] + names)[ctx.choose(1 + len(names))]
    def cmp(cx, a):
        w = W.sides(a)
        cx.prove(w in names, 'builtin:known-name', w)
        return W.result(w == W.which)
    ctx.stubs['strcasecmp'] = cmp
    ctx.unroll = 400
    kind, r = ctx.run('builtin', [W.s], M)
    ctx.cover(W.which or 'other')
    ctx.prove(kind == 'ret', 'builtin:returns', kind)
    if W.which is None: ctx.prove(r.null, 'builtin:not-one'); return
    ctx.prove(not r.null and strref(ctx, ctx.load(r.plus(ctx.prog.di.field('BUILTIN', 'name')[0]), 'ptr')).concrete() == W.which.encode(), 'builtin:entry', W.which)
ALL += ['text_access', 'line_report', 'new_text', 'text_error', 'builtin_lookup']
