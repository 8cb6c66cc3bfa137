"""Contracts of the functions of run.c around execute(): running, stopping, continuing, errors,
direct statements and changes to the stored program."""
from .vmstate import *
from .store import module_of
from lbv.engine import LongJmp

CODES = ('stored_program', 'immediate_code')
def depth(ctx, V, f, n):
    k = ctx.choose(n + 1)
    ctx.assume(eq(V.get(f), k, 32)); V.set(f, k)
    return k
def blk(ctx, name, kind):
    o = Obj(ctx.name(name), 64, None, 'lazy', None, False, True)
    ctx.objs += 1; o.born = ctx.objs; o.tag = (kind, name)
    return Ptr(o)
class World:
    """a VM between statements: each code is compiled (bcode, index and source present) or not"""
    def __init__(self, ctx, imm=True):
        self.ctx = ctx
        V = self.V = VM(ctx, None)
        V.bcode = self.bcode
        self.made = {}
        # stored program: nothing, text only, or compiled
        st = ctx.choose(3)
        self.state = ('none', 'text', 'compiled')[st]
        self.src = mk(ctx, 'SOURCE', 'source') if st else NULL
        V.set('stored_program.source', self.src)
        self.bc = self.newbcode('stored') if st == 2 else NULL
        self.ix = blk(ctx, 'index', 'LINE_MAP') if st == 2 else NULL
        V.set('stored_program.bcode', self.bc); V.set('stored_program.index', self.ix)
        self.imm = {}
        have = imm and ctx.choose(2) == 0
        for f in ('source', 'bcode', 'index'):
            p = NULL
            if have: p = self.newbcode('imm') if f == 'bcode' else blk(ctx, 'imm.' + f, f)
            self.imm[f] = p
            V.set('immediate_code.' + f, p)
        self.calls = []
        st = ctx.stubs
        st.update(ALLOC)
        st['symbol'] = V.s_symbol
        def deleter(cx, a):
            if not a[0].null: cx.free(a[0])
        for f in ('delete_line_map', 'delete_bcode', 'delete_source'): st[f] = deleter
        def note(name, ret=None):
            def f(cx, a):
                cx.events.append((name, a)); return ret(cx, a) if callable(ret) else ret
            st[name] = f
        for n in ('clear_symbol_table_names', 'init_builtins', 'clear_symbol_table_values', 'trap_interrupt', 'untrap_interrupt'): note(n)
        note('print_source_line')
        def parse(cx, a):
            if cx.choose(2) == 1: return NULL
            self.parsed = self.newbcode('new'); cx.alloc_live.append(self.parsed.obj)
            return self.parsed
        note('parse_source', parse)
        def index(cx, a):
            self.indexed = blk(cx, 'newindex', 'LINE_MAP'); cx.alloc_live.append(self.indexed.obj)
            return self.indexed
        note('bcode_index', index)
        def run(cx, a):
            self.at_run = {p: self.V.get(p) for p in ('code_state.code', 'code_state.pc', 'code_state.source_line', 'sp', 'ssp', 'rsp', 'for_sp', 'program_data', 'immediate_data', 'fn.code_state.code', 'stopped_program.code',
                                                       'stored_program.bcode', 'stored_program.index', 'immediate_code.bcode', 'immediate_code.index', 'immediate_code.source')}
            cx.events.append(('run', a))
            self.after_run(cx)
        st['run'] = run
        self.after_run = lambda cx: None
    def newbcode(self, name):
        ctx = self.ctx
        used = ctx.fresh(name + '.used', 32)
        ctx.assume(ule(used, 1 << 26, 32))
        inst = mk_array(ctx, name + '.inst', z64(used), struct='BINST', mkcomp=lambda c, fo, k: BaseObj(lambda c2, i: NULL) if k == 'ptr' else None)
        b = mk(ctx, 'BCODE', name + '.bcode', dict(inst=inst, used=used, allocated=used))
        b.obj.tag = ('BCODE', name)
        return b
    def bcode(self, name): raise Structural('bcode')
    def names(self): return [e[0] for e in self.ctx.events if e[0] != 'out']
    def ev(self, name): return [e for e in self.ctx.events if e[0] == name]
    def coherent(self, what):
        """compiled code, its index and its text go together"""
        ctx, V = self.ctx, self.V
        for c in CODES:
            s, b, i = (V.get('%s.%s' % (c, f)) for f in ('source', 'bcode', 'index'))
            ok = (b.null == i.null) and (b.null or not s.null) and not any(p.obj is not None and p.obj.freed for p in (s, b, i))
            ctx.prove(ok, what + ':code-and-index-together', c)
        # nothing made in between is lost
        held = [V.get('%s.%s' % (c, f)).obj for c in CODES for f in ('source', 'bcode', 'index')]
        for o in ctx.alloc_live: ctx.prove(o.freed or any(o is h for h in held), what + ':no-leak', o.name)
        for p in [self.src, self.bc, self.ix] + list(self.imm.values()):
            if p.obj is not None: ctx.prove(p.obj.freed or any(p.obj is h for h in held), what + ':no-leak', p.obj.name)
    def unchanged_program(self, what):
        ctx, V = self.ctx, self.V
        for f, p in (('source', self.src), ('bcode', self.bc), ('index', self.ix)):
            ctx.prove(V.get('stored_program.' + f).obj is p.obj and (p.null or not p.obj.freed), what + ':program-untouched', f)
    def control_reset(self, what, get=None):
        ctx, V = self.ctx, self.V
        get = get or V.get
        for f in ('sp', 'ssp', 'rsp', 'for_sp', 'program_data', 'immediate_data'): ctx.prove(eq(get(f), 0, 32), what + ':' + f)
        for f in ('fn.code_state.code', 'stopped_program.code'): ctx.prove(get(f).null, what + ':' + f)
def strings(ctx, V, n):
    """the n strings on the stack at the start"""
    return [V.sbase.read(ctx, i) for i in range(n)]

# ---------------------------------------------------------------- compile, RUN
def compiled_ok(W, what):
    """after ensure_program_compiled: recompiled iff there was text but no code"""
    ctx, V = W.ctx, W.V
    n = [x for x in W.names() if x in ('clear_symbol_table_names', 'init_builtins', 'parse_source', 'bcode_index')]
    if W.state != 'text':
        return None
    ok = W.ev('parse_source')[0:1]
    ctx.prove(n[:3] == ['clear_symbol_table_names', 'init_builtins', 'parse_source'], what + ':names-start-afresh', repr(n))
    a = ok[0][1]
    ctx.prove(a[0].obj is W.src.obj and a[1].obj is V.st.obj, what + ':compiles-the-stored-text')
    return True
def run_program(ctx):
    W = World(ctx); V = W.V
    k = depth(ctx, V, 'ssp', 2)
    ss = strings(ctx, V, k)
    kind, r = ctx.run('run_program', [V.p])
    ctx.prove(kind == 'ret', 'run:returns')
    W.coherent('run')
    ran = W.ev('run')
    ctx.cover('run_program:%s:%d' % (W.state, len(ran)))
    if W.state == 'none': ctx.prove(not W.names(), 'run:nothing-to-run'); return
    if W.state == 'text':
        compiled_ok(W, 'run')
        ok = not V.get('stored_program.bcode').null
        ctx.prove(len(W.ev('parse_source')) == 1, 'run:compiled-once')
        if not ok: ctx.prove(not ran, 'run:a-program-with-errors-does-not-run'); return
        ctx.prove(V.get('stored_program.bcode').obj is W.parsed.obj, 'run:runs-what-was-compiled')
        x = W.ev('bcode_index')[0][1]
        ctx.prove(x[0].obj is W.parsed.obj and x[1].obj is W.src.obj, 'run:index-of-this-program')
    else: ctx.prove(not W.ev('parse_source') and not W.ev('clear_symbol_table_names'), 'run:compiled-code-is-kept')
    ctx.prove(len(ran) == 1 and W.names()[-1] == 'run', 'run:runs-once')
    A = W.at_run
    ctx.prove(ctx.ptr_cmp('eq', A['code_state.code'], V.codeptr('stored')) is True and eq(A['code_state.pc'], 0, 32), 'run:from-the-start')
    W.control_reset('run:fresh', A.get)
    ctx.prove(all(s.obj.freed for s in ss), 'run:old-operands-released')
    ctx.prove(eq(V.get('col'), 1, 32), 'run:new-line')

# ---------------------------------------------------------------- direct statements
def run_immediate(ctx):
    W = World(ctx); V = W.V
    text = new_string(ctx, 'line')
    W.wrapped = None
    def wrap(cx, a):
        cx.prove(a[0].obj is text.obj and a[0].off == 0, 'direct:the-line-as-typed')
        W.wrapped = mk(cx, 'SOURCE', 'direct'); cx.alloc_live.append(W.wrapped.obj)
        cx.events.append(('wrap', a)); return W.wrapped
    ctx.stubs['wrap_source_text'] = wrap
    V.set('ssp', 0); V.set('sp', 0)
    kept = {p: V.get(p) for p in ('program_data', 'rsp', 'for_sp', 'stopped_program.pc', 'stopped_program.source_line')}
    # a loop or call into direct code is left by this run, or not
    nr, nf = ctx.choose(3), ctx.choose(3)
    fn = [None]
    def after(cx):
        fixed = [nr, nf]
        V.set('rsp', nr); V.set('for_sp', nf)
        fn[0] = [V.get('retstack[%d].code' % i) for i in range(nr)] + [V.get('for_stack[%d].code_state.code' % i) for i in range(nf)]
        V.set('fn.code_state.code', NULL); V.set('sp', 0); V.set('ssp', 0)
    W.after_run = after
    kind, r = ctx.run('run_immediate', [V.p, text])
    ctx.prove(kind == 'ret', 'direct:returns')
    W.coherent('direct')
    for p in W.imm.values(): ctx.prove(p.null or p.obj.freed, 'direct:earlier-line-released')
    parses = W.ev('parse_source'); ran = W.ev('run')
    ctx.cover('direct:%s:%d' % (W.state, len(ran)))
    if W.state == 'text':
        compiled_ok(W, 'direct')
        if V.get('stored_program.bcode').null:
            ctx.prove(not ran and len(parses) == 1, 'direct:not-run-when-the-program-has-errors')
            ctx.prove(V.get('immediate_code.bcode').null, 'direct:no-code'); return
        parses = parses[1:]
    else: W.unchanged_program('direct')
    ctx.prove(len(parses) == 1 and parses[0][1][0].obj is W.wrapped.obj and parses[0][1][1].obj is V.st.obj, 'direct:compiles-the-line-with-the-program-names')
    if V.get('immediate_code.bcode').null:
        ctx.prove(not ran and W.wrapped.obj.freed, 'direct:a-line-with-errors-does-not-run')
        return
    ctx.prove(len(ran) == 1, 'direct:runs-once')
    A = W.at_run
    ctx.prove(ctx.ptr_cmp('eq', A['code_state.code'], V.codeptr('imm')) is True and eq(A['code_state.pc'], 0, 32) and eq(A['immediate_data'], 0, 32), 'direct:from-the-start')
    ctx.prove(A['immediate_code.bcode'].obj is W.parsed.obj and A['immediate_code.index'].obj is W.indexed.obj and A['immediate_code.source'].obj is W.wrapped.obj, 'direct:runs-the-line')
    if W.state == 'compiled':
        for f in ('program_data', 'rsp', 'for_sp'): ctx.prove(eq(A[f], kept[f], 32), 'direct:program-state-kept', f)
    other = any(ctx.ptr_cmp('eq', c, V.codeptr('imm')) is True or ctx.branch(ctx.ptr_cmp('eq', c, V.codeptr('imm'))) for c in fn[0])
    if other:
        ctx.cover('direct:reset')
        W.control_reset('direct:nothing-left-of-the-line')
    else:
        ctx.prove(eq(V.get('rsp'), nr, 32) and eq(V.get('for_sp'), nf, 32), 'direct:program-state-kept')

# ---------------------------------------------------------------- CONT
def continue_(ctx):
    W = World(ctx); V = W.V
    saved = None
    if ctx.choose(2) == 0: V.set('stopped_program.code', NULL)
    else:
        V.set('stopped_program.code', V.codeptr('stored')); saved = True
    pc, line = V.get('stopped_program.pc'), V.get('stopped_program.source_line')
    kept = {f: V.get(f) for f in ('sp', 'ssp', 'rsp', 'for_sp', 'program_data')}
    kind, r = ctx.run('vm_continue', [V.p])
    ctx.prove(kind == 'ret', 'cont:returns')
    W.unchanged_program('cont'); W.coherent('cont')
    ok = saved and W.state == 'compiled'
    ran = W.ev('run')
    ctx.cover('cont:%s' % bool(ok))
    if not ok:
        ctx.prove(Not(as_bool(r)), 'cont:refused-when-nothing-is-stopped'); ctx.prove(not W.names(), 'cont:refusal-runs-nothing'); return
    ctx.prove(as_bool(r), 'cont:accepted')
    ctx.prove(len(ran) == 1, 'cont:runs-once')
    used = sgetf(ctx, W.bc, 'BCODE', 'used')
    atstop = ctx.branch(ult(pc, used, 32)) and ctx.branch(eq(comp(ctx, sgetf(ctx, W.bc, 'BCODE', 'inst'), 'BINST', 'op').read(ctx, z64(pc)), enum(ctx, 'B_STOP'), 16))
    A = W.at_run
    ctx.prove(ctx.ptr_cmp('eq', A['code_state.code'], V.codeptr('stored')) is True, 'cont:in-the-program')
    ctx.prove(eq(A['code_state.pc'], ibin('add', 32, pc, 1) if atstop else pc, 32), 'cont:at-the-statement-after-the-STOP')
    ctx.prove(eq(A['code_state.source_line'], line, 32), 'cont:line')
    for f in kept: ctx.prove(eq(A[f], kept[f], 32), 'cont:state-as-it-was', f)

# ---------------------------------------------------------------- changes to the program
def invalidated(W, what, changed, source=None):
    ctx, V = W.ctx, W.V
    ctx.prove(V.get('stored_program.bcode').null and V.get('stored_program.index').null, what + ':old-code-is-dropped')
    for p in (W.bc, W.ix): ctx.prove(p.null or p.obj.freed, what + ':old-code-released')
    ctx.prove(not W.ev('run') and not W.ev('clear_symbol_table_values'), what + ':nothing-runs')
    W.coherent(what)
    for f in ('source', 'bcode', 'index'): ctx.prove(V.get('immediate_code.' + f).obj is W.imm[f].obj, what + ':direct-line-untouched')
def edits(ctx):
    W = World(ctx); V = W.V
    which = ctx.choose(6)
    num = ctx.fresh('num', 32)
    E = []
    def rec(name, ret=None):
        def f(cx, a):
            E.append((name, a)); return ret(cx, a) if callable(ret) else ret
        ctx.stubs[name] = f
    rec('clear_source'); rec('delete_source_line')
    found, idx = ctx.choose(2) == 1, ctx.fresh('index', 32)
    def find(cx, a):
        if found: cx.store(a[2], 'i32', idx)
        return found
    rec('find_source_linenum', find)
    def newsrc(cx, a):
        p = mk(cx, 'SOURCE', 'newsource'); cx.alloc_live.append(p.obj); return p
    rec('new_source', newsrc); rec('enter_source_line')
    rec('load_source_file', lambda cx, a: newsrc(cx, a) if cx.choose(2) == 0 else NULL)
    R_save = []
    def save(cx, a): R_save.append(cx.choose(2) == 0); return R_save[-1]
    rec('save_source_file', save)
    name = new_string(ctx, 'name')
    def done(what): return [e for e in E if e[0] == what]
    if which == 0:
        kind, r = ctx.run('vm_new_program', [V.p]); ctx.cover('new'); ctx.prove(kind == 'ret', 'new:returns')
        c = done('clear_source')
        ctx.prove(len(c) == (0 if W.src.null else 1) and all(e[1][0].obj is W.src.obj for e in c) and len(E) == len(c), 'new:clears-the-text')
        ctx.prove(V.get('stored_program.source').obj is W.src.obj, 'new:same-store')
        invalidated(W, 'new', True)
    elif which == 1:
        kind, r = ctx.run('vm_delete_source_line', [V.p, num]); ctx.prove(kind == 'ret', 'delete:returns')
        f, d = done('find_source_linenum'), done('delete_source_line')
        ctx.prove(V.get('stored_program.source').obj is W.src.obj, 'delete:same-store')
        if W.src.null or not found:
            ctx.cover('delete:absent'); ctx.prove(not d, 'delete:absent-line-changes-nothing'); W.unchanged_program('delete'); return
        ctx.cover('delete')
        ctx.prove(len(f) == 1 and f[0][1][0].obj is W.src.obj and eq(f[0][1][1], num, 32), 'delete:finds-the-line')
        ctx.prove(len(d) == 1 and d[0][1][0].obj is W.src.obj and eq(d[0][1][1], idx, 32), 'delete:that-line')
        invalidated(W, 'delete', True)
    elif which == 2:
        text = new_string(ctx, 'text')
        kind, r = ctx.run('vm_enter_source_line', [V.p, num, text]); ctx.prove(kind == 'ret', 'enter:returns'); ctx.cover('enter')
        s = V.get('stored_program.source')
        ctx.prove(not s.null and (W.src.null or s.obj is W.src.obj), 'enter:same-store')
        e = done('enter_source_line')
        ctx.prove(len(e) == 1 and e[0][1][0].obj is s.obj and eq(e[0][1][1], num, 32) and e[0][1][2].obj is text.obj and e[0][1][2].off == 0, 'enter:number-and-text')
        ctx.prove(len(done('new_source')) == (1 if W.src.null else 0), 'enter:creates-the-store-once')
        invalidated(W, 'enter', True)
    elif which == 3:
        kind, r = ctx.run('vm_load_source', [V.p, name]); ctx.prove(kind == 'ret', 'load:returns')
        l = done('load_source_file')
        ctx.prove(len(l) == 1 and l[0][1][0].obj is name.obj, 'load:that-file')
        s = V.get('stored_program.source')
        if s.obj is W.src.obj:
            ctx.cover('load:failed')
            ctx.prove(Not(as_bool(r)), 'load:failure-reported'); W.unchanged_program('load'); W.coherent('load'); return
        ctx.cover('load')
        ctx.prove(as_bool(r), 'load:success-reported')
        ctx.prove(W.src.null or W.src.obj.freed, 'load:replaces-the-old-text')
        invalidated(W, 'load', True)
    elif which == 4:
        kind, r = ctx.run('vm_save_source', [V.p, name]); ctx.prove(kind == 'ret', 'save:returns'); ctx.cover('save')
        s = done('save_source_file')
        if W.src.null: ctx.prove(Not(as_bool(r)) , 'save:nothing-to-save'); ctx.prove(not s, 'save:nothing-to-save')
        else: ctx.prove(len(s) == 1 and s[0][1][0].obj is W.src.obj and s[0][1][1].obj is name.obj, 'save:the-stored-text'); ctx.prove(Iff(as_bool(r), R_save[-1]), 'save:result-reported')
        W.unchanged_program('save'); W.coherent('save')
    else:
        kind, r = ctx.run('vm_source_changed', [V.p]); ctx.prove(kind == 'ret', 'changed:returns'); ctx.cover('changed')
        ctx.prove(V.get('stored_program.source').obj is W.src.obj, 'changed:same-store')
        invalidated(W, 'changed', True)

# ---------------------------------------------------------------- running to the end, STOP, errors
class RunLoop(LoopSpec):
    """between instructions the VM is in an arbitrary state"""
    def __init__(self, R): LoopSpec.__init__(self, name='run', func='run', roles={}); self.R = R
    def havoc(self, ctx, L, v): self.R.state(ctx)
    def may_write(self, ctx, L, o, kind, off): return o is self.R.V.p.obj or o is self.R.flag.obj
class Runner:
    def __init__(self, ctx):
        self.ctx = ctx
        V = self.V = VM(ctx, ('stored', 'imm'))
        self.flag = Ptr(ctx.global_obj('interrupted', module_of(ctx, 'interrupt')))
        self.n = 0
        self.errors = 0
        self.started = False
        self.longjmp = V.p.plus(ctx.prog.di.field('VM', 'errjmp')[0])
        ctx.stubs.update(ALLOC)
        ctx.stubs['symbol'] = V.s_symbol
        ctx.stubs['trap_interrupt'] = self.trap
        ctx.stubs['untrap_interrupt'] = lambda c, a: c.events.append(('untrap',))
        ctx.stubs['execute'] = self.execute
        ctx.stubs['print_source_line'] = lambda c, a: c.events.append(('source-line', a[0], a[1], a[2]))
        for c in ('stored_program', 'immediate_code', 'def_code'): V.set(c + '.source', mk(ctx, 'SOURCE', c + '.src'))
        V.bcode('stored'); V.bcode('imm'); V.bcode('def')
    def trap(self, cx, a):
        cx.events.append(('trap',)); cx.poke(self.flag, 'i8', 0)
    def used(self):
        V = self.V
        c = V.get('code_state.code')
        for n in ('stored', 'imm', 'def'):
            if self.ctx.ptr_cmp('eq', c, V.codeptr(n)) is True: return n, V.get_used(n)
        raise Structural('code')
    def state(self, cx):
        """an arbitrary state between instructions"""
        V = self.V
        self.n += 1
        which = ('stored', 'imm', 'def')[cx.choose(3)]
        V.set('code_state.code', V.codeptr(which))
        V.set('code_state.pc', cx.fresh('pc', 32)); V.set('code_state.source_line', cx.fresh('line', 32))
        b = cx.fresh('stopped', 8); cx.assume(ule(b, 1, 8)); V.set('stopped', b)
        b = cx.fresh('interrupted', 8); cx.assume(ule(b, 1, 8)); cx.poke(self.flag, 'i8', b)
        V.set('sp', cx.fresh('sp', 32))
        V.set('ssp', 0)
        V.set('for_sp', 0)
        V.set('fn.code_state.code', V.codeptr(('stored', 'imm')[cx.choose(2)]) if which == 'def' else NULL)
        self.which = which
    def execute(self, cx, a):
        V = self.V
        cx.prove(a[0].obj is V.p.obj, 'run:this-vm')
        n, u = self.used()
        cx.prove(ult(V.get('code_state.pc'), u, 32), 'run:executes-instructions-of-the-code-only')
        cx.prove(eq(V.get('stopped'), 0, 8), 'run:not-after-STOP')
        cx.prove(eq(cx.peek(self.flag, 'i8'), 0, 8), 'run:not-after-an-interruption')
        self.state(cx)
        if cx.choose(2) == 1:
            # a run-time error in an arbitrary state (operands and a function call pending)
            self.errors += 1
            k = cx.choose(3)
            V.set('ssp', k); V.ssp0 = k
            self.pending = [V.sbase.read(cx, i) for i in range(k)]
            V.sseg.comps = {}
            self.fn = {p: V.get('fn.' + p) for p in ('code_state.code', 'code_state.pc', 'code_state.source_line', 'param_id', 'param_val', 'param_defined')}
            self.psym = V.symbol(self.fn['param_id'], 'SYM_VARIABLE', 'TYPE_NUM')
            cx.assume(ule(self.fn['param_defined'], 1, 8))
            self.pval = (sget(cx, self.psym, 'val.num'), sget(cx, self.psym, 'defined'))
            self.mark = {p: V.get(p) for p in ('rsp', 'for_sp', 'program_data', 'immediate_data', 'code_state.pc', 'code_state.source_line', 'col')}
            raise LongJmp(cx.jmpkey(self.longjmp), 1)
        return None
def run_(ctx):
    R = Runner(ctx); V = R.V
    ctx.loopspecs = [RunLoop(R)]
    V.set('strict_for', 0)
    ctx.res.assumptions.add('strict options are off')
    stop0 = {p: V.get('stopped_program.' + p) for p in ('code', 'pc', 'source_line')}
    V.set('stopped', ctx.fresh('stale', 8))
    kind, r = ctx.run('run', [V.p], module_of(ctx, 'run'))
    ctx.loopspecs = []
    ctx.prove(kind == 'ret', 'run:returns')
    names = [e[0] for e in ctx.events if e[0] in ('trap', 'untrap')]
    ctx.prove(names == ['trap', 'untrap'], 'run:interrupts-trapped-while-running', repr(names))
    stopped = ctx.branch(icmp('ne', 8, V.get('stopped'), 0))
    intr = ctx.branch(icmp('ne', 8, ctx.peek(R.flag, 'i8'), 0))
    n, u = R.used()
    if R.errors:
        ctx.cover('run:error')
        ctx.prove(eq(V.get('sp'), 0, 32) and eq(V.get('ssp'), 0, 32), 'run:operands-discarded-after-an-error')
        ctx.prove(all(p.obj.freed for p in R.pending), 'run:strings-released-after-an-error')
        if not R.fn['code_state.code'].null:
            ctx.cover('run:error-in-function')
            ctx.prove(V.get('fn.code_state.code').null, 'run:no-function-call-left')
            ctx.prove(ctx.ptr_cmp('eq', V.get('code_state.code'), R.fn['code_state.code']) is True and eq(V.get('code_state.pc'), R.fn['code_state.pc'], 32), 'run:back-in-the-caller')
            ctx.prove(feq(sget(ctx, R.psym, 'val.num'), R.fn['param_val']), 'run:parameter-restored')
            ctx.prove(Iff(icmp('ne', 8, sget(ctx, R.psym, 'defined'), 0), icmp('ne', 8, R.fn['param_defined'], 0)), 'run:parameter-restored')
        else:
            ctx.prove(feq(sget(ctx, R.psym, 'val.num'), R.pval[0]), 'run:variables-as-left'); ctx.prove(eq(sget(ctx, R.psym, 'defined'), R.pval[1], 8), 'run:variables-as-left')
            for p in ('code_state.pc', 'code_state.source_line'): ctx.prove(eq(V.get(p), R.mark[p], 32), 'run:place-kept')
        for p in ('rsp', 'for_sp', 'program_data', 'immediate_data', 'col'): ctx.prove(eq(V.get(p), R.mark[p], 32), 'run:control-state-as-left', p)
    elif not stopped and not intr:
        ctx.cover('run:end')
        ctx.prove(ule(u, V.get('code_state.pc'), 32), 'run:to-the-end')
    # what the user is told
    out = flat_out(ctx, [e for e in ctx.events])
    src = [e for e in ctx.events if e[0] == 'source-line']
    text = b''.join(p[1] for s, p in out if s == 'stdout' and p[0] == 'lit')
    if intr: ctx.prove(text == b'Break\n' and not src, 'run:interruption-reported')
    elif stopped:
        ctx.cover('run:stopped')
        order = [e[0] for e in ctx.events if e[0] in ('out', 'source-line')]
        ctx.prove(text == b'\nStopped\n' and len(src) == 1 and order[0] == 'source-line', 'run:stop-reported', repr(text))
        code = {'stored': 'stored_program', 'imm': 'immediate_code', 'def': 'def_code'}[n]
        ctx.prove(src[0][1].obj is V.get(code + '.source').obj and eq(src[0][2], V.get('code_state.source_line'), 32), 'run:stop-reported-with-its-line')
    else: ctx.prove(text == b'' and not src, 'run:nothing-reported')
    got = {p: V.get('stopped_program.' + p) for p in ('code', 'pc', 'source_line')}
    if n != 'stored':
        ctx.cover('run:direct')
        for p in got: ctx.prove(same_value(ctx, got[p], stop0[p], 'ptr' if p == 'code' else 'i32'), 'run:direct-code-keeps-the-stopped-program')
    elif stopped or intr:
        ctx.prove(ctx.ptr_cmp('eq', got['code'], V.codeptr('stored')) is True, 'run:stop-remembered')
        for p in ('pc', 'source_line'): ctx.prove(eq(got[p], V.get('code_state.' + p), 32), 'run:stop-remembered')
    else: ctx.prove(got['code'].null, 'run:nothing-to-continue')
ALL = ['run_program', 'run_immediate', 'continue_', 'edits', 'run_']

# ---------------------------------------------------------------- COMPILE; the traces
def compile_only(ctx):
    """COMPILE: afterwards the text is compiled if it was accepted; nothing runs, and compiled code is kept"""
    W = World(ctx); V = W.V
    control = {f: V.get(f) for f in ('code_state.code', 'code_state.pc', 'sp', 'ssp', 'rsp', 'for_sp')}
    mark = len(ctx.wlog)
    kind, r = ctx.run('vm_compile', [V.p])
    ctx.prove(kind == 'ret', 'compile:returns')
    ctx.cover('compile:%s' % W.state)
    W.coherent('compile')
    ctx.prove(not W.ev('run'), 'compile:nothing-runs')
    ctx.prove(V.get('stored_program.source').obj is W.src.obj and (W.src.null or not W.src.obj.freed), 'compile:text-kept')
    if W.state == 'text': compiled_ok(W, 'compile')
    else:
        ctx.prove(not W.names() and len(ctx.wlog) == mark, 'compile:compiled-code-is-kept', repr(W.names()))
        W.unchanged_program('compile')
def tracing(ctx):
    """what a trace prints is all it does"""
    V = VM(ctx, ('stored', 'imm'))
    M = module_of(ctx, 'run')
    st = ctx.stubs
    made = []
    def s_symbol(cx, a):
        p = mk(cx, 'SYMBOL', 'var', dict(name=new_string(cx, 'name'))); made.append(p.obj)
        return p
    st['symbol'] = s_symbol
    st['fatal'] = noreturn('fatal')
    src = mk(ctx, 'SOURCE', 'text')
    for c in ('stored_program', 'immediate_code'): V.set(c + '.source', src)
    def of(cx, a): cx.prove(a[0].obj is src.obj and B(eq(a[1], V.get('code_state.source_line'), 32)), 'trace:current-line')
    st['source_linenum'] = lambda cx, a: (of(cx, a), cx.fresh('linenum', 32))[1]
    st['source_text'] = lambda cx, a: (of(cx, a), new_string(cx, 'text'))[1]
    which = ('print_stack', 'dump_for', 'dump_for_stack')[ctx.choose(3)]
    f, n = ('sp', 16) if which == 'print_stack' else ('for_sp', 8)
    k = ctx.choose(n + 1); ctx.assume(eq(V.get(f), k, 32)); V.set(f, k)
    mark = len(ctx.wlog)
    ctx.unroll = 20
    kind, r = ctx.run(which, [V.p] if which == 'print_stack' else [V.p, ctx.cstr('tag')], M)
    ctx.cover(which)
    ctx.prove(kind == 'ret' and not [w for w in ctx.wlog[mark:] if w[0] not in made], 'trace:changes-nothing', kind)
def open_loop(ctx):
    """the report of a loop left open names its variable and its line"""
    V = VM(ctx, ('stored', 'imm'))
    M = module_of(ctx, 'run')
    st = ctx.stubs
    st['symbol'] = V.s_symbol
    lines = []
    st['print_source_line'] = lambda cx, a: lines.append(a)
    k = 1 + ctx.choose(8); ctx.assume(eq(V.get('for_sp'), k, 32)); V.set('for_sp', k)
    e = 'for_stack[%d].' % (k - 1)
    src = {}
    for c in ('stored_program', 'immediate_code'): src[c] = mk(ctx, 'SOURCE', c); V.set(c + '.source', src[c])
    which = ('stored', 'imm')[ctx.choose(2)]
    V.set(e + 'code_state.code', V.codeptr(which))
    sym = V.symbol(V.get(e + 'symbol_id'), 'SYM_VARIABLE', 'TYPE_NUM')
    name = sgetf(ctx, sym, 'SYMBOL', 'name')
    mark = len(ctx.wlog)
    kind, r = ctx.run('report_for_in_progress', [V.p], M)
    ctx.cover(which)
    ctx.prove(kind == 'ret' and len(ctx.wlog) == mark, 'open-loop:changes-nothing', kind)
    out = [p for s, p in flat_out(ctx, ctx.events)]
    ctx.prove(any(p[0] == 's' and p[1].same(strref(ctx, name)) for p in out), 'open-loop:variable', repr(out))
    ctx.prove(len(lines) == 1 and lines[0][0].obj is src['stored_program' if which == 'stored' else 'immediate_code'].obj and B(eq(lines[0][1], V.get(e + 'code_state.source_line'), 32)), 'open-loop:line')
ALL += ['compile_only', 'tracing', 'open_loop']
