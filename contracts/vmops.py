"""Contracts of execute(): one per B-code instruction.  Each specification computes the
expected final state from the initial one; the real code must produce exactly that state
(frame included) and raise a run-time error exactly when the specification does."""
from .vmstate import *
from lbv import terms

def stubs(ctx, V):
    ctx.stubs.update(ALLOC)
    ctx.stubs['symbol'] = V.s_symbol
    ctx.stubs['run_error'] = noreturn('error')
    ctx.stubs['sym_name'] = lambda cx, a: sget(cx, V.s_symbol(cx, a), 'name')
    def lookup(cx, a):
        # contract of lookup_line_mapping (proved in linemap): result depends on the line only
        ok, val = V.linemap(cx, a[1])
        if ok:
            cx.store(a[2], 'i32', val)
            return True
        return False
    ctx.stubs['lookup_line_mapping'] = lookup

class Spec:
    """access to the initial state for specifications"""
    def __init__(self, ctx, V):
        self.ctx, self.V = ctx, V
        self.E = Exp()
        self.npop = self.spop = 0; self.npend, self.spend = [], []
    def depth(self, f, n):
        ctx = self.ctx
        v = self.V.get(f)
        if not isinstance(v, int):
            k = ctx.choose(n + 1)
            ctx.assume(eq(v, k, 32))
            self.V.set(f, k)
            self.V.pre[f] = k
            v = k
        return v
    def rsp(self): return self.depth('rsp', MAXR)
    def for_sp(self): return self.depth('for_sp', MAXF)
    def top(self, sp0, popped): return ibin('sub', 32, sp0, popped)
    def pop(self):
        if self.npend: return self.npend.pop()
        sp0 = self.V.sp0
        self.err(eq(sp0, self.npop, 32), 'numeric stack empty')
        self.npop += 1
        return self.V.nbase.read(self.ctx, z64(self.top(sp0, self.npop)))
    def push(self, x):
        t = ibin('add', 32, self.top(self.V.sp0, self.npop), len(self.npend))
        self.err(ule(MAXN, t, 32), 'numeric stack overflow')
        self.npend.append(x)
    def pops(self):
        sp0 = self.V.ssp0
        self.err(eq(sp0, self.spop, 32), 'string stack empty')
        self.spop += 1
        return self.V.sbase.read(self.ctx, z64(self.top(sp0, self.spop)))
    def pushs(self, ns):
        t = ibin('add', 32, self.top(self.V.ssp0, self.spop), len(self.spend))
        self.err(ule(MAXS, t, 32), 'string stack overflow')
        self.spend.append(ns)
    def finish(self):
        V, E = self.V, self.E
        for f, sp0, pop, pend, out in (('sp', V.sp0, self.npop, self.npend, E.npush), ('ssp', V.ssp0, self.spop, self.spend, E.spush)):
            if pop or pend:
                t = self.top(sp0, pop)
                E.vm[f] = ibin('add', 32, t, len(pend))
                for i, v in enumerate(pend): out.append((z64(ibin('add', 32, t, i)), v))
    def free(self, p): self.E.freed.append(p)
    def br(self, c): return self.ctx.branch(c)
    def err(self, c, why):
        if self.ctx.branch(c): raise Error(why)
    def operand(self, path): return self.V.iget(self.V.pc, path)
    def next_pc(self, n=1): self.E.vm['code_state.pc'] = ibin('add', 32, self.V.pc, n)
    def logical(self):
        """pop a logical operand: an integer in the int range, else error"""
        x = self.pop()
        self.err(Or(fcmp('olt', x, -2147483648.0), fcmp('ogt', x, 2147483647.0), fcmp('une', x, ffloor(x))), 'invalid logical value')
        return fp_to_int(x, 32, True)
    def unsigned(self):
        x = self.pop()
        self.err(Or(fcmp('olt', x, 0.0), fcmp('une', x, ffloor(x)), fcmp('ogt', x, 4294967295.0)), 'non-negative integer expected')
        return fp_to_int(x, 32, False)
    def symid(self, path):
        v = self.operand(path)
        w = symw(self.ctx)
        if w < 32:
            self.ctx.assume(ule(v, mask(w), 32))        # an emitted id is the id of a symbol
            self.ctx.res.assumptions.add('a program has at most 2^%d names' % w)
        return symid(self.ctx, v)

TRUE, FALSE = -1.0, 0.0
SPECS = {}
def spec(*ops, code='stored', **kw):
    def d(f):
        for o in ops: SPECS[o] = (f, dict(code=code, **kw))
        return f
    return d

def boolf(S, c): return TRUE if S.br(c) else FALSE

# ---------------------------------------------------------------- numbers
@spec('B_NOP', 'B_DATA')
def nop(S, op): pass
@spec('B_PUSH_NUM')
def push_num(S, op): S.push(S.operand('u.num'))
@spec('B_POP_NUM')
def pop_num(S, op): S.pop()
@spec('B_ADD', 'B_SUB', 'B_MUL', 'B_DIV')
def arith(S, op):
    x = S.pop(); y = S.pop()
    S.push(fbin({'B_ADD': 'fadd', 'B_SUB': 'fsub', 'B_MUL': 'fmul', 'B_DIV': 'fdiv'}[op], y, x))
@spec('B_POW')
def power(S, op):
    x = S.pop(); y = S.pop(); S.push(ffun('pow', y, x))
@spec('B_EQ_NUM', 'B_LT_NUM', 'B_GT_NUM', 'B_NE_NUM', 'B_LE_NUM', 'B_GE_NUM')
def relnum(S, op):
    x = S.pop(); y = S.pop()
    S.push(boolf(S, fcmp({'EQ': 'oeq', 'LT': 'olt', 'GT': 'ogt', 'NE': 'une', 'LE': 'ole', 'GE': 'oge'}[op[2:4]], y, x)))
@spec('B_OR', 'B_AND')
def logic2(S, op):
    b = S.logical(); a = S.logical()
    S.push(int_to_fp(ibin('or' if op == 'B_OR' else 'and', 32, a, b), 32, True))
@spec('B_NOT')
def logic_not(S, op): S.push(int_to_fp(ibin('xor', 32, S.logical(), mask(32)), 32, True))
@spec('B_NEG')
def neg(S, op): S.push(fneg(S.pop()))
@spec('B_ABS')
def f_abs(S, op): S.push(ffabs(S.pop()))
@spec('B_ATN', 'B_COS', 'B_EXP', 'B_SIN', 'B_TAN', 'B_SQR')
def f_lib(S, op): S.push(ffun({'ATN': 'atan', 'COS': 'cos', 'EXP': 'exp', 'SIN': 'sin', 'TAN': 'tan', 'SQR': 'sqrt'}[op[2:]], S.pop()))
@spec('B_INT')
def f_int(S, op): S.push(ffloor(S.pop()))
@spec('B_LOG')
def f_log(S, op):
    x = S.pop(); S.err(fcmp('ole', x, 0.0), 'invalid logarithm'); S.push(ffun('log', x))
@spec('B_SGN')
def f_sgn(S, op):
    x = S.pop()
    S.push(-1.0 if S.br(fcmp('olt', x, 0.0)) else 1.0 if S.br(fcmp('ogt', x, 0.0)) else x)   # zero keeps its sign, as does a non-number

# ---------------------------------------------------------------- strings
@spec('B_PUSH_STR')
def push_lit(S, op):
    p = S.operand('u.str')
    S.pushs(NewStr(0, lambda k: 0) if p.null else NewStr.of(S.ctx, p))
@spec('B_POP_STR')
def pop_str(S, op): S.free(S.pops())
@spec('B_EQ_STR', 'B_NE_STR', 'B_LT_STR', 'B_GT_STR', 'B_LE_STR', 'B_GE_STR')
def relstr(S, op):
    t = S.pops(); s = S.pops()
    from lbv.libc import strcmp_refs
    r = strcmp_refs(S.ctx, strref(S.ctx, s), strref(S.ctx, t))
    pred = {'EQ': 'eq', 'NE': 'ne', 'LT': 'slt', 'GT': 'sgt', 'LE': 'sle', 'GE': 'sge'}[op[2:4]]
    S.free(s); S.free(t)
    S.push(boolf(S, icmp(pred, 32, r, 0)))
@spec('B_CONCAT')
def concat(S, op):
    ctx = S.ctx
    t = S.pops(); s = S.pops()
    a, b = strref(ctx, s), strref(ctx, t)
    la, n = a.len, add(a.len, b.len)
    S.err(ult(255, n), 'concatenated string too long')
    S.free(s); S.free(t)
    S.pushs(NewStr(n, lambda k: a.char(k) if ctx.branch(ult(k, la)) else b.char(sub(k, la))))
def substring(S, s, start, n):
    r = strref(S.ctx, s)
    S.err(ult(255, n), 'string too long')
    S.free(s)
    S.pushs(NewStr(n, lambda k: r.char(add(start, k))))
@spec('B_LEFT')
def left(S, op):
    s = S.pops(); u = z64(S.unsigned()); n = strref(S.ctx, s).len
    substring(S, s, 0, u if S.br(ule(u, n)) else n)
@spec('B_RIGHT')
def right(S, op):
    s = S.pops(); u = z64(S.unsigned()); n = strref(S.ctx, s).len
    k = u if S.br(ule(u, n)) else n
    substring(S, s, sub(n, k), k)
@spec('B_MID3')
def mid(S, op):
    s = S.pops(); v = z64(S.unsigned()); u = z64(S.unsigned()); n = strref(S.ctx, s).len
    S.err(Or(ult(u, 1), ult(n, u)), 'string index out of range')
    rest = add(sub(n, u), 1)
    substring(S, s, sub(u, 1), v if S.br(ule(v, rest)) else rest)
@spec('B_LEN')
def length(S, op):
    s = S.pops(); S.free(s); S.push(int_to_fp(strref(S.ctx, s).len, 64, False))
@spec('B_ASC')
def asc(S, op):
    s = S.pops(); S.free(s); c = strref(S.ctx, s).char(0)
    S.push(int_to_fp(c, 8, False))
@spec('B_CHR')
def chr_(S, op):
    x = S.pop()
    S.err(Or(fcmp('olt', x, 0.0), fcmp('ogt', x, 255.0), fcmp('une', x, ffloor(x))), 'invalid character code')
    c = trunc(fp_to_int(x, 32, True), 32, 8)
    S.pushs(NewStr(0 if S.br(eq(c, 0, 8)) else 1, lambda k: c))

# ---------------------------------------------------------------- simple variables
def mksym(S, path, kind, ty):
    sym = S.V.symbol(S.symid(path), kind, ty)
    # a symbol that has not been given a value holds none
    return sym
def sym_defined(S, sym): return S.br(icmp('ne', 8, sget(S.ctx, sym, 'defined'), 0))
@spec('B_GET_SIMPLE_NUM')
def get_num(S, op):
    sym = mksym(S, 'u.symbol_id', 'SYM_VARIABLE', 'TYPE_NUM')
    if sym_defined(S, sym): S.push(sget(S.ctx, sym, 'val.num'))
    else:
        S.err(icmp('ne', 8, S.V.get('strict_variables'), 0), 'variable not found')
        S.push(0.0)
        S.E.other += [(sym, 'SYMBOL', 'val.num', 0.0), (sym, 'SYMBOL', 'defined', 1)]
@spec('B_SET_SIMPLE_NUM')
def set_num(S, op):
    sym = mksym(S, 'u.symbol_id', 'SYM_VARIABLE', 'TYPE_NUM')
    S.E.other += [(sym, 'SYMBOL', 'val.num', S.pop()), (sym, 'SYMBOL', 'defined', 1)]
@spec('B_GET_SIMPLE_STR')
def get_str(S, op):
    sym = mksym(S, 'u.symbol_id', 'SYM_VARIABLE', 'TYPE_STR')
    if sym_defined(S, sym):
        p = sget(S.ctx, sym, 'val.str')
        S.pushs(NewStr(0, lambda k: 0) if p.null else NewStr.of(S.ctx, p))
    else:
        S.err(icmp('ne', 8, S.V.get('strict_variables'), 0), 'variable not found')
        S.E.other += [(sym, 'SYMBOL', 'val.str', NULL), (sym, 'SYMBOL', 'defined', 1)]
        S.pushs(NewStr(0, lambda k: 0))
def set_simple_str(S, sym, val):
    if sym_defined(S, sym):
        old = sget(S.ctx, sym, 'val.str')
        if not old.null: S.free(old)
    S.E.other += [(sym, 'SYMBOL', 'val.str', val), (sym, 'SYMBOL', 'defined', 1)]
@spec('B_SET_SIMPLE_STR')
def set_str(S, op):
    sym = mksym(S, 'u.symbol_id', 'SYM_VARIABLE', 'TYPE_STR')
    set_simple_str(S, sym, S.pops())

# ---------------------------------------------------------------- arrays
class Arrays:
    """contract of arrays.c (proved in arrays): allocation succeeds or not depending only on
    base and bounds; an element address depends only on the array and the subscripts"""
    def __init__(self, ctx, V): self.ctx, self.V, self.al, self.el = ctx, V, [], []
    def match(self, a, b):
        if len(a) != len(b): return False
        return And(*[eq(x, y, 32) if not isinstance(x, Ptr) else x.obj is y.obj for x, y in zip(a, b)])
    def alloc(self, base, maxs, kind):
        key = [base] + maxs
        for k, kd, r in self.al:
            if kd == kind and self.ctx.branch(self.match(k, key)): return r
        r = self.ctx.choose(2) == 0
        self.al.append((key, kind, r))
        return r
    def make(self, kind, maxs):
        ctx = self.ctx
        n = ctx.fresh('elements', 32); ctx.assume(ule(n, 1 << 16, 32)); ctx.assume(icmp('ne', 32, n, 0))
        hdr, _ = ctx.prog.di.field(kind, 'val')
        o = Obj(ctx.name('array'), add(ibin('mul', 64, z64(n), 8), hdr), None, 'lazy', None, False, True)
        key = 'f64' if kind == 'numeric_array' else 'ptr'
        o.segs.append(Seg(hdr, 8, z64(n), [(0, key)], lambda c, fo, k: ConstArr(0.0 if key == 'f64' else NULL), o.name))
        ctx.objs += 1; o.born = ctx.objs; o.tag = ('array', kind, maxs, n)
        return Ptr(o)
    def elem(self, arr, idx):
        key = [arr] + idx
        for k, r in self.el:
            if self.ctx.branch(self.match(k, key)): return r
        if self.ctx.choose(2) == 0:
            pos = self.ctx.fresh('pos', 64)
            self.ctx.assume(ult(pos, z64(arr.obj.tag[3])))
            hdr, _ = self.ctx.prog.di.field(arr.obj.tag[1], 'val')
            r = Ptr(arr.obj, Lin(hdr, {pos.get_id(): (8, pos)}))
        else: r = None
        self.el.append((key, r))
        return r

def read_u32s(ctx, p, n): return [ctx.load(p.plus(4 * i), 'i32') for i in range(n)]

def array_stubs(ctx, V, S):
    A = S.A
    def s_new(kind):
        def f(cx, a):
            nd = cx.concretize(a[1], 32)
            maxs = read_u32s(cx, a[2], nd)
            base = a[0]
            for k, kd, r in list(A.al): pass
            ok = A.alloc(base, maxs, kind)
            if not ok: return NULL
            if kind in A.made and not A.used_made:
                A.used_made = True
                q = A.made[kind]
            else: q = A.make(kind, maxs)
            cx.objs += 1; q.obj.born = cx.objs
            cx.alloc_live.append(q.obj)
            return q
        return f
    def s_elem(kind):
        def f(cx, a):
            arr, nd, idx, addr = a
            cx.prove(isinstance(arr, Ptr) and arr.obj is not None and not arr.obj.freed and arr.obj.tag and arr.obj.tag[1] == kind, 'array-of-the-right-type')
            n = cx.concretize(nd, 32)
            r = A.elem(arr, read_u32s(cx, idx, n))
            if r is None: return False
            cx.store(addr, 'ptr', r)
            return True
        return f
    def s_del(kind):
        def f(cx, a):
            cx.free(a[0]); return None
        return f
    ctx.stubs['new_numeric_array'] = s_new('numeric_array'); ctx.stubs['new_string_array'] = s_new('string_array')
    ctx.stubs['compute_numeric_element'] = s_elem('numeric_array'); ctx.stubs['compute_string_element'] = s_elem('string_array')
    ctx.stubs['delete_numeric_array'] = s_del('numeric_array'); ctx.stubs['delete_string_array'] = s_del('string_array')

def mkA(S):
    S.A = Arrays(S.ctx, S.V); S.A.made = {}; S.A.used_made = False
    def make_array(ctx, o, kind):
        k = 'string_array' if kind == 'strarr' else 'numeric_array'
        p = S.A.make(k, None)
        if k == 'string_array':
            def mkp(c, i):
                if c.choose(2) == 0: return NULL
                s = new_string(c, 'elem', 1 << 20); S.V.owned.append(s); return s
            node = BaseObj(mkp)
            p.obj.segs[0].mk = lambda c, fo, kk: node
        else:
            b = BaseUF(ctx.name('elems'), 'f64')
            p.obj.segs[0].mk = lambda c, fo, kk: b
        return p
    S.V.make_array = make_array
def ndims(S, path='u.param.params', lo=1):
    """number of subscripts in the instruction (8 bits)"""
    v = S.operand(path)
    ctx = S.ctx
    k = ctx.choose(4 - lo) + lo
    if k == 3: ctx.assume(ule(3, v, 8)); return None
    ctx.assume(eq(v, k, 8))
    return k
def array_sym(S, path, ty):
    return S.V.symbol(S.symid(path), 'SYM_ARRAY', ty)
KIND = {'TYPE_NUM': ('numeric_array', 'f64', 'val.numarr'), 'TYPE_STR': ('string_array', 'ptr', 'val.strarr')}
def subscripts(S, nd):
    if nd is None: raise Error('too many subscripts')
    return [S.unsigned() for _ in range(nd)]
def dimension(S, sym, ty, maxs):
    kind, key, fld = KIND[ty]
    base = zext(S.V.get('array_base'), 16, 32)
    if not S.A.alloc(base, maxs, kind): raise Error('invalid dimensions')
    q = S.A.make(kind, maxs)
    S.A.made[kind] = q
    S.E.other += [(sym, 'SYMBOL', fld, q), (sym, 'SYMBOL', 'defined', 1)]
    return q
def auto(S, sym, ty, idx):
    """the array of a symbol, dimensioned to at least 0..10 on first use"""
    if sym_defined(S, sym):
        p = sget(S.ctx, sym, KIND[ty][2])
        return p
    return dimension(S, sym, ty, [10 if S.br(ult(i, 10, 32)) else i for i in idx])
def locate(S, sym, ty, nd):
    idx = subscripts(S, nd)
    arr = auto(S, sym, ty, idx)
    e = S.A.elem(arr, idx)
    if e is None: raise Error('subscript out of range')
    return e
def elem_read(S, e, key):
    return S.ctx.peek(e, key)
def elem_write(S, e, key, v):
    sg = e.obj.segs[0]
    idx, fo = seg_index(sg, e.off)
    node0 = sg.comp(S.ctx, 0, key)
    def post(ctx):
        k = ctx.fresh('w', 64); ctx.assume(ult(k, z64(e.obj.tag[3])))
        if isinstance(v, NewStr):
            a = sg.comps[(0, key)].read(ctx, idx)
            if isinstance(a, Ptr): S.E.owns.add(a.obj)
        act = sg.comps[(0, key)].read(ctx, k)
        if ctx.branch(eq(k, idx, 64)):
            if isinstance(v, NewStr): check_newstr(ctx, act, v, 'element', [])
            else: ctx.prove(same_value(ctx, act, v, key), 'array-element-assigned')
            if isinstance(act, Ptr): S.E.owns.add(act.obj)
        else: ctx.prove(same_value(ctx, act, node0.read(ctx, k), key), 'other-array-elements-unchanged')
    S.E.post.append(post)
    S.E.dontcare.add((e.obj, sg.start))
@spec('B_GET_PAREN_NUM', 'B_GET_PAREN_STR', arrays=True)
def get_elem(S, op):
    ty = 'TYPE_NUM' if op.endswith('NUM') else 'TYPE_STR'
    sym = array_sym(S, 'u.param.symbol_id', ty)
    e = locate(S, sym, ty, ndims(S))
    v = elem_read(S, e, KIND[ty][1])
    if ty == 'TYPE_NUM': S.push(v)
    else: S.pushs(NewStr(0, lambda k: 0) if v.null else NewStr.of(S.ctx, v))
def set_elem_spec(S, sym, ty, nd, val):
    e = locate(S, sym, ty, nd)
    if ty == 'TYPE_STR':
        old = elem_read(S, e, 'ptr')
        if not old.null: S.free(old)
    elem_write(S, e, KIND[ty][1], val)
@spec('B_SET_ARRAY_NUM', 'B_SET_ARRAY_STR', arrays=True)
def set_elem(S, op):
    ty = 'TYPE_NUM' if op.endswith('NUM') else 'TYPE_STR'
    sym = array_sym(S, 'u.param.symbol_id', ty)
    val = S.pop() if ty == 'TYPE_NUM' else S.pops()
    set_elem_spec(S, sym, ty, ndims(S), val)
@spec('B_DIM_NUM', 'B_DIM_STR', arrays=True)
def dim(S, op):
    ty = 'TYPE_NUM' if op.endswith('NUM') else 'TYPE_STR'
    sym = array_sym(S, 'u.param.symbol_id', ty)
    nd = ndims(S)
    if sym_defined(S, sym):
        S.free(sget(S.ctx, sym, KIND[ty][2]))
    maxs = subscripts(S, nd)
    dimension(S, sym, ty, maxs)

# ---------------------------------------------------------------- control flow
def target(S, line):
    ok, v = S.V.linemap(S.ctx, line)
    if S.br(True) and (S.V.get('stored_program.index').null or not ok): raise Error('line not found')
    S.E.vm['code_state.pc'] = v
    S.E.vm['code_state.code'] = S.V.codeptr('stored')
@spec('B_END')
def end(S, op): S.E.vm['code_state.pc'] = S.V.get_used()
@spec('B_STOP')
def stop(S, op):
    S.E.vm['stopped'] = 1; S.E.vm['code_state.pc'] = S.V.pc
@spec('B_GOTO', code=('stored', 'imm'))
def goto(S, op): target(S, S.operand('u.basic_line.lineno'))
@spec('B_GOTRUE', code=('stored', 'imm'))
def gotrue(S, op):
    x = S.pop()
    if S.br(fcmp('une', x, 0.0)): target(S, S.operand('u.basic_line.lineno'))
def push_ret(S, cont):
    n = S.rsp()
    if n >= MAXR: raise Error('GOSUB too deep')
    p = 'retstack[%d].' % n
    S.E.vm[p + 'code'] = S.V.get('code_state.code')
    S.E.vm[p + 'source_line'] = S.V.get('code_state.source_line')
    S.E.vm[p + 'pc'] = cont
    S.E.vm['rsp'] = n + 1
@spec('B_GOSUB', code=('stored', 'imm'))
def gosub(S, op):
    push_ret(S, ibin('add', 32, S.V.pc, 1))
    target(S, S.operand('u.basic_line.lineno'))
@spec('B_RETURN')
def return_(S, op):
    n = S.rsp()
    if n == 0: raise Error('RETURN without GOSUB')
    for f in ('code', 'source_line', 'pc'):
        S.E.vm['code_state.' + f] = S.V.get('retstack[%d].%s' % (n - 1, f))
    S.E.vm['rsp'] = n - 1
@spec('B_ON_GOTO', 'B_ON_GOSUB', code=('stored', 'imm'), absf2i=True)
def on(S, op):
    ctx, V = S.ctx, S.V
    x = S.pop(); n = S.operand('u.count')
    # well-formed code: an ON instruction is followed by its n line operands
    ctx.assume(ule(n, 1 << 20, 32))
    ctx.assume(ult(ibin('add', 32, V.pc, n), V.get_used(), 32))
    S.err(fcmp('une', x, ffloor(x)), 'ON value invalid')
    if S.br(Or(fcmp('olt', x, 1.0), fcmp('ogt', x, int_to_fp(n, 32, False)))):
        S.err(icmp('ne', 8, V.get('strict_on'), 0), 'ON out of range')
        S.next_pc(ibin('add', 32, n, 1))
        return
    k = ibin('add', 32, V.pc, fp_to_int(x, 32, False))
    ctx.assume(eq(V.iget(k, 'op'), enum(ctx, 'B_ON_LINE'), 16))
    if op == 'B_ON_GOSUB': push_ret(S, ibin('add', 32, ibin('add', 32, V.pc, n), 1))
    target(S, V.iget(k, 'u.basic_line.lineno'))

FORF = ('code_state.code', 'code_state.source_line', 'code_state.pc', 'symbol_id', 'step', 'limit')
def for_entry(S, i): return {f: S.V.get('for_stack[%d].%s' % (i, f)) for f in FORF}
def put_entry(S, i, e):
    for f in FORF: S.E.vm['for_stack[%d].%s' % (i, f)] = e[f]
def for_find(S, n, ident):
    ids = [S.V.get('for_stack[%d].symbol_id' % j) for j in range(n)]
    for a in range(n):
        for b in range(a): S.ctx.assume(icmp('ne', symw(S.ctx), ids[a], ids[b]))   # one entry per variable
    for j in range(n):
        if S.br(eq(ids[j], ident, symw(S.ctx))): return j
    return None
@spec('B_FOR')
def for_(S, op):
    V, ctx = S.V, S.ctx
    ident = S.symid('u.symbol_id')
    sym = V.symbol(ident, 'SYM_VARIABLE', 'TYPE_NUM')
    n = S.for_sp()
    j = for_find(S, n, ident)
    ents = [for_entry(S, i) for i in range(n)]
    new = {'code_state.' + f: V.get('code_state.' + f) for f in ('code', 'source_line', 'pc')}
    new['symbol_id'] = ident
    if j is not None:
        S.err(icmp('ne', 8, V.get('strict_for'), 0), 'already inside FOR')
        del ents[j]
    elif n >= MAXF: raise Error('FOR too deep')
    # stack depths above 3 are popped identically: the numeric stack is exercised at 0..4 and 16
    new['step'] = S.pop(); new['limit'] = S.pop(); init = S.pop()
    ents.append(new)
    for i, e in enumerate(ents): put_entry(S, i, e)
    S.E.vm['for_sp'] = len(ents)
    S.E.other += [(sym, 'SYMBOL', 'val.num', init), (sym, 'SYMBOL', 'defined', 1)]
def next_spec(S, n, j):
    V, ctx = S.V, S.ctx
    ents = [for_entry(S, i) for i in range(n)]
    e = ents[j]
    sym = V.symbol(e['symbol_id'], 'SYM_VARIABLE', 'TYPE_NUM')
    x = fbin('fadd', sget(ctx, sym, 'val.num'), e['step'])
    done = Or(And(fcmp('ogt', e['step'], 0.0), fcmp('ogt', x, e['limit'])), And(fcmp('olt', e['step'], 0.0), fcmp('olt', x, e['limit'])))
    if S.br(done):
        del ents[j]
        for i in range(len(ents)): put_entry(S, i, ents[i])
        S.E.vm['for_sp'] = n - 1
    else:
        S.E.other.append((sym, 'SYMBOL', 'val.num', x))
        for f in ('code', 'source_line', 'pc'): S.E.vm['code_state.' + f] = e['code_state.' + f]
        S.E.vm['code_state.pc'] = ibin('add', 32, e['code_state.pc'], 1)
@spec('B_NEXT_VAR')
def next_var(S, op):
    n = S.for_sp()
    if n == 0: raise Error('NEXT without FOR')
    ident = S.symid('u.symbol_id')
    j = for_find(S, n, ident)
    if j != n - 1: S.err(icmp('ne', 8, S.V.get('strict_for'), 0), 'mismatched FOR')
    if j is None: raise Error('NEXT without FOR')
    next_spec(S, n, j)
@spec('B_NEXT_IMP')
def next_imp(S, op):
    n = S.for_sp()
    if n == 0: raise Error('NEXT without FOR')
    next_spec(S, n, n - 1)

class Skip(LoopSpec):
    """forward scan over instructions: no instruction passed over so far is the one sought"""
    def __init__(self, V, q, strict):
        LoopSpec.__init__(self, name='skip', roles={})
        self.V, self.q, self.strict = V, q, strict
        self.off = V.ctx.prog.di.field('VM', 'code_state.pc')[0]
    def bind(self, ctx, fr, label, vals):
        ph = [i for i in fr.fn.blocks[label] if i.op == 'phi' and i.ty.k == 'int' and i.ty.a == 32]
        self.uses += 1
        return Loop(self, fr, label, {'pc': ph[0].dst} if len(ph) == 1 else {})
    def pc(self, v): return v['pc'] if 'pc' in v else self.V.get('code_state.pc')
    def inv(self, ctx, L, v):
        pc = self.pc(v)
        return [('not-past-target', ult(pc, self.q, 32) if self.strict else ule(pc, self.q, 32)), ('forward', ule(self.V.pc, pc, 32)),
                ('moved', True if self.strict else ult(self.V.pc, pc, 32))]
    def havoc(self, ctx, L, v):
        if 'pc' not in v: self.V.set('code_state.pc', ctx.fresh('skip.pc', 32))
    def may_write(self, ctx, L, o, kind, off): return o is self.V.p.obj and off == self.off and 'pc' not in L.binding
    def variant(self, ctx, L, v): return sub(1 << 40, z64(self.pc(v)))

def skip_to(S, opname):
    """first instruction after pc with this opcode, or the end of the code (ghost)"""
    ctx, V = S.ctx, S.V
    q = ctx.fresh('target', 32)
    u = V.get_used()
    ctx.assume(ult(V.pc, q, 32)); ctx.assume(ule(q, u, 32))
    T = enum(ctx, opname)
    ops = V.icomp('op')
    base = ops
    while isinstance(base, Wr): base = base.prev
    base.add_unary(ctx, lambda i, v: Implies(And(ult(z64(V.pc), i), ult(i, z64(q))), icmp('ne', 16, v, T)))
    if ctx.branch(ult(q, u, 32)): ctx.assume(eq(V.iget(q, 'op'), T, 16))
    S.loops = [Skip(V, q, ctx.opts.get('alt', 0) == 0)]
    return q
@spec('B_IF_THEN', alts=2)
def if_then(S, op):
    x = S.pop()
    if not S.br(fcmp('une', x, 0.0)): S.E.vm['code_state.pc'] = skip_to(S, 'B_SOURCE_LINE')
@spec('B_IF_ELSE', alts=2)
def if_else(S, op):
    x = S.pop()
    if not S.br(fcmp('une', x, 0.0)): S.E.vm['code_state.pc'] = ibin('add', 32, skip_to(S, 'B_ELSE'), 1)
@spec('B_ELSE', alts=2)
def else_(S, op): S.E.vm['code_state.pc'] = skip_to(S, 'B_SOURCE_LINE')

# ---------------------------------------------------------------- DEF FN
def copy_def_stub(ctx, V, S):
    def f(cx, a):
        o = Obj(cx.name('defcopy'), 24, None, 'lazy', None, False, True)
        cx.objs += 1; o.born = cx.objs; o.tag = ('defcopy', a[0].obj, a[1])
        return Ptr(o)
    ctx.stubs['bcode_copy_def'] = f
    ctx.stubs['delete_bcode'] = lambda cx, a: cx.free(a[0])
def mk_def(S):
    def make(ctx, o):
        b = S.V.bcode('defn')
        ctx.assume(ule(4, S.V.get_used('defn'), 32))
        for i, nm in ((0, 'B_DEF'), (1, 'B_PARAM')): S.V.iset(i, 'op', enum(ctx, nm), 'defn')
        src = mk(ctx, 'SOURCE', 'dsrc') if ctx.choose(2) == 0 else NULL
        d = mk(ctx, 'def', 'def', dict(bcode=b, source=src))
        return d
    S.V.make_def = make
@spec('B_DEF', code=('stored', 'imm'), setup=(copy_def_stub,), alts=2)
def def_(S, op):
    ctx, V = S.ctx, S.V
    mk_def(S)
    sym = V.symbol(S.symid('u.param.symbol_id'), 'SYM_DEF')
    if sym_defined(S, sym):
        d = sget(ctx, sym, 'val.def')
        S.free(d); S.free(sgetf(ctx, d, 'def', 'bcode'))
    S.err(icmp('ne', 8, S.operand('u.param.params'), 1), 'one parameter')
    stored = V.codename == 'stored'
    src = V.get('stored_program.source') if stored else NULL
    line = V.get('code_state.source_line') if stored else 0
    S.E.vm['code_state.pc'] = ibin('add', 32, skip_to(S, 'B_END_DEF'), 1)
    S.E.dontcare.add((sym.obj, ctx.prog.di.field('SYMBOL', 'val.def')[0]))
    S.E.other.append((sym, 'SYMBOL', 'defined', 1))
    def post(cx):
        d = sget(cx, sym, 'val.def')
        cx.prove(isinstance(d, Ptr) and d.obj is not None and not d.obj.freed and d.obj.heap, 'definition-stored')
        b = sgetf(cx, d, 'def', 'bcode')
        cx.prove(b.obj is not None and b.obj.tag and b.obj.tag[0] == 'defcopy' and b.obj.tag[1] is V.bcode(V.codename).obj, 'definition-copies-this-code')
        cx.prove(eq(b.obj.tag[2], V.pc, 32), 'definition-starts-here')
        cx.prove(same_value(cx, sgetf(cx, d, 'def', 'source'), src, 'ptr'), 'definition-source')
        cx.prove(eq(sgetf(cx, d, 'def', 'source_line'), line, 32), 'definition-line')
        S.E.owns.add(d.obj)
    S.E.post.append(post)
def call_def_spec(S, op, ty):
    ctx, V = S.ctx, S.V
    mk_def(S)
    sym = V.symbol(S.symid('u.param.symbol_id'), 'SYM_DEF', ty)
    if not sym_defined(S, sym): raise Error('function not defined')
    d = sget(ctx, sym, 'val.def')
    if not V.get('fn.code_state.code').null: raise Error('nested function calls')
    S.err(icmp('ne', 8, S.operand('u.param.params'), 1), 'one argument')
    # a call is never the last instruction of well-formed code (its value is consumed)
    ctx.assume(ult(ibin('add', 32, V.pc, 1), V.get_used(), 32))
    pid = symid(ctx, V.iget(1, 'u.symbol_id', 'defn'))
    # the parameter is a simple variable, the function is not: different symbols (parser contract)
    ctx.assume(icmp('ne', symw(ctx), pid, S.symid('u.param.symbol_id')))
    psym = V.symbol(pid, 'SYM_VARIABLE', 'TYPE_NUM')
    V.set('def_code.index', NULL)
    S.E.vm.update({'fn.code_state.code': V.get('code_state.code'), 'fn.code_state.source_line': V.get('code_state.source_line'),
        'fn.code_state.pc': V.pc, 'def_code.bcode': sgetf(ctx, d, 'def', 'bcode'), 'def_code.source': sgetf(ctx, d, 'def', 'source'),
        'code_state.code': V.codeptr('def'), 'code_state.source_line': sgetf(ctx, d, 'def', 'source_line'), 'code_state.pc': 2,
        'fn.param_id': pid, 'fn.param_val': sget(ctx, psym, 'val.num')})
    dfd = sget(ctx, psym, 'defined')
    S.E.dontcare.add('fn.param_defined')
    def post(cx):
        cx.prove(Iff(icmp('ne', 8, V.get('fn.param_defined'), 0), icmp('ne', 8, dfd, 0)), 'parameter-definedness-saved')
    S.E.post.append(post)
    S.E.other += [(psym, 'SYMBOL', 'val.num', S.pop()), (psym, 'SYMBOL', 'defined', 1)]
@spec('B_GET_PAREN_NUM/DEF', 'B_GET_PAREN_STR/DEF', code=('stored', 'imm'), setup=(copy_def_stub,))
def call_def(S, op): call_def_spec(S, op, 'TYPE_NUM' if 'NUM' in op else 'TYPE_STR')
@spec('B_END_DEF', code='def')
def end_def(S, op):
    ctx, V = S.ctx, S.V
    c = V.get('fn.code_state.code')
    if c.null: raise Error('unexpected END DEF')
    psym = V.symbol(V.get('fn.param_id'), 'SYM_VARIABLE', 'TYPE_NUM')
    S.E.vm.update({'code_state.code': c, 'code_state.source_line': V.get('fn.code_state.source_line'),
                   'code_state.pc': ibin('add', 32, V.get('fn.code_state.pc'), 1), 'fn.code_state.code': NULL})
    S.E.other += [(psym, 'SYMBOL', 'val.num', V.get('fn.param_val')), ]
    S.E.dontcare.add((psym.obj, ctx.prog.di.field('SYMBOL', 'defined')[0]))
    pd = V.get('fn.param_defined')
    ctx.assume(ule(pd, 1, 8))
    def post(cx):
        cx.prove(Iff(icmp('ne', 8, sget(cx, psym, 'defined'), 0), icmp('ne', 8, pd, 0)), 'parameter-definedness-restored')
    S.E.post.append(post)

# ---------------------------------------------------------------- output
class Spaces(LoopSpec):
    """c spaces printed since the loop began, column advanced by c"""
    def __init__(self, V, limit, rel):
        LoopSpec.__init__(self, name='spaces', roles={})
        self.V, self.limit, self.rel = V, limit, rel
        self.off = V.ctx.prog.di.field('VM', 'col')[0]
    def bind(self, ctx, fr, label, vals):
        ph = [i for i in fr.fn.blocks[label] if i.op == 'phi' and i.ty.k == 'int' and i.ty.a == 32]
        self.uses += 1
        return Loop(self, fr, label, {'k': ph[0].dst} if len(ph) == 1 else {})
    def enter(self, ctx, L, v):
        L.g['col0'] = self.V.get('col'); L.g['k0'] = v.get('k'); L.g['lim'] = self.limit(L.g['col0'])
    def c(self, L): return ibin('sub', 32, self.V.get('col'), L.g['col0'])
    def inv(self, ctx, L, v):
        c = self.c(L)
        r = [('count-bounded', ule(c, L.g['lim'], 32))]
        if 'k' in v:
            k = ibin('sub' if self.rel == 0 else 'add', 32, L.g['k0'], c)
            r.append(('counter', eq(v['k'], k, 32)))
        return r
    def havoc(self, ctx, L, v):
        c = ctx.fresh('spaces', 32)
        self.V.set('col', ibin('add', 32, L.g['col0'], c))
        ctx.events.append(('rep', 'stdout', 32, c))
        L.g['ev'] = len(ctx.events)
    def at_back(self, ctx, L, v):
        ev = flat_out(ctx, ctx.events[L.g['ev']:])
        ctx.prove(ev == [('stdout', ('lit', b' '))], 'one-space-per-iteration', repr(ev))
        ctx.prove(eq(self.V.get('col'), ibin('add', 32, ctx_col(L), 1), 32), 'column-follows-output')
    def may_write(self, ctx, L, o, kind, off): return o is self.V.p.obj and off == self.off
def ctx_col(L): return L.g['colh']

def spaces_havoc(self, ctx, L, v, _h=Spaces.havoc):
    _h(self, ctx, L, v); L.g['colh'] = self.V.get('col')
Spaces.havoc = spaces_havoc

def out_spaces(S, *pre_counts):
    """expected output: literal pieces and runs of spaces"""
    def post(ctx):
        act = flat_out(ctx, ctx.events[S.ev0:])
        S_out(ctx, act, list(pre_counts))
    S.E.skip_out = True
    S.E.post.append(post)
def S_out(ctx, act, exp):
    """compare output where ('sp', n) is a run of n spaces"""
    ai = 0
    total = 0; lits = b''
    def norm(xs):
        r = []
        for x in xs:
            if x[0] == 'sp':
                if r and r[-1][0] == 'sp': r[-1] = ('sp', simp(bv(r[-1][1], 32) + bv(x[1], 32)))
                else: r.append(x)
            else: r.append(x)
        return r
    a = []
    for st, p in act:
        if st != 'stdout': a.append(('x', p)); continue
        if p[0] == 'rep': a.append(('sp', p[3]))
        elif p[0] == 'lit':
            for ch in p[1]:
                a.append(('sp', 1) if ch == 32 else ('lit', ch))
        else: a.append(('x', p))
    a, e = norm(a), norm(exp)
    if len(a) < len(e):       # missing run of zero spaces
        for i, x in enumerate(e):
            if x[0] == 'sp' and (i >= len(a) or a[i][0] != 'sp'): a.insert(i, ('sp', 0))
    if len(e) < len(a):
        for i, x in enumerate(a):
            if x[0] == 'sp' and (i >= len(e) or e[i][0] != 'sp'): e.insert(i, ('sp', 0))
    ok = len(a) == len(e) and all(x[0] == y[0] for x, y in zip(a, e))
    ctx.prove(ok, 'output', '%r / %r' % (a, e))
    for x, y in zip(a, e):
        ctx.prove(eq(x[1], y[1], 32) if x[0] == 'sp' else x[1] == y[1], 'output')

@spec('B_PRINT_LN')
def print_ln(S, op):
    S.E.out.append(('stdout', ('lit', b'\n'))); S.E.vm['col'] = 1
@spec('B_PRINT_SPC', alts=2)
def print_spc(S, op):
    k = S.unsigned(); V = S.V
    S.loops = [Spaces(V, lambda c0: k, S.ctx.opts.get('alt', 0))]
    S.E.vm['col'] = ibin('add', 32, V.get('col'), k)
    out_spaces(S, ('sp', k))
@spec('B_PRINT_TAB', alts=2)
def print_tab(S, op):
    k = S.unsigned(); V = S.V
    col = V.get('col')
    if S.br(ult(k, col, 32)):
        # a position already passed starts a new line; the line starts at column 1
        pre = [('lit', 10)]; c0 = 1
    else: pre = []; c0 = col
    end = k if S.br(ule(c0, k, 32)) else c0
    S.loops = [Spaces(V, lambda cc: ibin('sub', 32, end, c0), S.ctx.opts.get('alt', 0))]
    S.E.vm['col'] = end
    out_spaces(S, *(pre + [('sp', ibin('sub', 32, end, c0))]))
@spec('B_PRINT_COMMA')
def print_comma(S, op):
    ctx, V = S.ctx, S.V
    col = V.get('col')
    ctx.assume(icmp('ne', 32, col, 0)); ctx.assume(ule(col, 1 << 31, 32))
    # advance to the next column of the form 8k+1, at least one space
    n = ibin('sub', 32, 8, ibin('urem', 32, ibin('sub', 32, col, 1), 8))
    S.E.vm['col'] = ibin('add', 32, col, n)
    out_spaces(S, ('sp', n))
@spec('B_PRINT_NUM')
def print_num(S, op):
    x = S.pop(); V = S.V
    col = V.get('col')
    S.E.out += [('stdout', ('lit', b' ')), ('stdout', ('g', x)), ('stdout', ('lit', b' '))]
    S.E.vm['col'] = lambda ctx: ibin('add', 32, col, ctx.last_printf)
class PrintStr(LoopSpec):
    """j characters of the string printed; the column is COL(j)"""
    def __init__(self, V, ref, col0):
        LoopSpec.__init__(self, name='print-string', roles={})
        self.V, self.ref = V, ref
        ctx = V.ctx
        self.F = z3.Function(ctx.name('COL'), z3.BitVecSort(64), z3.BitVecSort(32))
        ctx.assume(self.F(z3.BitVecVal(0, 64)) == bv(col0, 32))
        self.off = ctx.prog.di.field('VM', 'col')[0]
    def col(self, j):
        """the ghost column after j characters, with its defining equation at j"""
        ctx = self.V.ctx
        f = self.F
        t = bv(j, 64)
        ch = self.ref.char(j)
        ctx.assume(f(t + 1) == z3.If(B(icmp('eq', 8, ch, 10)), z3.BitVecVal(1, 32), f(t) + 1))
        return f(t)
    def bind(self, ctx, fr, label, vals):
        ph = [i for i in fr.fn.blocks[label] if i.op == 'phi']
        if len(ph) != 1: return None
        self.uses += 1
        return Loop(self, fr, label, {'S': ph[0].dst})
    def j(self, v):
        x = v['S']
        if isinstance(x, Ptr): return off_term(x.off)
        return z64(x, x.size()) if not isinstance(x, int) else x
    def inv(self, ctx, L, v):
        j = self.j(v)
        return [('within-string', ule(j, self.ref.len)), ('column', eq(self.V.get('col'), simp(self.col(j)), 32))]
    def havoc(self, ctx, L, v):
        self.V.set('col', ctx.fresh('col', 32))
        ctx.events.append(('out', 'stdout', [('strpre', self.ref, self.j(v))]))
        L.g['ev'] = len(ctx.events); L.g['j'] = self.j(v)
    def at_back(self, ctx, L, v):
        ev = flat_out(ctx, ctx.events[L.g['ev']:])
        ok = len(ev) == 1 and ev[0][0] == 'stdout' and ev[0][1][0] in ('c', 'lit')
        ctx.prove(ok, 'one-character-per-iteration', repr(ev))
        x = ev[0][1][1]
        if isinstance(x, bytes): x = x[0]
        ctx.prove(eq(trunc(x, 32, 8), self.ref.char(L.g['j']), 8), 'prints-the-next-character')
        ctx.prove(eq(self.j(v), add(L.g['j'], 1), 64), 'advances-by-one')
    def may_write(self, ctx, L, o, kind, off): return o is self.V.p.obj and off == self.off
    def variant(self, ctx, L, v): return sub(1 << 40, self.j(v))
@spec('B_PRINT_STR')
def print_str(S, op):
    ctx, V = S.ctx, S.V
    s = S.pops(); r = strref(ctx, s)
    sp = PrintStr(V, r, V.get('col'))
    S.loops = [sp]
    S.free(s)
    n = r.len
    S.E.vm['col'] = simp(sp.col(n))
    S.E.skip_out = True
    def post(cx):
        act = flat_out(cx, cx.events[S.ev0:])
        ok = len(act) == 1 and act[0][1][0] == 'strpre' and act[0][1][1] is r
        cx.prove(ok, 'output', repr(act))
        cx.prove(eq(act[0][1][2], n, 64), 'whole-string-printed')
    S.E.post.append(post)
@spec('B_CLS', setup=(lambda ctx, V, S: ctx.stubs.__setitem__('clear_screen', lambda c, a: None),))
def cls(S, op): S.E.vm['col'] = 1

# ---------------------------------------------------------------- driver
def mk_state(ctx, op, code):
    V = VM(ctx, code)
    V.pre = {f: V.get(f) for f in ('sp', 'ssp', 'rsp', 'for_sp')}
    V.iset(V.pc, 'op', enum(ctx, op.split('/')[0]))
    maps = []
    def linemap(cx, line):
        for l, r in maps:
            if cx.branch(eq(l, line, 32)): return r
        if cx.choose(2) == 0:
            v = cx.fresh('target', 32)
            cx.assume(ule(v, V.get_used('stored'), 32))
            r = (True, v)
        else: r = (False, None)
        maps.append((line, r))
        return r
    V.linemap = linemap
    return V

def op_harness(op):
    f, kw = SPECS[op]
    def h(ctx):
        terms.absf2i = kw.get('absf2i', False)
        V = mk_state(ctx, op, kw['code'])
        S = Spec(ctx, V)
        S.E.post = []; S.E.owns = set()
        if kw.get('arrays'): mkA(S)
        S.next_pc()
        try:
            f(S, op)
            S.finish()
            want = 'ret'
        except Error as e:
            want = 'error'; why = e.why
        stubs(ctx, V)
        if kw.get('arrays'): array_stubs(ctx, V, S)
        for setup in kw.get('setup', ()): setup(ctx, V, S)
        if getattr(S, 'loops', None): ctx.loopspecs = S.loops
        snap = snapshot(ctx, V)
        S.ev0 = snap['ev']
        kind, r = ctx.run('execute', [V.p])
        ctx.loopspecs = []
        ctx.cover('%s:%s' % (op, want))
        if want == 'error':
            ctx.prove(kind == 'error', op + ':reports-error', why)
            return
        ctx.prove(kind == 'ret', op + ':no-error', str(kind))
        for path, v in S.E.vm.items():
            if callable(v): S.E.vm[path] = v(ctx)
        for pf in S.E.post: pf(ctx)
        compare(ctx, V, snap, S.E, op)
    h.alts = kw.get('alts', 1)
    h.__name__ = op
    return h
from . import vmio
