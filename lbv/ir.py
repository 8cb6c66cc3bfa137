"""Parser for the textual LLVM IR that clang produces from /repo's C sources.

Only the subset that clang -O0 + mem2reg emits for this code base is understood;
anything else raises IRError, so nothing is silently dropped.
"""
import re

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b', '_size', '_align', '_key')
    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
        self._size = self._align = None
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.a
        if self.k == 'arr': return '[%d x %r]' % (self.a, self.b)
        if self.k == 'struct': return '{%s}' % ', '.join(map(repr, self.a))
        if self.k == 'named': return self.a
        return self.k

_int_cache = {}
def IntTy(n):
    t = _int_cache.get(n)
    if t is None:
        t = _int_cache[n] = Ty('int', n)
    return t
PTR = Ty('ptr')
F64 = Ty('f64')
VOID = Ty('void')
LABEL = Ty('label')
META = Ty('metadata')

class Tok:
    """tokenizer over one line"""
    RE = re.compile(r'''\s*(?:
        (?P<str>c?"(?:[^"\\]|\\.)*")|
        (?P<name>[%@](?:"[^"]*"|[-A-Za-z$._0-9]+))|
        (?P<meta>![-A-Za-z$._0-9]*)|
        (?P<hex>0x[0-9A-Fa-f]+)|
        (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)|
        (?P<word>[A-Za-z_][A-Za-z0-9_.]*)|
        (?P<dots>\.\.\.)|
        (?P<p>[][(){}<>,=*:\#|^])
        )''', re.X)
    def __init__(self, s):
        self.s = s
        self.t = []
        i = 0
        n = len(s)
        while i < n:
            m = self.RE.match(s, i)
            if not m:
                if s[i:].strip() == '': break
                raise IRError('tokenize: %r' % s[i:i + 60])
            self.t.append((m.lastgroup, m.group(m.lastgroup)))
            i = m.end()
        self.i = 0
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)
    def next(self):
        x = self.peek()
        self.i += 1
        return x
    def eat(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False
    def expect(self, v):
        if not self.eat(v):
            raise IRError('expected %s in %r at %r' % (v, self.s, self.peek()))

ATTRS = set('noundef zeroext signext nonnull noalias nocapture readonly writeonly readnone inreg returned '
            'immarg dso_local internal external private unnamed_addr local_unnamed_addr constant global '
            'tail musttail notail nsw nuw exact inbounds volatile fast nnan ninf nsz arcp contract afn reassoc '
            'weak linkonce_odr hidden default signext allocptr nounwind'.split())

def parse_type(tk):
    k, v = tk.next()
    if k == 'word':
        if v == 'ptr': t = PTR
        elif v == 'double': t = F64
        elif v == 'void': t = VOID
        elif v == 'label': t = LABEL
        elif v == 'metadata': t = META
        elif v == 'x86_fp80': t = Ty('f80')
        elif re.fullmatch(r'i\d+', v): t = IntTy(int(v[1:]))
        else: raise IRError('type %r in %r' % (v, tk.s))
    elif k == 'name' and v[0] == '%':
        t = Ty('named', v[1:])
    elif v == '[':
        n = int(tk.next()[1]); tk.expect('x')
        e = parse_type(tk); tk.expect(']')
        t = Ty('arr', n, e)
    elif v == '{':
        fs = []
        if not tk.eat('}'):
            while True:
                fs.append(parse_type(tk))
                if tk.eat('}'): break
                tk.expect(',')
        t = Ty('struct', fs)
    else:
        raise IRError('type at %r in %r' % (v, tk.s))
    # function type suffix: i32 (ptr, ...)
    if tk.peek()[1] == '(' and tk.peek(-1)[1] != ')':
        save = tk.i
        try:
            tk.next()
            depth = 1
            ok = True
            while depth:
                kk, vv = tk.next()
                if kk is None: ok = False; break
                if vv == '(': depth += 1
                elif vv == ')': depth -= 1
            # a function type is followed by the callee
            if not ok or tk.peek()[0] != 'name':
                tk.i = save
        except IRError:
            tk.i = save
    return t

class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'line')
    def __init__(self, op, dst, ty, a, line):
        self.op, self.dst, self.ty, self.a, self.line = op, dst, ty, a, line
    def __repr__(self):
        return '%s=%s %r %r' % (self.dst, self.op, self.ty, self.a)

class Func:
    def __init__(self, name):
        self.name = name
        self.params = []     # (ty, name)
        self.ret = VOID
        self.blocks = {}     # label -> [Instr]
        self.order = []
        self.entry = None
        self.dbg = {}        # value name -> set of source variable names
        self.argnames = []
        self.module = None
        self.vararg = False
        self._loops = None
    def preds(self):
        p = {b: [] for b in self.order}
        for b in self.order:
            for s in self.succs(b):
                p[s].append(b)
        return p
    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return [t.a[1], t.a[2]] if len(t.a) == 3 else [t.a[0]]
        if t.op == 'switch':
            return [t.a[1]] + [l for _, l in t.a[2]]
        return []
    def loops(self):
        """header label -> set of blocks of the natural loop"""
        if self._loops is not None:
            return self._loops
        # dominators
        order = self._rpo()
        idx = {b: i for i, b in enumerate(order)}
        preds = self.preds()
        idom = {self.entry: self.entry}
        changed = True
        while changed:
            changed = False
            for b in order:
                if b == self.entry: continue
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]: x = idom[x]
                                while idx[y] > idx[x]: y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == self.entry: return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in self.succs(b):
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x not in body:
                            body.add(x)
                            stack.extend(preds[x])
        self._loops = loops
        return loops
    def _rpo(self):
        seen, post = set(), []
        stack = [(self.entry, iter(self.succs(self.entry)))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                post.append(b)
                stack.pop()
        return post[::-1]

class Module:
    def __init__(self, name):
        self.name = name
        self.structs = {}
        self.globals = {}    # name -> (ty, init, isconst, isinternal)
        self.funcs = {}
        self.decls = set()

# operands: ('v', name) ('g', name) ('c', int) ('f', float) ('null',) ('undef',) ('zero',) ('gep', srcty, base, idxs)
def parse_fp(tk):
    k, v = tk.next()
    import struct
    if k == 'hex':
        return struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0]
    return float(v)

def parse_operand(tk, ty):
    k, v = tk.peek()
    if k == 'name':
        tk.next()
        nm = v[1:].strip('"')
        return ('g', nm) if v[0] == '@' else ('v', v[1:])
    if ty.k == 'f64':
        if v in ('undef', 'poison'):
            tk.next(); return ('undef',)
        return ('f', parse_fp(tk))
    if k == 'num':
        tk.next()
        n = int(v)
        return ('c', n & ((1 << ty.a) - 1))
    if k == 'str':
        tk.next()
        return ('str', parse_cstr(v))
    if v in ('true', 'false'):
        tk.next(); return ('c', 1 if v == 'true' else 0)
    if v == 'null':
        tk.next(); return ('null',)
    if v in ('undef', 'poison'):
        tk.next(); return ('undef',)
    if v == 'zeroinitializer':
        tk.next(); return ('zero',)
    if v == 'getelementptr':
        tk.next()
        tk.eat('inbounds')
        tk.expect('(')
        sty = parse_type(tk); tk.expect(',')
        pt = parse_type(tk); base = parse_operand(tk, pt)
        idx = []
        while tk.eat(','):
            it = parse_type(tk); idx.append((it, parse_operand(tk, it)))
        tk.expect(')')
        return ('gep', sty, base, idx)
    if v == 'inttoptr':
        tk.next(); tk.expect('(')
        it = parse_type(tk); x = parse_operand(tk, it)
        tk.expect('to'); parse_type(tk); tk.expect(')')
        return ('i2p', x)
    if v == '{':
        tk.next(); fs = []
        if not tk.eat('}'):
            while True:
                t = parse_type(tk); fs.append((t, parse_operand(tk, t)))
                if tk.eat('}'): break
                tk.expect(',')
        return ('agg', fs)
    if v == '[':
        tk.next(); fs = []
        if not tk.eat(']'):
            while True:
                t = parse_type(tk); fs.append((t, parse_operand(tk, t)))
                if tk.eat(']'): break
                tk.expect(',')
        return ('agg', fs)
    raise IRError('operand %r in %r' % (v, tk.s))

def parse_cstr(v):
    body = v[2:-1] if v.startswith('c"') else v[1:-1]
    out = bytearray(); i = 0
    while i < len(body):
        if body[i] == '\\':
            out.append(int(body[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(body[i])); i += 1
    return bytes(out)

def skip_attrs(tk):
    while True:
        k, v = tk.peek()
        if k == 'word' and v in ATTRS:
            tk.next()
        elif k == 'word' and v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'addrspace', 'memory'):
            tk.next()
            if tk.peek()[1] == '(':
                d = 0
                while True:
                    x = tk.next()[1]
                    if x == '(': d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0: break
            elif v == 'align':
                tk.next()
        else:
            return

def parse_args(tk):
    tk.expect('(')
    args = []
    if tk.eat(')'): return args
    while True:
        if tk.peek()[1] == '...':
            tk.next()
        else:
            t = parse_type(tk)
            skip_attrs(tk)
            if t.k == 'metadata':
                # skip metadata operand
                depth = 0
                toks = []
                while True:
                    v = tk.peek()[1]
                    if depth == 0 and v in (',', ')'): break
                    if v == '(': depth += 1
                    if v == ')': depth -= 1
                    toks.append(tk.next()[1])
                args.append((t, ('meta', toks)))
            else:
                args.append((t, parse_operand(tk, t)))
        if tk.eat(')'): break
        tk.expect(',')
    return args

BINOPS = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CASTS = set('zext sext trunc fptosi fptoui uitofp sitofp ptrtoint inttoptr bitcast fpext fptrunc'.split())

def parse_instr(line, dbglines):
    m = re.search(r', !dbg !(\d+)', line)
    lineno = dbglines.get(m.group(1), 0) if m else 0
    line = re.sub(r'(, ![A-Za-z_.]+ ![0-9]+)+$', '', line)
    line = re.sub(r' #\d+$', '', line)
    tk = Tok(line)
    dst = None
    if tk.peek()[0] == 'name' and tk.peek(1)[1] == '=':
        dst = tk.next()[1][1:]; tk.next()
    while tk.peek()[1] in ('tail', 'musttail', 'notail'):
        tk.next()
    op = tk.next()[1]
    if op in BINOPS:
        skip_attrs(tk)
        t = parse_type(tk)
        a = parse_operand(tk, t); tk.expect(','); b = parse_operand(tk, t)
        return Instr(op, dst, t, (a, b), lineno)
    if op == 'fneg':
        t = parse_type(tk)
        return Instr(op, dst, t, (parse_operand(tk, t),), lineno)
    if op in ('icmp', 'fcmp'):
        skip_attrs(tk)
        pred = tk.next()[1]
        t = parse_type(tk)
        a = parse_operand(tk, t); tk.expect(','); b = parse_operand(tk, t)
        return Instr(op, dst, t, (pred, a, b), lineno)
    if op in CASTS:
        skip_attrs(tk)
        t = parse_type(tk); a = parse_operand(tk, t); tk.expect('to'); t2 = parse_type(tk)
        return Instr(op, dst, t2, (t, a), lineno)
    if op == 'freeze':
        t = parse_type(tk)
        return Instr(op, dst, t, (parse_operand(tk, t),), lineno)
    if op == 'alloca':
        t = parse_type(tk)
        return Instr(op, dst, t, (), lineno)
    if op == 'load':
        skip_attrs(tk)
        t = parse_type(tk); tk.expect(',')
        pt = parse_type(tk)
        return Instr(op, dst, t, (parse_operand(tk, pt),), lineno)
    if op == 'store':
        skip_attrs(tk)
        t = parse_type(tk); v = parse_operand(tk, t); tk.expect(',')
        pt = parse_type(tk)
        return Instr(op, dst, t, (v, parse_operand(tk, pt)), lineno)
    if op == 'getelementptr':
        skip_attrs(tk)
        t = parse_type(tk); tk.expect(',')
        pt = parse_type(tk); base = parse_operand(tk, pt)
        idx = []
        while tk.eat(','):
            it = parse_type(tk); idx.append((it, parse_operand(tk, it)))
        return Instr(op, dst, t, (base, idx), lineno)
    if op == 'phi':
        t = parse_type(tk)
        inc = []
        while True:
            tk.expect('[')
            v = parse_operand(tk, t); tk.expect(',')
            l = tk.next()[1][1:]; tk.expect(']')
            inc.append((v, l))
            if not tk.eat(','): break
        return Instr(op, dst, t, inc, lineno)
    if op == 'select':
        ct = parse_type(tk); c = parse_operand(tk, ct); tk.expect(',')
        t = parse_type(tk); a = parse_operand(tk, t); tk.expect(',')
        parse_type(tk); b = parse_operand(tk, t)
        return Instr(op, dst, t, (c, a, b), lineno)
    if op == 'br':
        if tk.eat('label'):
            return Instr(op, None, None, (tk.next()[1][1:],), lineno)
        t = parse_type(tk); c = parse_operand(tk, t); tk.expect(','); tk.expect('label')
        l1 = tk.next()[1][1:]; tk.expect(','); tk.expect('label')
        l2 = tk.next()[1][1:]
        return Instr(op, None, None, (c, l1, l2), lineno)
    if op == 'switch':
        t = parse_type(tk); c = parse_operand(tk, t); tk.expect(','); tk.expect('label')
        d = tk.next()[1][1:]; tk.expect('[')
        cases = []
        while not tk.eat(']'):
            ct = parse_type(tk); cv = parse_operand(tk, ct); tk.expect(','); tk.expect('label')
            cases.append((cv[1], tk.next()[1][1:]))
        return Instr(op, None, t, (c, d, cases), lineno)
    if op == 'ret':
        t = parse_type(tk)
        return Instr(op, None, t, () if t.k == 'void' else (parse_operand(tk, t),), lineno)
    if op == 'unreachable':
        return Instr(op, None, None, (), lineno)
    if op == 'call':
        skip_attrs(tk)
        t = parse_type(tk)
        skip_attrs(tk)
        # optional function type "(ptr, ...)"
        if tk.peek()[1] == '(':
            d = 0
            while True:
                x = tk.next()[1]
                if x == '(': d += 1
                elif x == ')':
                    d -= 1
                    if d == 0: break
        callee = parse_operand(tk, PTR)
        args = parse_args(tk)
        return Instr(op, dst, t, (callee, args), lineno)
    if op in ('extractvalue',):
        t = parse_type(tk); a = parse_operand(tk, t); tk.expect(',')
        return Instr(op, dst, t, (a, int(tk.next()[1])), lineno)
    raise IRError('instruction %r' % line)

def parse_module(text, name):
    M = Module(name)
    lines = text.split('\n')
    # debug info
    dbglines = {}
    varnames = {}
    for l in lines:
        if l.startswith('!'):
            m = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', l)
            if m:
                dbglines[m.group(1)] = int(m.group(2)); continue
            m = re.match(r'!(\d+) = !DILocalVariable\(name: "([^"]*)"', l)
            if m:
                varnames[m.group(1)] = m.group(2)
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        if l.startswith('%') and ' = type ' in l:
            nm, rest = l.split(' = type ', 1)
            if rest.strip() == 'opaque':
                M.structs[nm[1:]] = None
            else:
                M.structs[nm[1:]] = parse_type(Tok(rest))
        elif l.startswith('@'):
            parse_global(M, l)
        elif l.startswith('declare'):
            m = re.search(r'@("?[-A-Za-z$._0-9]+"?)\(', l)
            M.decls.add(m.group(1))
        elif l.startswith('define'):
            F, i = parse_func(M, lines, i, dbglines, varnames)
            M.funcs[F.name] = F
        i += 1
    return M

def parse_global(M, l):
    l = re.sub(r'(, (align \d+|!dbg !\d+|comdat|section "[^"]*"))+$', '', l)
    tk = Tok(l)
    nm = tk.next()[1][1:]
    tk.expect('=')
    isconst = False; ext = False; internal = False
    while True:
        k, v = tk.peek()
        if v in ('constant',): isconst = True; tk.next(); break
        if v in ('global',): tk.next(); break
        if v == 'external': ext = True
        if v in ('internal', 'private'): internal = True
        if k != 'word': raise IRError(l)
        tk.next()
    t = parse_type(tk)
    init = None
    if not ext:
        init = parse_operand(tk, t)
    M.globals[nm] = (t, init, isconst, internal)

def parse_func(M, lines, i, dbglines, varnames):
    h = lines[i]
    h = re.sub(r'( #\d+)?( !dbg !\d+)? \{$', '', h)
    m = re.match(r'define (.*?)@("?[-A-Za-z$._0-9]+"?)(\(.*)$', h)
    if not m: raise IRError(h)
    F = Func(m.group(2)); F.module = M
    rt = Tok(m.group(1))
    while rt.peek()[0] == 'word' and rt.peek()[1] in ATTRS: rt.next()
    F.ret = parse_type(rt)
    at = Tok(m.group(3))
    at.expect('(')
    if not at.eat(')'):
        while True:
            if at.eat('...'):
                F.vararg = True
            else:
                t = parse_type(at); skip_attrs(at)
                F.params.append((t, at.next()[1][1:]))
            if at.eat(')'): break
            at.expect(',')
    # entry label number = number of unnamed params
    cur = str(len(F.params))
    F.entry = cur
    F.blocks[cur] = []; F.order.append(cur)
    i += 1
    while lines[i] != '}':
        l = lines[i]
        s = l.strip()
        if s == '' or s.startswith(';'):
            i += 1; continue
        m = re.match(r'^([-A-Za-z$._0-9]+):', l)
        if m:
            cur = m.group(1)
            F.blocks[cur] = []; F.order.append(cur)
            i += 1; continue
        if 'switch' in s and s.endswith('['):
            while not lines[i].strip().startswith(']'):
                i += 1
                s += ' ' + lines[i].strip()
        m = re.match(r'(?:tail )?call void @llvm\.dbg\.(value|declare)\(metadata (\S+) ([^,]+), metadata !(\d+)', s)
        if m:
            v = m.group(3)
            if v.startswith('%'):
                F.dbg.setdefault(v[1:], set()).add(varnames.get(m.group(4), '?'))
            i += 1; continue
        if '@llvm.dbg.' in s:
            i += 1; continue
        F.blocks[cur].append(parse_instr(s, dbglines))
        i += 1
    return F, i
