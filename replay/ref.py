"""Reference interpreter for the BASIC dialect (written from doc/LegacyBasic.rst and the
property statements).  Used only to confirm an alarm of the verifier with a concrete input
and for the bounded stand-ins; it never decides a proof obligation."""
import ctypes, math, os, re, struct

libc = ctypes.CDLL('libc.so.6'); libm = ctypes.CDLL('libm.so.6')
libc.snprintf.restype = ctypes.c_int
for n in ('sin', 'cos', 'tan', 'atan', 'exp', 'log', 'sqrt'):
    f = getattr(libm, n); f.restype = ctypes.c_double; f.argtypes = [ctypes.c_double]
libm.pow.restype = ctypes.c_double; libm.pow.argtypes = [ctypes.c_double, ctypes.c_double]
NNAN = struct.unpack('<d', struct.pack('<Q', 0xfff8000000000000))[0]
def fmt_g(x):
    if x != x: raise TooLong()      # the sign of a NaN is not specified: not judged
    b = ctypes.create_string_buffer(64)
    libc.snprintf(b, 64, b'%g', ctypes.c_double(x))
    return b.value.decode()
def fdiv(a, b):
    if b != 0: return a / b
    if a == 0 or a != a: return NNAN if a == 0 else a
    return math.copysign(math.inf, a) * math.copysign(1, b)
def isint(x): return not math.isinf(x) and not math.isnan(x) and x == math.floor(x)

KEYWORDS = 'AND CLEAR CLS DATA DEF DIM ELSE END FOR GOSUB GOTO IF INPUT LET LINE NEXT NOT ON OR PRINT RANDOMIZE READ REM RESTORE RETURN STEP STOP THEN TO'.split()
BUILTINS = {  # name: (type, args) ; None = not implemented
    'ABS': ('N', 'n'), 'ASC': ('N', 's'), 'ATN': ('N', 'n'), 'CHR$': ('S', 'n'), 'COS': ('N', 'n'), 'EXP': ('N', 'n'),
    'FIX': None, 'GET$': None, 'HEX$': None, 'INKEY$': None, 'INT': ('N', 'n'), 'LEFT$': ('S', 'sn'), 'LEN': ('N', 's'),
    'LOG': ('N', 'n'), 'MID$': ('S', 'snn'), 'RIGHT$': ('S', 'sn'), 'RND': ('N', 'd'), 'SGN': ('N', 'n'), 'SIN': ('N', 'n'),
    'SPACE$': None, 'SQR': ('N', 'n'), 'STR$': ('S', 'n'), 'TAN': ('N', 'n'), 'TIME$': ('S', 'd'), 'USR': None, 'VAL': ('N', 's')}

class SyntaxErr(Exception): pass
class RunErr(Exception): pass
class Exit(Exception): pass
class TooLong(Exception): pass

NUMRE = re.compile(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?')
def convert(s):
    """numeric prefix: (value, rest) or None"""
    s = s.lstrip(' \t')
    if not s or not (s[0].isdigit() or s[0] in '.-+'): return None
    m = NUMRE.match(s)
    if re.match(r'[+-]?(inf|nan|0x)', s, re.I): raise TooLong()   # accepted by the C library, not documented: not judged
    if not m: return 0.0, s
    return float(m.group(0)), s[m.end():].lstrip(' \t')

# ------------------------------------------------------------------ lexer
class Lex:
    def __init__(self, text, crunch):
        self.t, self.p, self.crunch = text, 0, crunch
        self.tok = None; self.word = ''; self.num = 0.0; self.pos = 0
    def kwprefix(self, p):
        u = self.t[p:p + 12].upper()
        for k in KEYWORDS:
            if u.startswith(k): return k
        return None
    def next(self):
        t, n = self.t, len(self.t)
        p = self.p
        while p < n and t[p] in ' \t\r': p += 1
        self.pos = p
        if p >= n:
            self.p = p; self.tok = '\n'; return self.tok
        c = t[p]
        if ord(c) >= 127: raise Exit(1)
        if c.isalpha():
            if self.crunch:
                k = self.kwprefix(p)
                if k: self.p = p + len(k); self.word = k; self.tok = k; return k
                q = p + 1
                while q < n and t[q].isalnum():
                    if t[q].isalpha() and self.kwprefix(q):
                        self.word = t[p:q]; self.p = q; self.tok = 'ID'; return 'ID'
                    q += 1
                if q < n and t[q] == '$': q += 1
                self.word = t[p:q]; self.p = q
                self.tok = 'ERROR' if len(self.word.rstrip('$')) > 126 else 'ID'
                return self.tok
            q = p + 1
            while q < n and t[q].isalnum(): q += 1
            if q - p > 126: self.tok = 'ERROR'; self.p = p + 126; return self.tok
            if q < n and t[q] == '$': q += 1
            self.word = t[p:q]; self.p = q
            u = self.word.upper()
            self.tok = u if u in KEYWORDS else 'ID'
            return self.tok
        if c.isdigit() or c == '.':
            q = p
            while q < n and t[q].isdigit(): q += 1
            if q < n and t[q] == '.':
                q += 1
                while q < n and t[q].isdigit(): q += 1
            if q < n and t[q] in 'eE':
                q += 1
                if q < n and t[q] == '-': q += 1
                while q < n and t[q].isdigit(): q += 1
            self.word = t[p:q]; self.p = q
            if q - p > 127: self.tok = 'ERROR'; return self.tok
            try: self.num = float(self.word)
            except ValueError: self.tok = 'ERROR'; return self.tok
            self.tok = 'NUM'; return self.tok
        if c == '"':
            q = t.find('"', p + 1)
            if q < 0: self.p = n; self.tok = 'ERROR'; return self.tok
            self.word = t[p + 1:q]; self.p = q + 1
            self.tok = 'STR' if q - p - 1 <= 127 else 'ERROR'
            return self.tok
        two = t[p:p + 2]
        if two in ('<>', '<=', '>='): self.p = p + 2; self.tok = two; return two
        self.p = p + 1; self.tok = c
        return c
    def data(self):
        t, n = self.t, len(self.t)
        p = self.p
        while p < n and t[p] in ' \t': p += 1
        self.pos = p
        if p < n and t[p] == '"':
            q = t.find('"', p + 1)
            if q < 0 or q - p - 1 > 127: raise SyntaxErr('DATA')
            self.p = q + 1
            return t[p + 1:q]
        q = p
        while q < n and t[q] not in '",:': q += 1
        if q - p > 127: raise SyntaxErr('DATA')
        self.p = q
        return t[p:q].rstrip(' \t')

# ------------------------------------------------------------------ symbols
class Sym:
    def __init__(self, name, kind, ty):
        self.name, self.kind, self.ty = name, kind, ty
        self.defined = False; self.val = 0.0 if ty == 'N' else None
class Syms:
    def __init__(self): self.clear_names()
    def clear_names(self):
        self.simple, self.paren = {}, {}
        for b, d in BUILTINS.items():
            s = Sym(b, 'BUILTIN', d[0] if d else 'E')
            self.simple[b] = s; self.paren[b] = s
    def clear_values(self):
        for s in list(self.simple.values()) + list(self.paren.values()):
            if s.kind != 'BUILTIN':
                if s.defined: s.val = 0.0 if (s.ty == 'N' and s.kind == 'VAR') else None
                s.defined = False
    def lookup(self, name, paren): return (self.paren if paren else self.simple).get(name.upper())
    def insert(self, name, kind, ty):
        s = Sym(name, kind, ty)
        (self.simple if kind == 'VAR' else self.paren)[name.upper()] = s
        return s
    def unknown_to_array(self):
        for s in self.paren.values():
            if s.kind == 'UNK': s.kind = 'ARR'

# ------------------------------------------------------------------ compiler
class Compiler:
    def __init__(self, syms, crunch): self.S, self.crunch, self.code = syms, crunch, []
    def emit(self, *i): self.code.append(list(i)); return len(self.code) - 1
    def compile(self, lines):
        try:
            for k, (num, text) in enumerate(lines): self.cur = k; self.line(k, text)
        finally:
            self.S.unknown_to_array()
        return self.code
    def nx(self): return self.L.next()
    @property
    def tok(self): return self.L.tok
    def match(self, t):
        if self.tok != t: raise SyntaxErr('expected %s' % t)
        self.nx()
    def line(self, k, text):
        self.L = Lex(text, self.crunch); self.nx()
        self.emit('LINE', k)
        self.ift = None
        self.complete()
        while self.tok == ':':
            self.nx(); self.complete()
        if self.tok != '\n': raise SyntaxErr('end of line')
    def complete(self):
        while self.statement(): pass
    def statement(self):
        t = self.tok
        cont = False
        f = {'CLEAR': self.simple('CLEAR'), 'CLS': self.simple('CLS'), 'END': self.simple('END'), 'RETURN': self.simple('RETURN'), 'STOP': self.simple('STOP'),
             'DATA': self.s_data, 'DEF': self.s_def, 'DIM': self.s_dim, 'FOR': self.s_for, 'GOSUB': self.s_jump('GOSUB'), 'GOTO': self.s_jump('GOTO'),
             'IF': self.s_if, 'INPUT': self.s_input, 'LET': self.s_let, 'LINE': self.s_linput, 'NEXT': self.s_next, 'ON': self.s_on,
             'PRINT': self.s_print, '?': self.s_print, 'RANDOMIZE': self.s_rand, 'READ': self.s_read, 'REM': self.s_rem, 'RESTORE': self.s_restore, 'ID': self.assign}.get(t)
        if f: cont = bool(f())
        elif t not in ('\n', ':'): raise SyntaxErr('statement expected')
        if self.tok == 'ELSE': cont = self.s_else()
        return cont
    def simple(self, op):
        def f(): self.nx(); self.emit(op)
        return f
    def lineno(self):
        if self.tok == 'NUM' and 0 < self.L.num <= 65535 and isint(self.L.num):
            v = int(self.L.num); self.nx(); return v
        raise SyntaxErr('line number')
    def s_jump(self, op):
        def f(): self.nx(); self.emit(op, self.lineno())
        return f
    def s_data(self):
        self.emit('DATA', self.L.data())
        while self.nx() == ',': self.emit('DATA', self.L.data())
    def s_def(self):
        self.nx()
        if self.tok != 'ID': raise SyntaxErr('name')
        name = self.L.word; ty = 'S' if name.endswith('$') else 'N'
        s = self.S.lookup(name, True)
        if s:
            if s.kind == 'UNK': s.kind = 'DEF'
            elif s.kind != 'DEF': raise SyntaxErr('name used')
        else: s = self.S.insert(name, 'DEF', ty)
        self.nx()
        self.emit('DEF', s)
        self.match('(')
        p = self.numvar()
        self.emit('PARAM', p)
        self.match(')'); self.match('=')
        if self.expr() != ty: raise SyntaxErr('type')
        self.emit('ENDDEF')
    def comma_list(self, f):
        f()
        while self.tok == ',': self.nx(); f()
    def s_dim(self):
        self.nx()
        def one():
            s, n = self.ident('ARR')
            if s.kind != 'ARR': raise SyntaxErr('array expected')
            self.emit('DIM', s, n)
        self.comma_list(one)
    def s_for(self):
        self.nx()
        v = self.numvar()
        self.match('='); self.numexpr(); self.match('TO'); self.numexpr()
        if self.tok == 'STEP': self.nx(); self.numexpr()
        else: self.emit('NUM', 1.0)
        self.emit('FOR', v)
    def s_next(self):
        self.nx()
        if self.tok == 'ID': self.comma_list(lambda: self.emit('NEXTV', self.numvar()))
        else: self.emit('NEXTI')
    def s_if(self):
        self.nx(); self.numexpr(); self.match('THEN')
        if self.tok == 'NUM':
            self.emit('GOTRUE', self.lineno()); self.ift = None
            return False
        self.ift = self.emit('IFTHEN')
        return True
    def s_else(self):
        if self.ift is None:
            if self.code and self.code[-1][0] == 'GOTRUE':
                self.nx(); self.emit('GOTO', self.lineno())
                return False
            raise SyntaxErr('unexpected ELSE')
        self.nx()
        self.code[self.ift][0] = 'IFELSE'
        self.emit('ELSE'); self.ift = None
        return True
    def inbuf(self):
        pr = None
        if self.tok == 'STR':
            pr = self.L.word
            if self.nx() in (';', ','): self.nx()
        self.emit('INBUF', pr)
    def s_input(self):
        self.nx(); self.inbuf()
        self.initem()
        while self.tok == ',':
            self.nx(); self.emit('INSEP'); self.initem()
        self.emit('INEND')
    def initem(self):
        s, n = self.ident('ARR')
        self.emit('INNUM' if s.ty == 'N' else 'INSTR', s, n)
    def s_linput(self):
        self.nx(); self.match('INPUT'); self.inbuf()
        s, n = self.ident('ARR')
        if s.ty != 'S': raise SyntaxErr('string variable')
        self.emit('INLINE', s, n)
    def s_let(self): self.nx(); self.assign()
    def assign(self):
        s, n = self.ident('ARR')
        self.match('=')
        if self.expr() != s.ty: raise SyntaxErr('type')
        self.emit('SET', s, n)
    def s_on(self):
        self.nx(); self.numexpr()
        if self.tok not in ('GOTO', 'GOSUB'): raise SyntaxErr('GOTO or GOSUB')
        i = self.emit('ON' + self.tok, None); self.nx()
        l = [self.lineno()]
        while self.tok == ',': self.nx(); l.append(self.lineno())
        self.code[i][1] = l
    def s_print(self):
        self.nx(); sep = False
        while self.tok not in ('\n', ':', 'ELSE'):
            if self.tok == 'ID' and self.L.word.upper() in ('SPC', 'TAB'):
                op = self.L.word.upper(); self.nx(); self.match('('); self.numexpr(); self.match(')')
                self.emit(op); sep = False
            elif self.tok == ';': self.nx(); sep = True
            elif self.tok == ',': self.nx(); self.emit('COMMA'); sep = True
            else:
                self.emit({'N': 'PNUM', 'S': 'PSTR', 'E': None}[self.texpr()]); sep = False
        if not sep: self.emit('PLN')
    def texpr(self):
        t = self.expr()
        if t == 'E': raise SyntaxErr('expression')
        return t
    def s_rand(self):
        self.nx()
        if self.tok in ('\n', ':', 'ELSE'): self.emit('RAND')
        else: self.numexpr(); self.emit('SEED')
    def s_read(self):
        self.nx()
        def one():
            s, n = self.ident('ARR'); self.emit('READ', s, n)
        self.comma_list(one)
    def s_rem(self): self.L.p = len(self.L.t); self.L.tok = '\n'
    def s_restore(self):
        self.nx()
        if self.tok == 'NUM': self.emit('RESTOREL', self.lineno())
        else: self.emit('RESTORE')
    def ident(self, pk):
        if self.tok != 'ID': raise SyntaxErr('name')
        name = self.L.word; self.nx()
        n = 0
        if self.tok == '(':
            while True:
                self.nx(); self.numexpr(); n += 1
                if self.tok != ',': break
            self.match(')')
        s = self.S.lookup(name, n > 0)
        if s:
            if n:
                if s.kind == 'UNK': s.kind = pk
                elif pk != 'UNK' and s.kind != pk: raise SyntaxErr('kind')
            elif s.kind != 'VAR': raise SyntaxErr('variable expected')
        else: s = self.S.insert(name, pk if n else 'VAR', 'S' if name.endswith('$') else 'N')
        return s, n
    def numvar(self):
        s, n = self.ident('UNK')
        if s.kind != 'VAR' or s.ty != 'N': raise SyntaxErr('numeric variable')
        return s
    def numexpr(self):
        if self.expr() != 'N': raise SyntaxErr('numeric')
    def strexpr(self):
        if self.expr() != 'S': raise SyntaxErr('string')
    def binary(self, sub, ops):
        t = sub()
        while self.tok in ops:
            op = self.tok; self.nx()
            if not (sub() == 'N' and t == 'N'): raise SyntaxErr('types')
            self.emit('OP', op)
        return t
    def expr(self): return self.binary(self.e_and, ('OR',))
    def e_and(self): return self.binary(self.e_not, ('AND',))
    def parity(self, tok, sub, op):
        n = 0
        while self.tok == tok: n += 1; self.nx()
        t = sub()
        if n:
            if t != 'N': raise SyntaxErr('types')
            if n % 2: self.emit(op)
        return t
    def e_not(self): return self.parity('NOT', self.e_rel, 'NOT')
    def e_rel(self):
        t = self.e_add()
        if t == 'E': return 'E'
        if self.tok in ('=', '<', '>', '<>', '<=', '>='):
            op = self.tok; self.nx()
            u = self.e_add()
            if u == 'E': return 'E'
            if t != u: raise SyntaxErr('types')
            self.emit('REL' + t, op)
            return 'N'
        return t
    def e_add(self):
        t = self.e_mul()
        while (t == 'N' and self.tok in '+-' and self.tok) or (t == 'S' and self.tok == '+'):
            op = self.tok; self.nx()
            if self.e_mul() != t: raise SyntaxErr('types')
            self.emit('OP', op) if t == 'N' else self.emit('CAT')
        return t
    def e_mul(self): return self.binary(self.e_neg, ('*', '/'))
    def e_neg(self): return self.parity('-', self.e_pow, 'NEG')
    def e_pow(self):
        t = self.prim()
        if t == 'N' and self.tok == '^':
            self.nx()
            if self.e_pow() != 'N': return 'E'
            self.emit('OP', '^')
        return t
    def prim(self):
        if self.tok == 'NUM': self.emit('NUM', self.L.num); self.nx(); return 'N'
        if self.tok == 'STR': self.emit('STR', self.L.word); self.nx(); return 'S'
        if self.tok == 'ID':
            u = self.L.word.upper()
            if u in BUILTINS:
                b = BUILTINS[u]
                if b is None: raise SyntaxErr('not implemented')
                self.nx()
                if b[1] == 'd':
                    if self.tok == '(':
                        self.nx()
                        if self.tok != ')':
                            t = self.expr()
                            if t == 'E': raise SyntaxErr('expr')
                            self.emit('POP' + t)
                        self.match(')')
                else:
                    self.match('(')
                    for i, a in enumerate(b[1]):
                        if i: self.match(',')
                        self.numexpr() if a == 'n' else self.strexpr()
                    self.match(')')
                self.emit('FN', u)
                return b[0]
            s, n = self.ident('UNK')
            self.emit('GET', s, n)
            return s.ty
        if self.tok == '(':
            self.nx()
            t = self.expr()
            if t != 'E': self.match(')')
            return t
        raise SyntaxErr('expression')

# ------------------------------------------------------------------ machine
class Stdin:
    def __init__(self, b): self.b, self.p = b, 0
    def fgets(self, size):
        if self.p >= len(self.b): return None
        e = self.b.find('\n', self.p)
        e = len(self.b) if e < 0 else e + 1
        e = min(e, self.p + size - 1)
        s = self.b[self.p:e]; self.p = e
        return s
    def getchar(self):
        if self.p >= len(self.b): return None
        c = self.b[self.p]; self.p += 1
        return c

class Code:
    def __init__(self): self.lines = None; self.code = None; self.index = {}

class Machine:
    MAXSTEPS = 20000
    def __init__(self, stdin='', crunch=False, cwd=None):
        self.inp = Stdin(stdin); self.out = []; self.errs = []
        self.crunch, self.cwd = crunch, cwd
        self.S = Syms()
        self.prog = Code(); self.imm = Code()
        self.lines = None            # dict num -> text, None: no source yet
        self.input = ''; self.steps = 0
        libc.srand(1)
        self.col = 1; self.reset()
        self.written = {}
        self.col = 1
    def w(self, s): self.out.append(s)
    def reset(self):
        self.ns, self.ss, self.rs, self.fs = [], [], [], []
        self.code = None; self.pc = 0; self.line = 0
        self.fn = None; self.stopped_at = None
        self.col = 1; self.dp = {'P': 0, 'I': 0}
        self.ip = -1; self.input_pc = 0
    # ---- compile
    def changed(self): self.prog.code = None; self.prog.index = {}
    def ensure(self):
        if self.lines is not None and self.prog.code is None:
            self.S.clear_names()
            ls = sorted(self.lines.items())
            k = Compiler(self.S, self.crunch)
            try: c = k.compile(ls)
            except SyntaxErr: self.errs.append('S:%d' % ls[k.cur][0]); return False
            self.prog.code, self.prog.lines = c, ls
            self.prog.index = {ls[i[1]][0]: k for k, i in enumerate(c) if i[0] == 'LINE'}
            self.reset()
        return True
    def run_program(self):
        if self.lines is None: return
        if self.ensure():
            self.reset()
            self.code, self.line, self.pc = self.prog, 0, 0
            self.run()
    def immediate(self, text):
        self.imm = Code()
        if not self.ensure(): return
        try: c = Compiler(self.S, False).compile([(0, text)])
        except SyntaxErr: self.errs.append('S'); return
        self.imm.code, self.imm.lines = c, [(0, text)]
        self.dp['I'] = 0
        self.code, self.line, self.pc = self.imm, 0, 0
        self.run()
        if any(r[0] is not self.prog for r in self.rs) or any(f['at'][0] is not self.prog for f in self.fs) or (self.fn and self.fn[0][0] is not self.prog):
            self.reset()
    def run(self):
        self.stopped = False
        try:
            while self.pc < len(self.code.code) and not self.stopped:
                self.steps += 1
                if self.steps > self.MAXSTEPS: raise TooLong()
                self.step()
        except RunErr as e:
            l = self.code.lines
            self.errs.append('R' if l is None else 'R:%d' % l[self.line][0])
            self.ns, self.ss = [], []
            if self.fn: self.enddef()
        if self.stopped:
            num, text = self.code.lines[self.line] if self.line < len(self.code.lines) else (0, '')
            self.w('%u %s\nStopped\n' % (num, text))
        if self.code is self.prog:
            self.stopped_at = (self.code, self.line, self.pc) if self.stopped else None
    def cont(self):
        if self.stopped_at is None or self.stopped_at[0].code is None: return False
        self.code, self.line, self.pc = self.stopped_at
        if self.pc < len(self.code.code) and self.code.code[self.pc][0] == 'STOP': self.pc += 1
        self.run()
        return True
    # ---- stacks
    def push(self, x):
        if len(self.ns) >= 16: raise RunErr('overflow')
        self.ns.append(x)
    def pushs(self, s):
        if len(self.ss) >= 8: raise RunErr('overflow')
        s = s.split('\0')[0]
        self.ss.append(s)
    def pop(self):
        if not self.ns: raise RunErr('empty')
        return self.ns.pop()
    def pops(self):
        if not self.ss: raise RunErr('empty')
        return self.ss.pop()
    def popu(self):
        x = self.pop()
        if x < 0 or not isint(x) or x > 4294967295: raise RunErr('unsigned')
        return int(x)
    def popl(self):
        x = self.pop()
        if not isint(x) or x < -2147483648 or x > 2147483647: raise RunErr('logic')
        return int(x)
    def jump(self, n):
        if n not in self.prog.index: raise RunErr('line')
        self.pc = self.prog.index[n]; self.code = self.prog
    def gosub(self, ret):
        if len(self.rs) >= 8: raise RunErr('gosub')
        self.rs.append((self.code, self.line, ret))
    # ---- arrays
    def mkarray(self, s, maxs):
        s.val = None; s.defined = False
        n = 1
        if len(maxs) > 2: raise RunErr('dims')
        for m in maxs: n *= m + 1
        if n > 65536 or any(m + 1 > 65536 for m in maxs): raise RunErr('dims')
        s.val = (maxs, {}); s.defined = True
    def subs(self, n):
        if n > 2: raise RunErr('dims')
        return [self.popu() for _ in range(n)][::-1]
    def elem(self, s, n):
        ix = self.subs(n)
        if not s.defined: self.mkarray(s, [max(10, i) for i in ix])
        maxs, d = s.val
        if len(maxs) != n or any(i > m for i, m in zip(ix, maxs)): raise RunErr('index')
        return d, tuple(ix)
    def setv(self, s, n, v):
        if n == 0: s.val = v; s.defined = True
        else:
            d, k = self.elem(s, n)
            d[k] = v
    def enddef(self):
        (self.code, self.line, self.pc), p, d, v = self.fn
        self.fn = None
        p.defined, p.val = d, v
    # ---- one instruction
    def step(self):
        c = self.code.code
        i = c[self.pc]; op = i[0]
        if op == 'LINE': self.line = i[1]
        elif op == 'CLEAR': self.S.clear_values()
        elif op == 'NUM': self.push(i[1])
        elif op == 'STR': self.pushs(i[1])
        elif op == 'POPN': self.pop()
        elif op == 'POPS': self.pops()
        elif op == 'OP':
            b = self.popl() if i[1] in ('AND', 'OR') else self.pop()
            a = self.popl() if i[1] in ('AND', 'OR') else self.pop()
            o = i[1]
            self.push(a + b if o == '+' else a - b if o == '-' else a * b if o == '*' else fdiv(a, b) if o == '/' else
                      libm.pow(a, b) if o == '^' else float(a & b) if o == 'AND' else float(a | b))
        elif op in ('RELN', 'RELS'):
            if op == 'RELN': b = self.pop(); a = self.pop()
            else: b = self.pops().encode('latin1'); a = self.pops().encode('latin1')
            r = {'=': a == b, '<': a < b, '>': a > b, '<>': a != b, '<=': a <= b, '>=': a >= b}[i[1]]
            self.push(-1.0 if r else 0.0)
        elif op == 'NOT': self.push(float(~self.popl()))
        elif op == 'NEG': self.push(-self.pop())
        elif op == 'CAT':
            t = self.pops(); s = self.pops()
            if len(s) + len(t) > 255: raise RunErr('long')
            self.pushs(s + t)
        elif op == 'GET':
            s, n = i[1], i[2]
            if n == 0:
                if not s.defined: s.defined = True; s.val = 0.0 if s.ty == 'N' else None
                self.push(s.val) if s.ty == 'N' else self.pushs(s.val or '')
            elif s.kind == 'ARR':
                d, k = self.elem(s, n)
                self.push(d.get(k, 0.0)) if s.ty == 'N' else self.pushs(d.get(k, ''))
            else:
                if not s.defined: raise RunErr('undefined fn')
                if self.fn: raise RunErr('nested')
                if n != 1: raise RunErr('params')
                if self.pc + n >= len(c): raise RunErr('corrupt')
                body, p, dl, dn = s.val
                self.fn = ((self.code, self.line, self.pc), p, p.defined, p.val)
                k = Code(); k.code = body; k.lines = dl
                p.val = self.pop(); p.defined = True
                self.code, self.line, self.pc = k, dn, 1
        elif op == 'SET':
            s, n = i[1], i[2]
            v = self.pop() if s.ty == 'N' else self.pops()
            self.setv(s, n, v)
        elif op == 'DIM':
            s = i[1]; s.val = None; s.defined = False
            self.mkarray(s, self.subs(i[2]))
        elif op == 'FN': self.builtin(i[1])
        elif op == 'END': self.pc = len(c); return
        elif op == 'STOP': self.stopped = True; return
        elif op == 'GOTO': self.jump(i[1]); return
        elif op == 'GOTRUE':
            if self.pop() != 0: self.jump(i[1]); return
        elif op == 'GOSUB': self.gosub(self.pc + 1); self.jump(i[1]); return
        elif op == 'RETURN':
            if not self.rs: raise RunErr('return')
            self.code, self.line, self.pc = self.rs.pop(); return
        elif op == 'FOR':
            v = i[1]
            f = None
            for k, g in enumerate(self.fs):
                if g['v'] is v: f = self.fs.pop(k); break
            if f is None and len(self.fs) >= 8:
                t = '-- overflow: '
                for g in reversed(self.fs): t += '%s = %s, %s; ' % (g['v'].name, fmt_g(g['v'].val), fmt_g(g['limit']))
                self.w(t + '\n')
                raise RunErr('for')
            st = self.pop(); lim = self.pop(); v.val = self.pop(); v.defined = True
            self.fs.append(dict(v=v, step=st, limit=lim, at=(self.code, self.line, self.pc)))
        elif op in ('NEXTV', 'NEXTI'):
            if not self.fs: raise RunErr('next')
            k = len(self.fs) - 1
            if op == 'NEXTV':
                ks = [j for j, g in enumerate(self.fs) if g['v'] is i[1]]
                if not ks: raise RunErr('next')
                k = ks[0]
            f = self.fs[k]
            x = f['v'].val + f['step']
            if (f['step'] > 0 and x > f['limit']) or (f['step'] < 0 and x < f['limit']): self.fs.pop(k)
            else:
                f['v'].val = x
                self.code, self.line, self.pc = f['at']
        elif op == 'DEF':
            s = i[1]
            e = self.pc
            while c[e][0] != 'ENDDEF': e += 1
            s.val = (c[self.pc:e + 1], c[self.pc + 1][1], self.prog.lines if self.code is self.prog else None, self.line); s.defined = True
            self.pc = e
        elif op == 'ENDDEF': self.enddef()
        elif op in ('ONGOTO', 'ONGOSUB'):
            x = self.pop()
            if x != x or (not math.isinf(x) and x != math.floor(x)): raise RunErr('on')
            if 1 <= x <= len(i[1]):
                if op == 'ONGOSUB': self.gosub(self.pc + 1)
                self.jump(i[1][int(x) - 1]); return
        elif op == 'IFTHEN':
            if self.pop() == 0: self.skip('LINE', c); return
        elif op == 'IFELSE':
            if self.pop() == 0: self.skip('ELSE', c)
        elif op == 'ELSE': self.skip('LINE', c); return
        elif op == 'PLN': self.w('\n'); self.col = 1
        elif op == 'SPC':
            k = self.popu(); self.big(k); self.w(' ' * k); self.col += k
        elif op == 'TAB':
            k = self.popu(); self.big(k)
            if k < self.col: self.w('\n'); self.col = 1
            if k > self.col: self.w(' ' * (k - self.col)); self.col = k
        elif op == 'COMMA':
            while True:
                self.w(' '); self.col += 1
                if self.col % 8 == 1: break
        elif op == 'PNUM':
            t = ' %s ' % fmt_g(self.pop()); self.w(t); self.col += len(t)
        elif op == 'PSTR':
            for ch in self.pops():
                self.w(ch); self.col = 1 if ch == '\n' else self.col + 1
        elif op == 'INBUF':
            self.w((i[1] or '') + '? ')
            s = self.inp.fgets(128)
            if s is None: raise RunErr('eof')
            self.input = s; self.ip = 0; self.input_pc = self.pc
        elif op == 'INEND':
            self.ip = self.skipws(' \t\n\r')
            if self.ip < len(self.input): self.w('* Extra input was discarded *\n')
        elif op == 'INSEP':
            self.ip = self.skipws(' \t')
            if self.ip < len(self.input) and self.input[self.ip] == ',': self.ip += 1
            else:
                self.w('* More input items are expected *\n'); self.pc = self.input_pc; return
        elif op == 'INNUM':
            r = convert(self.input[self.ip:])
            if r and (r[1] == '' or r[1][0] in '\n,'):
                self.setv(i[1], i[2], r[0])
                self.ip = len(self.input) - len(r[1])
            else:
                for _ in range(i[2] or 0): self.pop()      # the subscripts are evaluated again
                self.w('* Invalid input *\n'); self.pc = self.input_pc; return
        elif op == 'INSTR':
            e = self.ip
            while e < len(self.input) and self.input[e] not in '\n,': e += 1
            v = self.input[self.ip:e]; self.ip = e
            self.setv(i[1], i[2], v)
        elif op == 'INLINE':
            self.input = self.input.split('\n')[0]
            self.setv(i[1], i[2], self.input)
        elif op == 'READ':
            d = self.data()
            if i[1].ty == 'N':
                r = convert(d)
                if r is None or r[1] != '': raise RunErr('data')
                self.setv(i[1], i[2], r[0])
            else: self.setv(i[1], i[2], d)
        elif op == 'RESTORE': self.dp = {'P': 0, 'I': 0}
        elif op == 'RESTOREL':
            if i[1] not in self.prog.index: raise RunErr('line')
            self.dp['P'] = self.prog.index[i[1]]
        elif op == 'RAND': pass
        elif op == 'SEED': libc.srand(ctypes.c_uint(self.popu()))
        elif op in ('DATA', 'PARAM'): 
            if op == 'PARAM' : pass
        else: raise RuntimeError(op)
        self.pc += 1
    def big(self, k):
        if k > 20000: raise TooLong()
    def skipws(self, cs):
        k = self.ip
        while k < len(self.input) and self.input[k] in cs: k += 1
        return k
    def skip(self, what, c):
        self.pc += 1
        while self.pc < len(c) and c[self.pc][0] != what: self.pc += 1
    def data(self):
        bc, w = self.prog.code, 'P'
        if self.code is self.imm and any(x[0] == 'DATA' for x in self.imm.code): bc, w = self.imm.code, 'I'
        if bc is None or not any(x[0] == 'DATA' for x in bc): raise RunErr('no data')
        k = self.dp[w]
        while k < len(bc) and bc[k][0] != 'DATA': k += 1
        if k >= len(bc): raise RunErr('out of data')
        self.dp[w] = k + 1
        return bc[k][1]
    def builtin(self, n):
        P, Q = self.push, self.pushs
        if n == 'ABS': P(abs(self.pop()))
        elif n == 'ASC': s = self.pops(); P(float(ord(s[0])) if s else 0.0)
        elif n in ('ATN', 'COS', 'EXP', 'SIN', 'SQR', 'TAN'): P(getattr(libm, {'ATN': 'atan', 'SQR': 'sqrt'}.get(n, n.lower()))(self.pop()))
        elif n == 'CHR$':
            x = self.pop()
            if not isint(x) or x < 0 or x > 255: raise RunErr('chr')
            Q(chr(int(x)) if x else '')
        elif n == 'INT':
            x = self.pop(); P(float(math.floor(x)) if not (math.isinf(x) or math.isnan(x)) and abs(x) < 1e300 and x != 0 and math.floor(x) != 0 else (x if (math.isinf(x) or math.isnan(x) or x == 0) else (0.0 if math.floor(x) == 0 else x)))
        elif n == 'LEFT$':
            s = self.pops(); u = min(self.popu(), len(s))
            if u > 255: raise RunErr('long')
            Q(s[:u])
        elif n == 'RIGHT$':
            s = self.pops(); u = min(self.popu(), len(s))
            if u > 255: raise RunErr('long')
            Q(s[len(s) - u:])
        elif n == 'MID$':
            s = self.pops(); v = self.popu(); u = self.popu()
            if u < 1 or u > len(s): raise RunErr('mid')
            r = s[u - 1:u - 1 + v]
            if len(r) > 255: raise RunErr('long')
            Q(r)
        elif n == 'LEN': P(float(len(self.pops())))
        elif n == 'LOG':
            x = self.pop()
            if x <= 0: raise RunErr('log')
            P(libm.log(x))
        elif n == 'SGN':
            x = self.pop(); P(-1.0 if x < 0 else 1.0 if x > 0 else x)
        elif n == 'STR$': Q(fmt_g(self.pop()))
        elif n == 'VAL':
            r = convert(self.pops())
            if r is None or r[1] != '': raise RunErr('val')
            P(r[0])
        elif n == 'RND':
            while True:
                x = libc.rand() / 2147483647
                if x < 1: break
            P(x)
        elif n == 'TIME$': raise TooLong()

    # ---------------------------------------------------------------- interactive
    CMDS = ('BYE', 'COMPILE', 'CONT', 'HELP', 'LIST', 'LOAD', 'NEW', 'RENUM', 'RENUMBER', 'RUN', 'SAVE')
    def session(self):
        while True:
            self.w('> ')
            l = self.inp.fgets(128)
            if l is None: return
            if not l.endswith('\n'):
                self.w('Command line too long\n')
                while True:
                    c = self.inp.getchar()
                    if c is None or c == '\n': break
                continue
            if self.command(l[:-1]): return
    def command(self, l):
        l = l.lstrip(' \t')
        if not l: return False
        if l[0].isdigit():
            m = re.match(r'\d+', l)
            num = min(int(m.group(0)), 4294967295); rest = l[m.end():]
            if num == 0 or num == 4294967295: self.w('Line number out of range\n'); return False
            if rest == '':
                if self.lines is not None and num in self.lines: del self.lines[num]; self.changed()
            else:
                if self.lines is None: self.lines = {}
                self.lines[num] = rest[1:] if rest[0] == ' ' else rest
                self.changed()
            return False
        if l[0] == '*': return False
        m = re.match(r'[A-Za-z]+', l)
        if m and m.group(0).upper() in self.CMDS: return self.cmd(m.group(0).upper(), l[m.end():])
        self.immediate(l)
        return False
    def eol(self, r):
        if r.strip(' \t') != '': self.w('Command syntax error\n'); return False
        return True
    def fname(self, r):
        m = re.match(r'[ \t]*"([^"]*)("?)(.*)$', r)
        if not m: return None
        if m.group(3).strip(' \t') != '': self.w('Command syntax error\n'); return None
        return m.group(1)
    def num(self, r, d):
        m = re.match(r'\d+', r)
        if not m: return r, d
        return r[m.end():], min(int(m.group(0)), 4294967295)
    def cmd(self, c, r):
        if c == 'BYE': return self.eol(r)
        if c == 'COMPILE': self.ensure()
        elif c == 'CONT':
            if not self.cont(): self.w('Cannot continue\n')
        elif c == 'NEW':
            if self.eol(r):
                if self.lines is not None: self.lines = {}
                self.changed(); self.S.clear_names()
        elif c == 'LIST':
            r = r.lstrip(' \t')
            r, a = self.num(r, 0)
            r = r.lstrip(' \t'); b = 4294967295
            if r.startswith('-'): r, b = self.num(r[1:].lstrip(' \t'), b)
            r = r.lstrip(' \t')
            page = r[:1] in ('p', 'P') and r != ''
            if page: r = r[1:]
            if self.eol(r): self.list(a, b, page)
        elif c in ('LOAD', 'SAVE'):
            f = self.fname(r)
            if f is None: self.w('Quoted file name expected\n')
            elif c == 'SAVE':
                if self.lines is not None: self.written[f] = ''.join('%d %s\n' % x for x in sorted(self.lines.items()))
            else:
                t = self.written.get(f)
                if t is not None:
                    self.load_text(t)
                    self.changed()
                else: self.errs.append('F')
        elif c in ('RENUM', 'RENUMBER'):
            r = r.lstrip(' \t')
            r, new = self.num(r, 10); r = r.lstrip(' \t')
            old, inc = 1, 10
            if r.startswith(','): r, old = self.num(r[1:].lstrip(' \t'), 1)
            if r.startswith(','): r, inc = self.num(r[1:].lstrip(' \t'), 10)
            if self.eol(r): self.renum(new, old, inc)
        elif c == 'RUN': self.S.clear_values(); self.run_program()
        elif c == 'HELP': self.w('HELP')
        return False
    def list(self, a, b, page):
        n = 0
        ls = sorted((self.lines or {}).items())
        for k, (num, t) in enumerate(ls):
            if a <= num <= b:
                self.w('%d %s' % (num, t)); n += 1
                if page and n % 24 == 23 and k + 1 < len(ls):
                    while True:
                        ch = self.inp.getchar()
                        if ch is None or ch == '\n': break
                else: self.w('\n')
    def renum(self, new, old, inc):
        if self.lines is None: return
        m, prev, k = {}, 0, new
        for n in sorted(self.lines):
            if n >= old:
                if k > 65535:
                    self.w('Cannot renumber line %u to %u: line number is too big\n' % (n, k)); return
                if k <= prev:
                    self.w('Cannot renumber line %u to %u after line %u\n' % (n, k, prev)); return
                m[n] = k; prev = k; k = (k + inc) & 0xffffffff
            else: m[n] = n; prev = n
        self.lines = {m[n]: self.relink(t, m) for n, t in self.lines.items()}
        self.changed()
    def relink(self, t, m):
        L = Lex(t, self.crunch)
        tok = L.next()
        while tok not in ('\n', 'REM'):
            if tok == 'DATA':
                try:
                    while True:
                        L.data(); tok = L.next()
                        if tok != ',': break
                except SyntaxErr: break
                continue
            if tok not in ('ELSE', 'GOSUB', 'GOTO', 'RESTORE', 'THEN'): tok = L.next(); continue
            while True:
                tok = L.next()
                if tok == 'NUM':
                    x = L.num
                    if 0 < x <= 65535 and isint(x) and int(x) in m:
                        r = str(m[int(x)])
                        L.t = L.t[:L.pos] + r + L.t[L.pos + len(L.word):]
                        L.p = L.pos + len(r)
                    tok = L.next()
                if tok != ',': break
        return L.t
    # ---------------------------------------------------------------- whole files
    def load_text(self, text):
        self.lines = {}
        prev = 0
        ls = text.split('\n')
        if ls[-1] != '': raise Exit(1)
        for x in ls[:-1]:
            if len(x) > 254: raise Exit(1)
            k = re.match(r'(\d+) ?(.*)$', x, re.S)
            if not k: raise Exit(1)
            n = int(k.group(1))
            if n == 0 or n <= prev or n > 0xffffffff: raise Exit(1)
            prev = n
            self.lines[n] = k.group(2)
    def listing(self):
        for n, t in sorted(self.lines.items()): self.w('%5u %s\n' % (n, t))
    def names(self):
        seen = {}
        for n, t in sorted(self.lines.items()):
            L = Lex(t, self.crunch)
            while True:
                k = L.next()
                if k in ('\n', 'REM'): break
                if k == 'ERROR': raise TooLong()
                if k == 'ID': seen.setdefault(L.word.lower(), L.word)
        for _, w in sorted(seen.items()): self.w('%s %s\n' % ('*' if w.upper() in BUILTINS else '=' if w.upper() in ('SPC', 'TAB') else ' ', w))
