"""Models (assumed contracts) of the C library functions the code calls, and C strings."""
import z3
from .terms import *
from .mem import *

# ---------------------------------------------------------------- C strings
def nul_candidates(node, depth=0):
    """index terms at which this byte-array version may hold a terminator"""
    if depth > 40: return []
    if isinstance(node, Bytes):
        return [i for i, b in enumerate(node.b) if b == 0]
    if isinstance(node, Wr):
        r = [node.idx] if isinstance(node.val, int) and node.val == 0 else []
        return r + nul_candidates(node.prev, depth + 1)
    if isinstance(node, Rng):
        r = []
        if node.src is not None:
            r = [sub(c, node.delta) for c in nul_candidates(node.src, depth + 1)]
        return r + nul_candidates(node.prev, depth + 1)
    if isinstance(node, ConstArr): return [0] if node.v == 0 else []
    return list(node.nuls)

class StrRef:
    """the C string at an immutable byte-array version"""
    def __init__(self, ctx, node, off, size):
        self.node, self.off, self.size = node, off, size
        self.ctx = ctx
    def char(self, i):
        return self.node.read(self.ctx, add(self.off, i))
    @property
    def len(self): return strlen_node(self.ctx, self.node, self.off, self.size)
    def concrete(self):
        out = bytearray()
        if not isinstance(self.off, int): return None
        i = self.off
        n = self.node
        while True:
            v = peek_const(n, i)
            if not isinstance(v, int): return None
            if v == 0: return bytes(out)
            out.append(v); i += 1
            if len(out) > 5000: return None
    def same(self, other):
        return self.node is other.node and (idx_eq(self.off, other.off) is True)

def peek_const(n, i):
    while True:
        if isinstance(n, Bytes): return n.b[i] if 0 <= i < len(n.b) else None
        if isinstance(n, Wr):
            c = idx_eq(n.idx, i)
            if c is True: return n.val
            if c is False: n = n.prev; continue
            return None
        if isinstance(n, Rng):
            c = simp(And(ule(n.lo, i), ult(i, n.hi)))
            if c is False: n = n.prev; continue
            if c is True and n.src is not None:
                j = add(i, n.delta)
                if not isinstance(j, int): return None
                n, i = n.src, j
                continue
            return None
        if isinstance(n, ConstArr): return n.v if isinstance(n.v, int) else None
        return None

def strref(ctx, p, what='string'):
    if not isinstance(p, Ptr): raise Structural('string argument')
    if p.obj is None: ctx.fail('no-null-dereference', what)
    if p.obj.freed: ctx.fail('no-use-after-free', what)
    if p.obj.tag and p.obj.tag[0] == 'FILE': raise Structural('FILE as string')
    seg, node, off = ctx.bytes_node(p)
    return StrRef(ctx, node, off, seg.count)

def okey(off): return off if isinstance(off, int) else ('t', off.get_id())

def strlen_node(ctx, node, off, size):
    if node.slen is None: node.slen = {}
    k = okey(off)
    if k in node.slen: return node.slen[k]
    r = StrRef(ctx, node, off, size).concrete()
    if r is not None:
        node.slen[k] = len(r)
        return len(r)
    base = getattr(node, 'strlen', None)
    if base is not None:
        # string object with declared length term
        c = simp(ule(off, base))
        if c is True or ctx.branch(c):
            n = sub(base, off)
            node.slen[k] = n
            return n
    cands = nul_candidates(node)
    c0 = None
    for c in cands:
        g = And(ule(off, c), ult(c, size) if size is not None else True)
        if ctx.branch(g):
            v = node.read(ctx, c)
            if v is UNDEF: continue
            z = icmp('eq', 8, v, 0)
            if ctx.branch(z):
                c0 = c; break
    if c0 is None:
        ctx.fail('string-is-terminated', 'no terminator within the object')
    if isinstance(c0, int) and isinstance(off, int) and c0 - off <= 4:
        n = c0 - off
        for j in range(off, c0):
            v = node.read(ctx, j)
            if v is UNDEF: ctx.fail('no-uninitialised-read', 'strlen')
            if ctx.branch(icmp('eq', 8, v, 0)): n = j - off; break
        node.slen[k] = n
        return n
    n = ctx.fresh('strlen', 64)
    ctx.assume(ule(n, sub(c0, off)))
    end = add(off, n)
    node.slen[k] = n
    v = node.read(ctx, end)
    if v is UNDEF: ctx.fail('no-uninitialised-read', 'strlen')
    ctx.assume(icmp('eq', 8, v, 0))
    node.add_fact(ctx, lambda cx, i, val: None if val is UNDEF else
                  cx.assume(Implies(And(ule(off, i), ult(i, end)), icmp('ne', 8, val, 0))))
    return n

def new_string(ctx, name, maxlen=None, heap=True, length=None):
    """arbitrary NUL-terminated string in an object of exactly strlen+1 bytes"""
    n = length if length is not None else ctx.fresh(name + '.len', 64)
    if length is None:
        ctx.assume(ule(n, maxlen if maxlen is not None else 1 << 30))
    o = Obj(ctx.name(name), add(n, 1), heap=heap)
    node = BaseUF(o.name + '.ch', 'i8')
    node.strlen = n
    node.nuls = (n,)
    node.add_unary(ctx, lambda i, v: And(Implies(ult(i, n), icmp('ne', 8, v, 0)), Implies(idx_eq(i, n), icmp('eq', 8, v, 0))))
    sg = Seg(0, 1, o.size, [(0, 'i8')], lambda c, fo, k: node, o.name)
    o.segs.append(sg)
    ctx.objs += 1; o.born = ctx.objs
    return Ptr(o)

def dup_string(ctx, p, name='dup'):
    """fresh heap copy of the C string at p"""
    r = strref(ctx, p)
    n = r.len
    o = Obj(ctx.name(name), add(n, 1), heap=True)
    if r.off == 0:
        node = r.node
    else:
        off, src = r.off, r.node
        node = Fn(lambda cx, i: src.read(cx, add(i, off)), nuls=(n,))
    if node.slen is None: node.slen = {}
    node.slen.setdefault(0, n)
    o.segs.append(Seg(0, 1, o.size, [(0, 'i8')], lambda c, fo, k: node, o.name))
    ctx.objs += 1; o.born = ctx.objs
    ctx.alloc_live.append(o)
    return Ptr(o)

def strcmp_refs(ctx, a, b):
    ca, cb = a.concrete(), b.concrete()
    if ca is not None and cb is not None:
        return 0 if ca == cb else (1 if ca > cb else mask(32))
    if a.same(b): return 0
    memo = ctx.__dict__.setdefault('_strcmp', {})
    k = (id(a.node), okey(a.off), id(b.node), okey(b.off))
    if k not in memo:
        r = ctx.fresh('strcmp', 32)
        # glibc/ISO: only the sign is specified
        memo[k] = (r, a, b)
        memo[(k[2], k[3], k[0], k[1])] = (fold(-r), b, a)
        ctx.assume(r != z3.BitVecVal(1 << 31, 32))
    return memo[k][0]

# ---------------------------------------------------------------- models
def m_malloc(ctx, a): return ctx.malloc(a[0], 'uninit')
def m_calloc(ctx, a): return ctx.malloc(ibin('mul', 64, a[0], a[1]), 'zero')
def m_strlen(ctx, a): return strref(ctx, a[0]).len
def m_strcmp(ctx, a): return strcmp_refs(ctx, strref(ctx, a[0]), strref(ctx, a[1]))
def m_strcpy(ctx, a):
    n = strref(ctx, a[1]).len
    ctx.memcpy(a[0], a[1], add(n, 1))
    return a[0]
def m_strcat(ctx, a):
    d = strref(ctx, a[0]).len
    n = strref(ctx, a[1]).len
    ctx.memcpy(a[0].plus(d), a[1], add(n, 1))
    return a[0]
def m_strncpy(ctx, a):
    """strncpy(d,s,n): copy min(n,strlen) then zero fill to n"""
    n = a[2]
    ls = strref(ctx, a[1]).len
    if ctx.branch(ule(n, ls)):
        ctx.memcpy(a[0], a[1], n)
    else:
        ctx.memcpy(a[0], a[1], ls)
        ctx.memset(a[0].plus(ls), 0, sub(n, ls))
    return a[0]
def m_memcpy(ctx, a):
    ctx.memcpy(a[0], a[1], a[2]); return a[0]
def m_memset(ctx, a):
    ctx.memset(a[0], trunc(a[1], 32, 8), a[2]); return a[0]
def m_strchr(ctx, a):
    """strchr for a character other than NUL"""
    r = strref(ctx, a[0]); n = r.len; c = trunc(a[1], 32, 8)
    if ctx.branch(icmp('eq', 8, c, 0)): return a[0].plus(n)
    if ctx.choose(2) == 0:
        p = ctx.fresh('strchr', 64)
        ctx.assume(ult(p, n)); ctx.assume(icmp('eq', 8, r.char(p), c))
        hi = add(r.off, p)
        res = a[0].plus(p)
    else: hi = add(r.off, n); res = NULL
    r.node.add_fact(ctx, lambda cx, i, v: None if v is UNDEF else cx.assume(Implies(And(ule(r.off, i), ult(i, hi)), icmp('ne', 8, v, c))))
    return res
def span(ctx, p, setp, inside):
    """length of the longest start of the string at p made only of characters (not) in the set"""
    cs = strref(ctx, setp).concrete()
    if cs is None: raise Structural('span: character set')
    r = strref(ctx, p); n = r.len
    bad = lambda v: (Not(Or(*[icmp('eq', 8, v, c) for c in cs])) if inside else Or(*[icmp('eq', 8, v, c) for c in cs])) if cs else inside
    k = ctx.fresh('span', 64)
    ctx.assume(ule(k, n))
    if ctx.branch(ult(k, n)): ctx.assume(bad(r.char(k)))
    hi = add(r.off, k)
    r.node.add_fact(ctx, lambda cx, i, v: None if v is UNDEF else cx.assume(Implies(And(ule(r.off, i), ult(i, hi)), Not(bad(v)))))
    return k
def m_strspn(ctx, a): return span(ctx, a[0], a[1], True)
def m_strcspn(ctx, a): return span(ctx, a[0], a[1], False)
def m_strpbrk(ctx, a):
    k = span(ctx, a[0], a[1], False)
    return a[0].plus(k) if ctx.branch(ult(k, strref(ctx, a[0]).len)) else NULL
def m_abs(ctx, a):
    return simp(z3.If(B(icmp('slt', 32, a[0], 0)), -bv(a[0], 32), bv(a[0], 32)))
def m_free(ctx, a): ctx.free(a[0]); return None

def rng(c, lo, hi): return And(icmp('sge', 32, c, lo), icmp('sle', 32, c, hi))
def b32(c): return zext(simp(c), 1, 32)
def m_isdigit(ctx, a): return b32(rng(a[0], 48, 57))
def m_isupper(ctx, a): return b32(rng(a[0], 65, 90))
def m_isalpha(ctx, a): return b32(Or(rng(a[0], 65, 90), rng(a[0], 97, 122)))
def m_isalnum(ctx, a): return b32(Or(rng(a[0], 48, 57), rng(a[0], 65, 90), rng(a[0], 97, 122)))
def m_isspace(ctx, a): return b32(Or(icmp('eq', 32, a[0], 32), rng(a[0], 9, 13)))
def m_isprint(ctx, a): return b32(rng(a[0], 32, 126))
def m_iscntrl(ctx, a): return b32(Or(rng(a[0], 0, 31), icmp('eq', 32, a[0], 127)))
def m_toupper(ctx, a):
    c = a[0]
    if isinstance(c, int): return c - 32 if 97 <= c <= 122 else c
    return z3.If(B(rng(c, 97, 122)), c - 32, c)
def m_tolower(ctx, a):
    c = a[0]
    if isinstance(c, int): return c + 32 if 65 <= c <= 90 else c
    return z3.If(B(rng(c, 65, 90)), c + 32, c)

def stream(ctx, p):
    if isinstance(p, Ptr) and p.obj is not None and p.obj.tag and p.obj.tag[0] == 'FILE': return p.obj.tag[1]
    if isinstance(p, Ptr) and p.obj is None: ctx.fail('no-null-dereference', 'stream')
    raise Structural('stream %r' % (p,))

def fmt_pieces(ctx, fmtp, args):
    f = strref(ctx, fmtp).concrete()
    if f is None: raise Structural('symbolic format string')
    out = []
    i = 0; k = 0
    lit = b''
    args = list(args)
    while i < len(f):
        ch = f[i:i + 1]
        if ch != b'%': lit += ch; i += 1; continue
        i += 1
        spec = b''
        while f[i:i + 1] in (b'l', b'h', b'z', b'-', b'0', b'1', b'2', b'3', b'4', b'5', b'6', b'7', b'8', b'9', b'.', b'*'):
            spec += f[i:i + 1]; i += 1
        c = f[i:i + 1]; i += 1
        if c == b'%': lit += b'%'; continue
        if lit: out.append(('lit', lit)); lit = b''
        while b'*' in spec:
            out.append(('w', args[k])); k += 1
            spec = spec.replace(b'*', b'', 1)
        v = args[k]; k += 1
        if c == b's':
            if spec: out.append(('s' + spec.decode(), strref(ctx, v)))
            else: out.append(('s', strref(ctx, v)))
        elif c in b'duxXi': out.append((spec.decode() + c.decode(), v))
        elif c == b'c': out.append(('c', v))
        elif c in b'gGfe': out.append((spec.decode() + c.decode(), v))
        else: raise Structural('format %r' % f)
    if lit: out.append(('lit', lit))
    return out

def emit_out(ctx, st, pieces):
    ctx.events.append(('out', st, pieces))

def m_printf(ctx, a):
    emit_out(ctx, 'stdout', fmt_pieces(ctx, a[0], a[1:]))
    r = ctx.last_printf = ctx.fresh('printf', 32)
    return r
def m_fprintf(ctx, a):
    emit_out(ctx, stream(ctx, a[0]), fmt_pieces(ctx, a[1], a[2:]))
    r = ctx.fresh('fprintf', 32)
    ctx.__dict__.setdefault('fprintfs', []).append((len(ctx.events) - 1, r))
    return r
def m_puts(ctx, a):
    emit_out(ctx, 'stdout', [('s', strref(ctx, a[0])), ('lit', b'\n')]); return 0
def m_fputs(ctx, a):
    emit_out(ctx, stream(ctx, a[1]), [('s', strref(ctx, a[0]))]); return 0
def m_putchar(ctx, a):
    emit_out(ctx, 'stdout', [('c', a[0])]); return a[0]
def m_fputc(ctx, a):
    emit_out(ctx, stream(ctx, a[1]), [('c', a[0])]); return a[0]
def m_fflush(ctx, a): return 0
def m_exit(ctx, a):
    from .engine import Outcome
    raise Outcome('exit', a[0])
def m_assert_fail(ctx, a):
    ctx.fail('assertion-holds', (strref(ctx, a[0]).concrete() or b'?').decode('latin1'))
def fm(name, n):
    def m(ctx, a): return ffun(name, *a[:n])
    return m
def m_vfprintf(ctx, a):
    emit_out(ctx, stream(ctx, a[0]), [('v', strref(ctx, a[1]))]); return 0

MODELS = {
    'fmt_pieces': fmt_pieces,
    'malloc': m_malloc, 'calloc': m_calloc, 'free': m_free, 'strlen': m_strlen, 'strcmp': m_strcmp,
    'strcpy': m_strcpy, 'strcat': m_strcat, 'strncpy': m_strncpy, 'memcpy': m_memcpy, 'memset': m_memset,
    'isdigit': m_isdigit, 'isalpha': m_isalpha, 'isalnum': m_isalnum, 'isspace': m_isspace, 'isupper': m_isupper,
    'isprint': m_isprint, 'iscntrl': m_iscntrl, 'toupper': m_toupper, 'tolower': m_tolower,
    'printf': m_printf, 'fprintf': m_fprintf, 'puts': m_puts, 'fputs': m_fputs, 'putchar': m_putchar,
    'fputc': m_fputc, 'putc': m_fputc, '_IO_putc': m_fputc, 'fflush': m_fflush, 'exit': m_exit, '__assert_fail': m_assert_fail,
    'strspn': m_strspn, 'strcspn': m_strcspn, 'strpbrk': m_strpbrk, 'abs': m_abs, 'memmove': m_memcpy,
    'vfprintf': m_vfprintf, 'strchr': m_strchr, 'index': m_strchr,
    'pow': fm('pow', 2), 'sin': fm('sin', 1), 'cos': fm('cos', 1), 'tan': fm('tan', 1), 'atan': fm('atan', 1),
    'exp': fm('exp', 1), 'log': fm('log', 1), 'sqrt': fm('sqrt', 1),
    'floor': lambda c, a: ffloor(a[0]), 'fabs': lambda c, a: ffabs(a[0]),
}
