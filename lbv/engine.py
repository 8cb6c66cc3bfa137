"""Deductive verifier core: symbolic execution of the LLVM IR of the real code over all
paths, with callee contracts, loop invariants, and obligations discharged by z3.

A harness is a python function h(ctx).  It is executed once per path (paths are replayed
from a decision list), so ctx.branch may be used freely by specs and library models.
"""
import os, time
import z3
from . import terms
from .terms import *
from .mem import *
from . import ir

class PathEnd(Exception):
    def __init__(self, why): self.why = why

class Outcome(Exception):
    """non-returning end of the code under verification (run_error, exit, ...)"""
    def __init__(self, kind, data=None): self.kind, self.data = kind, data

class LongJmp(Exception):
    def __init__(self, buf, val): self.buf, self.val = buf, val

class Budget(Exception): pass

# ---------------------------------------------------------------- program
def _norm(t):
    import re
    return re.sub(r'\w+_anon[.\d]*', 'anon', repr(t))
class Program:
    def __init__(self, modules):
        self.modules = modules
        self.structs = {}
        self.funcs = {}
        self.allfuncs = {}
        for m in modules:
            for k, v in m.structs.items():
                if v is not None:
                    if k in self.structs and _norm(self.structs[k]) != _norm(v) and 'anon' not in k: raise Structural('two types named %s' % k)
                    self.structs[k] = v
            for k, f in m.funcs.items():
                self.funcs.setdefault(k, f)
                self.allfuncs.setdefault(k, []).append(f)
        self._lay = {}
    def resolve(self, t):
        while t.k == 'named':
            t = self.structs.get(t.a)
            if t is None: raise Structural('opaque type')
        return t
    def size(self, t):
        t = self.resolve(t)
        if t.k == 'int': return (t.a + 7) // 8
        if t.k in ('ptr', 'f64'): return 8
        if t.k == 'f80': return 16
        if t.k == 'arr': return t.a * self.size(t.b)
        if t.k == 'struct':
            return self.struct_layout(t)[1]
        raise Structural('size of %r' % t)
    def align(self, t):
        t = self.resolve(t)
        if t.k == 'int': return (t.a + 7) // 8
        if t.k in ('ptr', 'f64'): return 8
        if t.k == 'f80': return 16
        if t.k == 'arr': return self.align(t.b)
        if t.k == 'struct': return max([self.align(x) for x in t.a] or [1])
        raise Structural('align')
    def struct_layout(self, t):
        k = id(t)
        if k in self._lay: return self._lay[k]
        off, offs, al = 0, [], 1
        for f in t.a:
            a = self.align(f); al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(f)
        off = (off + al - 1) // al * al
        self._lay[k] = (offs, off, t)
        return self._lay[k]
    def flatten(self, t, base=0):
        """scalar leaves [(off, key)]"""
        t = self.resolve(t)
        if t.k in ('int', 'ptr', 'f64'): return [(base, tkey(t))]
        if t.k == 'arr':
            s = self.size(t.b)
            r = []
            for i in range(t.a): r += self.flatten(t.b, base + i * s)
            return r
        if t.k == 'struct':
            offs = self.struct_layout(t)[0]
            r = []
            for o, f in zip(offs, t.a): r += self.flatten(f, base + o)
            return r
        raise Structural('flatten %r' % t)
    def big_arrays(self, t, base=0, limit=32):
        """[(off, n)] of char arrays worth modelling as segments"""
        t = self.resolve(t)
        if t.k == 'arr':
            e = self.resolve(t.b)
            if e.k == 'int' and e.a == 8 and t.a >= limit: return [(base, t.a)]
            if e.k in ('struct', 'arr') and t.a <= 16:
                r = []
                for i in range(t.a): r += self.big_arrays(e, base + i * self.size(e), limit)
                return r
            return []
        if t.k == 'struct':
            offs = self.struct_layout(t)[0]
            r = []
            for o, f in zip(offs, t.a): r += self.big_arrays(f, base + o, limit)
            return r
        return []
    def find(self, name, module=None):
        if module is not None and name in module.funcs: return module.funcs[name]
        return self.funcs.get(name)

# ---------------------------------------------------------------- results
class Result:
    def __init__(self, name):
        self.name = name
        self.obl = 0; self.ok = 0
        self.failed = []       # dicts
        self.unknown = []
        self.structural = []
        self.covers = {}
        self.paths = 0
        self.solver_s = 0.0
        self.queries = 0
        self.wall = 0.0
        self.funcs = set()
        self.stubs = set()
        self.bounded = []
        self.byname = {}
        self.assumptions = set()
    def summary(self):
        return dict(name=self.name, obligations=self.obl, discharged=self.ok, failed=self.failed,
                    unknown=self.unknown, structural=self.structural, covers=self.covers, paths=self.paths,
                    solver_s=round(self.solver_s, 2), queries=self.queries, wall=round(self.wall, 2),
                    funcs=sorted(self.funcs), stubs=sorted(self.stubs), bounded=self.bounded,
                    byname=self.byname, assumptions=sorted(self.assumptions))

TIMEOUT_MS = 4000
HARD_MS = 40000
_qcache = {}
_keep = []

class Frame:
    __slots__ = ('fn', 'env', 'visits', 'active', 'jmp', 'caller', 'cur', 'locals')
    def __init__(self, fn):
        self.fn = fn; self.env = {}; self.visits = {}; self.active = {}; self.jmp = {}; self.cur = None; self.locals = []

class Ctx:
    initial = ()
    def __init__(self, prog, res, decisions, work, opts):
        self.prog, self.res = prog, res
        self.decisions, self.pos, self.work = decisions, 0, work
        self.pc = []
        self.pcset = {}
        self.nfresh = {}
        self.stubs = {}
        self.libm = opts.get('libc', {})
        self.loopspecs = []
        self.events = []
        self.globals = {}
        self.opts = opts
        self.depth = 0
        self.steps = 0
        self.wlog = []
        self.objs = 0
        self.unroll = opts.get('unroll', 64)
        self.cur_line = None
        self.solver = None
        self.nsolved = 0
        self.alloc_live = []
        self.deadline = opts.get('deadline')
        self.path_notes = []
        self.terms_by_id = {}
        self.i2f, self.f2i = [], []
        self.weak = False
        terms.hook = self.fphook; terms.absf2i = False; terms.absrem = False
    def fphook(self, kind, d):
        if kind == 'rem':
            self.assume(d); return
        if kind == 'i2f':
            if any(x.eq(d[1]) and w == d[3] and s == d[4] for _, x, _, w, s in self.i2f): return
            self.i2f.append(d)
            self.assume(d[0])
            for e in self.f2i: self.fplemma(d, e)
        else:
            if any(x.eq(d[0]) and w == d[2] and s == d[3] for x, _, w, s in self.f2i): return
            self.f2i.append(d)
            for e in self.i2f: self.fplemma(e, d)
    def fplemma(self, a, b):
        _, n, f, w, s = a
        x, r, w2, s2 = b
        if w == w2 == 32 and not s and not s2:
            self.assume(Implies(And(fcmp('oge', x, 0.0), fcmp('ole', x, f)), ule(r, n, 32)))
            self.assume(Implies(And(fcmp('oge', x, 1.0), fcmp('ole', x, f)), ule(1, r, 32)))

    # -------------------------------------------------- fresh symbols
    def name(self, base):
        n = self.nfresh.get(base, 0)
        self.nfresh[base] = n + 1
        return base if n == 0 else '%s#%d' % (base, n)
    def fresh(self, name, w):
        return z3.BitVec(self.name(name), w)
    def fresh_bool(self, name): return z3.Bool(self.name(name))
    def fresh_f(self, name): return z3.FP(self.name(name), F64S)
    def fresh_key(self, name, key):
        if key == 'f64': return self.fresh_f(name)
        if key == 'ptr': raise Structural('unspecified pointer %s' % name)
        return self.fresh(name, kwidth(key))

    # -------------------------------------------------- path condition
    def assume(self, c):
        if isinstance(c, bool):
            if not c: raise PathEnd('infeasible')
            return
        c = simp(c)
        if isinstance(c, bool):
            if not c: raise PathEnd('infeasible')
            return
        if z3.is_and(c):
            for x in c.children(): self.assume(x)
            return
        k = self.pcset.get(c.get_id())
        if k is True: return
        if k is False: raise PathEnd('infeasible')
        self.pc.append(c)
        self.pcset[c.get_id()] = True
        n = simp(z3.Not(c))
        if not isinstance(n, bool):
            self.pcset[n.get_id()] = False
            _keep.append(n)
        _keep.append(c)
    def known(self, c):
        if isinstance(c, bool): return c
        return self.pcset.get(c.get_id())
    def _check(self, extra, timeout=None):
        """is pc /\\ extra satisfiable?  'sat' 'unsat' 'unknown'"""
        if self.deadline and time.time() > self.deadline: raise Budget('deadline')
        key = None
        t0 = time.time()
        self.res.queries += 1
        if self.solver is None:
            self.solver = z3.Solver()
            self.nsolved = 0
        s = self.solver
        while self.nsolved < len(self.pc):
            s.add(self.pc[self.nsolved]); self.nsolved += 1
        s.set('timeout', timeout or TIMEOUT_MS)
        r = s.check(*[B(e) for e in extra])
        self.res.solver_s += time.time() - t0
        return str(r)
    def feasible(self, c):
        return self._check([c])
    def branch(self, c):
        if isinstance(c, bool): return c
        c = simp(c)
        if isinstance(c, bool): return c
        k = self.pcset.get(c.get_id())
        if k is not None: return k
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]; self.pos += 1
            self.assume(c if d else Not(c))
            return d
        t = self.feasible(c)
        if t == 'unsat':
            d = False
        else:
            f = self.feasible(Not(c))
            if f == 'unsat': d = True
            else:
                self.work.append(self.decisions[:self.pos] + [False])
                d = True
        self.decisions.append(d); self.pos += 1
        self.assume(c if d else Not(c))
        return d
    def valid(self, c):
        """does c follow from the path condition?  (asked once, the answer is kept with the path)"""
        c = simp(c)
        if isinstance(c, bool): return c
        k = self.pcset.get(c.get_id())
        if k is not None: return k
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]; self.pos += 1
        else:
            r = self._check([Not(c)], 20000)
            # no answer in time: what follows may rest on too little, so a failure there decides nothing
            d = None if r == 'unknown' else r == 'unsat'
            self.decisions.append(d); self.pos += 1
        if d is None: self.weak = True
        return bool(d)
    def choose(self, n, what=''):
        """n-way case split"""
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]; self.pos += 1
            return d
        for k in range(n - 1, 0, -1):
            self.work.append(self.decisions[:self.pos] + [k])
        self.decisions.append(0); self.pos += 1
        return 0
    def concretize(self, t, w, limit=600):
        """complete case split over the feasible values of t"""
        if isinstance(t, int): return t
        t = simp(t)
        if isinstance(t, int): return t
        for _ in range(limit):
            if self.pos < len(self.decisions):
                d = self.decisions[self.pos]; self.pos += 1
                v, same = d
                self.assume((t == z3.BitVecVal(v, w)) if same else (t != z3.BitVecVal(v, w)))
                if same: return v
                continue
            r = self._check([])
            if r != 'sat':
                if r == 'unsat': raise PathEnd('infeasible')
                raise Structural('cannot enumerate a symbolic index')
            v = self.solver.model().eval(t, model_completion=True).as_long()
            self.work.append(self.decisions[:self.pos] + [(v, False)])
            self.decisions.append((v, True)); self.pos += 1
            self.assume(t == z3.BitVecVal(v, w))
            return v
        raise Structural('symbolic index has too many values')

    # -------------------------------------------------- obligations
    def prove(self, c, name, detail=''):
        if self.pos < len(self.decisions):
            # already handled on the path this one was forked from
            if not isinstance(c, bool): self.assume(c)
            elif not c: raise PathEnd('failed')
            return True
        R = self.res
        c = simp(c)
        R.obl += 1
        bn = R.byname.setdefault(name, [0, 0])
        bn[0] += 1
        if c is True:
            R.ok += 1; bn[1] += 1
            return True
        if c is not False and self.known(c) is True:
            R.ok += 1; bn[1] += 1
            return True
        neg = True if c is False else Not(c)
        r = self._check([neg] if neg is not True else [])
        if r == 'unknown':
            r = self._hard([neg] if neg is not True else [])
        if r == 'unsat':
            R.ok += 1; bn[1] += 1
            if c is False: raise PathEnd('infeasible')
            self.assume(c)
            return True
        rec = dict(obligation=name, detail=detail, line=self.cur_line, harness=R.name)
        if r == 'sat':
            try:
                m = self.solver.model()
                rec['model'] = {str(d): str(m[d])[:200] for d in list(m.decls())[:80] if d.arity() == 0}
            except z3.Z3Exception:
                pass
            rec['notes'] = list(self.path_notes)[-20:]
            if self.weak: rec['soft'] = True
            R.failed.append(rec)
        else:
            R.unknown.append(rec)
        if c is False: raise PathEnd('failed')
        if self.opts.get('stop_on_fail', True):
            raise PathEnd('failed')
        self.assume(c)
        return False
    def _hard(self, extra):
        t0 = time.time()
        best = 'unknown'
        for mk in (lambda: z3.Solver(), lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'smt').solver()):
            s = mk()
            s.set('timeout', HARD_MS)
            s.add(*self.pc)
            s.add(*[B(e) for e in extra])
            r = str(s.check())
            if r != 'unknown':
                best = r
                self.solver = s if r == 'sat' else self.solver
                if r == 'sat': self.nsolved = len(self.pc)
                break
        self.res.solver_s += time.time() - t0
        return best
    def fail(self, name, detail=''):
        self.prove(False, name, detail)
    def cover(self, name):
        """reachability (vacuity) check"""
        self.res.covers.setdefault(name, 0)
        if self.pos < len(self.decisions): 
            return
        if self._check([]) != 'unsat':
            self.res.covers[name] += 1
    def note(self, s): self.path_notes.append(s)

    # -------------------------------------------------- objects
    def new_obj(self, name, ty=None, size=None, default='lazy', init=None, heap=False, const=False):
        P = self.prog
        layout = None
        if ty is not None:
            if isinstance(ty, str): ty = ir.Ty('named', ty)
            size = P.size(ty)
        o = Obj(self.name(name), size, None, default, init, const, heap)
        if ty is not None:
            o.layout = dict()
            segs = P.big_arrays(ty)
            rt = P.resolve(ty)
            if rt.k == 'arr' and P.resolve(rt.b).k == 'int' and P.resolve(rt.b).a == 8: segs = [(0, rt.a)]
            for (off, k) in P.flatten(ty):
                o.layout[off] = k
            for (so, n) in segs:
                o.segs.append(self.byte_seg(o.name + '+%d' % so, so, n, default))
        self.objs += 1
        o.born = self.objs
        return o
    def byte_seg(self, name, start, count, default='lazy'):
        def mk(ctx, fo, key):
            if default == 'zero': return ConstArr(0)
            if default == 'uninit': return ConstArr(UNDEF)
            return BaseUF(ctx.name(name), key)
        return Seg(start, 1, count, [(0, 'i8')], mk, name)
    def bytes_obj(self, b, name='str', const=True):
        o = Obj(self.name(name), len(b), const=const)
        s = Seg(0, 1, len(b), [(0, 'i8')], lambda c, fo, k: Bytes(b), name)
        o.segs.append(s)
        return o
    def cstr(self, s, name='str'):
        return Ptr(self.bytes_obj(s.encode('latin1') + b'\0', name))
    def global_obj(self, name, module):
        t, init, isconst, internal = None, None, False, False
        g = module.globals.get(name) if module else None
        owner = module
        if g is None or g[1] is None:
            for m in self.prog.modules:
                g2 = m.globals.get(name)
                if g2 is not None and g2[1] is not None and not g2[3]:
                    g, owner = g2, m
                    break
        if g is None:
            raise Structural('unknown global @%s' % name)
        t, init, isconst, internal = g
        key = (owner.name, name) if init is not None else ('ext', name)
        if key in self.globals: return self.globals[key]
        if init is None:
            o = Obj('@' + name, 8)
            f = Obj('@*' + name, None); f.tag = ('FILE', name)
            o.cells[0] = ('ptr', Ptr(f))
            self.globals[key] = o
            return o
        if name in self.initial: isconst = True     # as at program start
        h = self.opts.get('globals', {}).get(name)
        rt0 = self.prog.resolve(t)
        if init[0] == 'zero' and rt0.k == 'arr' and self.prog.resolve(rt0.b).k == 'int' and self.prog.resolve(rt0.b).a == 8 and isconst:
            init = ('str', bytes(rt0.a))
        if init[0] == 'str':
            o = self.bytes_obj(init[1], '@' + name, isconst)
            self.globals[key] = o
            return o
        o = Obj('@' + name, self.prog.size(t), const=isconst)
        self.globals[key] = o
        if h is not None and not isconst:
            h(self, o)
            return o
        if not isconst:
            # mutable globals may hold anything the type allows
            o.default = 'lazy'
            try: o.layout = dict(self.prog.flatten(t))
            except Structural: pass
            return o
        o.default = 'zero'
        if rt0.k == 'arr' and rt0.a > 8 and init[0] != 'zero' and self.prog.resolve(rt0.b).k == 'struct':
            tmp = Obj('tmp', o.size); tmp.default = 'zero'
            self._init_const(tmp, 0, t, init, owner)
            est = self.prog.size(rt0.b)
            lay = self.prog.flatten(rt0.b)
            def mkv(cx, fo, key, n=rt0.a):
                vs = []
                for i in range(n):
                    c = tmp.cells.get(i * est + fo)
                    vs.append(c[1] if c is not None else NULL if key == 'ptr' else 0.0 if key == 'f64' else 0)
                return Vals(vs, kwidth(key) if key[0] == 'i' else None)
            o.segs.append(Seg(0, est, rt0.a, lay, mkv, '@' + name))
            return o
        self._init_const(o, 0, t, init, owner)
        rt = self.prog.resolve(t)
        return o
    def _init_const(self, o, off, t, v, module):
        P = self.prog
        rt = P.resolve(t)
        if v[0] == 'zero' or v[0] == 'undef': return
        if rt.k == 'arr':
            s = P.size(rt.b)
            if v[0] == 'str':
                for i, b in enumerate(v[1]): o.cells[off + i] = ('i8', b)
                return
            for i, (et, ev) in enumerate(v[1]):
                self._init_const(o, off + i * s, et, ev, module)
            return
        if rt.k == 'struct':
            offs = P.struct_layout(rt)[0]
            for fo, (et, ev) in zip(offs, v[1]):
                self._init_const(o, off + fo, et, ev, module)
            return
        o.cells[off] = (tkey(rt), self.operand(None, rt, v, module))

    # -------------------------------------------------- memory access
    def check_access(self, p, n, what):
        if not isinstance(p, Ptr):
            raise Structural('access through %r' % (p,))
        if p.obj is None:
            self.fail('no-null-dereference', what)
        o = p.obj
        if o.freed: self.fail('no-use-after-free', '%s %s' % (what, o.name))
        if o.size is None:
            raise Structural('access to opaque %s' % o.name)
        if p.past is not None: self.prove(Not(p.past), 'array-index-in-bounds', what)
        off = p.off
        if isinstance(off, int) and isinstance(o.size, int):
            if off < 0 or off + n > o.size:
                self.fail('in-bounds', '%s %s+%d' % (what, o.name, off))
        else:
            t = off_term(off)
            if isinstance(o.size, int):
                c = ule(t, o.size - n) if o.size >= n else False
            else:
                c = And(ule(n, o.size), ule(t, sub(o.size, n)))
            c = simp(c)
            if c is not True and self.known(c) is not True:
                self.prove(c, 'in-bounds', '%s %s' % (what, o.name))
    def load(self, p, key):
        if isinstance(p, Ptr) and p.obj is not None and p.obj.tag and p.obj.tag[0] == 'opaque':
            self.opaque_is(p.obj, p.obj.tag[1][0])
            t = p.obj.tag[2]
            p = Ptr(t.obj, off_add(t.off, off_term(p.off), 1))
        self.check_access(p, KSIZE[key], 'read')
        o = p.obj
        off = p.off
        s = o.seg_for(off, KSIZE[key]) if o.segs else None
        if s is None and not isinstance(off, int) and not o.cells and o.heap and not o.segs:
            s = self.auto_seg(o, off, key)
        if s is not None:
            idx, fo = seg_index(s, off)
            if s.count is not None and not isinstance(idx, int):
                c = simp(ult(idx, s.count))
                if c is not True and self.known(c) is not True:
                    self.prove(c, 'in-bounds', 'read %s' % s.name)
            v = s.comp(self, fo, key).read(self, idx)
            if v is UNDEF:
                self.fail('no-uninitialised-read', '%s' % s.name)
            return v
        if not isinstance(off, int):
            off = to_signed(self.concretize(off.term(), 64), 64)
            if o.segs: return self.load(Ptr(o, off), key)
        v = self.cell_get(o, off, key)
        if v is UNDEF:
            self.fail('no-uninitialised-read', '%s+%d' % (o.name, off))
        return v
    def auto_seg(self, o, off, key):
        cs = [abs(c) for c, _ in off.t.values()]
        import math
        st = 0
        for c in cs: st = math.gcd(st, c)
        default = o.default
        def mk(ctx, fo, k):
            if default == 'zero': return ConstArr(NULL if k == 'ptr' else 0.0 if k == 'f64' else 0)
            return ConstArr(UNDEF)
        cnt = None
        if isinstance(o.size, int): cnt = o.size // st
        s = Seg(0, st, cnt, AnyLayout(), mk, o.name)
        o.segs.append(s)
        return s
    def cell_get(self, o, off, key, peek=False):
        if o.recs:
            for b, (n, d) in o.recs.items():
                if b <= off < b + n:
                    if (off - b, key) in d: return d[(off - b, key)]
                    raise Structural('record member')
        c = o.cells.get(off)
        if c is not None and c[0] == key: return c[1]
        n = KSIZE[key]
        for o2 in range(off - 7, off + n):
            c2 = o.cells.get(o2)
            if c2 is None: continue
            if o2 < off + n and off < o2 + KSIZE[c2[0]]:
                # overlapping, different shape
                if c2[0][0] == 'i' and key[0] == 'i' and o2 <= off and o2 + KSIZE[c2[0]] >= off + n and c2[1] is not UNDEF:
                    v = ibin('lshr', kwidth(c2[0]), c2[1], 8 * (off - o2))
                    return trunc(v, kwidth(c2[0]), kwidth(key)) if kwidth(key) < kwidth(c2[0]) else v
                if all((off + i) in o.cells and o.cells[off + i][0] == 'i8' for i in range(n)) and key[0] == 'i':
                    v = None
                    for i in reversed(range(n)):
                        b = bv(o.cells[off + i][1], 8)
                        v = b if v is None else z3.Concat(v, b)
                    return simp(v)
                if c2[1] is UNDEF and c is None: continue
                raise Structural('overlapping access %s+%d as %s (has %s at +%d)' % (o.name, off, key, c2[0], o2))
        if o.init is not None:
            v = o.init(self, o, off, key)
            if v is not None:
                if not peek: o.cells[off] = (key, v)
                return v
        if o.default == 'zero':
            v = NULL if key == 'ptr' else 0.0 if key == 'f64' else 0
        elif o.default == 'uninit':
            return UNDEF
        else:
            if o.layout is not None and o.layout.get(off) not in (key, None):
                pass
            v = self.fresh_key('%s+%d' % (o.name, off), key)
        o.cells[off] = (key, v)
        return v
    def store(self, p, key, v):
        self.check_access(p, KSIZE[key], 'write')
        o = p.obj
        if o.const: self.fail('no-write-to-constant', o.name)
        off = p.off
        s = o.seg_for(off, KSIZE[key]) if o.segs else None
        if s is None and not isinstance(off, int) and not o.cells and o.heap and not o.segs:
            s = self.auto_seg(o, off, key)
        if s is not None:
            idx, fo = seg_index(s, off)
            if s.count is not None and not isinstance(idx, int):
                c = simp(ult(idx, s.count))
                if c is not True and self.known(c) is not True:
                    self.prove(c, 'in-bounds', 'write %s' % s.name)
            self.wlog.append((o, 'seg', s.start))
            s.set(self, fo, key, idx, v)
            return
        if not isinstance(off, int):
            off = to_signed(self.concretize(off.term(), 64), 64)
            return self.store(Ptr(o, off), key, v)
        self.cell_set(o, off, key, v)
    def cell_set(self, o, off, key, v):
        n = KSIZE[key]
        if o.recs:
            for b, (sz, d) in o.recs.items():
                if b <= off < b + sz:
                    self.wlog.append((o, 'cell', off))
                    for (r2, k2) in list(d):
                        if (r2, k2) != (off - b, key) and r2 < off - b + n and off - b < r2 + KSIZE[k2]: d[(r2, k2)] = UNDEF
                    d[(off - b, key)] = v
                    return
        self.wlog.append((o, 'cell', off))
        for o2 in range(off - 7, off + n):
            if o2 == off: continue
            c2 = o.cells.get(o2)
            if c2 is not None and o2 < off + n and off < o2 + KSIZE[c2[0]]:
                o.cells[o2] = (c2[0], UNDEF)
                if o2 > off: del o.cells[o2]
        o.cells[off] = (key, v)

    def leaves(self, p, n):
        """scalar leaves of the n bytes at p (n concrete): [(rel, key)]"""
        o = p.obj
        s = o.seg_for(p.off, 1) if o.segs else None
        if s is not None and s.stride > 1:
            idx, fo = seg_index(s, p.off)
            if fo + n > s.stride: raise Structural('multi-record copy')
            return [(f - fo, k) for f, k in s.layout if fo <= f < fo + n]
        if not isinstance(p.off, int):
            if s is not None: return [(i, 'i8') for i in range(n)]
            p = Ptr(o, to_signed(self.concretize(p.off.term(), 64), 64)); s = o.seg_for(p.off, 1)
        r = []
        off = p.off
        if o.layout is not None:
            for f, k in o.layout.items():
                if off <= f < off + n:
                    c = o.cells.get(f)
                    r.append((f - off, c[0] if c else k))
            for f, c in o.cells.items():
                if off <= f < off + n and f not in o.layout: r.append((f - off, c[0]))
        elif s is not None:
            r = [(i, 'i8') for i in range(n)]
        else:
            for f, c in o.cells.items():
                if off <= f < off + n: r.append((f - off, c[0]))
        return sorted(r)

    def memcpy(self, d, s, n):
        if isinstance(n, int) and n == 0: return
        if not isinstance(d, Ptr) or not isinstance(s, Ptr): raise Structural('memcpy args')
        if d.obj is None or s.obj is None:
            c = eq(n, 0, 64)
            self.prove(c, 'no-null-dereference', 'memcpy')
            return
        for q, w in ((s, 'read'), (d, 'write')):
            if q.obj.freed: self.fail('no-use-after-free', 'memcpy')
            if q.past is not None: self.prove(Or(Not(q.past), eq(n, 0, 64)), 'array-index-in-bounds', 'memcpy ' + w)
        ss = s.obj.seg_for(s.off, 1) if s.obj.segs else None
        ds = d.obj.seg_for(d.off, 1) if d.obj.segs else None
        if ss is not None and ss.stride == 1:
            self.check_range(s, n, 'read'); self.check_range(d, n, 'write')
            if ds is None and d.obj.heap and not d.obj.cells:
                ds = self.char_seg(d.obj)
            if ds is not None and ds.stride == 1:
                self.copy_bytes(d, s, n)
                return
        if ss is not None and ss.stride > 1 and (not isinstance(n, int) or n > ss.stride):
            if self.copy_records(d, s, n, ss, ds): return
        n = self.concretize(n, 64)
        self.check_range(s, n, 'read'); self.check_range(d, n, 'write')
        if isinstance(s.off, Lin) and ss is None:
            s = Ptr(s.obj, to_signed(self.concretize(s.off.term(), 64), 64))
        if isinstance(d.off, Lin) and ds is None:
            d = Ptr(d.obj, to_signed(self.concretize(d.off.term(), 64), 64))
        if self.record_copy(d, s, n): return
        lv = self.leaves(s, n)
        vals = [(r, k, self.peek(Ptr(s.obj, off_add(s.off, r, 1)), k)) for r, k in lv]
        for r, k, v in vals:
            self.poke(Ptr(d.obj, off_add(d.off, r, 1)), k, v)
    def copy_records(self, d, s, n, ss, ds):
        """copy of a number of whole records between arrays of records"""
        st = ss.stride
        if isinstance(ss.layout, AnyLayout): return False
        nt = z3.BitVecVal(n, 64) if isinstance(n, int) else n
        m = simp(z3.UDiv(nt, z3.BitVecVal(st, 64)))
        whole = simp(eq(z3.URem(nt, z3.BitVecVal(st, 64)), 0, 64))
        if whole is not True and self.valid(whole) is not True: return False
        if ds is None:
            if not (d.obj.heap and not d.obj.cells and not d.obj.segs): return False
            o = d.obj
            cnt = o.size // st if isinstance(o.size, int) else simp(z3.UDiv(o.size, z3.BitVecVal(st, 64)))
            ds = Seg(0, st, cnt, ss.layout, lambda c, f, k: ConstArr(UNDEF), o.name)
            o.segs.append(ds)
        if ds.stride != st: return False
        si, sf = seg_index(ss, s.off)
        di, df = seg_index(ds, d.off)
        if sf or df: return False
        if d.obj.const: self.fail('no-write-to-constant', d.obj.name)
        for q, g, i in ((s, ss, si), (d, ds, di)):
            if g.count is None: return False
            c = simp(And(ule(m, g.count), ule(i, sub(g.count, m))))
            if c is not True and self.known(c) is not True: self.prove(c, 'in-bounds', 'records of %s' % q.obj.name)
        self.wlog.append((d.obj, 'seg', ds.start))
        delta = sub(si, di)
        nodes = [(f, k, ss.comp(self, f, k)) for f, k in ss.layout]
        def mk(sn): return lambda ctx, j: sn.read(ctx, add(j, delta))
        for f, k, sn in nodes:
            ds.comps[(f, k)] = Rng(ds.comp(self, f, k), di, add(di, m), mk(sn), sn, delta)
        return True
    def record_copy(self, d, s, n):
        """copy of one whole record whose members overlap (a union): every view is copied"""
        ss = s.obj.seg_for(s.off, 1) if s.obj.segs else None
        ds = d.obj.seg_for(d.off, 1) if d.obj.segs else None
        rec = None
        if ss is not None:
            if ss.stride != n or not overlapping(ss.layout): return False
            idx, fo = seg_index(ss, s.off)
            if fo: return False
            rec = {(f, k): ss.comp(self, f, k).read(self, idx) for f, k in ss.layout if k != 'ptr' or not isinstance(ss.layout, AnyLayout)}
        elif s.obj.recs and isinstance(s.off, int): rec = self.rec_of(s.obj, s.off, n)
        if rec is None: return False
        if d.obj.const: self.fail('no-write-to-constant', d.obj.name)
        if ds is None and d.obj.heap and not d.obj.cells and not d.obj.segs and not isinstance(d.off, int):
            o = d.obj
            cnt = o.size // n if isinstance(o.size, int) else simp(z3.UDiv(o.size, z3.BitVecVal(n, 64)))
            ds = Seg(0, n, cnt, sorted(rec), lambda c, f, k: ConstArr(UNDEF), o.name)
            o.segs.append(ds)
        if ds is not None:
            if ds.stride != n: return False
            idx, fo = seg_index(ds, d.off)
            if fo: return False
            self.wlog.append((d.obj, 'seg', ds.start))
            for (f, k), v in rec.items():
                ds.comps[(f, k)] = Wr(ds.comp(self, f, k), idx, v)
            return True
        if not isinstance(d.off, int): return False
        if d.obj.recs is None: d.obj.recs = {}
        for k in list(d.obj.cells):
            if d.off <= k < d.off + n: del d.obj.cells[k]
        d.obj.recs[d.off] = (n, rec)
        self.wlog.append((d.obj, 'cell', d.off))
        return True
    def rec_of(self, o, off, n):
        """all members in [off, off+n) of an object that holds whole records, or None"""
        rec, any_ = {}, False
        for b, (sz, d) in o.recs.items():
            if b >= off and b + sz <= off + n:
                any_ = True
                for (r, k), v in d.items(): rec[(b - off + r, k)] = v
            elif b <= off and off + n <= b + sz:
                any_ = True
                for (r, k), v in d.items():
                    if off <= b + r < off + n: rec[(b + r - off, k)] = v
            elif b < off + n and off < b + sz: return None
        if not any_: return None
        for f, (k, v) in o.cells.items():
            if off <= f < off + n: rec[(f - off, k)] = v
        return rec
    def peek(self, p, key):
        o = p.obj
        s = o.seg_for(p.off, 1) if o.segs else None
        if s is not None:
            idx, fo = seg_index(s, p.off)
            return s.comp(self, fo, key).read(self, idx)
        return self.cell_get(o, p.off, key)
    def poke(self, p, key, v):
        o = p.obj
        if o.const: self.fail('no-write-to-constant', o.name)
        s = o.seg_for(p.off, 1) if o.segs else None
        if s is not None:
            idx, fo = seg_index(s, p.off)
            self.wlog.append((o, 'seg', s.start))
            s.set(self, fo, key, idx, v)
            return
        self.cell_set(o, p.off, key, v)
    def check_range(self, p, n, what):
        o = p.obj
        if o.size is None: raise Structural('access to opaque %s' % o.name)
        t = off_term(p.off)
        sg = o.seg_for(p.off, 1) if o.segs else None
        size = o.size; base = 0
        if sg is not None and sg.stride == 1 and sg.count is not None:
            t = sub(t, sg.start); size = sg.count
        c = simp(And(ule(n, size), ule(t, sub(size, n))))
        if c is not True and self.known(c) is not True:
            self.prove(c, 'in-bounds', '%s %s' % (what, o.name))
    def char_seg(self, o):
        sg = self.byte_seg(o.name, 0, o.size, o.default)
        o.segs.append(sg)
        return sg
    def bytes_node(self, p):
        """(Node, index of p) of the byte array p points into"""
        o = p.obj
        s = o.seg_for(p.off, 1) if o.segs else None
        if s is None:
            if o.heap and not o.cells: s = self.char_seg(o)
            else: raise Structural('not a byte array: %s' % o.name)
        if s.stride != 1: raise Structural('not a byte array: %s' % o.name)
        return s, s.comp(self, 0, 'i8'), off_term(off_add(p.off, -s.start & mask(64), 1))
    def copy_bytes(self, d, s, n):
        sseg, sn, si = self.bytes_node(s)
        dseg, dn, di = self.bytes_node(d)
        if d.obj.const: self.fail('no-write-to-constant', d.obj.name)
        self.wlog.append((d.obj, 'seg', dseg.start))
        delta = sub(si, di)
        dseg.comps[(0, 'i8')] = Rng(dn, di, add(di, n),
                                    lambda ctx, k: sn.read(ctx, add(k, delta)), sn, delta)
    def memset(self, d, val, n):
        o = d.obj
        if o is None: self.fail('no-null-dereference', 'memset')
        self.check_range(d, n, 'write')
        s = o.seg_for(d.off, 1) if o.segs else None
        if s is not None and s.stride == 1:
            seg, node, di = self.bytes_node(d)
            self.wlog.append((o, 'seg', seg.start))
            seg.comps[(0, 'i8')] = Rng(node, di, add(di, n), lambda ctx, k: val)
            return
        if isinstance(n, int) and isinstance(d.off, int) and isinstance(val, int) and val == 0:
            if d.off == 0 and isinstance(o.size, int) and n == o.size and not o.segs:
                o.cells = {}; o.default = 'zero'; o.init = None
                self.wlog.append((o, 'cell', 0))
                return
            if o.layout is not None:
                for f, k in sorted(o.layout.items()):
                    if d.off <= f < d.off + n:
                        self.cell_set(o, f, k, NULL if k == 'ptr' else 0.0 if k == 'f64' else 0)
                return
        raise Structural('memset')

    # -------------------------------------------------- heap
    def malloc(self, size, default='uninit', name='heap'):
        o = Obj(self.name(name), size, None, default, None, False, True)
        self.objs += 1; o.born = self.objs
        self.alloc_live.append(o)
        return Ptr(o)
    def free(self, p):
        if not isinstance(p, Ptr): raise Structural('free %r' % (p,))
        if p.obj is None: return
        o = p.obj
        if o.freed: self.fail('no-double-free', o.name)
        if not o.heap: self.fail('free-of-heap-object', o.name)
        if p.off != 0: self.fail('free-of-object-start', o.name)
        o.freed = True
        self.wlog.append((o, 'free', 0))
        self.events.append(('free', o))

    # -------------------------------------------------- operands
    def operand(self, fr, ty, v, module=None):
        k = v[0]
        if k == 'v': 
            return fr.env[v[1]]
        if k == 'c':
            return bool(v[1]) if ty.k == 'int' and ty.a == 1 else v[1]
        if k == 'f': return v[1]
        if k == 'null': return NULL
        if k == 'g':
            m = module or fr.fn.module
            f = self.prog.find(v[1], m)
            if f is not None or v[1] in m.decls: return FuncPtr(v[1])
            return Ptr(self.global_obj(v[1], m))
        if k == 'gep':
            base = self.operand(fr, ir.PTR, v[2], module)
            return self.gep(v[1], base, [(t, self.operand(fr, t, x, module)) for t, x in v[3]])
        if k == 'i2p': return Ptr(None, v[1][1]) if v[1][1] else NULL
        if k == 'undef': return UNDEF
        if k == 'zero':
            return 0.0 if ty.k == 'f64' else NULL if ty.k == 'ptr' else 0
        raise Structural('operand %r' % (v,))
    def gep(self, sty, base, idx):
        if not isinstance(base, Ptr): raise Structural('gep on %r' % (base,))
        P = self.prog
        off = base.off
        it, i0 = idx[0]
        sz = P.size(sty)
        off = off_add(off, self.sx(it, i0), sz) if not (isinstance(i0, int) and i0 == 0) else off
        t = sty
        past = base.past if isinstance(i0, int) and i0 == 0 else None
        for (it, i) in idx[1:]:
            t = P.resolve(t)
            if t.k == 'struct':
                off = off_add(off, P.struct_layout(t)[0][i], 1)
                t = t.a[i]
            elif t.k == 'arr':
                if t.a > 0 and not (isinstance(i, int) and 0 <= i < t.a):
                    q = self.arr_index(t, it, i)
                    if q is not None: past = q if past is None else Or(past, q)
                off = off_add(off, self.sx(it, i), P.size(t.b))
                t = t.b
            else: raise Structural('gep into %r' % t)
        if base.obj is None:
            if isinstance(off, int) and off == 0: return NULL
            return Ptr(None, off)
        return Ptr(base.obj, off, past)
    def arr_index(self, t, it, i):
        """the index is within the array, or one past its end (the condition for that is returned:
        such a pointer may be formed but not used for access)"""
        w = it.a
        c = simp(icmp('ult', w, i, t.a))
        if c is True or self.known(c) is True: return None
        if self.valid(c):
            self.res.obl += 1; self.res.ok += 1
            bn = self.res.byname.setdefault('array-index-in-bounds', [0, 0]); bn[0] += 1; bn[1] += 1
            self.assume(c)
            return None
        self.prove(icmp('ule', w, i, t.a), 'array-index-in-bounds', '[%d]' % t.a)
        return simp(icmp('eq', w, i, t.a))
    def sx(self, it, i):
        if it.a == 64: return i
        return sext(i, it.a, 64)

    # -------------------------------------------------- calls
    def call(self, name, args, module=None):
        """call by name; stub > function body > library model"""
        st = self.stubs.get(name)
        if st is not None:
            self.res.stubs.add(name)
            return st(self, args)
        f = self.prog.find(name, module)
        if f is not None:
            return self.exec_func(f, args)
        lm = self.libm.get(name)
        if lm is not None:
            self.res.assumptions.add('library: ' + name)
            return lm(self, args)
        raise Structural('no model for external function %s' % name)
    def body(self, name, args, module=None):
        """execute the real body of a function even if it has a stub"""
        f = self.prog.find(name, module)
        if f is None: raise Structural('function %s not found' % name)
        return self.exec_func(f, args)
    def run(self, name, args, module=None):
        """('ret', v) | (kind, data)"""
        try:
            return ('ret', self.body(name, args, module))
        except Outcome as e:
            return (e.kind, e.data)

    def exec_func(self, f, args):
        if self.depth > 60: raise Structural('call depth')
        self.res.funcs.add(f.name)
        self.depth += 1
        fr = Frame(f)
        if len(args) < len(f.params): raise Structural('arity of %s' % f.name)
        for (t, n), a in zip(f.params, args): fr.env[n] = a
        if len(args) > len(f.params): fr.env['...'] = args[len(f.params):]
        try:
            label, prev, ip = f.entry, None, 0
            while True:
                try:
                    r = self.exec_blocks(fr, label, prev, ip)
                    return r
                except LongJmp as e:
                    for buf, (lab, k, ins, env) in fr.jmp.items():
                        if buf is e.buf:
                            fr.env = dict(env)
                            if ins.dst is not None: fr.env[ins.dst] = e.val
                            label, prev, ip = lab, None, k + 1
                            break
                    else:
                        raise
        finally:
            self.depth -= 1

    def exec_blocks(self, fr, label, prev, ip):
        f = fr.fn
        loops = f.loops()
        while True:
            blk = f.blocks[label]
            fr.cur = label
            env = fr.env
            if prev is not None:
                k = 0
                vals = []
                while blk[k].op == 'phi':
                    ins = blk[k]
                    for v, l in ins.a:
                        if l == prev:
                            vals.append((ins.dst, self.operand(fr, ins.ty, v)))
                            break
                    else: raise Structural('phi')
                    k += 1
                if label in loops:
                    vals = self.loop_header(fr, label, prev, dict(vals), loops[label])
                    for d in vals: env[d] = vals[d]
                else:
                    for d, v in vals: env[d] = v
                ip = k
            elif label in loops and ip == 0:
                self.loop_header(fr, label, None, {}, loops[label])
            nxt = None
            n = len(blk)
            while ip < n:
                ins = blk[ip]
                self.steps += 1
                op = ins.op
                if ins.line: self.cur_line = (f.module.name, f.name, ins.line)
                if op == 'br':
                    if len(ins.a) == 1: nxt = ins.a[0]
                    else:
                        c = as_bool(self.operand(fr, ir.IntTy(1), ins.a[0]))
                        if isinstance(c, Undef): self.fail('no-uninitialised-read', 'branch')
                        nxt = ins.a[1] if self.branch(c) else ins.a[2]
                    break
                if op == 'ret':
                    if not ins.a: return None
                    return self.operand(fr, ins.ty, ins.a[0])
                if op == 'switch':
                    v = self.operand(fr, ins.ty, ins.a[0])
                    w = ins.ty.a
                    nxt = ins.a[1]
                    if isinstance(v, int):
                        for cv, l in ins.a[2]:
                            if cv == v: nxt = l; break
                    else:
                        for cv, l in ins.a[2]:
                            if self.branch(icmp('eq', w, v, cv)): nxt = l; break
                    break
                if op == 'unreachable':
                    self.fail('unreachable-code', 'after noreturn call')
                    raise PathEnd('unreachable')
                r = self.exec_instr(fr, ins, label, ip)
                if ins.dst is not None: env[ins.dst] = r
                ip += 1
            if self.steps > self.opts.get('max_steps', 200000):
                raise Structural('path too long')
            prev, label, ip = label, nxt, 0

    def loop_header(self, fr, label, prev, vals, body):
        back = prev in body
        act = fr.active.get(label)
        if back and act is not None:
            spec, L = act
            L.back(self, vals)
            raise PathEnd('backedge')
        if not back:
            fr.visits[label] = 0
            fr.active.pop(label, None)
            for h in list(fr.active):
                if h in body: fr.active.pop(h, None)
            for spec in self.loopspecs:
                L = spec.bind(self, fr, label, vals)
                if L is not None:
                    new = L.enter(self, vals)
                    fr.active[label] = (spec, L)
                    return new
        fr.visits[label] = fr.visits.get(label, 0) + 1
        if fr.visits[label] == 2 and not self.weak:
            # the loop the contract annotates is not recognised: what follows is not judged by its invariant
            for spec in self.loopspecs:
                if spec.func is not None and not spec.uses and fr.fn.name in ((spec.func,) if isinstance(spec.func, str) else spec.func):
                    self.weak = True
        if fr.visits[label] > self.unroll:
            raise Structural('loop without invariant exceeds unrolling bound in %s' % fr.fn.name)
        return vals

    def exec_instr(self, fr, ins, label, ip):
        op = ins.op
        O = self.operand
        if op == 'load':
            p = O(fr, ir.PTR, ins.a[0])
            t = ins.ty
            if t.k in ('struct',): return self.load_agg(p, t)
            if t.k == 'named': return self.load_agg(p, self.prog.resolve(t))
            key = tkey(t)
            if key == 'i1': raise Structural('i1 load')
            return self.load(p, key)
        if op == 'store':
            v = O(fr, ins.ty, ins.a[0]); p = O(fr, ir.PTR, ins.a[1])
            if isinstance(v, RecPart):
                self.store_rec(p, v.size, v.rec); return None
            if isinstance(v, Agg):
                if v.rec is not None:
                    self.store_rec(p, self.prog.size(ins.ty), v.rec); return None
                for o, k, x in v.parts: self.poke_chk(p, o, k, x)
                return None
            key = tkey(ins.ty)
            if v is UNDEF: self.fail('no-uninitialised-read', 'store')
            if isinstance(v, bool): v = int(v)
            self.store(p, key, v)
            return None
        if op == 'getelementptr':
            base = O(fr, ir.PTR, ins.a[0])
            return self.gep(ins.ty, base, [(t, O(fr, t, x)) for t, x in ins.a[1]])
        if op == 'call': return self.exec_call(fr, ins, label, ip)
        if op == 'icmp':
            t = ins.ty
            a, b = O(fr, t, ins.a[1]), O(fr, t, ins.a[2])
            self.nundef(a, b)
            if t.k == 'ptr': return self.ptr_cmp(ins.a[0], a, b)
            return icmp(ins.a[0], t.a, a, b)
        if op == 'fcmp':
            a, b = O(fr, ins.ty, ins.a[1]), O(fr, ins.ty, ins.a[2])
            self.nundef(a, b)
            return fcmp(ins.a[0], a, b)
        if op in ir.BINOPS:
            a, b = O(fr, ins.ty, ins.a[0]), O(fr, ins.ty, ins.a[1])
            if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt) and a.p.obj is not None and a.p.obj is b.p.obj:
                return simp(sub(off_term(a.p.off), off_term(b.p.off)))
            self.nundef(a, b)
            if op[0] == 'f' and op != 'freeze':
                if ins.ty.k != 'f64': raise Structural('fp type')
                return fbin(op, a, b)
            w = ins.ty.a
            if op in ('udiv', 'sdiv', 'urem', 'srem'):
                c = icmp('ne', w, b, 0)
                if c is not True: self.prove(c, 'no-division-by-zero')
            return ibin(op, w, a, b)
        if op == 'fneg': 
            a = O(fr, ins.ty, ins.a[0]); self.nundef(a)
            return fneg(a)
        if op == 'zext':
            a = O(fr, ins.a[0], ins.a[1]); self.nundef(a)
            return zext(a, ins.a[0].a, ins.ty.a)
        if op == 'sext':
            a = O(fr, ins.a[0], ins.a[1]); self.nundef(a)
            return sext(a, ins.a[0].a, ins.ty.a)
        if op == 'trunc':
            a = O(fr, ins.a[0], ins.a[1]); self.nundef(a)
            return trunc(a, ins.a[0].a, ins.ty.a)
        if op in ('fptosi', 'fptoui'):
            a = O(fr, ins.a[0], ins.a[1]); self.nundef(a)
            s = op == 'fptosi'
            c = fp_in_range(a, ins.ty.a, s)
            if c is not True: self.prove(c, 'fp-to-int-in-range')
            return fp_to_int(a, ins.ty.a, s)
        if op in ('sitofp', 'uitofp'):
            a = O(fr, ins.a[0], ins.a[1]); self.nundef(a)
            return int_to_fp(a, ins.a[0].a, op == 'sitofp')
        if op == 'select':
            c = as_bool(O(fr, ir.IntTy(1), ins.a[0]))
            a, b = O(fr, ins.ty, ins.a[1]), O(fr, ins.ty, ins.a[2])
            return a if self.branch(c) else b
        if op == 'alloca':
            t = ins.ty
            o = self.new_obj('%s.local' % fr.fn.name, ty=t, default='uninit')
            fr.locals.append(o)
            return Ptr(o)
        if op == 'ptrtoint':
            return PtrInt(O(fr, ir.PTR, ins.a[1]))
        if op == 'freeze': return O(fr, ins.ty, ins.a[0])
        if op == 'extractvalue':
            v = O(fr, ins.ty, ins.a[0])
            t = self.prog.resolve(ins.ty)
            if not isinstance(v, Agg) or t.k != 'struct': raise Structural('extractvalue')
            i = ins.a[1]
            fo, n = self.prog.struct_layout(t)[0][i], self.prog.size(t.a[i])
            if v.rec is not None: return RecPart({(o - fo, k): x for (o, k), x in v.rec.items() if fo <= o < fo + n}, n)
            x = [x for o, k, x in v.parts if o == fo and KSIZE[k] == n]
            if len(x) != 1: raise Structural('extractvalue member')
            return x[0]
        if op == 'phi': raise Structural('phi after resume')
        raise Structural('instruction %s' % op)
    def nundef(self, *vs):
        for v in vs:
            if v is UNDEF: self.fail('no-uninitialised-read', 'use of an indeterminate value')
            if isinstance(v, PtrInt): raise Structural('pointer arithmetic on integers')
    def store_rec(self, p, n, rec):
        self.check_access(p, n, 'write')
        o = p.obj
        if o.segs or not isinstance(p.off, int): raise Structural('record store')
        if len(rec) == 1:
            (f, k), v = list(rec.items())[0]
            self.cell_set(o, p.off + f, k, v); return
        if o.recs is None: o.recs = {}
        for k in list(o.cells):
            if p.off <= k < p.off + n: del o.cells[k]
        for b in list(o.recs):
            if b < p.off + n and p.off < b + o.recs[b][0]: del o.recs[b]
        o.recs[p.off] = (n, dict(rec))
        self.wlog.append((o, 'cell', p.off))
    def load_agg(self, p, t):
        parts = []
        self.check_access(p, self.prog.size(t), 'read')
        if p.obj.recs and isinstance(p.off, int):
            n = self.prog.size(t)
            rec = self.rec_of(p.obj, p.off, n)
            if rec is not None: return Agg(None, rec)
        for o, k in self.leaves(p, self.prog.size(t)):
            parts.append((o, k, self.peek(p.plus(o), k)))
        return Agg(parts)
    def poke_chk(self, p, o, k, x):
        q = p.plus(o)
        self.check_access(q, KSIZE[k], 'write')
        self.poke(q, k, x)
    def ptr_cmp(self, pred, a, b):
        if isinstance(a, FuncPtr) or isinstance(b, FuncPtr):
            if pred in ('eq', 'ne'):
                r = isinstance(a, FuncPtr) and isinstance(b, FuncPtr) and a.name == b.name
                return r if pred == 'eq' else not r
        if not isinstance(a, Ptr) or not isinstance(b, Ptr): raise Structural('pointer comparison')
        if pred in ('eq', 'ne'):
            if a.obj is not b.obj:
                r = False
                for x, y in ((a, b), (b, a)):
                    if x.obj is not None and x.obj.tag and x.obj.tag[0] == 'opaque' and y.obj is not None:
                        r = self.opaque_is(x.obj, y)
            else:
                if isinstance(a.off, int) and isinstance(b.off, int): r = a.off == b.off
                else: r = icmp('eq', 64, off_term(a.off), off_term(b.off))
            return r if pred == 'eq' else Not(r)
        if a.obj is not b.obj:
            raise Structural('ordering of unrelated pointers')
        return icmp(pred, 64, off_term(a.off), off_term(b.off))
    def opaque_is(self, o, q):
        """is the opaque pointer (one of a set of possible targets) equal to q?  decided once"""
        for t in o.tag[1]:
            if t.obj is q.obj and isinstance(q.off, int) and t.off == q.off: break
        else: return False
        if not hasattr(o, 'memo'): o.memo = {}
        if len(o.tag) < 3 or o.tag[2] is None:
            k = self.choose(len(o.tag[1]))
            o.tag = ('opaque', o.tag[1], o.tag[1][k])
        t = o.tag[2]
        return t.obj is q.obj and t.off == q.off
    def opaque(self, name, targets):
        o = Obj(self.name(name), None); o.tag = ('opaque', list(targets), None)
        return Ptr(o)
    def exec_call(self, fr, ins, label, ip):
        callee, args = ins.a
        if callee[0] == 'g': name = callee[1]
        else:
            fp = self.operand(fr, ir.PTR, callee)
            if not isinstance(fp, FuncPtr): raise Structural('indirect call')
            name = fp.name
        vals = [self.operand(fr, t, a) for t, a in args if t.k != 'metadata']
        if name.startswith('llvm.'):
            return self.intrinsic(name, vals)
        if name in ('_setjmp', 'setjmp', '__sigsetjmp'):
            p = vals[0]
            key = (p.obj, p.off if isinstance(p.off, int) else -1)
            class K: pass
            buf = self.jmpkey(p)
            fr.jmp[buf] = (label, ip, ins, dict(fr.env))
            return 0
        if name == 'longjmp':
            raise LongJmp(self.jmpkey(vals[0]), vals[1])
        for v in vals: 
            if v is UNDEF: self.fail('no-uninitialised-read', 'argument of ' + name)
        save = self.cur_line
        m = fr.fn.module
        st = self.stubs.get(name)
        if st is None:
            f = self.prog.find(name, m)
            if f is not None:
                r = self.exec_func(f, vals)
                self.cur_line = save
                return r
        try:
            r = self.call(name, vals, m)
        finally:
            self.cur_line = save
        return r
    def jmpkey(self, p):
        if not hasattr(self, '_jk'): self._jk = {}
        k = (id(p.obj), p.off if isinstance(p.off, int) else -1)
        return self._jk.setdefault(k, ('jmp', k))
    def intrinsic(self, name, a):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.memcpy(a[0], a[1], a[2]); return None
        if name.startswith('llvm.memset'):
            self.memset(a[0], a[1], a[2]); return None
        if name.startswith('llvm.floor'): return ffloor(a[0])
        if name.startswith('llvm.fabs'): return ffabs(a[0])
        if name.startswith('llvm.va_'): return None
        if name.startswith('llvm.lifetime'): return None
        if name.startswith('llvm.trap'): self.fail('unreachable-code', 'trap'); return None
        if name.startswith('llvm.umax') or name.startswith('llvm.umin'):
            pass
        raise Structural('intrinsic ' + name)

def overlapping(lay):
    l = sorted(lay)
    return any(f2 < f + KSIZE[k] for i, (f, k) in enumerate(l) for (f2, k2) in l[i + 1:])
class AnyLayout(list):
    """layout of raw heap memory used as an array: records components as they are used"""
    def __contains__(self, x):
        if x not in list(self): self.append(x)
        return True
class Agg:
    def __init__(self, parts, rec=None): self.parts, self.rec = parts, rec
class RecPart:
    def __init__(self, rec, size): self.rec, self.size = rec, size
class PtrInt:
    def __init__(self, p): self.p = p

# ---------------------------------------------------------------- loops
class Loop:
    """one dynamic instance of a loop cut by an invariant"""
    def __init__(self, spec, fr, label, binding):
        self.spec, self.fr, self.label, self.binding = spec, fr, label, binding
        self.g = {}; self.scratch = []
    def roles(self, vals):
        return {r: vals[d] for r, d in self.binding.items()}
    def enter(self, ctx, vals):
        S = self.spec
        self.pre = self.roles(vals)
        S.enter(ctx, self, self.pre)
        for nm, c in S.inv(ctx, self, self.pre):
            ctx.prove(c, 'loop-invariant-entry:%s:%s' % (S.name, nm))
        for ck in S.check(ctx, self, self.pre): 
            ctx.prove(ck[1], 'loop-invariant-entry:%s:%s' % (S.name, ck[0]))
        # havoc
        new = dict(vals)
        f = self.fr.fn
        inv = {d: r for r, d in self.binding.items()}
        for ins in f.blocks[self.label]:
            if ins.op != 'phi': break
            d = ins.dst
            if d in inv:
                v = S.havoc_role(ctx, self, inv[d], vals[d], ins.ty)
            else:
                # a loop-carried variable the invariant does not mention: what follows may be
                # unprovable for want of an invariant, so failures are not reported as violations
                ctx.weak = ctx.weak or not S.allow_other
                v = S.havoc_other(ctx, self, d, vals[d], ins.ty)
            new[d] = v
        if S.scratch:
            # locals whose contents are not carried from one iteration to the next
            for o in self.fr.locals:
                o.cells = {}; o.recs = None; o.default = 'uninit'; o.init = None
                for sg in o.segs: sg.comps = {}
                self.scratch.append(o)
        S.havoc(ctx, self, self.roles(new))
        self.cur = self.roles(new)
        for nm, c in S.inv(ctx, self, self.cur): ctx.assume(c)
        self.mark = len(ctx.wlog)
        self.born = ctx.objs
        self.var0 = S.variant(ctx, self, self.cur)
        return new
    def back(self, ctx, vals):
        S = self.spec
        r = self.roles(vals)
        S.at_back(ctx, self, r)
        for nm, c in S.inv(ctx, self, r):
            ctx.prove(c, 'loop-invariant:%s:%s' % (S.name, nm))
        for nm, c in S.check(ctx, self, r):
            ctx.prove(c, 'loop-invariant:%s:%s' % (S.name, nm))
        for (o, kind, off) in ctx.wlog[self.mark:]:
            if o.born is not None and o.born > self.born: continue
            if o not in self.scratch and not S.may_write(ctx, self, o, kind, off):
                ctx.fail('loop-frame:%s' % S.name, 'writes %s %s' % (o.name, off))
        if self.var0 is not None:
            v1 = S.variant(ctx, self, r)
            ctx.prove(ult(v1, self.var0), 'loop-variant:%s' % S.name)

class LoopSpec:
    name = 'loop'
    func = None             # function name or None for any
    roles = {}              # role -> (type key, (preferred debug names))
    modifies = ()
    scratch = False
    allow_other = False
    def __init__(self, **kw):
        self.__dict__.update(kw)
        self.uses = 0
    def applies(self, ctx, fr, label, vals): return True
    def bind(self, ctx, fr, label, vals):
        if self.func is not None:
            fs = (self.func,) if isinstance(self.func, str) else self.func
            if fr.fn.name not in fs: return None
        if not self.applies(ctx, fr, label, vals): return None
        tys = {}
        for ins in fr.fn.blocks[label]:
            if ins.op != 'phi': break
            tys[ins.dst] = tkey(ins.ty) if ins.ty.k in ('int', 'ptr', 'f64') else None
        b = {}
        used = set()
        for r, (key, names) in self.roles.items():
            c = [d for d in tys if tys[d] == key and d not in used and (fr.fn.dbg.get(d, set()) & set(names))]
            if not c: 
                c = [d for d in tys if tys[d] == key and d not in used]
                if len(c) != 1: return None
            b[r] = c[0]; used.add(c[0])
        self.uses += 1
        return Loop(self, fr, label, b)
    # hooks
    def enter(self, ctx, L, v): pass
    def inv(self, ctx, L, v): return []
    def check(self, ctx, L, v): return []
    def havoc(self, ctx, L, v): pass
    def havoc_role(self, ctx, L, role, old, ty):
        if ty.k == 'ptr': return self.havoc_ptr(ctx, L, role, old)
        return ctx.fresh_key('%s.%s' % (self.name, role), tkey(ty))
    def havoc_ptr(self, ctx, L, role, old):
        if old.obj is None: raise Structural('loop pointer')
        t = ctx.fresh('%s.%s' % (self.name, role), 64)
        return Ptr(old.obj, Lin(0, {t.get_id(): (1, t)}))
    def havoc_other(self, ctx, L, d, old, ty):
        if ty.k == 'ptr': return self.havoc_ptr(ctx, L, 'x', old)
        if tkey(ty) == 'i1': return ctx.fresh_bool(self.name + '.x')
        return ctx.fresh_key(self.name + '.x', tkey(ty))
    def variant(self, ctx, L, v): return None
    def at_back(self, ctx, L, v): pass
    def may_write(self, ctx, L, o, kind, off):
        return o in L.g.get('modifies', ())

# ---------------------------------------------------------------- driver
def verify(prog, harness, name=None, opts=None, max_paths=6000):
    from . import libc
    opts = dict(opts or {})
    opts.setdefault('libc', libc.MODELS)
    res = Result(name or harness.__name__)
    t0 = time.time()
    if opts.get('time_limit'): opts['deadline'] = t0 + opts['time_limit']
    work = [[]]
    while work:
        if res.paths >= max_paths or len(res.failed) >= opts.get('max_fail', 3):
            if res.paths >= max_paths: res.structural.append('path limit')
            break
        dec = work.pop()
        ctx = Ctx(prog, res, dec, work, opts)
        res.paths += 1
        try:
            harness(ctx)
            if ctx.pos < len(ctx.decisions):
                res.structural.append('replay divergence')
        except PathEnd as e:
            pass
        except Outcome as e:
            ctx.deadline = None
            if ctx._check([]) != 'unsat':
                res.structural.append('unhandled outcome %s %r' % (e.kind, e.data))
        except LongJmp:
            res.structural.append('unhandled longjmp')
        except Structural as e:
            msg = '%s (at %s)' % (e, ctx.cur_line)
            ctx.deadline = None
            if ctx._check([]) != 'unsat':
                if msg not in res.structural: res.structural.append(msg)
                if opts.get('deadline'): opts['deadline'] = min(opts['deadline'], time.time() + 20)    # no longer decidable in full
                if len(res.structural) > 10: break
        except Budget:
            res.structural.append('time limit'); break
        except RecursionError:
            res.structural.append('recursion'); break
        except Exception as e:
            import traceback
            try: vac = ctx._check([]) == 'unsat'
            except Exception: vac = False
            if vac: continue
            res.structural.append('internal: %r at %s\n%s' % (e, ctx.cur_line, traceback.format_exc()[-1500:]))
            if len(res.structural) > 3: break
        res.byname.setdefault('paths', [0, 0])
    res.wall = time.time() - t0
    return res
