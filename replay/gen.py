"""Property-directed generation of BASIC programs and sessions for the bounded stand-ins and
for confirming an alarm with a concrete input.  Deterministic in the seed."""
import random

NUMS = ['0', '1', '2', '3', '4', '5', '7', '8', '9', '10', '11', '12', '15', '16', '17', '20', '31', '32', '64', '100', '127', '128', '255', '256',
        '1000', '32767', '65535', '65536', '.5', '0.25', '1.5', '2.75', '-1', '-2', '-7', '-0.5', '1E3', '1e-2', '2.5E2', '1E10', '123456', '1234567', '3.14159265',
        '2147483647', '2147483648', '-2147483648', '-2147483649', '4294967295', '4294967296', '1E300', '99999999', '0.1', '100000', '1E-5', '00012', '5.']
SMALL = ['0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '10', '-1', '-2', '-3', '.5', '1.5', '2.5']
NV = ['A', 'B', 'C', 'I', 'J', 'K', 'X', 'Y', 'Z', 'N1', 'count', 'Total', 'A1', 'TOX', 'F']
SV = ['A$', 'B$', 'C$', 'S$', 'name$', 'X1$', 'T$']
NA = ['A', 'M', 'V', 'Q', 'arr']
SA = ['A$', 'W$', 'ST$']
STRS = ['', 'A', 'B', 'AB', 'ABC', 'Hello', 'hello', ' ', 'a b', '12', '-3.5', '1E2', ' 7 ', '7x', 'HELLO WORLD', 'x,y', 'a:b', 'REM', 'zz', 'Z', '+5', '.5', '.', '-', 'abcdefghijklmnopqrstuvwxyz', "it's", '1 2']
DATAS = ['1', '2.5', '-3', 'abc', '"q s"', '"x,y"', '"a:b"', ' 12 ', 'two words', '""', '1E3', '+4', '.5', '', '"12"', '7x', 'THEN', "it's"]

class G:
    def __init__(self, seed, w=None):
        self.r = random.Random(seed)
        self.w = dict(W0); self.w.update(w or {})
        self.defs = []
        self.loops = []
        self.crunch = False
        self.lines = None
        self.dimmed = {}
    def ch(self, xs): return self.r.choice(xs)
    def p(self, x): return self.r.random() < x
    def case(self, s):
        k = self.r.random()
        if k < .6: return s
        if k < .75: return s.lower()
        if k < .9: return s.upper()
        return ''.join(c.lower() if self.p(.5) else c.upper() for c in s)
    def sp(self): return self.ch(['', '', ' ', ' ', '  ', '\t']) if self.p(.3) else ''
    # ------------------------------------------------------------ expressions
    def num(self): return self.ch(SMALL) if self.p(.6) else (self.ch(NUMS) if self.p(.8) else str(self.r.randint(0, 70000)))
    def nvar(self): return self.case(self.ch(NV[:self.w['nvars']]))
    def svar(self): return self.case(self.ch(SV))
    def nelem(self, d=1):
        a = self.case(self.ch(NA))
        return '%s(%s)' % (a, self.subs(d, a))
    def selem(self, d=1):
        a = self.case(self.ch(SA)); return '%s(%s)' % (a, self.subs(d, a))
    def subs(self, d, a):
        u = a.upper()
        n = self.dimmed.get(u)
        if n is None: n = self.dimmed[u] = self.ch([1, 1, 1, 2])
        if self.p(.03): n = 3 - n
        if self.p(.01): n = 3
        return ','.join(self.sub(d) for _ in range(n))
    def sub(self, d):
        if self.p(.75): return self.ch(['0', '1', '2', '3', '4', '5', '9', '10', '10', '11', '12', 'I', 'J', 'K'])
        if self.p(.5): return self.ch(['100', '-1', '1.5', '65534', '65535', '65536', '4294967295', '4294967296', '255', '256', '300'])
        return self.nexp(min(d, 1))
    def nexp(self, d=3):
        r = self.r.random()
        if d <= 0 or r < .25:
            k = self.r.random()
            if k < .4: return self.num()
            if k < .8: return self.nvar()
            if k < .9 and self.w['arrays']: return self.nelem(d - 1)
            return self.ch(SMALL)
        if r < .55: return '%s%s%s%s%s' % (self.nexp(d - 1), self.sp(), self.ch(['+', '-', '*', '/', '^', '+', '-', '*']), self.sp(), self.nexp(d - 1))
        if r < .63: return '(%s)' % self.nexp(d - 1)
        if r < .70: return self.ch(['-', '-', '--', '---']) + self.nexp(d - 1)
        if r < .76:
            return '%s %s %s' % (self.nexp(d - 1), self.case(self.ch(['AND', 'OR'])), self.nexp(d - 1))
        if r < .79: return self.case(self.ch(['NOT ', 'NOT NOT ', 'NOT NOT NOT '])) + self.nexp(d - 1)
        if r < .84: return '%s%s%s' % (self.nexp(d - 1), self.ch(['=', '<', '>', '<>', '<=', '>=']), self.nexp(d - 1))
        if r < .87: return '%s%s%s' % (self.sexp(d - 1), self.ch(['=', '<', '>', '<>', '<=', '>=']), self.sexp(d - 1))
        if r < .90 and self.defs:
            f = self.ch(self.defs)
            if not f.endswith('$'): return '%s(%s)' % (self.case(f), self.nexp(d - 1))
        if r < .96:
            f = self.ch(['ABS', 'INT', 'SGN', 'SQR', 'INT', 'SIN', 'COS', 'TAN', 'ATN', 'EXP', 'LOG', 'ABS', 'INT'])
            return '%s(%s)' % (self.case(f), self.nexp(d - 1))
        if r < .99:
            f = self.ch(['LEN', 'ASC', 'VAL', 'LEN'])
            return '%s(%s)' % (self.case(f), self.sexp(d - 1))
        return self.ch(['RND', 'RND(1)', 'RND()', 'rnd(x)', 'RND("a")'])
    def slit(self): return '"%s"' % self.ch(STRS)
    def sexp(self, d=2):
        r = self.r.random()
        if d <= 0 or r < .4:
            k = self.r.random()
            if k < .5: return self.slit()
            if k < .9 or not self.w['arrays']: return self.svar()
            return self.selem(0)
        if r < .55: return '%s%s+%s%s' % (self.sexp(d - 1), self.sp(), self.sp(), self.sexp(d - 1))
        if r < .65: return '%s(%s,%s)' % (self.case('LEFT$'), self.sexp(d - 1), self.cnt())
        if r < .75: return '%s(%s,%s)' % (self.case('RIGHT$'), self.sexp(d - 1), self.cnt())
        if r < .87: return '%s(%s,%s,%s)' % (self.case('MID$'), self.sexp(d - 1), self.cnt(), self.cnt())
        if r < .92: return '%s(%s)' % (self.case('STR$'), self.nexp(d - 1))
        if r < .96: return '%s(%s)' % (self.case('CHR$'), self.ch(['65', '97', '0', '1', '48', '255', '128', '127', '256', '-1', '65.5', self.nexp(0), '9', '10', '32']))
        if self.defs:
            f = self.ch(self.defs)
            if f.endswith('$'): return '%s(%s)' % (f, self.nexp(d - 1))
        return '(%s)' % self.sexp(d - 1)
    def cnt(self): return self.ch(['0', '1', '2', '3', '4', '5', '6', '1', '2', '-1', '1.5', '255', '256', '4294967295', '4294967296', '10', 'LEN(A$)', self.nexp(0)])
    def nlval(self): return self.nelem(1) if self.w['arrays'] and self.p(.3) else self.nvar()
    def slval(self): return self.selem(1) if self.w['arrays'] and self.p(.3) else self.svar()
    # ------------------------------------------------------------ statements
    def target(self):
        if not self.lines or self.p(.04): return self.ch(['1', '9', '65535', '999', '10', '100', '0', '65536', '1.5'])
        return str(self.ch(self.lines))
    def fwd(self):
        ls = [l for l in (self.lines or []) if l > self.cur]
        if ls and self.p(.9): return str(self.ch(ls[:6]))
        return self.target()
    def stmt(self, depth=0):
        ks = list(self.w['st'].items())
        k = self.r.choices([x for x, _ in ks], [y for _, y in ks])[0]
        return getattr(self, 's_' + k)(depth)
    def s_let(self, d):
        l = self.case('LET ') if self.p(.15) else ''
        if self.p(.65): return '%s%s%s=%s%s' % (l, self.nlval(), self.sp(), self.sp(), self.nexp(self.w['depth']))
        return '%s%s%s=%s%s' % (l, self.slval(), self.sp(), self.sp(), self.sexp(2))
    def item(self):
        k = self.r.random()
        if k < .5: return self.nexp(self.w['depth'])
        if k < .85: return self.sexp(2)
        return '%s(%s)' % (self.case(self.ch(['TAB', 'SPC'])), self.ch(['0', '1', '2', '5', '8', '9', '10', '16', '17', '20', '3', '-1', '1.5', self.nexp(0)]) if self.p(.9) else '300')
    def s_print(self, d):
        n = self.ch([0, 1, 1, 1, 2, 2, 3, 4])
        s = self.case('PRINT') if self.p(.85) else '?'
        out = s + ' '
        for i in range(n):
            out += self.item()
            out += self.ch([';', ';', ',', ' ', ', ', ';;', ',,']) if (i + 1 < n or self.p(.2)) else ''
        return out.rstrip() if self.p(.9) else out
    def s_show(self, d): return 'PRINT ' + ';'.join([self.nvar(), self.nvar(), self.svar()])
    def s_goto(self, d): return self.case('GOTO') + ' ' + self.fwd()
    def s_gosub(self, d): return self.case('GOSUB') + ' ' + (self.ch(self.subsl) if getattr(self, 'subsl', None) and self.p(.9) else self.fwd())
    def s_return(self, d): return self.case('RETURN')
    def s_on(self, d):
        n = self.ch([1, 2, 3, 4])
        k = self.ch(['GOTO', 'GOSUB'])
        t = [self.fwd() if k == 'GOTO' else (self.ch(self.subsl) if getattr(self, 'subsl', None) and self.p(.9) else self.fwd()) for _ in range(n)]
        return '%s %s %s %s' % (self.case('ON'), self.ch(['0', '1', '2', '3', '4', '5', '-1', '1.5', self.nvar(), self.nexp(1), 'I', 'J']), self.case(k), ','.join(t))
    def s_for(self, d):
        v = self.ch(NV[3:9])
        a, b = self.ch(['0', '1', '2', '3', '-2', '1', '5']), self.ch(['3', '4', '5', '2', '1', '0', '-1', '2.5'])
        st = self.ch(['', '', '', ' STEP 1', ' STEP 2', ' STEP -1', ' STEP .5', ' step -.5'])
        if self.p(.4): a = self.nexp(1)
        if self.p(.4): b = self.nexp(1)
        self.loops.append(v)
        return '%s %s=%s %s %s%s' % (self.case('FOR'), self.case(v), a, self.case('TO'), b, st)
    def s_next(self, d):
        k = self.r.random()
        if self.loops and k < .55: return self.case('NEXT') + ' ' + self.case(self.loops.pop())
        if k < .8:
            if self.loops: self.loops.pop()
            return self.case('NEXT')
        if len(self.loops) >= 2: return 'NEXT %s,%s' % (self.loops.pop(), self.loops.pop())
        return 'NEXT ' + self.ch(NV[3:9])
    def s_forloop(self, d):
        v = self.ch(NV[3:9])
        body = ':'.join(self.stmt(d + 1) for _ in range(self.ch([1, 1, 2]))) if d < 2 else 'PRINT ' + v
        return 'FOR %s=%s TO %s%s:%s:NEXT%s' % (v, self.ch(['1', '0', '3', '2']), self.ch(['2', '3', '4', '1', '0']), self.ch(['', '', ' STEP 2', ' STEP -1']), body, self.ch(['', ' ' + v]))
    def s_if(self, d):
        c = self.nexp(2)
        k = self.r.random()
        th = self.case('THEN')
        if k < .3:
            s = 'IF %s %s %s' % (c, th, self.fwd())
            if self.p(.5): s += ' ' + self.case('ELSE') + ' ' + self.fwd()
            return s
        s = 'IF %s %s %s' % (c, th, ':'.join(self.stmt(d + 1) for _ in range(self.ch([1, 1, 2]))) if d < 3 else 'PRINT 1')
        if self.p(.5): s += ' ' + self.case('ELSE') + ' ' + (':'.join(self.stmt(d + 1) for _ in range(self.ch([1, 1, 2]))) if d < 3 else 'PRINT 2')
        return s
    def s_dim(self, d):
        out = []
        for _ in range(self.ch([1, 1, 2])):
            a = self.ch(NA) if self.p(.6) else self.ch(SA)
            n = self.ch([1, 1, 2, 2]) if self.p(.95) else 3
            self.dimmed[a.upper()] = n
            out.append('%s(%s)' % (self.case(a), ','.join(self.ch(['0', '1', '2', '3', '4', '5', '10', '12', '20', '100', '255', '256', '-1', '1.5', '65535', '65536', self.nexp(0)] if self.p(.4) else ['2', '3', '4', '5', '12']) for _ in range(n))))
        return self.case('DIM') + ' ' + ','.join(out)
    def s_def(self, d):
        f = self.ch(['FNA', 'FNB', 'dbl', 'FNS$', 'P$'])
        if f not in self.defs: self.defs.append(f)
        par = self.ch(['X', 'X', 'A', 'N1', 'I'])
        ds, self.defs = self.defs, (self.defs if self.p(.1) else [])
        e = self.sexp(2) if f.endswith('$') else self.ch([par + '*2', par + '+A', self.nexp(2), par + '^2', 'M(%s)' % par])
        if f.endswith('$') and self.p(.4): e = 'STR$(%s)+A$' % par
        self.defs = ds
        return '%s %s(%s)=%s' % (self.case('DEF'), f, par, e)
    def s_data(self, d): return self.case('DATA') + ' ' + ','.join(self.ch(DATAS) for _ in range(self.ch([1, 1, 2, 3])))
    def s_read(self, d): return self.case('READ') + ' ' + ','.join(self.nlval() if self.p(.45) else self.slval() for _ in range(self.ch([1, 1, 1, 2, 3])))
    def s_restore(self, d): return self.case('RESTORE') + ('' if self.p(.5) else ' ' + self.target())
    def s_input(self, d):
        pr = self.ch(['', '', '"Name";', '"N",', '"x" ', '"";'])
        return '%s %s%s' % (self.case('INPUT'), pr, ','.join(self.nlval() if self.p(.5) else self.slval() for _ in range(self.ch([1, 1, 2, 3]))))
    def s_linput(self, d): return '%s %s%s' % (self.case('LINE INPUT'), self.ch(['', '"Q";', '"L",']), self.slval())
    def s_clear(self, d): return self.case('CLEAR')
    def s_stop(self, d): return self.case('STOP')
    def s_end(self, d): return self.case('END')
    def s_rem(self, d): return self.case('REM') + self.ch(['', ' hi', ' GOTO 10', ' "x:y', 'ark'])
    def s_rand(self, d): return 'RANDOMIZE %s:PRINT RND;INT(RND*100)' % self.ch(['1', '7', '100', '0', '4294967295', '1.5', '-1'])
    def s_bad(self, d): return self.ch(['PRINT )', 'X=', '=5', 'GOTO', 'GOTO X', 'FOR A$=1 TO 2', 'IF 1 PRINT 2', 'A$=1', 'A="x"', 'NEXT 5', 'DIM A', 'PRINT "abc', 'LET 5=X', 'INPUT', 'READ 5', 'PRINT 1+"a"',
                                         'PRINT "a"-"b"', 'PRINT -"a"', 'DEF F(A$)=1', 'DEF SIN(X)=1', 'SIN(1)=2', 'LEN=3', 'ON 1 PRINT', 'X=LEFT$("a",1)', 'A$=LEFT$(1,1)', 'PRINT MID$("abc",1)', 'ELSE', 'PRINT 1 ELSE PRINT 2',
                                         'PRINT (1', 'PRINT 1=2=3', 'RETURN 5', 'DIM X(1', 'PRINT HEX$(1)', 'THEN', 'TO', 'PRINT 1E', 'PRINT NOT "a"', 'X=1 Y=2', 'PRINT TAB 5', 'PRINT SPC(', 'LINE INPUT X', 'LINE X', 'RANDOMIZE "a"', 'RESTORE X'])
    def s_err(self, d): return self.ch(['PRINT LOG(0)', 'X=ASC(1)', 'RETURN', 'NEXT Q', 'PRINT MID$("abc",4,1)', 'PRINT CHR$(256)', 'PRINT VAL("x")', 'PRINT 1.5 AND 1', 'GOTO 3', 'PRINT NOT 3000000000', 'PRINT LEFT$("a",-1)',
                                         'DIM A(70000)', 'PRINT A(-1)', 'PRINT 1+(2+(3+LOG(-1)))', 'PRINT "a"+("b"+MID$("c",2,1))', 'ON 1.5 GOTO 10', 'READ X', 'PRINT FNQ(1)', 'PRINT Z(1,2,3)'])
    def s_unary(self, d): return 'PRINT ' + self.nexp(4)
    def s_deep(self, d):
        n = self.ch([3, 7, 8, 9, 14, 15, 16, 17])
        if self.p(.5): return 'PRINT ' + '1+(' * n + '2' + ')' * n
        return 'PRINT ' + '"a"+(' * n + '"b"' + ')' * n
    def s_long(self, d):
        v = self.ch(['A$', 'B$'])
        return '%s="%s":FOR I=1 TO %s:%s=%s+%s:NEXT:PRINT LEN(%s)' % (v, 'abcdefgh'[:self.ch([1, 3, 5, 7, 8])], self.ch(['3', '4', '5', '6', '7']), v, v, v, v)
    # ------------------------------------------------------------ programs
    def text(self):
        n = self.ch([1, 1, 1, 2, 2, 3])
        return ':'.join(self.stmt() for _ in range(n))
    def numbering(self, n):
        k = self.r.random()
        if k < .5: return [10 * (i + 1) for i in range(n)]
        if k < .6: return [i + 1 for i in range(n)]
        if k < .7: return [65535 - n + 1 + i for i in range(n)]
        if k < .8: return [397 * (i + 1) + 3 for i in range(n)]
        return sorted(self.r.sample(range(1, 65536 if self.p(.5) else 3 * n + 5), n))
    def program(self, n=None):
        n = n or self.ch([1, 2, 3, 4, 5, 6, 8, 10, 12])
        nsub = self.ch([0, 1, 1, 2, 3]) if self.w['subs'] else 0
        nums = self.numbering(n + 1 + 2 * nsub)
        self.lines = nums
        self.subsl = [str(nums[n + 1 + 2 * k]) for k in range(nsub)]
        out = []
        for i in range(n):
            self.cur = nums[i]
            t = self.text()
            for _ in range(3):
                if len(t) <= 190: break
                t = self.stmt(2)
            out.append((nums[i], t[:230]))
        self.cur = nums[n]
        out.append((nums[n], 'PRINT "end";' + ';'.join(self.ch(NV) for _ in range(3)) + (':END' if nsub or self.p(.3) else '')))
        for k in range(nsub):
            self.cur = nums[n + 1 + 2 * k]
            out.append((nums[n + 1 + 2 * k], 'PRINT "s%d":' % k + self.stmt(2)[:180]))
            out.append((nums[n + 2 + 2 * k], self.ch(['RETURN', 'RETURN', 'PRINT "r":RETURN', 'IF A>3 THEN RETURN ELSE A=A+1:GOSUB %s:RETURN' % self.subsl[k]])))
        return out
    def stdin(self):
        return ''.join(self.ch(['1', '2,3', 'abc', '"q"', '', ' 5 ', '1,2,3', 'x,y', '-1.5', '1e2', 'hello world', '7x', ',', ' , ', '3,', '12,abc,4', '5 6', '.', 'a,b,c,d', '\t8', '0x10' if False else '9', 'z' * 126, 'z' * 127, 'z' * 130, ' abc , def '] if self.p(.8) else ['1', '2', '3']) + '\n' for _ in range(self.ch([0, 1, 3, 6, 12]))) + (self.ch(['', '', '5', 'tail']))
    # ------------------------------------------------------------ sessions
    def session(self):
        out = []
        n = self.ch([3, 5, 8, 12, 20])
        self.lines = []
        self.cur = 0
        saved = []
        if self.p(.7):
            prog = self.program(self.ch([1, 2, 3, 4]))
            prog = [(a, t[:100]) for a, t in prog]
            self.r.shuffle(prog) if self.p(.5) else None
            for a, t in prog: out.append('%d %s' % (a, t))
            self.lines = [a for a, _ in prog]
        for _ in range(n):
            k = self.r.choices(list(self.w['cmd']), list(self.w['cmd'].values()))[0]
            if k == 'edit':
                a = self.ch(self.lines) if self.lines and self.p(.5) else self.r.randint(1, 200)
                self.cur = a
                t = self.text()[:100]
                if a not in self.lines: self.lines.append(a)
                out.append('%s%d%s%s' % (self.ch(['', '', ' ']), a, self.ch([' ', ' ', ' ', '', '  ']) if not t[:1].isdigit() else ' ', t))
            elif k == 'badnum': out.append(self.ch(['0 PRINT', '99999999999 X=1', '4294967295 A=1', '4294967296 A=2', '4294967294 PRINT 1', '65536 PRINT 2', '0', '007 PRINT 3']))
            elif k == 'del':
                a = self.ch(self.lines) if self.lines and self.p(.8) else self.r.randint(1, 200)
                out.append(str(a))
            elif k == 'list':
                a, b = (str(self.ch(self.lines or [1]) + self.ch([0, 0, 1, -1])) for _ in 'ab')
                a, b = a.lstrip('-'), b.lstrip('-')
                out.append(self.case('LIST') + self.ch(['', '', ' ' + a, ' %s-' % a, ' -%s' % b, ' %s-%s' % (a, b), ' %s - %s' % (a, b), ' 1-5', ' x', ' %s %s' % (a, b), ' 0-0', ' -', ' 5-x']))
            elif k == 'run': out.append(self.case('RUN')); out += [self.ch(['1', '2', 'abc', '3,4']) for _ in range(self.ch([0, 0, 0, 1, 2]))]
            elif k == 'cont': out.append(self.case('CONT'))
            elif k == 'renum': out.append(self.case(self.ch(['RENUM', 'RENUMBER'])) + self.ch(['', '', ' 100', ' 1000,20', ' 5,1,1', ' 100,30,5', ' 10,10,0', ' ,20', ' 65530', ' 50,,7', ' 1,1,1', ' 20,100,3', ' x', ' 4294967290,1,3', ' 65000,1,100']))
            elif k == 'save':
                f = self.ch(['p.bas', 'q.bas']); saved.append(f); out.append('%s "%s"' % (self.case('SAVE'), f))
            elif k == 'load':
                if saved: out.append('%s "%s"' % (self.case('LOAD'), self.ch(saved)))
            elif k == 'new': out.append(self.case('NEW')); self.lines = []
            elif k == 'compile': out.append(self.case('COMPILE'))
            elif k == 'imm': self.cur = 0; out.append(self.stmt()[:115])
            elif k == 'jump': out.append(self.ch(['GOTO ', 'GOSUB ', 'RESTORE ']) + str(self.ch(self.lines) if self.lines else 10))
            elif k == 'show': out.append('PRINT A;B;C;I;A$')
            elif k == 'empty': out.append(self.ch(['', '  ', '\t']))
            elif k == 'longline': out.append('PRINT "' + 'x' * self.ch([110, 117, 118, 119, 120, 121, 125, 140, 300]) + '"')
        return [x for x in out if not x.lstrip(' \t').startswith('*')]

W0 = dict(nvars=15, arrays=True, subs=True, depth=2,
    st=dict(let=10, print=8, show=3, goto=2, gosub=2, on=1, forloop=3, **{'if': 4}, dim=1, read=1, data=1, restore=.5, rem=.5, end=.2, err=.2, bad=.1),
    cmd=dict(edit=6, list=2, run=3, **{'del': 2}, imm=3, show=1, cont=.6, renum=.6, save=.4, load=.4, new=.3, compile=.3, jump=.6, empty=.2, badnum=.2, longline=.1))
def st(**k): return dict(st=k)
def cmd(**k): return dict(cmd=k)
