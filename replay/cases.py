"""make(property, seed) -> case: property-directed inputs"""
from .gen import *

def file_case(g, prog, stdin='', **k):
    return dict(mode='file', text=''.join('%d %s\n' % x for x in prog), stdin=stdin, **k)
def sess_case(g, lines, **k):
    return dict(mode='session', stdin=''.join(x + '\n' for x in lines), **k)
def numbered(g, ts, nums=None):
    nums = nums or g.numbering(len(ts))
    return list(zip(nums, ts))

def mixed(prop, seed):
    g = G(seed)
    if g.p(.5): return file_case(g, g.program(), g.stdin())
    return sess_case(g, g.session())

# ------------------------------------------------------------------ program store
def c_P01(prop, seed):
    g = G(seed, cmd(edit=10, **{'del': 5}, list=2, run=1, new=.3, badnum=.6, empty=.3, show=.2, imm=.3))
    if g.p(.4): return sess_case(g, g.session() + ['LIST'])
    out = []
    n = g.ch([5, 20, 60, 140, 260] if g.p(.3) else [5, 10, 20])
    hi = g.ch([10, 50, 300, 70000])
    for _ in range(n):
        k = g.r.random()
        a = g.r.randint(1, hi)
        if k < .7: out.append('%s%d%s%s' % (g.ch(['', '', '  ', '\t']), a, g.ch([' ', ' ', '  ', '\t', '']), g.ch(['PRINT %d' % g.r.randint(0, 9), 'REM x', 'A=%d' % a, ':', 'X$="a b"', '?', "' q", 'print ;  '])))
        elif k < .9: out.append(g.ch(['', ' ']) + str(a) + ('' if g.p(.95) else ' '))
        elif k < .95: out.append('LIST')
        elif k < .97: out.append(g.ch(['RUN', 'A=1', 'PRINT A', 'COMPILE']))
        elif k < .975: out.append('NEW')
    out.append('LIST')
    return sess_case(g, out, opts=['-m'] if g.p(.1) else [])

def weird_text(g):
    return g.ch(['PRINT 1', '  PRINT 2', 'REM trailing  ', 'PRINT "a b"  ', '\tX=1', 'REM "unclosed', ':::', 'DATA  a , b ', 'GOTO 10', 'X$="' + 'y' * g.ch([60, 90, 100]) + '"', 'nonsense )(', '%', 'REM 100%', 'PRINT "%s %d"', '  ', '5', '5X', ' 5'])
def c_P02(prop, seed):
    g = G(seed)
    if g.p(.25):     # direct load of a file
        k = g.r.random()
        ls = ['%d %s' % (a, weird_text(g)) for a in sorted(g.r.sample(range(1, 400), g.ch([0, 1, 3, 8])))]
        if k < .25 and ls: ls.insert(g.r.randint(0, len(ls)), g.ch(['', 'PRINT 1', '0 X=1', '5 X', '10 DUP', '10 DUP', '300 Y', ' 20 PRINT 1', '10', '10 ', '4294967306 PRINT 1', '4294967696 X', '18446744073709552016 X', '42949672961 Y']))
        if k > .8 and ls: ls[g.r.randrange(len(ls))] = '%d REM %s' % (g.ch([1000, 1]), 'z' * g.ch([240, 245, 246, 247, 248, 249, 250, 255, 256, 300]))
        t = ''.join(x + '\n' for x in ls)
        if g.p(.1): t = t.rstrip('\n')
        if g.p(.5): return dict(mode='file', text=t, stdin='', opts=['-l'])
        return dict(mode='session', stdin='LOAD "f.bas"\nLIST\nSAVE "g.bas"\n', files={'f.bas': t})
    out = []
    for _ in range(g.ch([1, 2, 3])):
        for _ in range(g.ch([0, 1, 4, 10])):
            out.append('%d %s' % (g.r.randint(1, 70000 if g.p(.1) else 60), weird_text(g)))
        f = g.ch(['p.bas', 'q.bas', 'r s.bas'])
        out.append(g.ch(['SAVE "%s"', 'save  "%s" ', 'SAVE"%s"', 'SAVE "%s']) % f)
        if g.p(.3): out.append('%d' % g.r.randint(1, 60))
        if g.p(.3): out.append(g.ch(['NEW', '5 REM extra', 'RENUM', 'RUN']))
        out.append(g.ch(['LOAD "%s"', 'load "%s"', 'LOAD"%s" ']) % f)
        out.append('LIST')
        if g.p(.3): out += ['SAVE "z.bas"']
        if g.p(.1): out += [g.ch(['SAVE', 'LOAD', 'SAVE p.bas', 'LOAD "p.bas" x', 'SAVE "p.bas" y', 'LOAD p'])]
    return sess_case(g, out)

def c_P03(prop, seed):
    g = G(seed)
    n = g.ch([1, 3, 5, 8, 12])
    nums = sorted(g.r.sample(range(1, g.ch([30, 200, 2000, 65000])), n))
    nums = [a * g.ch([1, 1, 1, 10]) for a in nums] if g.p(.2) else nums
    nums = sorted(set(a for a in nums if a < 65536)) or [10]
    def t(): return str(g.ch(nums)) if g.p(.9) else g.ch(['999', '7', '0', '65535', '1.5', '70000'])
    def ref():
        k = g.r.randrange(16)
        return ['GOTO ' + t(), 'GOSUB ' + t(), 'IF X=%s THEN %s' % (t(), t()), 'IF X THEN %s ELSE %s' % (t(), t()), 'ON X GOTO %s,%s,%s' % (t(), t(), t()), 'ON X GOSUB %s , %s' % (t(), t()),
                'RESTORE ' + t(), 'RESTORE', 'IF X THEN GOTO %s ELSE GOSUB %s' % (t(), t()), 'REM GOTO ' + t(), 'DATA GOTO %s,%s' % (t(), t()), 'PRINT "GOTO %s"' % t(), 'X=%s' % t(), 'goto  %s:PRINT %s' % (t(), t()),
                'IF X THEN PRINT %s ELSE %s' % (t(), t()), 'PRINT %s;%s:GOTO %s:REM %s' % (t(), t(), t(), t())][k]
    out = ['%d %s' % (a, ':'.join(ref() for _ in range(g.ch([1, 1, 2])))) for a in nums]
    g.r.shuffle(out)
    for _ in range(g.ch([1, 1, 2, 3])):
        out.append(g.case(g.ch(['RENUM', 'RENUMBER'])) + g.ch(['', '', '', ' 100', ' 1000,%s' % t(), ' 5,1,1', ' 100,%s,5' % t(), ' 10,10,0', ' ,%s' % t(), ' 65530', ' 50,,7', ' 1,1,1', ' %s,%s,3' % (t(), t()), ' x', ' 4294967290,1,3', ' 65000,1,100', ' 1,,', '5,5,5', ' %s' % t(), ' 0', ' 0,1,1', ' 10,,0']))
        out.append('LIST')
    if g.p(.3): out += ['RUN'] if False else ['COMPILE']
    return sess_case(g, out, crunch=g.p(.15))

def c_P04(prop, seed):
    g = G(seed)
    n = g.ch([0, 1, 3, 10, 22, 23, 24, 25, 46, 47, 48, 49, 70])
    nums = sorted(g.r.sample(range(1, 3 * n + 10), n))
    out = ['%d %s' % (a, g.ch(['PRINT %d' % a, 'REM', 'X$="%d"', ' A=1'])) for a in nums]
    if g.p(.3): g.r.shuffle(out)
    nm = nums or [5]
    for _ in range(g.ch([1, 2, 4])):
        a, b = (str(max(0, g.ch(nm) + g.ch([0, 0, 1, -1]))) for _ in 'ab')
        s = g.case('LIST') + g.ch(['', '', ' ' + a, ' %s-' % a, ' -%s' % b, ' %s-%s' % (a, b), ' %s - %s' % (a, b), '%s-%s' % (a, b), ' 0-0', ' -', ' 99999999999-', ' %s-4294967295' % a, ' -99999999999'])
        if g.p(.3): s += g.ch(['p', 'P', ' p'])
        if g.p(.05): s += g.ch([' x', ',5', ' 3', '-', '$'])
        out.append(s)
        if s.lower().endswith('p') and not s.lower().endswith('listp'): out += [g.ch(['', 'x'])] * g.ch([0, 1, 2, 3])
    out.append('PRINT "done"')
    return sess_case(g, out)

# ------------------------------------------------------------------ control flow
def c_P05(prop, seed):
    g = G(seed, dict(arrays=False, **st(let=3, show=3, goto=5, gosub=1, on=3, **{'if': 5}, print=2, restore=.6, read=.6, data=.6, end=.2)))
    if g.p(.5):
        n = g.ch([5, 20, 60, 150])
        nums = g.numbering(n) if g.p(.5) else [397 * i + g.ch([5, 6]) for i in range(1, min(n, 160) + 1)]
        n = len(nums)
        order = list(range(n)); g.r.shuffle(order)
        nxt = {order[i]: order[i + 1] for i in range(n - 1)}
        prog = []
        for i in range(n):
            a = str(nums[nxt[i]]) if i in nxt else g.ch(['9', str(nums[-1] + 1), '65535'])
            j = g.ch(['GOTO %s', 'GOTO %s', 'IF 1 THEN %s', 'IF 0 THEN 1 ELSE %s', 'ON 2 GOTO 1,%s,2', 'GOTO %s:PRINT "no"', 'IF 1 THEN GOTO %s', 'goto %s', 'IF 0 THEN PRINT "n" ELSE GOTO %s', 'IF .5 THEN %s ELSE 1']) % a
            prog.append((nums[i], 'PRINT %d;:' % i + (j if i in nxt or g.p(.5) else 'END')))
        s = str(nums[order[0]])
        prog[0] = (nums[0], 'IF A=0 THEN A=1:GOTO %s ELSE ' % s + prog[0][1])
        return file_case(g, prog)
    if g.p(.3):
        k = g.session(); return sess_case(g, k)
    return file_case(g, g.program(), g.stdin())

def c_P06(prop, seed):
    g = G(seed, dict(arrays=False, **st(let=3, show=2, goto=1, gosub=6, on=5, **{'return': 1, 'if': 3}, print=2, forloop=1, end=.2)))
    k = g.r.random()
    if k < .25:
        d = g.ch([1, 3, 6, 7, 8, 9, 12])
        nums = g.numbering(3)
        return file_case(g, [(nums[0], 'D=%d:%s %d:PRINT "back";D:%s' % (d, g.ch(['GOSUB', 'ON 1 GOSUB', 'on 2 gosub 7,']), nums[2], g.ch(['END', 'D=%d:GOSUB %d:PRINT "again":END' % (g.ch([2, 7, 8]), nums[2])]))), (nums[1], 'END'), (nums[2], 'PRINT D;:D=D-1:IF D>0 THEN GOSUB %d:PRINT "r";:RETURN ELSE PRINT "x":RETURN' % nums[2])])
    if k < .45:
        prog = [(10, 'FOR I=-1 TO 5 STEP %s' % g.ch(['1', '1', '.5'])), (20, 'ON I %s %s' % (g.ch(['GOSUB', 'GOTO']), g.ch(['100,200,300', '100', '200,100,100,300', '300,200']))), (30, 'PRINT "n";I:NEXT:END'), (100, 'PRINT "a":%s' % g.ch(['RETURN', 'GOTO 30'])), (200, 'PRINT "b":%s' % g.ch(['RETURN', 'GOTO 30'])), (300, 'PRINT "c":RETURN')]
        return file_case(g, prog)
    if k < .7:
        ls = g.session(); ls += [g.ch(['GOSUB %s', 'ON 1 GOSUB %s:PRINT "i"', 'GOTO %s', 'RETURN', 'ON 2 GOSUB 10,%s']).replace('%s', str(g.ch(g.lines or [10]))) for _ in range(g.ch([1, 2, 4]))]
        return sess_case(g, ls)
    return file_case(g, g.program())

def c_P07(prop, seed):
    g = G(seed, dict(arrays=False, subs=g_bool(seed), nvars=9, **st(let=3, show=3, goto=.6, gosub=.5, forloop=5, **{'for': 6, 'next': 6, 'if': 1}, print=2)))
    k = g.r.random()
    if k < .3:
        vs = ['A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J']
        d = g.ch([1, 2, 3, 7, 8, 9])
        use = vs[:d]
        if g.p(.3): use[g.r.randrange(d)] = g.ch(vs[:d])
        prog = ['FOR %s=%s TO %s%s' % (v, g.ch(['1', '1', '0']), g.ch(['1', '2', '1']), g.ch(['', '', ' STEP 1', ' STEP -1'])) for v in use]
        prog.append('PRINT ' + ';'.join(use))
        if g.p(.3): prog.append('IF A=2 THEN FOR A=1 TO 2')
        prog.append(g.ch(['NEXT ' + ','.join(reversed(use)), ':'.join(['NEXT'] * d), ':'.join('NEXT ' + v for v in reversed(use)), 'NEXT ' + g.ch(use), 'NEXT ' + ','.join(use), ':'.join(['NEXT'] * (d + 1))]))
        prog.append('PRINT "z";' + ';'.join(use))
        return file_case(g, numbered(g, prog), steps=2000)
    if k < .5:
        a, b, s = g.ch(['1', '0', '10', '-3', '.1', '5']), g.ch(['5', '1', '0', '-5', '1', '10.5']), g.ch(['1', '2', '-1', '.1', '-.3', '3', '7', '0', '1E10'])
        body = g.ch(['PRINT I;', 'PRINT I;:I=I+1', 'S=9:PRINT I;', 'IF I>3 THEN I=I*2', 'PRINT I;:A=A+1:IF A>7 THEN END'])
        return file_case(g, numbered(g, ['A=0:FOR I=%s TO %s STEP %s' % (a, b, s), body, 'NEXT' + g.ch(['', ' I']), 'PRINT "end";I']), steps=3000)
    if k < .7:
        return sess_case(g, g.session() + [g.ch(['NEXT', 'FOR I=1 TO 3:PRINT I;:NEXT', 'FOR I=1 TO 3', 'NEXT I', 'PRINT I;J', 'RUN', 'FOR J=1 TO 2:FOR I=1 TO 2:PRINT I;J:NEXT I,J', 'CONT']) for _ in range(g.ch([1, 3, 5]))])
    return file_case(g, g.program(), steps=3000)
def g_bool(seed): return seed % 2 == 0

def c_P15(prop, seed):
    g = G(seed, dict(arrays=False, **st(let=2, show=2, goto=1, gosub=.5, **{'if': 9}, print=3, forloop=.5)))
    if g.p(.5):
        def clause(): return ':'.join(g.ch(['PRINT "%s"' % c for c in 'abcdef'] + ['X=X+1', 'PRINT X;']) for _ in range(g.ch([1, 1, 2, 3])))
        def cond(): return g.ch(['0', '1', '-1', '.5', 'X=1', 'X<>1', 'X', 'A$="a"', 'NOT X', 'X>0 AND X<3', '""=A$', '(X)', '1E-300', '-0'])
        def iff(d):
            s = 'IF %s THEN ' % cond()
            s += iff(d - 1) if d and g.p(.5) else clause()
            if g.p(.6): s += ' ELSE ' + (iff(d - 1) if d and g.p(.4) else clause())
            return s
        prog = ['X=%d' % g.ch([0, 1, 2])]
        for _ in range(g.ch([1, 2, 4])): prog.append(g.ch(['', '', 'PRINT "p":']) + iff(2)[:180] + g.ch(['', '', ':PRINT "t"']))
        prog.append('PRINT "end"')
        if g.p(.2): prog.insert(g.r.randrange(len(prog) + 1), g.ch(['PRINT "s" ELSE PRINT "t"', 'X=1 ELSE X=2', 'PRINT "s":X=1 ELSE PRINT "t"', 'IF 0 THEN PRINT "s" ELSE PRINT "t" ELSE PRINT "u"', 'PRINT X ELSE 10']))
        if g.p(.2): return sess_case(g, [x for x in prog if len(x) < 120])
        return file_case(g, numbered(g, prog))
    if g.p(.3): return sess_case(g, g.session())
    return file_case(g, g.program())

# ------------------------------------------------------------------ data
def c_P08(prop, seed):
    g = G(seed, dict(subs=False, **st(let=10, print=6, dim=4, forloop=2, show=1, clear=.2, read=.5, data=.5, **{'if': 1})))
    k = g.r.random()
    if k < .45:
        two = g.p(.5)
        nm = g.ch(['A', 'A$', 'q', 'Long$'])
        m, n = g.ch([0, 1, 2, 3, 5, 9]), g.ch([0, 1, 2, 4, 6])
        ix = '(I,J)' if two else '(I)'
        val = 'I*10+J' if nm[-1] != '$' else 'STR$(I)+","+STR$(J)'
        fill = 'FOR I=0 TO %d:FOR J=0 TO %d:%s%s=%s:NEXT:NEXT' % (m, n if two else 0, nm, ix, val)
        show = 'FOR I=0 TO %d:FOR J=0 TO %d:PRINT %s%s;:NEXT:NEXT:PRINT' % (m, n if two else 0, nm.lower(), ix)
        prog = ['DIM %s(%s)' % (nm, '%d,%d' % (m, n) if two else m) if g.p(.7) else 'REM', fill, show]
        if g.p(.3): prog.append('DIM %s(%s)' % (nm, g.ch(['%d,%d' % (m, n) if two else str(m), '5', '5,5'])))
        if g.p(.3): prog.append(g.ch(['CLEAR', '%s=%s' % (nm, '1' if nm[-1] != '$' else '"v"')]))
        if g.p(.5): prog.append(show)
        prog.append('PRINT %s(%s)' % (nm, g.ch(['%d,%d' % (m, n), '%d' % m, '%d' % (m + 1), '%d,%d' % (m + 1, n), '%d,%d' % (m, n + 1), '10', '11', '0,11', '11,0', '-1', '.5', '0'])))
        return file_case(g, numbered(g, prog), steps=6000, opts=['-m'])
    if k < .6:
        lim = [('65535', '0'), ('65536', '0'), ('255,255', '255,255'), ('256,255', '0,0'), ('255,256', '1,1'), ('32767,1', '32767,1'), ('32768,1', '0,0'), ('65535,0', '65535,0'), ('4294967295', '0'), ('4294967295,4294967295', '0,0'), ('65535,65535', '1,1'), ('0', '0'), ('0,0', '0,0'), ('1,2,3', '1,1,1'), ('65536,65536', '0,0'), ('4294967294', '3'), ('0,65535', '0,65535')]
        d, e = g.ch(lim)
        nm = g.ch(['A', 'A$'])
        v = '7' if nm == 'A' else '"s"'
        return file_case(g, numbered(g, ['DIM %s(%s)' % (nm, d) if g.p(.6) else '%s(%s)=%s' % (nm, d, v), '%s(%s)=%s' % (nm, e, v), 'PRINT %s(%s)' % (nm, e), 'PRINT "k"']), opts=['-m'])
    if k < .75: return sess_case(g, g.session())
    return file_case(g, g.program(), opts=['-m'] if g.p(.3) else [])

def c_P12(prop, seed):
    g = G(seed, dict(subs=False, **st(let=1, show=4, read=8, data=6, restore=3, goto=.6, print=2, **{'if': 1}, forloop=1)))
    k = g.r.random()
    if k < .5:
        prog = []
        for _ in range(g.ch([2, 4, 7])):
            prog.append(g.ch(['DATA ', 'data ', 'X=1:DATA ', 'DATA']) + g.ch([',', ', ', ' ,']).join(g.ch(DATAS) for _ in range(g.ch([1, 2, 3]))) + g.ch(['', '', ':PRINT "after"', ' : REM x']))
            if g.p(.8): prog.append(g.ch(['READ A$:PRINT "[";A$;"]"', 'READ A:PRINT A', 'READ A$,B$:PRINT A$;"|";B$', 'READ A,B:PRINT A;B', 'RESTORE', 'READ Q(1),W$(2):PRINT Q(1);W$(2)']))
        nums = g.numbering(len(prog))
        prog = [t + (':RESTORE %s' % g.ch(nums + [nums[-1] + 1]) if g.p(.2) and 'READ' in t else '') for t in prog]
        return file_case(g, numbered(g, prog, nums))
    if k < .7:
        return sess_case(g, g.session() + [g.ch(['READ A$:PRINT A$', 'DATA 5,6:READ A,B:PRINT A;B', 'RESTORE', 'READ A:PRINT A', 'RUN', 'READ A$', 'RESTORE 10', 'DATA x:READ A$:PRINT A$:READ A$', '5 DATA zz,yy', 'DATA 7,8:READ A:RESTORE:READ B:PRINT A;B', 'RESTORE:READ A$:PRINT A$', 'READ A$:RESTORE:DATA u,v:READ B$:PRINT A$;B$', 'DATA 1,2:READ A:RESTORE 10:READ B:PRINT A;B', 'DATA "q":RESTORE:READ A$:RESTORE:PRINT A$']) for _ in range(g.ch([2, 4, 6]))])
    return file_case(g, g.program())

def c_P13(prop, seed):
    g = G(seed, dict(subs=False, **st(let=1, show=4, input=8, linput=4, print=2, goto=.3, **{'if': 1}, forloop=1)))
    def inp():
        def item(): return g.ch(['1', '22', '-3.5', '1e2', ' 7 ', 'abc', 'a b', '', ' ', '.', '5x', '+4', '1 2', 'x y z', '\t3', '1e', '.5', '-', '1-', 'é'[:0]])
        return g.ch(['', ' ']).join('') + ','.join(item() for _ in range(g.ch([1, 1, 2, 2, 3, 4]))) + g.ch(['', '', '', ' ', ','])
    data = ''.join(inp() + '\n' for _ in range(g.ch([0, 2, 5, 10])))
    if g.p(.15): data += 'q' * g.ch([125, 126, 127, 128, 129, 200]) + '\n' + inp() + '\n'
    if g.p(.1): data += (inp() + '\n') * g.ch([9, 17, 20])
    if g.p(.2): data += g.ch(['5', 'abc', '1,2'])
    k = g.r.random()
    if k < .6:
        prog = []
        for _ in range(g.ch([1, 2, 3])):
            prog.append(g.ch(['INPUT A', 'INPUT A$', 'INPUT "p";A,B$', 'INPUT "p",A$,B$,C', 'INPUT A,B,C', 'LINE INPUT A$', 'LINE INPUT "q";W$(3)', 'INPUT Q(2),W$(1)', 'INPUT I,Q(I)', 'INPUT Q(1),B$', 'INPUT "only" A', 'INPUT A$,B', 'PRINT "x";:INPUT A']))
            prog.append('PRINT A;"[";A$;"][";B$;"]";B;C;Q(2);W$(1);W$(3)')
        return file_case(g, numbered(g, prog), data)
    if k < .75: return sess_case(g, [g.ch(['INPUT A,B', 'INPUT A$:PRINT A$', 'LINE INPUT A$', '10 INPUT A$,A', '20 PRINT A$;A', 'RUN', 'PRINT A;A$'])[:100] for _ in range(4)] + data.split('\n')[:-1] + ['PRINT A;B;A$'])
    return file_case(g, g.program(), data)

def c_P14(prop, seed):
    g = G(seed, dict(subs=False, depth=1, **st(let=2, print=12, **{'if': .5}, forloop=1)))
    if g.p(.5):
        def item():
            return g.ch(['"%s"' % ('x' * g.ch([0, 1, 2, 3, 5, 6, 7, 8, 9, 15, 16, 17])), '1', '-1.5', '123456', '1E10', 'TAB(%s)' % g.ch(['0', '1', '2', '5', '8', '9', '10', '16', '17', '24', '25', '40', '-1', '2.5', 'X']), 'SPC(%s)' % g.ch(['0', '1', '3', '8', '-1', '.5', 'X']), 'CHR$(10)', '"a"+CHR$(10)+"bc"', '"";', 'X', '""', 'CHR$(9)', '12345.678', '.1'])
        prog = ['X=%s' % g.ch(['0', '3', '9', '12'])]
        for _ in range(g.ch([1, 3, 6])):
            s = g.ch(['PRINT ', 'PRINT ', '?', 'print '])
            for _ in range(g.ch([0, 1, 2, 3, 5])): s += item() + g.ch([';', ';', ',', ',', ' ', ',,', ';,', ',;'])
            if g.p(.5): s = s.rstrip(';, ')
            prog.append(s[:200])
        prog.append('PRINT "|"')
        if g.p(.2): return sess_case(g, [x[:110] for x in prog])
        return file_case(g, numbered(g, prog))
    return file_case(g, g.program(), g.stdin())

# ------------------------------------------------------------------ expressions
def c_P09(prop, seed):
    g = G(seed, dict(subs=False, depth=4, arrays=g_bool(seed), **st(let=2, unary=10, show=1)))
    if g.p(.5):
        ops = ['+', '-', '*', '/', '^', '=', '<', '>', '<>', '<=', '>=', ' AND ', ' OR ']
        def atom(): return g.ch(['1', '2', '3', '4', 'A', 'B', '0', '.5', '(A)', '-1', '-A', '--2', 'NOT 0', 'NOT A', '7', '10', '(1+2)', 'ABS(-3)', '("a"<"b")'])
        prog = ['A=%s:B=%s' % (g.ch(SMALL), g.ch(SMALL))]
        for _ in range(g.ch([2, 4])):
            w = g.ch([ops, ops[:5], ops[5:], ['-', '/'], ['^', '-'], [' AND ', ' OR ', '=', '<'], ['+', '*', '^']])
            s = ''.join(g.ch(['', '', '', '-', 'NOT ', '(', '(']) + atom() + g.ch(w) for _ in range(g.ch([1, 2, 3, 4]))) + atom()
            s += ')' * max(0, s.count('(') - s.count(')')) if g.p(.95) else ''
            prog.append('PRINT ' + s[:180])
        return sess_case(g, [x for x in prog if len(x) < 120]) if g.p(.6) else file_case(g, numbered(g, prog))
    if g.p(.3): return sess_case(g, [g.stmt()[:115] for _ in range(8)])
    return file_case(g, g.program())

def c_P10(prop, seed):
    g = G(seed, dict(subs=False, **st(let=4, print=6, long=1.5, show=1)))
    if g.p(.5):
        s = g.ch(['"Hello"', '""', '"a"', 'A$', 'A$+B$', 'LEFT$(A$,3)', '"x"+A$', 'CHR$(%s)' % g.ch(['65', '0', '255', '128', '10'])])
        def c(): return g.ch(['0', '1', '2', '3', '4', '5', '6', '254', '255', '256', '-1', '1.5', '4294967295', '4294967296', 'LEN(A$)', 'LEN(A$)+1', 'LEN(A$)-1'])
        prog = ['A$="%s":B$="%s"' % (g.ch(STRS), g.ch(STRS))]
        if g.p(.3): prog.append('A$="%s":FOR I=1 TO %d:A$=A$+"%s":NEXT' % ('ab', g.ch([10, 62, 63, 64, 84]), g.ch(['abcd', 'abc', 'x'])))
        for _ in range(g.ch([2, 5])):
            prog.append('PRINT ' + g.ch(['LEFT$(%s,%s)' % (s, c()), 'RIGHT$(%s,%s)' % (s, c()), 'MID$(%s,%s,%s)' % (s, c(), c()), 'LEN(%s)' % s, 'ASC(%s)' % s, 'ASC(CHR$(%s))' % g.ch(['0', '1', '65', '127', '128', '200', '255']),
                                          'VAL("%s")' % g.ch(STRS), 'STR$(%s)' % g.ch(NUMS), '%s%s%s' % (s, g.ch(['=', '<', '>', '<>', '<=', '>=']), g.ch(['A$', 'B$', '"Hello"', '"B"', '""', 'CHR$(200)'])), 'LEN(%s+%s)' % (s, s), 'VAL(STR$(%s))' % g.ch(NUMS), 'CHR$(%s)' % g.ch(['65', '255', '256', '-1', '65.5', '0'])]))
        if g.p(.6): return sess_case(g, [x for x in prog if len(x) < 120])
        return file_case(g, numbered(g, prog))
    return file_case(g, g.program()) if g.p(.7) else sess_case(g, [g.stmt()[:115] for _ in range(8)])

def c_P21(prop, seed):
    g = G(seed, dict(subs=False, depth=2, arrays=False, **st(let=3, unary=6, rand=1, show=1)))
    if g.p(.6):
        out = []
        for _ in range(6):
            x = g.ch(NUMS) if g.p(.7) else g.nexp(1)
            out.append('PRINT ' + g.ch(['ABS(%s)', 'INT(%s)', 'SGN(%s)', 'SQR(ABS(%s))', 'SIN(%s)', 'COS(%s)', 'TAN(%s)', 'ATN(%s)', 'EXP(%s)', 'LOG(%s)', 'NOT %s', '(%s) AND 7', '(%s) OR 8', '-(%s)', '(%s)^2', '(%s)/3', 'INT(-(%s))', '(%s)-1', '1/(%s)', '2^(%s)', '(%s)<0', '(%s) AND -1', '(%s) OR 0', 'RND<1', 'INT(RND*10)', '(%s)*0']).replace('%s', x))
            if g.p(.1): out.append('RANDOMIZE %s' % g.ch(['1', '2', '0', '100', '-1', '.5', '4294967295', '4294967296']))
        return sess_case(g, [x for x in out if len(x) < 120])
    return file_case(g, g.program())

def c_P11(prop, seed):
    g = G(seed, dict(subs=g_bool(seed), **st(let=4, print=3, show=2, **{'def': 5}, gosub=1, clear=.2, forloop=1, err=.3)))
    if g.p(.4):
        f = g.ch(['FNA', 'f', 'Double', 'F$', 'A$', 'A'])
        p = g.ch(['X', 'A', 'I'])
        body = {True: ['STR$(%s)+"!"' % p, '"k"', 'A$+"x"', 'LEFT$(A$,%s)' % p, 'CHR$(%s+64)' % p, 'MID$("abc",%s,1)' % p], False: [p + '*2', p + '+A', 'INT(%s)' % p, 'X+I+A', 'Q(%s)' % p, 'LOG(%s)' % p, 'LEN(A$)+%s' % p, '-%s^2' % p, 'FNB(%s)' % p]}[f.endswith('$')]
        call = '%s(%s)' % (f.lower() if g.p(.3) else f, g.ch(['1', '2', 'X', 'A+1', '-1', '0', f + '(1)' if f[-1] != '$' else '3', '(2)', 'Q(1)']))
        prog = ['X=5:A=6:I=7:A$="str":Q(1)=3', 'DEF %s(%s)=%s' % (f, p, g.ch(body)), g.ch(['PRINT %s;X;A;I', 'PRINT X;%s;X;A;I', 'Z$="":PRINT %s', 'PRINT %s:PRINT X;A;I', 'FOR X=1 TO 2:PRINT %s;X:NEXT', 'IF 1 THEN PRINT %s;X;A']).replace('%s', call), 'PRINT X;A;I;A$']
        if g.p(.3): prog.append('DEF %s(%s)=%s' % (f, g.ch(['X', 'J']), g.ch(body)))
        if g.p(.3): prog.append('PRINT ' + call + ';X')
        if g.p(.2): prog.insert(g.r.randrange(len(prog)), g.ch(['CLEAR', 'PRINT %s(1)' % f, 'DIM %s(5)' % f, 'RESTORE', 'DEF %s(X$)=1' % f]))
        if g.p(.4): return sess_case(g, g.ch([[], ['10 PRINT %s(4)' % f, '20 A=A+1', '30 DEF %s(Y)=%s' % (f, g.ch(body))]]) + prog + g.ch([[], ['GOTO 10'], ['RUN', 'PRINT %s(2)' % f], ['RUN', '20', 'PRINT %s(2)' % f]]))
        return file_case(g, numbered(g, prog), opts=['-m'])
    if g.p(.3): return sess_case(g, g.session())
    return file_case(g, g.program())

# ------------------------------------------------------------------ names, lexing
def c_P16(prop, seed):
    g = G(seed, dict(nvars=15, **st(let=8, show=4, print=3, dim=1, clear=1, **{'def': 1}, forloop=.5)))
    k = g.r.random()
    if k < .3:
        names = ['%s%s' % (a, b) for a in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ' for b in ['', '1', '2', 'X', 'Y9', 'ab', 'LONGER']]
        use = g.r.sample(names, g.ch([5, 20, 60, 150]))
        use = [u for u in use if u not in ('IF', 'ON', 'OR', 'TO')]
        dollar = g.ch(['', '$'])
        prog = []
        for i, u in enumerate(use):
            prog.append('%s%s=%s' % (u, dollar, i if not dollar else '"v%d"' % i))
            if g.p(.3): prog.append('%s%s(1)=%s' % (u, dollar, -i if not dollar else '"w%d"' % i))
        if g.p(.2): prog.insert(g.r.randrange(len(prog)), 'CLEAR')
        for u in g.r.sample(use, min(20, len(use))): prog.append('PRINT %s%s;%s%s(1);%s' % (g.case(u), dollar, g.case(u), dollar, g.ch(use)))
        return file_case(g, numbered(g, prog, [i + 1 for i in range(len(prog))]), steps=6000, opts=['-m'] if g.p(.3) else [])
    if k < .65:
        cmds = ['A=5', 'a$="t"', 'PRINT A;A$;a(1);A$(1)', 'A(1)=7', 'A$(1)="u"', 'CLEAR', 'RUN', '10 A=A+1:PRINT A;A$;A(1)', '20 B=9', 'DEF F(X)=X+A', 'PRINT F(2)', 'GOTO 10', 'PRINT aBc;ABC', 'abc=3', 'NEW', 'LIST', 'DIM A(3)', 'PRINT A(1)', '30 PRINT B', 'FOR A=1 TO 2:PRINT a;:NEXT A', 'SIN=1', 'PRINT sin(0)', 'DEF A(X)=1', 'X(1)=2:X=3:X$="s":X$(1)="r":PRINT X(1);X;X$;X$(1)', '20', 'COMPILE', 'PRINT X;B', 'A(2,2)=1', 'DEF Q(X)=X:PRINT Q(1)', 'PRINT Q(3)']
        return sess_case(g, [g.ch(cmds) for _ in range(g.ch([4, 8, 14]))], opts=['-m'] if g.p(.2) else [])
    if k < .8: return sess_case(g, g.session())
    return file_case(g, g.program())

KWS = 'AND CLEAR DATA DEF DIM ELSE END FOR GOSUB GOTO IF INPUT LET LINE NEXT NOT ON OR PRINT RANDOMIZE READ REM RESTORE RETURN STEP STOP THEN TO'.split()
def c_P17(prop, seed):
    g = G(seed)
    k = g.r.random()
    if k < .35:
        import re as _re
        g2 = G(seed, dict(subs=g_bool(seed), arrays=False))
        prog = g2.program()
        def squeeze(t):
            if 'REM' in t.upper() or 'DATA' in t.upper(): return t
            out, q = '', False
            for c in t:
                if c == '"': q = not q
                if c in ' \t' and not q and g.p(.7): continue
                out += c
            return out
        return file_case(g, [(a, squeeze(t)) for a, t in prog], g2.stdin(), crunch=True)
    if k < .5:
        w = ['A', 'FORA', 'TOTAL', 'IFX', 'X', 'PRINTER', 'SCORE', 'ORANGE', 'LETTER', 'NOTE', 'T', 'STOPS', 'ENDED', 'TAB', 'TABX', 'SINX', 'A1', 'XTO', 'GO', 'REMARK', 'DATAX', 'E', 'E5']
        sts = ['%s=%s' % (g.case(g.ch(w)), g.ch(SMALL)), 'PRINT %s;%s' % (g.case(g.ch(w)), g.ch(w)), 'FOR %s=1TO3:PRINT%s:NEXT' % (g.ch(w), g.ch(w)), 'IFA=5THENPRINT"x"ELSEPRINT"y"', 'IF A THEN PRINT A', 'LETB=3:PRINTB', 'PRINTA;B$', 'GOTO100', 'ONAGOTO100,200', 'A$="PRINT":?A$', 'REMARK=5', 'X=AORB', 'X=A OR B', 'X=NOTA', 'DATAone,TWO,"three":READA$,B$:PRINTA$;B$', 'FORI=1TO2STEP1:PRINTI:NEXTI']
        prog = [g.ch(sts) for _ in range(g.ch([1, 3, 5]))] + ['PRINT "e"']
        return file_case(g, numbered(g, prog), crunch=g.p(.6))
    if k < .75:
        def tok(): return g.ch(['1', '1.5', '.5', '5.', '1E3', '1e-3', '1E', '1.2.3', '.', '1E+5', '12AB', '0012', '1E5E', '"str"', '""', '"', '<', '=', '<>', '<=', '>=', '><', '=<', ':', ';', ',', '(', ')', '+', '-', '^', 'A', 'a1$', 'A$B', 'B$$', '%', '&', '!', '?', '@', '#', "'", 'SIN', 'sin(1)', 'TIME$', 'NOT', 'x' * g.ch([1, 125, 126, 127, 128]), '9' * g.ch([5, 15, 20, 40, 127, 128]), '"' + 'q' * g.ch([100, 126, 127, 128]) + '"', '_', '{', '~', '\\'])
        t = g.ch(['PRINT ', 'X=', 'A$=', 'PRINT ', '', 'DATA ', 'REM ', '?']) + g.ch(['', ' ', '']).join(tok() for _ in range(g.ch([1, 1, 2, 3, 4])))
        if len(t) > 240: t = t[:240]
        if g.p(.25): return dict(mode='file', text='10 %s\n20 %s\n' % (t, g.ch(['X=SIN(1):TAB=2', 'PRINT TAB(3);spc(1);abs(q)', 'REM names', 'A$=B$+name$'])), stdin='', opts=['-n'], crunch=g.p(.3))
        return file_case(g, [(10, t), (20, 'PRINT "z"')], opts=['-p'] if g.p(.3) else [], crunch=g.p(.2))
    if k < .85:
        g2 = G(seed, dict(subs=False))
        return file_case(g, g2.program(), opts=['-n'], crunch=g.p(.3))
    return file_case(g, G(seed, st(let=3, print=5, bad=2, data=1, read=1, **{'if': 1})).program(2), opts=['-p'] if g.p(.4) else [])

def c_P18(prop, seed):
    g = G(seed, dict(**st(let=4, print=3, show=2, err=4, bad=.4, deep=3, gosub=1, forloop=2, **{'def': 1, 'if': 2, 'on': 1, 'next': .3, 'return': .3}, dim=.7, read=.5, input=.3, long=.7), **cmd(edit=3, list=.5, run=3, imm=8, show=2, cont=1, jump=1, compile=.4)))
    if g.p(.3):
        e = ['PRINT 1+(2+(3+LOG(-1)))', 'PRINT "a"+("b"+MID$("c",2,1))', 'DEF F(X)=LOG(X):PRINT F(0)', 'X=3:DEF G(X)=X+LOG(0):PRINT 1+G(5)', 'PRINT 1+(' * 16 + '1' + ')' * 16, 'PRINT "a"+(' * 8 + '"b"' + ')' * 8 if False else 'PRINT "a"+("b"+("c"+("d"+("e"+("f"+("g"+("h"+("i"+"j"))))))))', 'GOSUB 5', 'A(11)=1:PRINT A(12)', 'RETURN', 'NEXT', 'DIM Z(70000)', 'PRINT Q(1,1,1)', 'READ X', 'INPUT X', 'ON 1.5 GOTO 10', 'GOTO 77', 'FOR I=1 TO LOG(0)', 'A$=LEFT$("abc",LOG(-1))', 'PRINT A$+MID$(A$,9,1)', 'A(LOG(0))=1', 'A$(3)=MID$("",1,1)', 'PRINT VAL("z")+1', 'PRINT 1 AND 1.5']
        ok = ['PRINT 1+(2+(3+4))', 'PRINT X;A$', 'A$="q":PRINT "a"+("b"+A$)', 'FOR I=1 TO 2:PRINT I:NEXT', 'GOSUB 100', 'PRINT F(2)', 'PRINT G(1);X', 'RUN', 'PRINT 1+(' * 13 + '1' + ')' * 13, 'CONT', 'NEXT', 'DIM Z(3):Z(3)=1:PRINT Z(3)', 'LIST']
        out = ['100 PRINT "sub":RETURN', '10 PRINT "start"', '20 ' + g.ch(e), '30 PRINT "not reached"', '90 END'] if g.p(.7) else []
        for _ in range(g.ch([3, 6, 10])): out.append(g.ch(e) if g.p(.5) else g.ch(ok))
        return sess_case(g, [x for x in out if len(x) < 126], opts=['-m'] if False else [])
    if g.p(.6): return sess_case(g, g.session())
    return file_case(g, g.program(), g.stdin())

def c_P19(prop, seed):
    g = G(seed, dict(**st(let=4, print=2, show=3, stop=3, gosub=1, forloop=2, **{'for': .5, 'next': .5, 'if': 1}, end=.3, err=.3, read=.5, data=.5), **cmd(edit=3, **{'del': 1}, list=.5, run=5, cont=6, imm=3, show=2, jump=1.5, compile=.5, renum=.3, new=.2, save=.2, load=.3)))
    if g.p(.4):
        prog = ['10 A=1:FOR I=1 TO 3', '20 %s' % g.ch(['PRINT I:STOP', 'STOP:PRINT I', 'STOP', 'IF I=2 THEN STOP ELSE PRINT "no"', 'GOSUB 100', 'PRINT I:A=A*2:STOP:PRINT "same line";A']), '30 NEXT%s' % g.ch(['', ' I']), '40 PRINT "fin";A:%s' % g.ch(['END', 'STOP', 'STOP:PRINT "z"', 'STOP:END']), '100 %s' % g.ch(['STOP:RETURN', 'PRINT "s":STOP:PRINT "t":RETURN', 'READ A:STOP:RETURN', 'RETURN']), '110 DATA 5,6,7']
        out = prog + ['RUN']
        for _ in range(g.ch([2, 4, 8])):
            out.append(g.ch(['CONT', 'CONT', 'CONT', 'PRINT A;I', 'A=50', 'NEXT', 'I=9', '35 REM', '35', 'LIST', 'RUN', 'GOTO 30', 'GOSUB 100', 'RETURN', 'STOP', 'READ A:PRINT A', 'PRINT LOG(0)', 'CLEAR', 'FOR J=1 TO 2', 'COMPILE', 'RESTORE', 'END', 'FOR I=1 TO 2:PRINT "i";I:NEXT', 'RENUM', 'NEW', 'DATA 9:READ A:PRINT A', 'PRINT )', '500', 'SAVE "a.bas"', 'LOAD "a.bas"']))
        return sess_case(g, out)
    return sess_case(g, g.session())

def c_P20(prop, seed):
    c = mixed(prop, seed) if seed % 3 else (c_P08, c_P10, c_P11, c_P16, c_P12, c_P01, c_P02, c_P03, c_P19)[seed // 3 % 9](prop, seed)
    o = c.get('opts', [])
    if not set(o) & {'-p', '-l', '-n', '-m'}: c['opts'] = o + ['-m']
    return c

def make(prop, seed):
    f = globals().get('c_' + prop)
    return f(prop, seed) if f else mixed(prop, seed)
