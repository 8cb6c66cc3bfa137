"""Bounded differential runs of the real interpreter (built from /repo's current tree with
address and undefined-behaviour sanitizers, assertions live) against the reference
interpreter.  Used (a) to turn a failed obligation into a concrete failing input and (b) as
the labelled bounded stand-in for functions not yet under contract."""
import multiprocessing, os, re, shutil, subprocess, sys, tempfile, time, json
from . import ref, gen

DIRS = ('Basic', 'Shared', 'Monitor', 'System')

def build(repo, out, san=True):
    """build the interpreter from repo's working tree; returns path"""
    from concurrent.futures import ThreadPoolExecutor
    inc = ['-I' + os.path.join(repo, d) for d in DIRS]
    srcs = [os.path.join(repo, d, f) for d in DIRS for f in sorted(os.listdir(os.path.join(repo, d))) if f.endswith('.c') and f != 'CuTest.c']
    fl = ['-O1', '-w', '-fno-omit-frame-pointer'] + (['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=float-divide-by-zero'] if san else [])
    def one(s):
        o = os.path.join(out, os.path.basename(s)[:-2] + '.o')
        r = subprocess.run(['gcc', *fl, *inc, '-c', s, '-o', o], capture_output=True, text=True)
        if r.returncode: raise RuntimeError('gcc %s: %s' % (s, r.stderr[-500:]))
        return o
    with ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, srcs))
    exe = os.path.join(out, 'lb')
    r = subprocess.run(['gcc', *fl, *objs, '-o', exe, '-lm'], capture_output=True, text=True)
    if r.returncode: raise RuntimeError('link: ' + r.stderr[-500:])
    for o in objs: os.unlink(o)
    return exe

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99', UBSAN_OPTIONS='halt_on_error=1:exitcode=98', LC_ALL='C', TERM='dumb')

def norm_err(err):
    out = []
    ls = err.split('\n')
    i = 0
    while i < len(ls):
        l = ls[i]
        if l.startswith('Runtime error:'):
            for j in range(i + 1, min(i + 4, len(ls))):
                if ls[j].startswith('Runtime error:'): m = None; break
                m = re.match(r'(\d+) ', ls[j] + ' ')
                if m: break
            else: m = None
            if m: out.append('R:' + m.group(1)); i = j
            else: out.append('R')
        elif re.match(r'^\s*\^$', l):
            m = re.match(r'(\d+) ', ls[i - 1] + ' ') if i else None
            out.append('S:' + m.group(1) if m else 'S')
        i += 1
    return out

def run_real(exe, case, cwd, timeout=10):
    """returns (status, stdout, errs, files)"""
    args = [exe, '-q']
    if case.get('crunch'): args.append('-k')
    args += case.get('opts', [])
    for f in os.listdir(cwd): os.unlink(os.path.join(cwd, f))
    for f, t in case.get('files', {}).items(): open(os.path.join(cwd, f), 'w', encoding='latin1', newline='').write(t)
    if case['mode'] == 'file':
        open(os.path.join(cwd, 'prog.bas'), 'w', encoding='latin1', newline='').write(case['text'])
        args.append('prog.bas')
    # output goes to files of limited size: a runaway program must not fill memory
    with tempfile.TemporaryFile() as fi, tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        fi.write(case['stdin'].encode('latin1')); fi.seek(0)
        try: r = subprocess.run(args, cwd=cwd, stdin=fi, stdout=fo, stderr=fe, timeout=timeout, env=ENV)
        except subprocess.TimeoutExpired: return 'timeout', '', [], {}
        fo.seek(0); fe.seek(0)
        out = fo.read().decode('latin1'); err = fe.read().decode('latin1')
    st = r.returncode
    if st in (98, 99) or st < 0 or 'runtime error: ' in err and 'Sanitizer' in err: st = 'crash'
    files = {}
    for f in os.listdir(cwd):
        if f != 'prog.bas': files[f] = open(os.path.join(cwd, f), encoding='latin1', newline='').read()
    return st, out, (norm_err(err) if st != 'crash' else [err[-1500:]]), files

def run_ref(case):
    ref.Machine.MAXSTEPS = case.get('steps', 4000)
    m = ref.Machine(case['stdin'], bool(case.get('crunch')))
    m.written = dict(case.get('files', {}))
    try:
        if case['mode'] == 'file':
            m.load_text(case['text'])
            k = case.get('opts', [])
            if '-p' in k:
                st = 0 if m.ensure() else 1
                return st, '', m.errs, {}
            if '-l' in k: m.listing(); return 0, ''.join(m.out), m.errs, {}
            if '-n' in k: m.names(); return 0, ''.join(m.out), m.errs, {}
            m.run_program()
        else: m.session()
    except ref.TooLong: return None
    except ref.Exit: return ('exit', ''.join(m.out), m.errs, m.written)
    return (0, ''.join(m.out), m.errs, m.written)

def differs(case, a, b, memory=False):
    """a real, b reference; None if equal, else description"""
    if a[0] == 'crash': return 'abnormal termination: ' + ''.join(a[2])[-600:]
    if a[0] == 'timeout': return 'does not terminate within 10 s'
    if b[0] == 'exit':
        return None if a[0] == 1 else 'exit status %r: the program cannot be accepted' % (a[0],)
    if a[0] != b[0]: return 'exit status %r instead of %r' % (a[0], b[0])
    out = a[1]
    if '-m' in case.get('opts', []):
        m = re.search(r'\nmalloc: +(\d+)\nfree: +(\d+)\n$', out)
        if not m: return 'no memory report'
        out = out[:m.start()]
        if m.group(1) != m.group(2) and not b[2]: return 'memory blocks allocated %s, released %s' % m.groups()
    if out != b[1]:
        k = next((i for i, (x, y) in enumerate(zip(out, b[1])) if x != y), min(len(out), len(b[1])))
        return 'output differs at offset %d: %r instead of %r' % (k, out[max(0, k - 30):k + 40], b[1][max(0, k - 30):k + 40])
    be = [e for e in b[2] if e != 'F']
    if a[2] != be: return 'errors %r instead of %r' % (a[2], be)
    if a[3] != b[3]: return 'files %r instead of %r' % (a[3], b[3])
    return None

def try_case(exe, case, cwd):
    b = run_ref(case)
    if b is None: return 'skip', None
    a = run_real(exe, case, cwd)
    d = differs(case, a, b)
    if d is None: return 'ok', (b[1] != '' or b[2] != [])
    return 'diff', dict(case=case, why=d, real=a, expected=b)

STOP = multiprocessing.Value('i', 0)
def worker(arg):
    exe, prop, seed, lo, hi, deadline, stride = arg
    from . import cases
    import resource
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 23, 1 << 23))
    cwd = tempfile.mkdtemp(prefix='lbs_')
    n = sk = nt = 0
    found = []; sample = None
    try:
        i = lo
        while i < hi:
            if time.time() > deadline or STOP.value: break
            c = cases.make(prop, seed * 1000003 + i)
            try: r, x = try_case(exe, c, cwd)
            except Exception as e:      # the reference cannot judge this case
                if os.environ.get('LBV_DEBUG'): print('REF', type(e), e, c)
                r, x = 'skip', None
            n += 1
            if r == 'skip': sk += 1
            elif r == 'ok':
                nt += bool(x)
                if x and sample is None: sample = c
            elif r == 'diff':
                # confirm: the same input must fail again
                r2, x2 = try_case(exe, c, cwd)
                if r2 == 'diff':
                    found.append(x); STOP.value = 1; break
            i += stride
    finally: shutil.rmtree(cwd, ignore_errors=True)
    return n, sk, nt, found, sample

def shrink(exe, rec, limit=25):
    """greedy line removal"""
    t0 = time.time()
    cwd = tempfile.mkdtemp(prefix='lbs_')
    try:
        c = dict(rec['case'])
        key = 'text' if c['mode'] == 'file' else 'stdin'
        changed = True
        while changed and time.time() - t0 < limit:
            changed = False
            ls = c[key].split('\n')
            k = max(1, len(ls) // 2)
            while k >= 1 and time.time() - t0 < limit:
                i = 0
                while i < len(ls) - 1 and time.time() - t0 < limit:
                    d = dict(c); d[key] = '\n'.join(ls[:i] + ls[i + k:])
                    if not d[key].endswith('\n'): d[key] += '\n'
                    try: r, x = try_case(exe, d, cwd)
                    except Exception: r = 'skip'
                    if r == 'diff': c, rec = d, x; ls = c[key].split('\n'); changed = True
                    else: i += k
                k //= 2
    finally: shutil.rmtree(cwd, ignore_errors=True)
    return rec

def search(exe, prop, seed, count, seconds, jobs=8):
    from multiprocessing import Pool
    dl = time.time() + seconds
    STOP.value = 0
    with Pool(jobs) as p:
        rs = p.map(worker, [(exe, prop, seed, j, count, dl, jobs) for j in range(jobs)])
    found = [f for r in rs for f in r[3]]
    return dict(evaluations=sum(r[0] for r in rs), skipped=sum(r[1] for r in rs), nontrivial=sum(r[2] for r in rs), found=found, samples=[r[4] for r in rs if r[4]][:2])
