#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current tree.

1. extract the LLVM IR of the real code (nothing is hand-copied) and discharge every
   obligation of the property's contracts;
2. if an obligation fails, look for a concrete failing input by running the real
   interpreter against the reference; report VIOLATION either way;
3. run the bounded stand-in for the functions that are not under contract (labelled
   bounded in the evidence, never counted as proved)."""
import importlib, json, os, shutil, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('LBV_REPO', '/repo')
from contracts import registry, meta
from replay import search

def harness_of(name):
    mod, h = name.split(':', 1)
    if mod == 'op':
        m = importlib.import_module('contracts.vmops')
        return m.op_harness(h)
    m = importlib.import_module('contracts.' + mod)
    return getattr(m, h) if hasattr(m, h) else m.harness(h)

PROG = None
LIMIT = 100
def run_one(name):
    """all alternatives of one harness; the best result wins"""
    from lbv.engine import verify
    t0 = time.time()
    try:
        h = harness_of(name)
        best = None
        for alt in range(getattr(h, 'alts', 1)):
            r = verify(PROG, h, name=name, opts=dict(time_limit=max(5, min(LIMIT, DEADLINE - time.time())), alt=alt, max_fail=10))
            s = r.summary()
            if any(f['obligation'].startswith('loop-') for f in s['failed']):
                # the annotated invariant is not one of this loop: what is derived from it decides nothing
                for f in s['failed']: f['soft'] = True
            s['alt'] = alt
            bad = bool(s['failed'] or s['unknown'] or s['structural'])
            dead = [c for c, n in s['covers'].items() if n == 0]
            if not bad and (not s['covers'] or dead and len(dead) == len(s['covers'])):
                s['structural'] = ['vacuous: no path reaches the postcondition']; bad = True
            if best is None or score(s) < score(best): best = s
            if not bad: break
    except Exception as e:
        best = dict(name=name, obligations=0, discharged=0, failed=[], unknown=[], structural=['harness: %r %s' % (e, traceback.format_exc()[-600:])], covers={}, paths=0,
                    solver_s=0, queries=0, wall=0, funcs=[], stubs=[], bounded=[], byname={}, assumptions=[], alt=0)
    best['wall'] = round(time.time() - t0, 2)
    return best
DEADLINE = float('inf')
# started first, so that the whole does not wait for them
HEAVY = ['lexer:decimal_negative', 'lexer:point_negative', 'lexer:point_exponent', 'store:find_linenum', 'lexer:decimal_exponent', 'monitor:renumber', 'lexer:integer_negative', 'symbols:insert', 'op:B_READ_NUM', 'op:B_READ_STR', 'lexer:decimal', 'lexer:integer_exponent']
def loopish(f): return f['obligation'].startswith('loop-') or f.get('soft')
def score(s):
    hard = [f for f in s['failed'] if not loopish(f)]
    return (len(hard) > 0, len(s['failed']), len(s['structural']), len(s['unknown']))

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    names = registry.PROPS[prop]
    thorough = tier == 'thorough'
    global PROG, LIMIT, DEADLINE
    LIMIT = 600 if thorough else 200
    DEADLINE = t0 + (3600 if thorough else 450)     # of the whole proof: a check has 900 s
    results, build_problem, info = [], None, {}
    scratch = tempfile.mkdtemp(prefix='lbv_%s_' % prop)
    try:
        # ---- proof
        t1 = time.time()
        if names:
            from lbv.build import extract, BuildError
            try: PROG, info = extract(REPO)
            except Exception as e: build_problem = 'extraction failed: %s' % str(e)[:400]
            if PROG is not None:
                from multiprocessing import Pool
                with Pool(8) as p: results = list(p.imap_unordered(run_one, sorted(names, key=lambda n: HEAVY.index(n) if n in HEAVY else len(HEAVY)), chunksize=1))
                results.sort(key=lambda r: names.index(r['name']))
        proof_wall = time.time() - t1
        failed = [f for r in results for f in r['failed'] if not loopish(f)]
        soft = [f for r in results for f in r['failed'] if loopish(f)] + [f for r in results for f in r['unknown']]
        structural = [(r['name'], s) for r in results for s in r['structural']] + ([('extract', build_problem)] if build_problem else [])
        troubled = bool(failed or soft or structural)
        # ---- concrete runs
        count, secs = (400000, 600) if thorough else (24000, 45)
        if troubled: count, secs = count * 4, max(secs * 3, 150)
        standin = dict(evaluations=0, skipped=0, nontrivial=0, found=[], samples=[])
        exe = None
        try: exe = search.build(REPO, scratch)
        except Exception as e: structural.append(('build', str(e)[:300]))
        t2 = time.time()
        if exe: standin = search.search(exe, prop, seed, count, secs)
        found = standin.pop('found')
        standin['wall_s'] = round(time.time() - t2, 1)
        # ---- verdict
        viol = None
        rdir = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
        rpath = os.path.join(rdir, '%s.json' % prop)
        if os.path.exists(rpath): os.unlink(rpath)
        if found:
            rec = search.shrink(exe, found[0])
            json.dump(dict(property=prop, kind='failing input replayed against the real interpreter', case=rec['case'], difference=rec['why'], real=list(rec['real']), expected=list(rec['expected']),
                           failed_obligations=failed + soft, how='run the interpreter built from /repo in an empty directory on this input'), open(rpath, 'w'), indent=1, default=str)
            viol = 'VIOLATION property=%s replay=%s' % (prop, rpath)
        elif failed:
            json.dump(dict(property=prop, kind='failed obligations, no failing input found', failed_obligations=failed, undecided=soft, structural=structural), open(rpath, 'w'), indent=1, default=str)
            viol = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rpath)
        write_evidence(prop, tier, seed, results, standin, failed, soft, structural, info, proof_wall, viol, t0)
        for r in results:
            print('%-28s %4d/%-4d obligations, %d paths, %.1fs%s' % (r['name'], r['discharged'], r['obligations'], r['paths'], r['wall'], '' if not (r['failed'] or r['unknown'] or r['structural']) else '  <-- NOT DISCHARGED'))
        for f in failed: print('failed obligation: %s %s at %s' % (f['obligation'], f.get('detail', ''), f.get('line')))
        for f in soft: print('undecided: %s at %s' % (f['obligation'], f.get('line')))
        for n, s in structural: print('out of reach: %s: %s' % (n, s))
        print('bounded stand-in: %(evaluations)d runs of the real interpreter against the reference, %(skipped)d not judged, %(wall_s)ss' % standin)
        for l in known(prop): print(l)
        if viol:
            print(viol); return 1
        print('property %s held' % prop)
        return 0
    finally: shutil.rmtree(scratch, ignore_errors=True)

def known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        if l.startswith('KNOWN-FINDING: property=%s ' % prop): out.append(l.rstrip())
    return out

def write_evidence(prop, tier, seed, results, standin, failed, soft, structural, info, pw, viol, t0):
    m = meta.META[prop]
    obl = sum(r['obligations'] for r in results); dis = sum(r['discharged'] for r in results)
    proved = bool(results) and not failed and not soft and not structural
    funcs = sorted(set(f for r in results for f in r['funcs']))
    stubs = sorted(set(f for r in results for f in r['stubs']))
    ev = dict(property=prop, tier=tier, seed=seed, level=m['level'],
        coverage=dict(obligations=obl, discharged=dis, checker_cmd='./check.py %s %s' % (prop, tier), trusted_base=meta.TRUSTED + ['assumed contract: ' + s for s in stubs],
            back_end='z3 %s via /verif/lbv' % z3v(), contracts=[r['name'] for r in results], functions_verified=funcs, callee_contracts=stubs,
            obligations_by_contract={r['name']: dict(obligations=r['obligations'], discharged=r['discharged'], paths=r['paths'], solver_s=r['solver_s'], queries=r['queries'], covers=r['covers']) for r in results},
            solver_s=round(sum(r['solver_s'] for r in results), 2), proof_wall_s=round(pw, 2), proof_complete_on_this_run=proved,
            explanation=m['explanation'], extraction=info,
            bounded_standin=dict(label='bounded, not counted as proved', covers=m['standin'], rule='programs and sessions generated from VERIF_SEED, directed at the property; real interpreter (address and undefined-behaviour sanitizers) compared with the reference interpreter: output, errors, exit status, files written', **standin),
            undecided=[f['obligation'] for f in soft], out_of_reach=['%s: %s' % x for x in structural]),
        assumptions=sorted(set(meta.ASSUMPTIONS + [a for r in results for a in r['assumptions']])), wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    if not results: ev['coverage'].pop('obligations'); ev['coverage'].pop('discharged')
    ev['coverage'].update(evaluations=standin['evaluations'], distinct_nontrivial=standin['nontrivial'])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
def z3v():
    try:
        import z3; return z3.get_version_string()
    except Exception: return '?'

if __name__ == '__main__': sys.exit(main())
