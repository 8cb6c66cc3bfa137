"""Mechanical extraction: /repo's current C sources -> LLVM IR -> Program."""
import glob, hashlib, os, re, shutil, subprocess, tempfile
from . import ir
from .engine import Program
from .di import DI

REPO = os.environ.get('LBV_REPO', '/repo')
DIRS = ('Basic', 'Shared', 'Monitor', 'System')
SKIP = {'CuTest.c'}

class BuildError(Exception): pass

def cc(src, inc, out):
    r = subprocess.run(['clang', '-w', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names' if False else '-w',
                        '-S', '-emit-llvm', '-D__NO_CTYPE', *['-I' + i for i in inc], src, '-o', out + '.0'],
                       capture_output=True, text=True)
    if r.returncode: raise BuildError('clang %s: %s' % (src, r.stderr[-800:]))
    r = subprocess.run(['opt-18', '-S', '-passes=mem2reg', out + '.0', '-o', out], capture_output=True, text=True)
    if r.returncode: raise BuildError('opt %s: %s' % (src, r.stderr[-800:]))
    os.unlink(out + '.0')

def extract(repo=REPO):
    """returns (Program, info) for the current tree"""
    from concurrent.futures import ThreadPoolExecutor
    tmp = tempfile.mkdtemp(prefix='lbv_ir_')
    try:
        files = []
        patched = []
        for d in DIRS:
            os.makedirs(os.path.join(tmp, d))
            for f in sorted(os.listdir(os.path.join(repo, d))):
                if not f.endswith(('.c', '.h')): continue
                src = os.path.join(repo, d, f)
                txt = open(src, encoding='latin1').read()
                if d == 'Basic' and f == 'run.h':
                    # `SOURCE* vm_stored_source(vm);` has a K&R identifier list in a
                    # declaration, which clang rejects and gcc ignores
                    new = re.sub(r'\bvm_stored_source\s*\(\s*vm\s*\)\s*;', 'vm_stored_source(VM* vm);', txt)
                    if new != txt: patched.append('Basic/run.h: vm_stored_source prototype')
                    txt = new
                open(os.path.join(tmp, d, f), 'w', encoding='latin1').write(txt)
                if f.endswith('.c') and f not in SKIP: files.append((d, f))
        inc = [os.path.join(tmp, d) for d in DIRS]
        def one(df):
            d, f = df
            out = os.path.join(tmp, f[:-2] + '.ll')
            cc(os.path.join(tmp, d, f), inc, out)
            t = open(out).read()
            # anonymous struct types are numbered per module: make them unique
            return f[:-2], re.sub(r'%(struct|union)\.anon', r'%\1.' + f[:-2] + '_anon', t)
        with ThreadPoolExecutor(8) as ex:
            texts = list(ex.map(one, files))
        mods = []
        problems = []
        di = DI()
        for name, t in texts:
            mods.append(ir.parse_module(t, name))
            di.load(t, name)
        h = hashlib.sha256('\n'.join(t for _, t in texts).encode()).hexdigest()[:16]
        prog = Program(mods)
        prog.di = di
        return prog, dict(patched=patched, files=['%s/%s' % df for df in files], ir_hash=h)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
