"""Contract evaluation on the real code (replay / falsifier side).

Runs under pygeode's own interpreter.  The C extensions are compiled from /repo's current tree into a scratch directory
and imported from there; every Python module is imported from /repo itself."""
import sys, os, subprocess, tempfile, shutil, importlib.abc, importlib.util, importlib.machinery, json, time, random, signal, traceback, warnings
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VP_REPO', '/repo')
CORES = {
    'interpcore': ['interp.c'], 'timeaxiscore': ['timeaxis.c'], 'toolscore': ['tools.c'],
    'quadrulepy': ['quadrule.c', 'quadrulepy.c'], 'svdcore': ['svd.c'], 'eofcore': ['eof.c'],
    'formats.opendapcore': ['formats/opendap.c'], 'formats.gribcore': ['formats/grib.c'],
}
LIBS = {'interpcore': ['-lgsl', '-lgslcblas'], 'eofcore': ['-llapack']}


class Fail(Exception):
    """the real code broke the contract on this input"""


class Skip(Exception):
    """the input is outside the contract's precondition"""


def build(outdir, extra=()):
    """compile all extension modules from the current sources; -> {module: error text} for those which do not compile"""
    import sysconfig, numpy
    inc = [sysconfig.get_paths()['include'], numpy.get_include(), sys.prefix + '/include']
    errs = {}

    def one(item):
        mod, srcs = item
        out = os.path.join(outdir, mod.replace('.', '_') + '.so')
        # optimisation level and flags as distutils would use them (assert() compiled out, wrapping integers)
        cmd = ['gcc', '-shared', '-fPIC', '-O1', '-fwrapv', '-DNDEBUG', '-w'] + list(extra) + ['-I' + i for i in inc] + \
              [os.path.join(REPO, 'pygeode', s) for s in srcs] + ['-o', out, '-lm'] + LIBS.get(mod, [])
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            errs[mod] = r.stderr[-800:]
    with ThreadPoolExecutor(8) as p:
        list(p.map(one, CORES.items()))
    return errs


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, sodir):
        self.sodir = sodir

    def find_spec(self, name, path=None, target=None):
        if name.startswith('pygeode.') and name[8:] in CORES:
            fn = os.path.join(self.sodir, name[8:].replace('.', '_') + '.so')
            return importlib.util.spec_from_file_location(name, fn, loader=importlib.machinery.ExtensionFileLoader(name, fn))
        return None


def boot(sodir):
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    sys.meta_path.insert(0, Finder(sodir))
    sys.path.insert(0, REPO)
    import pygeode
    assert os.path.realpath(pygeode.__file__).startswith(os.path.realpath(REPO) + '/'), pygeode.__file__
    import numpy as np
    np.seterr(all='ignore')
    # no progress bars
    try:
        from pygeode import progress
    except Exception:
        pass
    return pygeode


def fail(msg, **kw):
    raise Fail(msg + ''.join('\n  %s = %s' % (k, short(v)) for k, v in kw.items()))


def short(v):
    s = repr(v)
    return s if len(s) < 600 else s[:600] + '...'


def check(cond, msg, **kw):
    if not cond:
        fail(msg, **kw)


def same(a, b, what, tol=0., **kw):
    """arrays equal (NaN equal to NaN), to a relative tolerance"""
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        fail('%s: shape %s, expected %s' % (what, a.shape, b.shape), got=a, want=b, **kw)
    if a.size == 0:
        return
    if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
        na, nb = np.isnan(a.astype('d') if a.dtype.kind != 'c' else a), np.isnan(b.astype('d') if b.dtype.kind != 'c' else b)
        if (na != nb).any():
            fail('%s: missing values differ' % what, got=a.tolist(), want=b.tolist(), **kw)
        with np.errstate(all='ignore'):
            d = np.abs(np.where(na, 0, a) - np.where(nb, 0, b))
            d = np.where(np.where(na, 0, a) == np.where(nb, 0, b), 0, d)
            lim = tol * np.maximum(1., np.abs(np.where(nb, 0, b)))
            bad = ~((d <= lim) | (d == 0))
    else:
        bad = a != b
    if np.any(bad):
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        fail('%s: wrong value at %s: got %r, expected %r' % (what, i, a[i], b[i]), got=a.tolist(), want=b.tolist(), **kw)


# ---------------------------------------------------------------- driver (child side)
def child(mod, sodir, tier, seed, worker, nworkers, journal, outfile, budget):
    res = dict(n=0, skipped=0, fails=[], kinds={}, samples=[], distinct=0, error=None, stopped=False)
    seen = set()
    t0 = time.time()
    try:
        boot(sodir)
        m = importlib.import_module(mod)
        for i, (kind, params) in enumerate(m.cases(tier, random.Random('%s/%s' % (mod, seed)))):
            if i % nworkers != worker:
                continue
            if time.time() - t0 > budget:
                res['stopped'] = True
                break
            s = json.dumps([kind, params])
            with open(journal, 'w') as f:
                f.write(s)
            res['n'] += 1
            k = res['kinds'].setdefault(kind, 0)
            res['kinds'][kind] = k + 1
            h = hash(s)
            try:
                run_case(m, kind, params)
                if h not in seen:
                    seen.add(h)
                    if k < 2 and worker == 0:
                        res['samples'].append([kind, params] if len(s) < 1500 else [kind, s[:400]])
            except Skip:
                res['skipped'] += 1
            except Fail as e:
                res['fails'].append([kind, params, str(e)[:4000], getattr(e, 'known', None)])
                if sum(1 for f in res['fails'] if not f[3]) >= 3 or len(res['fails']) > 400:
                    break
        res['distinct'] = len(seen)
        os.unlink(journal) if os.path.exists(journal) else None
    except BaseException:
        res['error'] = traceback.format_exc()[-3000:]
    with open(outfile, 'w') as f:
        json.dump(res, f)


def run_case(m, kind, params):
    import numpy as np
    np.random.seed(12345)
    try:
        getattr(m, 'c_' + kind)(**params)
    except (Fail, Skip):
        raise
    except MemoryError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(REPO)]
        if not where:
            raise Fail('raised %s: %s while its results were compared (at %s:%s)' % (type(e).__name__, str(e)[:400], tb[-1].filename, tb[-1].lineno))
        raise Fail('raised %s: %s (at %s:%s)' % (type(e).__name__, str(e)[:400], where[-1].filename, where[-1].lineno))


if __name__ == '__main__':
    if sys.argv[1] == 'build':
        print(json.dumps(build(sys.argv[2], sys.argv[3:])))
    elif sys.argv[1] == 'worker':
        mod, sodir, tier, seed, w, n, journal, out, budget = sys.argv[2:11]
        sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
        import base
        base.child(mod, sodir, tier, int(seed), int(w), int(n), journal, out, float(budget))
    elif sys.argv[1] == 'replay':
        mod, sodir, fn = sys.argv[2:5]
        sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
        import base
        base.boot(sodir)
        m = importlib.import_module(mod)
        kind, params = json.load(open(fn))['case']
        try:
            base.run_case(m, kind, params)
            print('contract holds on this input')
        except base.Fail as e:
            print('CONTRACT VIOLATED: %s' % e)
            sys.exit(1)
