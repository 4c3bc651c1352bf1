#!/usr/bin/env python3
"""plant.py [-q] ID...: for each /verif/seeded/ID, in a scratch copy of /repo: apply the patch, build, run the stable tests and the
demonstration with and without it, and this property's quick check on the changed copy (-q: the check only).  Prints one line per bug."""
import sys, os, subprocess, json, shutil, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(HERE, '..', 'seeded')
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=None, t=1500):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        return 99, 'timeout'


def one(i, quick=False):
    d = os.path.join(SEED, i)
    meta = json.load(open(d + '/meta.json'))
    tmp = tempfile.mkdtemp(prefix='plant-')
    try:
        repo = tmp + '/repo'
        shutil.copytree('/repo', repo, symlinks=True)
        env = dict(os.environ, PYTHONPATH=repo, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', LC_ALL='C.UTF-8', TZ='UTC', MPLCONFIGDIR=tmp + '/mpl', PYTHONWARNINGS='ignore')
        demo = tmp + '/demo'
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        out = []
        if not quick:
            rc, o = sh(['bash', demo + '/demo.sh'], repo, {k: v for k, v in env.items() if k != 'PYTHONPATH'})
            out.append('demo clean: %s' % ('ok' if rc == 0 else 'BAD rc=%d %s' % (rc, o[-300:])))
        rc, o = sh(['git', 'apply', os.path.abspath(d + '/patch.diff')], repo)
        if rc:
            return i, 'PATCH DOES NOT APPLY ' + o
        if not quick:
            if '.c' in open(d + '/patch.diff').read().split('+++ ')[1].split('\n')[0][-3:] or '\n+++ b/pygeode/' in open(d + '/patch.diff').read() and '.c\n' in open(d + '/patch.diff').read():
                rc, o = sh([PY, 'setup.py', 'build_ext', '--inplace', '--force'], repo, env)
                if rc:
                    return i, 'DOES NOT BUILD ' + o[-300:]
            rc, o = sh(['bash', demo + '/demo.sh'], repo, {k: v for k, v in env.items() if k != 'PYTHONPATH'})
            out.append('demo patched: %s' % ('fails (good) ' + o.strip()[-120:].replace('\n', ' ') if rc else 'BAD: passes'))
            cwd = tmp + '/cwd'
            os.mkdir(cwd)
            rc, o = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--rootdir=' + repo, '--timeout=300', '--tb=line', '--disable-warnings', repo + '/tests'], cwd, env)
            out.append('tests: %s' % ('pass' if rc == 0 else 'BAD ' + o[-300:]))
        e2 = dict(os.environ, VP_REPO=repo)
        # run from a private copy of /verif so that evidence is not overwritten
        ver = tmp + '/verif'
        shutil.copytree(os.path.join(HERE, '..'), ver, ignore=shutil.ignore_patterns('.git', 'seeded', '__pycache__'))
        rc, o = sh(['python3', 'check.py', meta['property']], ver, e2)
        v = [l for l in o.split('\n') if l.startswith('VIOLATION')]
        out.append('check %s: %s' % (meta['property'], ('CAUGHT ' + ('(no input)' if v and v[0].endswith('no-failing-input-found') else '(input)')) if rc == 1 and v else 'MISSED rc=%d %s' % (rc, o[-200:])))
        return i, '; '.join(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    q = '-q' in a
    ids = [x for x in a if x != '-q'] or sorted(os.listdir(SEED))
    with cf.ThreadPoolExecutor(3) as p:
        for i, r in p.map(lambda i: one(i, q), ids):
            print(i, '|', r, flush=True)
