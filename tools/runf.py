"""run one contract-evaluation module quickly: runf.py f_v01 [tier] [budget]"""
import sys, os, subprocess, json, tempfile, shutil, time
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
mod = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'; budget = sys.argv[3] if len(sys.argv) > 3 else '150'
S = tempfile.mkdtemp(prefix='runf-')
PY = '/opt/venv/bin/python'
e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore', HOME=S, MPLCONFIGDIR=S)
subprocess.run([PY, H + '/falsify/base.py', 'build', S], env=e, check=True, stdout=subprocess.DEVNULL)
t = time.time(); ps = []
NW = 6
for w in range(NW):
    ps.append(subprocess.Popen([PY, H + '/falsify/base.py', 'worker', mod, S, tier, os.environ.get('VERIF_SEED', '1'), str(w), str(NW), S + '/j%d' % w, S + '/o%d' % w, budget], env=e, cwd=S, stdout=open(S + '/l%d' % w, 'w'), stderr=subprocess.STDOUT))
n = 0; kinds = {}; sk = 0
fails = []
for w, p in enumerate(ps):
    p.wait()
    if not os.path.exists(S + '/o%d' % w):
        print('worker', w, 'died', p.returncode, open(S + '/j%d' % w).read()[:500], open(S + '/l%d' % w).read()[-500:]); continue
    r = json.load(open(S + '/o%d' % w))
    n += r['n']; sk += r['skipped']
    for k, v in r['kinds'].items(): kinds[k] = kinds.get(k, 0) + v
    fails += r['fails']
    if r['error']: errs = globals().setdefault('errs', set()); r['error'] in errs or print('ERR', r['error']); errs.add(r['error'])
    if r['stopped']: print('stopped by budget')
fails.sort(key=lambda f: len(json.dumps(f[1])))
seen = set()
for f in fails[:12]:
    if f[2][:60] in seen: continue
    seen.add(f[2][:60]); print('FAIL', f[0], json.dumps(f[1])[:700], '\n   ', f[2][:500])
print(mod, n, 'cases', sk, 'skipped', kinds, len(fails), 'failures', round(time.time() - t, 1), 's')
shutil.rmtree(S)
