#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]       decide one property on /repo's current tree
   check.py --replay <file>                          re-run a recorded failing input against /repo's current tree"""
import sys, os, json, time, subprocess, tempfile, shutil, signal

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
VT = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, HERE)
from registry import PROPS


def env():
    e = dict(os.environ)
    e.update(VP_REPO=REPO, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             PYTHONHASHSEED='0', PYTHONWARNINGS='ignore', TZ='UTC', LC_ALL='C.UTF-8')
    e.setdefault('MPLCONFIGDIR', os.path.join(SCRATCH, 'mpl'))
    e['HOME'] = SCRATCH
    return e


SCRATCH = None


def known(prop):
    fn = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    return [k for k in json.load(open(fn))['findings'] if k['property'] == prop]


def main(argv):
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix='vp-')
    try:
        return run(argv)
    finally:
        if SCRATCH and SCRATCH.startswith(tempfile.gettempdir()):
            shutil.rmtree(SCRATCH, ignore_errors=True)


def build():
    so = os.path.join(SCRATCH, 'so')
    os.mkdir(so)
    r = subprocess.run([PY, os.path.join(HERE, 'falsify/base.py'), 'build', so], capture_output=True, text=True, env=env())
    if r.returncode:
        return so, {'*': r.stderr[-2000:]}
    return so, json.loads(r.stdout)


def run(argv):
    if argv[0] == '--replay':
        so, errs = build()
        d = json.load(open(argv[1]))
        if 'case' not in d:
            print(json.dumps(d, indent=1)[:6000])
            print('(no failing input was found for this obligation)')
            return 1
        r = subprocess.run([PY, os.path.join(HERE, 'falsify/base.py'), 'replay', d['module'], so, os.path.abspath(argv[1])], env=env(), cwd=SCRATCH)
        return r.returncode
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    spec = PROPS[prop]
    t0 = time.time()
    so, errs = build()
    e = env()
    procs = []
    work = os.path.join(SCRATCH, 'w')
    os.mkdir(work)
    # -- deductive part
    pout = os.path.join(SCRATCH, 'proofs.json')
    pp = None
    plimit = 780 if tier == 'quick' else 3000
    if spec.get('proofs'):
        pp = subprocess.Popen([VT, os.path.join(HERE, 'engine/run_proofs.py'), prop, pout, tier], env=e, cwd=work,
                              stdout=open(os.path.join(SCRATCH, 'p.log'), 'w'), stderr=subprocess.STDOUT, start_new_session=True)
    # -- contract evaluation on the real code
    nw = spec.get('workers', 4)
    budget = spec.get('budget', {}).get(tier, 150 if tier == 'quick' else 900)
    outs = []
    if spec.get('falsify'):
        for w in range(nw):
            out, j = os.path.join(SCRATCH, 'f%d.json' % w), os.path.join(SCRATCH, 'j%d' % w)
            cwd = os.path.join(work, str(w))
            os.mkdir(cwd)
            p = subprocess.Popen([PY, os.path.join(HERE, 'falsify/base.py'), 'worker', spec['falsify'], so, tier, str(seed), str(w), str(nw), j, out, str(budget)],
                                 env=e, cwd=cwd, stdout=open(out + '.log', 'w'), stderr=subprocess.STDOUT, start_new_session=True)
            outs.append((p, out, j))
    fails, nev, ndist, kinds, samples, problems, skipped = [], 0, 0, {}, [], [], 0
    deadline = time.time() + budget + 60
    for p, out, j in outs:
        why = None
        # a case that makes no progress for 60 s does not terminate
        while True:
            try:
                p.wait(2)
                break
            except subprocess.TimeoutExpired:
                if os.path.exists(j) and time.time() - os.path.getmtime(j) > 60:
                    why = 'did not terminate within 60 s'
                elif time.time() > deadline + 60:
                    why = 'over the time budget'
                if why:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    break
        if os.path.exists(out):
            r = json.load(open(out))
            nev += r['n']; ndist += r['distinct']; skipped += r['skipped']
            samples += r['samples']
            for k, v in r['kinds'].items():
                kinds[k] = kinds.get(k, 0) + v
            fails += r['fails']
            if r['error']:
                problems.append(r['error'])
        else:
            case = None
            try:
                case = json.load(open(j))
            except Exception:
                pass
            if case and why != 'over the time budget':
                fails.append([case[0], case[1], why or 'the process was killed by signal %d' % -p.returncode if p.returncode < 0 or why else 'the process exited with status %s' % p.returncode, None])
            else:
                problems.append('worker ended with status %s %s\n%s' % (p.returncode, why or '', open(out + '.log').read()[-2000:]))
    # -- proofs
    proofs = None
    if pp:
        try:
            pp.wait(max(5, plimit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            os.killpg(pp.pid, signal.SIGKILL)
            pp.wait()
        if os.path.exists(pout):
            proofs = json.load(open(pout))
        else:
            proofs = dict(obls=[['proof run', 'unknown', '', 0., 'the verifier did not finish: ' + open(os.path.join(SCRATCH, 'p.log')).read()[-2000:]]],
                          functions={}, assumptions=[], reached={}, bounded=[], secs=0.)
    if errs:
        problems.append('C extensions do not build: %s' % errs)
    # -- verdict
    kn = known(prop)
    bad, shown = [], set()
    for f in fails:
        tag = f[3]
        if tag is not None and any(k['id'] == tag for k in kn):
            shown.add(tag)
        else:
            bad.append(f)
    for k in kn:
        if k['id'] in shown:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    rc = 0
    failed = [o for o in proofs['obls'] if o[1] != 'proved'] if proofs else []
    rfile = os.path.join(HERE, 'replays', '%s.json' % prop)
    if bad:
        f = min(bad, key=lambda f: len(json.dumps(f[1])))
        with open(rfile, 'w') as h:
            json.dump(dict(property=prop, module=spec['falsify'], case=[f[0], f[1]], what=f[2],
                           failed_obligations=[o[:5] for o in failed[:20]]), h, indent=1)
        print('%s: contract broken on the real code, case %s %s\n  %s' % (prop, f[0], json.dumps(f[1])[:800], f[2][:1500]))
        for o in failed[:5]:
            print('  failed obligation: %s [%s]' % (o[0], o[1]))
        print('VIOLATION property=%s replay=%s' % (prop, rfile))
        rc = 1
    elif failed or problems:
        with open(rfile, 'w') as h:
            json.dump(dict(property=prop, failed_obligations=failed[:40], problems=problems), h, indent=1)
        for o in failed[:10]:
            print('  obligation not discharged: %s [%s] %s' % (o[0], o[1], o[4][:600]))
        for p in problems[:4]:
            print('  ' + p[-1500:])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rfile))
        rc = 1
    # -- evidence
    cov = dict(evaluations=nev, distinct_nontrivial=ndist, skipped_by_precondition=skipped, cases_by_kind=kinds,
               rule='contract evaluated on the real code over generated inputs (small-scope enumeration plus seeded random); an input is non-trivial when it meets the precondition and was not seen before in the same worker',
               samples=samples[:12])
    level = spec['level']
    if proofs:
        o = proofs['obls']
        be = {}
        for x in o:
            be[x[2]] = be.get(x[2], 0) + (x[1] == 'proved')
        cov.update(obligations=len(o), discharged=sum(x[1] == 'proved' for x in o), checker_cmd='python3-vt engine/run_proofs.py %s' % prop,
                   discharged_by=be, solver_seconds=round(sum(x[3] for x in o), 2), functions_under_contract=proofs['functions'],
                   reachable_returns=proofs['reached'], bounded_standins=proofs.get('bounded', []) + spec.get('bounded', []),
                   obligation_names=sorted({x[0] for x in o})[:400], trusted_base=proofs['assumptions'] + spec.get('trusted', []))
    else:
        cov.update(explanation='; '.join(spec.get('bounded', [])) or 'contract evaluation only')
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as h:
        json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, violations=int(rc),
                       assumptions=(proofs['assumptions'] if proofs else []) + spec.get('trusted', []), wall_s=round(time.time() - t0, 2)), h, indent=1)
    if rc == 0:
        print('%s: held: %s obligations discharged, %d contract evaluations on the real code (%.0f s)' % (prop, cov.get('discharged', 0), nev, time.time() - t0))
    return rc


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
