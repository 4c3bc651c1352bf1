"""Discharge every obligation of one property: each contract module offers tasks(prop) -> [(name, function)], run in parallel
worker processes.  A task takes (repo, Report)."""
import sys, os, json, time, importlib, multiprocessing as mp, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, '..', 'contracts'), os.path.join(HERE, '..')]
from registry import PROPS
REPO = os.environ.get('VP_REPO', '/repo')


def one(arg):
    mod, sub, k, tier = arg
    from core import Report, Obl
    rep = Report()
    t = time.time()
    name = '?'
    try:
        m = importlib.import_module(mod)
        name, f = m.tasks(sub, tier)[k]
        f(REPO, rep)
    except BaseException:
        rep.add(Obl('%s: %s' % (mod, name), 'unknown', detail='engine: ' + traceback.format_exc()[-2500:]))
    for e in rep.errors:
        rep.add(Obl(e, 'error'))
    if not rep.obls:
        rep.add(Obl('%s/%s: produces obligations' % (mod, name), 'error', detail='zero obligations'))
    return dict(task='%s:%s' % (mod, name), secs=time.time() - t,
                obls=[[o.name, o.status, o.backend, o.secs, (o.detail or '')[:3000] + ('\ncounter-model: %s' % str(o.model)[:1500] if o.model is not None and o.status != 'proved' else '')] for o in rep.obls],
                functions=rep.functions, assumptions=rep.assumptions, reached=rep.reached, bounded=getattr(rep, 'bounded', []))


def main(prop, out, tier):
    jobs = []
    for spec in PROPS[prop]['proofs']:
        mod, _, sub = spec.partition(':')
        m = importlib.import_module(mod)
        jobs += [(mod, sub, k, tier) for k in range(len(m.tasks(sub, tier)))]
    res = dict(obls=[], functions={}, assumptions=[], reached={}, bounded=[], tasks=[])
    with mp.Pool(min(8, max(1, len(jobs)))) as p:
        for r in p.imap_unordered(one, jobs):
            res['obls'] += r['obls']
            res['functions'].update(r['functions'])
            res['assumptions'] += [a for a in r['assumptions'] if a not in res['assumptions']]
            res['reached'].update(r['reached'])
            res['bounded'] += [a for a in r['bounded'] if a not in res['bounded']]
            res['tasks'].append([r['task'], round(r['secs'], 1)])
            print(r['task'], '%.1fs' % r['secs'], len(r['obls']), 'obligations', sum(o[1] != 'proved' for o in r['obls']), 'not proved', flush=True)
            for o in r['obls']:
                if o[1] != 'proved':
                    print('   ', o[1], o[0], o[4][:1500], flush=True)
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f)
    os.rename(out + '.tmp', out)


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':             # runs that can be repeated
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else '/dev/null', sys.argv[3] if len(sys.argv) > 3 else 'quick')
