"""V09: elementwise combination pairs values with equal coordinates."""
import random
import numpy as np
from base import fail, check, same, Skip
import gen

OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b, '<': lambda a, b: a < b, '**': lambda a, b: a ** 2 + b}


def cases(tier, rng):
    for _ in range(2500 if tier == 'quick' else 60000):
        k = rng.choice([1, 2, 3, 4])
        axes = gen.raxes(rng, k, 4)
        ops = []
        n = rng.choice([2, 2, 2, 3])
        for _ in range(n):
            m = rng.randrange(0, k + 1)
            ops.append(dict(ax=rng.sample(range(k), m), src=rng.choice(gen.SRC), dtype=rng.choice('ddfi'), sub=rng.choice([0, 0, 0, rng.randrange(1, 99)])))
        if all(not o['ax'] for o in ops):
            continue
        yield 'comb', dict(axes=axes, ops=ops, op=rng.choice(list(OPS)), sels=rng.randrange(9999))
    for _ in range(200 if tier == 'quick' else 4000):
        yield 'unary', dict(v=gen.rvar(rng), f=rng.choice(['abs', 'neg', 'exp', 'scalar', 'rscalar', 'sqrt']), sels=rng.randrange(9999))


def operand(o, axes, j, name=None):
    aa = [axes[i] for i in o['ax']]
    if o['src'] == 'lazy' and not aa:
        o = dict(o, src='mem')
    d = gen.data(tuple(len(a) for a in aa), o['dtype'], seed=13 + j) + np.array(1, o['dtype'])
    d = np.asarray(d, o['dtype'])
    return gen.wrap(aa, d, o['src'], name or 'v%d' % j), d


def c_comb(axes, ops, op, sels):
    """sub: the operand covers only part (in another order) of its last axis; pygeode then combines on that part"""
    A = [gen.axis(a) for a in axes]
    f = OPS[op]
    vs, ds, used = [], [], {}
    sub = {}
    for j, o in enumerate(ops):
        v, d = operand(o, A, j, 'v' if sels % 2 else None)  # (names don't identify variables)
        if o['sub'] and o['ax'] and o['ax'][-1] not in sub and len(A[o['ax'][-1]]) > 1:
            i = o['ax'][-1]
            n = len(A[i])
            pick = gen.perm(n, o['sub'])[:max(1, n - 1)]
            sub[i] = pick
            v = v.slice[tuple([slice(None)] * (len(o['ax']) - 1) + [pick])]
            d = np.take(d, pick, axis=-1)
            used[j] = i
        vs.append(v)
        ds.append(d)
    if len(sub) > 1:
        raise Skip()
    x, w = vs[0], None
    for v in vs[1:]:
        x = f(x, v)
    # the result, with axes identified by their coordinates
    names = {gen.axis(a).name if a[0] not in ('nam', 'nam2') else gen.axis(a).name: i for i, a in enumerate(axes)}
    got_ax = [names[a.name] for a in x.axes]
    union = sorted({i for o in ops for i in o['ax']})
    check(sorted(got_ax) == union, 'axes of the result are not the union of the operands\' axes, each once', got=[a.name for a in x.axes], want=[A[i].name for i in union])
    # points kept along each axis: all, or those of the part covered
    pts = {}
    for a, i in zip(x.axes, got_ax):
        full = gen.points(A[i])
        p = gen.points(a)
        check(set(p) <= set(full) and len(set(p)) == len(p), 'coordinates of the result', got=p, want=full)
        want = [full[k] for k in sub[i]] if i in sub else full
        check(sorted(p) == sorted(want), 'coordinates of the result along %s are not those common to the operands' % a.name, got=p, want=want)
        pts[i] = [full.index(q) for q in p]
    ref = []
    for j, (o, v) in enumerate(zip(ops, vs)):
        d = ds[j]
        idx = []
        for n_, i in enumerate(o['ax']):
            if used.get(j) == i:
                idx.append([sub[i].index(k) for k in pts[i]])
            else:
                idx.append(pts[i])
        d = d[np.ix_(*idx)] if idx else d
        # spread over the result's axes
        t = [o['ax'].index(i) for i in got_ax if i in o['ax']]
        d = d.transpose(t) if t else d
        ref.append(d.reshape([d.shape[[k for k in got_ax if k in o['ax']].index(i)] if i in o['ax'] else 1 for i in got_ax]))
    want = ref[0]
    with np.errstate(all='ignore'):
        for r in ref[1:]:
            want = f(want, r)
    want = np.broadcast_to(want, tuple(len(pts[i]) for i in got_ax))
    same(x.get(), want, 'values of the combination', tol=1e-6)
    rng = random.Random(sels)
    ss = [gen.rsel(rng, m) for m in want.shape]
    same(x.slice[tuple(gen.pysel(s) for s in ss)].get(), gen.take(want, ss), 'values of a selection of the combination', tol=1e-6, selection=ss)


def c_unary(v, f, sels):
    import pygeode as pyg
    var, d = gen.var(v)
    F = {'abs': (lambda x: pyg.absolute(x), np.abs), 'neg': (lambda x: -x, np.negative), 'exp': (lambda x: pyg.exp(x * 0.01), lambda x: np.exp(x * 0.01)),
         'scalar': (lambda x: x * 3 - 1, lambda x: x * 3 - 1), 'rscalar': (lambda x: 5 - x, lambda x: 5 - x), 'sqrt': (lambda x: pyg.sqrt(x), np.sqrt)}[f]
    x, want = F[0](var), F[1](d)
    check([gen.points(a) for a in x.axes] == [gen.points(a) for a in var.axes], 'axes')
    same(x.get(), want, f, tol=1e-6)
    rng = random.Random(sels)
    ss = [gen.rsel(rng, m) for m in want.shape]
    same(x.slice[tuple(gen.pysel(s) for s in ss)].get(), gen.take(want, ss), f + ' of a selection', tol=1e-6)
