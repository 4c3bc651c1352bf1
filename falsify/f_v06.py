"""V06: forward differences and lags at any selection."""
import random
import numpy as np
from base import fail, check, same, Skip
import gen


def cases(tier, rng):
    for n in range(1, 5):
        for k in range(1, n + 1 if n < 4 else n):
            if k >= n:
                continue
            for a in [['s', None, None, None], ['s', None, None, -1], ['l', [0, 0]], ['i', -1], ['l', [n - k - 1, 0, n - k - 1]]]:
                yield 'diff', dict(v=dict(axes=[['lat', n, 0]], src='view', dtype='d', seed=2), i=0, n=k, sels=[a])
    for _ in range(1600 if tier == 'quick' else 40000):
        v = gen.rvar(rng, k=rng.choice([1, 2, 3]), nmax=5)
        i = rng.randrange(len(v['axes']))
        if rng.random() < .5:
            m = rng.randrange(2, 9)
            v['axes'][i][1] = m
            n = rng.randrange(1, min(m, 5))
            shp = [a[1] for a in v['axes']]
            shp[i] -= n
            yield 'diff', dict(v=v, i=i, n=n, sels=[gen.rsel(rng, s) for s in shp])
        else:
            v['dtype'] = rng.choice('df')
            if not any(a[0] == 'std' for a in v['axes']):
                v['axes'][i][0] = rng.choice(['std', 'm365'])
            i = [j for j, a in enumerate(v['axes']) if a[0] in ('std', 'm365')][0]
            m = rng.randrange(2, 8)
            v['axes'][i][1] = m
            v['axes'][i][2] = rng.choice([0, 0, 1])
            lags = rng.sample(range(-m - 1, m + 2), rng.randrange(1, 5))
            shp = [a[1] for a in v['axes']]
            shp = shp[:i + 1] + [len(lags)] + shp[i + 1:]
            yield 'lag', dict(v=v, i=i, lags=lags, reverse=rng.random() < .25, sels=[gen.rsel(rng, s) for s in shp])


def c_diff(v, i, n, sels):
    var, d = gen.var(v)
    x = var.diff(i, n)
    want = d
    for _ in range(n):
        lo = [slice(None)] * d.ndim
        hi = list(lo)
        lo[i], hi[i] = slice(None, -1), slice(1, None)
        want = want[tuple(hi)] - want[tuple(lo)]
    p = gen.points(var.axes[i])
    check(gen.points(x.axes[i]) == p[:len(p) - n], 'diff: axis', got=gen.points(x.axes[i]))
    same(x.get(), want, 'diff')
    same(x.slice[tuple(gen.pysel(s) for s in sels)].get(), gen.take(want, sels), 'diff: selection', selection=sels)


def c_lag(v, i, lags, reverse, sels):
    from pygeode.timeutils import lag
    var, d = gen.var(v)
    n = d.shape[i]
    lg = lags[::-1] if reverse else lags
    x = lag(var, i, list(lags), reverse=reverse)
    shape = d.shape[:i + 1] + (len(lags),) + d.shape[i + 1:]
    want = np.full(shape, np.nan, d.dtype)
    for j, l in enumerate(lg):
        for t in range(n):
            if 0 <= t + l < n:
                o = [slice(None)] * len(shape)
                o[i], o[i + 1] = t, j
                s = [slice(None)] * d.ndim
                s[i] = t + l
                want[tuple(o)] = d[tuple(s)]
    check(tuple(x.shape) == shape, 'lag: shape', got=x.shape, want=shape)
    same(x.get(), want, 'lag')
    same(x.slice[tuple(gen.pysel(s) for s in sels)].get(), gen.take(want, sels), 'lag: selection', selection=sels)
