"""V05: concatenation along an existing axis, along a new axis, of axes alone; any selection of the result."""
import random
import numpy as np
from base import fail, check, same, Skip
import gen


def cases(tier, rng):
    for _ in range(2500 if tier == 'quick' else 60000):
        v = gen.rvar(rng, k=rng.choice([1, 2, 3]), nmax=9, nmin=1)
        i = rng.randrange(len(v['axes']))
        n = v['axes'][i][1] = rng.randrange(2, 10)
        if rng.random() < .2:
            v['axes'][i][0] = 'm365' if not any(a[0] == 'std' for a in v['axes']) else v['axes'][i][0]
        k = rng.random()
        if k < .75:
            cuts = sorted(rng.sample(range(1, n), rng.randrange(1, min(n, 4))))
            yield 'cat', dict(v=v, i=i, cuts=cuts, named=rng.random() < .3, srcs=[rng.choice(gen.SRC) for _ in range(4)], dts=[rng.choice('dfi') for _ in range(4)] if rng.random() < .2 else None,
                              shuffle=rng.choice([0, 0, rng.randrange(1, 99)]), sels=rng.randrange(9999), re=rng.random() < .4)
        elif k < .88:
            yield 'stack', dict(v=v, m=rng.randrange(2, 5), sels=rng.randrange(9999))
        else:
            cuts = sorted(rng.sample(range(1, n), rng.randrange(1, min(n, 4))))
            yield 'axis', dict(a=v['axes'][i], cuts=cuts, shuffle=rng.choice([0, rng.randrange(1, 99)]))


def segs(n, cuts, shuffle):
    s = [list(range(a, b)) for a, b in zip([0] + cuts, cuts + [n])]
    if shuffle:
        random.Random(shuffle).shuffle(s)
    return s


def c_cat(v, i, cuts, named, srcs, dts, shuffle, sels, re):
    import pygeode as pyg
    var, d = gen.var(v)
    parts = segs(d.shape[i], cuts, shuffle)
    vs, ds = [], []
    for j, p in enumerate(parts):
        axes = list(var.axes)
        axes[i] = axes[i].slice[p]
        if re and j:   # segments with their own time reference
            from pygeode.timeaxis import Time
            if isinstance(axes[i], Time):
                axes[i] = type(axes[i])(units='seconds', **axes[i].auxarrays)
        dd = np.take(d, p, axis=i)
        if dts:
            dd = dd.astype(dts[j])
        vs.append(gen.wrap(axes, dd, srcs[j]))
        ds.append(dd)
    order = [k for p in parts for k in p]
    want = np.concatenate(ds, axis=i)
    try:
        c = pyg.concatenate(*vs, **dict(iaxis=i) if named else {}) if sels % 2 else pyg.concatenate(vs, **dict(iaxis=i) if named else {})
    except ValueError as e:
        raise
    check(tuple(c.shape) == want.shape, 'concat: shape', got=c.shape, want=want.shape)
    for k, a in enumerate(c.axes):
        if k != i:
            check(gen.points(a) == gen.points(var.axes[k]), 'concat: axis %d' % k)
        else:
            p = gen.points(var.axes[i])
            check(gen.points(a) == [p[o] for o in order], 'concat: joined axis is not the segments in order', got=gen.points(a), want=[p[o] for o in order])
            for nm, arr in var.axes[i].auxarrays.items():
                same(np.asarray(a.auxarrays[nm]), np.asarray(arr)[order], 'concat: auxiliary array %s' % nm)
    same(c.get(), want, 'concat: values')
    check(c.dtype == np.result_type(*ds) or c.get().dtype == c.dtype, 'concat: dtype')
    rng = random.Random(sels)
    for _ in range(3):
        ss = [gen.rsel(rng, m) for m in want.shape]
        same(c.slice[tuple(gen.pysel(s) for s in ss)].get(), gen.take(want, ss), 'concat: selection', selection=ss)
    same(c.slice[tuple([slice(None)] * i + [slice(None, None, -1)])].get(), np.flip(want, i), 'concat: reversed')


def c_stack(v, m, sels):
    import pygeode as pyg
    var, d = gen.var(v)
    ds = [d + np.array(100 * j, d.dtype) for j in range(m)]
    vs = [gen.wrap(var.axes, x, gen.SRC[(j + sels) % 4]) for j, x in enumerate(ds)]
    c = pyg.concatenate(*vs)
    want = np.stack(ds, axis=-1)
    same(c.get(), want, 'concat along a new axis')
    rng = random.Random(sels)
    for _ in range(3):
        ss = [gen.rsel(rng, k) for k in want.shape]
        same(c.slice[tuple(gen.pysel(s) for s in ss)].get(), gen.take(want, ss), 'concat along a new axis: selection', selection=ss)


def c_axis(a, cuts, shuffle):
    from pygeode.axis import concat
    ax = gen.axis(a)
    parts = segs(len(ax), cuts, shuffle)
    c = concat([ax.slice[p] for p in parts])
    order = [k for p in parts for k in p]
    gen.check_axis(c, ax, order, 'axis.concat')
