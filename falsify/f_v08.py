"""V08: reductions equal the value computed from all the data at once, for every chunking, selection and data type."""
import numpy as np
from base import fail, check, same, Skip
import gen
from f_v02 import Limit

OPS = ['min', 'nanmin', 'max', 'nanmax', 'argmin', 'argmax', 'sum', 'nansum', 'mean', 'nanmean', 'variance', 'nanvariance', 'stdev', 'nanstdev']
WOPS = ['sum', 'nansum', 'mean', 'nanmean', 'variance']


def cases(tier, rng):
    for op in OPS:
        for dt in ('d', 'f', 'i', 'h', 'B', '?'):
            for nan in (0, 3):
                if nan and dt not in 'df':
                    continue
                for lim in (1, 2, 5, 1000):
                    yield 'red', dict(v=dict(axes=[['lat', 3, 0], ['pres', 4, 5]], src='view', dtype=dt, nan=nan, seed=4), op=op, over=[0] if 'arg' in op else [0, 1] if lim == 2 else [1],
                                      w=None, lim=lim, sels=None, ident=0)
    for _ in range(3500 if tier == 'quick' else 80000):
        op = rng.choice(OPS)
        w = None
        k = rng.choice([1, 2, 3, 3])
        v = gen.rvar(rng, k=k, nmax=5, dtypes=('d', 'd', 'f', 'i', 'h', 'B', '?'))
        if v['dtype'] in 'df' and rng.random() < .45:
            v['nan'] = rng.randrange(1, 99)
            if rng.random() < .3:
                v['allnan'] = 1
        if v['dtype'] in 'df' and rng.random() < .1:
            v['inf'] = 1
        over = sorted(rng.sample(range(k), 1 if 'arg' in op else rng.randrange(1, k + 1)))
        rng.shuffle(over)
        if op in WOPS and rng.random() < .6:
            sub = sorted(rng.sample(over, rng.randrange(1, len(over) + 1)))
            rng.shuffle(sub)
            w = rng.choice(['default', ['var', sub, rng.randrange(1, 99)], ['var', sub, rng.randrange(1, 99)]])
        keep = [i for i in range(k) if i not in over]
        sels = [gen.rsel(rng, v['axes'][i][1]) for i in keep] if rng.random() < .5 else None
        yield 'red', dict(v=v, op=op, over=over, w=w, lim=rng.choice([1, 2, 3, 4, 6, 9, 13, 30, 10 ** 6]), sels=sels, ident=rng.randrange(4), whole=rng.random() < .08)


def source(v):
    var, d = gen.var(v)
    if v.get('allnan') and d.ndim:
        d[tuple([0] + [slice(None)] * (d.ndim - 1))] = np.nan
        d[..., -1] = np.nan
    if v.get('inf'):
        d.ravel()[gen.perm(d.size, 3)[0]] = np.inf
        if d.size > 2:
            d.ravel()[gen.perm(d.size, 3)[1]] = -np.inf
    return gen.wrap([gen.axis(a) for a in v['axes']], d, v.get('src', 'mem')), d


def c_red(v, op, over, w, lim, sels, ident, whole=False):
    import pygeode as pyg
    var, d = source(v)
    if v.get('inf') and op not in ('min', 'max', 'nanmin', 'nanmax', 'argmin', 'argmax'):
        raise Skip()
    k = d.ndim
    if whole:
        over = list(range(k))
        if 'arg' in op:
            raise Skip()
    if 'arg' in op and np.isnan(d.astype('d')).any():
        raise Skip()
    if ident == 0:
        ids = list(over)
    elif ident == 1:
        ids = [var.axes[i].name for i in over]
    elif ident == 2:
        ids = [var.axes[i] for i in over]
    else:
        ids = [type(var.axes[i]) if not v['axes'][i][0].startswith('nam') else var.axes[i].name for i in over]
    # weights along each dimension
    kw, W = {}, None
    if w == 'default':
        names = [a for a in (list(range(k)) if whole else over) if hasattr(var.axes[a], 'weights')]
        W = np.ones([1] * k)
        for i in names:
            W = W * np.asarray(var.axes[i].weights).reshape([-1 if j == i else 1 for j in range(k)])
        if not names:
            W = None
        kw['weights'] = True
    elif w:
        r = np.random.RandomState(w[2])
        sub = w[1]
        wd = r.randint(1, 9, size=[d.shape[i] for i in sub]) * .5 + 1.
        kw['weights'] = pyg.Var([var.axes[i] for i in sub], values=wd)
        W = wd.transpose(np.argsort(sub)).reshape([d.shape[i] if i in sub else 1 for i in range(k)])
    elif op in WOPS:
        kw['weights'] = None if ident % 2 else False
    with Limit(lim):
        r = getattr(var, op)(*([] if whole else ids), **kw)
        keep = [i for i in range(k) if i not in over]
        if not isinstance(r, pyg.Var):
            got = np.asarray(r)
        else:
            check([a.name for a in r.axes] == [var.axes[i].name for i in keep], '%s: axes of the result' % op, got=[a.name for a in r.axes], over=over)
            for j, i in enumerate(keep):
                gen.check_axis(r.axes[j], var.axes[i], range(d.shape[i]), op)
            if sels and not whole and keep:
                r = r.slice[tuple(gen.pysel(s) for s in sels)]
            got = np.asarray(r.get())
    ax = tuple(over)
    x = d if op in ('min', 'max', 'argmin', 'argmax') or d.dtype.kind in 'iub' and op in ('sum',) and W is None else d.astype('d')
    ok = ~np.isnan(d.astype('d'))
    Wb = np.broadcast_to(W, d.shape) if W is not None else np.ones(d.shape)
    z = np.where(ok, d.astype('d'), 0)
    n = ok.sum(ax)
    with np.errstate(all='ignore'):
        if op in ('min', 'max'):
            want = getattr(np, op)(x, axis=ax)
        elif op in ('argmin', 'argmax'):
            want = getattr(np, op)(x, axis=over[0])
        elif op in ('nanmin', 'nanmax'):
            f = np.inf if op == 'nanmin' else -np.inf
            want = getattr(np, op[3:])(np.where(ok, d.astype('d'), f), axis=ax)
            want = np.where(n == 0, np.nan, want)
        elif op == 'sum':
            want = (d * W).sum(ax) if W is not None else d.sum(ax)
        elif op == 'nansum':
            want = (z * Wb).sum(ax)
        elif op == 'mean':
            want = (x * Wb).sum(ax) / Wb.sum(ax)
        elif op == 'nanmean':
            want = (z * Wb).sum(ax) / np.where(ok, Wb, 0).sum(ax)
        elif op in ('variance', 'stdev'):
            WS = Wb.sum(ax)
            m = (x * Wb).sum(ax, keepdims=True) / Wb.sum(ax, keepdims=True)
            want = (Wb * (x - m) ** 2).sum(ax) / (WS - 1)
            if np.any(np.abs(WS - 1) < .2):
                raise Skip()
        else:
            m = z.sum(ax, keepdims=True) / ok.sum(ax, keepdims=True)
            want = (np.where(ok, d.astype('d') - m, 0) ** 2).sum(ax) / (n - 1)
            want = np.where(n < 2, np.nan, want)
        if op.endswith('stdev'):
            want = np.sqrt(want)
    want = np.asarray(want)
    if sels and not whole and want.ndim:
        want = gen.take(want, sels)
    eps = 3e-7 if d.dtype == np.float32 or d.dtype.itemsize < 4 and False else 1e-14
    fin = np.where(np.isfinite(d.astype('d')), d.astype('d'), 0)
    scale = max(1., np.abs(fin).max())
    n = d.size
    if op in ('min', 'max', 'nanmin', 'nanmax', 'argmin', 'argmax') or d.dtype.kind in 'iub' and op == 'sum' and W is None:
        tol = 0
    elif 'var' in op:
        tol = eps * 60 * scale ** 2 * n
    elif 'std' in op:
        tol = 0
    else:
        tol = eps * 30 * n * scale
    if 'std' in op:
        # the squares agree (the root of a rounding error is not small)
        got, want, tol = np.asarray(got, 'd') ** 2, want ** 2, eps * 60 * scale ** 2 * n
        if np.isnan(want).any() != np.isnan(got).any():
            fail('stdev: missing values', got=got.tolist(), want=want.tolist())
    if got.shape != want.shape:
        fail('%s: shape of the result' % op, got=got.shape, want=want.shape)
    same(got, want, '%s over %s, weights %s, limit %d' % (op, over, w, lim), tol, data=d.tolist())
