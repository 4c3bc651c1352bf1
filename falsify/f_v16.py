"""V16: smoothing, integration and differentiation follow their definitions, for any selection, and leave their inputs alone."""
import numpy as np
from base import fail, check, same, Skip
import gen


def cases(tier, rng):
    for src in gen.SRC:
        for n in (3, 4, 7):
            for o in (0, 1, 5):
                for L in (3, 4, 5, n):
                    if L > n:
                        continue
                    for fft in (0, 1):
                        yield 'smooth', dict(v=dict(axes=[['lat', n, o]], src=src, dtype='d', seed=3), ax=0, kern=[1 + .5 * i for i in range(L)], how=0, fft=fft, sel=5)
                for typ in ('trapz', 'rectl', 'rectr'):
                    for order in (1, -1):
                        yield 'integ', dict(v=dict(axes=[['lat', n, o], ['pres', 2, 0]], src=src, dtype='d', seed=3), ax=0, type=typ, order=order, dx=None, v0=None, sel=5)
                for df in ('left', 'right', 'centre', '2'):
                    yield 'deriv', dict(v=dict(axes=[['lat', n, o], ['pres', 2, 0]], src=src, dtype='d', seed=3), ax=0, df=df, dx=None, sel=5)
    for _ in range(2500 if tier == 'quick' else 70000):
        v = gen.rvar(rng, k=rng.choice([1, 2, 3]), nmax=6)
        ax = rng.randrange(len(v['axes']))
        k = rng.randrange(3)
        mem = rng.choice([None, None, None, 3, 10])
        if k == 0:
            v['axes'][ax][1] = n = rng.randrange(3, 14)
            L = rng.randrange(3, n + 1)
            yield 'smooth', dict(v=v, ax=ax, kern=[rng.choice([1, 2, .5, 3, 0.]) for _ in range(L)] if rng.random() < .7 else L, how=rng.randrange(4), fft=rng.randrange(2), sel=rng.randrange(1, 9999), mem=mem)
        elif k == 1:
            v['axes'][ax][1] = rng.randrange(2, 8)
            yield 'integ', dict(v=v, ax=ax, type=rng.choice(['trapz', 'rectl', 'rectr', 'trapz']), order=rng.choice([1, -1]), dx=rng.choice([None, None, '1d', 'nd', 'other']), v0=rng.choice([None, 2.5, 'var', 'all']), sel=rng.randrange(1, 9999), mem=mem)
        else:
            v['axes'][ax][1] = rng.randrange(3, 8)
            yield 'deriv', dict(v=v, ax=ax, df=rng.choice(['left', 'right', 'centre', '2']), dx=rng.choice([None, None, '1d', 'nd', 'other']), sel=rng.randrange(1, 9999), mem=mem)


def ends(n, p):
    while p < 0 or p >= n:
        p = -p - 1 if p < 0 else 2 * n - 1 - p
    return p


def finish(r, want, x, d, var, sel, mem, tol, what):
    """the whole result, selections of it, and the inputs afterwards"""
    import random
    import f_v02
    import contextlib
    with (f_v02.Limit(mem) if mem else contextlib.nullcontext()):
        check([type(a) for a in r.axes] == [type(a) for a in var.axes] and [gen.points(a) for a in r.axes] == [gen.points(a) for a in var.axes], '%s: axes of the result' % what)
        same(r.get(), want, what, tol)
        rng = random.Random(sel)
        for _ in range(3):
            ss = [gen.rsel(rng, m) for m in want.shape]
            y = r.slice[tuple(gen.pysel(s) for s in ss)]
            same(y.get(), gen.take(want, ss), '%s, selection' % what, tol, selection=ss)
        # used together with its own source
        same((r + var).get(), want + d, '%s, added to its source' % what, max(tol, 1e-5 if d.dtype == 'f' else 0), )
        same((var + r).slice[(slice(None, None, -1),) * d.ndim].get(), (want + d)[(slice(None, None, -1),) * d.ndim], '%s, added to its source' % what, max(tol, 1e-5 if d.dtype == 'f' else 0), )
    same(var.get(), d, '%s: the source afterwards' % what)


def tolerance(d):
    return (2e-5 if d.dtype == 'f' else 1e-10) * max(1., float(np.abs(d).max()))


def c_smooth(v, ax, kern, how, fft, sel, mem=None):
    import pygeode as pyg
    var, d = gen.var(v)
    n = d.shape[ax]
    if isinstance(kern, int):
        k = np.hanning(kern)
        arg = kern
    else:
        k = np.array(kern, 'd')
        if k.sum() == 0:
            raise Skip()
        arg = [list(kern), tuple(kern), np.array(kern, 'd'), np.array(kern, 'f')][how]
    keep = repr(arg)
    r = var.smooth([ax, var.axes[ax].name, type(var.axes[ax]), ax][how] if v['axes'][ax][0] not in ('nam', 'nam2', 't') else ax, arg, fft=bool(fft))
    check(repr(arg) == keep, 'the kernel given was changed', got=arg)
    k = k / k.sum()
    L = len(k)
    dd = np.moveaxis(d.astype('d'), ax, 0)
    want = np.zeros(dd.shape)
    for x in range(n):
        for j in range(L):
            want[x] += k[j] * dd[ends(n, x + (L - 1 - L // 2) - j)]
    finish(r, np.moveaxis(want, 0, ax), None, d, var, sel, mem, tolerance(d), 'smoothed')
    check(repr(arg) == keep, 'the kernel given was changed', got=arg)


def mkdx(var, d, ax, dx):
    """-> (argument, array of coordinates of the same number of dimensions as the variable)"""
    import pygeode as pyg
    n = d.shape[ax]
    shp = [1] * d.ndim
    shp[ax] = n
    a = var.axes[ax]
    if dx is None:
        return None, np.asarray(a.values, 'd').reshape(shp)
    p = np.asarray(gen.perm(n, 3), 'd') * 1.5 + 1
    if dx == '1d':
        return pyg.Var([a], values=p, name='dx'), p.reshape(shp)
    if dx == 'other':
        # its own axis, of the same length
        return pyg.Var([pyg.NamedAxis(np.arange(n) * 1., 'own')], values=p, name='dx'), p.reshape(shp)
    if d.ndim == 1:
        raise Skip()
    j = (ax + 1) % d.ndim
    q = np.asarray(gen.perm(n * d.shape[j], 8), 'd').reshape(d.shape[j], n) * .5 + 1
    shp[j] = d.shape[j]
    return pyg.Var([var.axes[j], a], values=q, name='dx'), (q if j < ax else q.T).reshape(shp)


def c_integ(v, ax, type, order, dx, v0, sel, mem=None):
    import pygeode as pyg
    var, d = gen.var(v)
    n = d.shape[ax]
    a, c = mkdx(var, d, ax, dx)
    kw = dict(type=type, order=order)
    if a is not None:
        kw['dx'] = a
    s0 = np.zeros([1 if i == ax else m for i, m in enumerate(d.shape)])
    if v0 == 'var' and d.ndim > 1:
        j = (ax + 1) % d.ndim
        z = np.arange(d.shape[j]) * 3. + 1
        kw['v0'] = pyg.Var([var.axes[j]], values=z, name='z')
        s0 = s0 + z.reshape([d.shape[i] if i == j else 1 for i in range(d.ndim)])
    elif v0 == 'all' and d.ndim > 1:
        z = gen.data([m for i, m in enumerate(d.shape) if i != ax], seed=4)
        kw['v0'] = pyg.Var([b for i, b in enumerate(var.axes) if i != ax], values=z, name='z')
        s0 = s0 + z.reshape(s0.shape)
    elif v0 == 2.5:
        kw['v0'] = v0
        s0 = s0 + v0
    r = var.integrate(ax if sel % 2 else var.axes[ax].name, **kw)
    dd, cc = np.moveaxis(d.astype('d'), ax, 0), np.moveaxis(np.broadcast_to(c, d.shape), ax, 0)
    want = np.zeros(dd.shape)
    want += np.moveaxis(s0, ax, 0)
    for x in range(n):
        for j in (range(x) if order == 1 else range(x, n - 1)):
            f = dict(trapz=.5 * (dd[j] + dd[j + 1]), rectl=dd[j], rectr=dd[j + 1])[type]
            want[x] += (cc[j + 1] - cc[j]) * f
    finish(r, np.moveaxis(want, 0, ax), None, d, var, sel, mem, tolerance(d) * max(1., float(np.abs(c).max())), 'integral')


def c_deriv(v, ax, df, dx, sel, mem=None):
    var, d = gen.var(v)
    n = d.shape[ax]
    a, c = mkdx(var, d, ax, dx)
    r = var.deriv(ax, df=df, **({} if a is None else dict(dx=a)))
    y, x = np.moveaxis(d.astype('d'), ax, 0), np.moveaxis(np.broadcast_to(c, d.shape), ax, 0).astype('d')
    want = np.zeros(y.shape)
    for i in range(n):
        if df == '2':
            l, m, h = (i - 1, i, i + 1) if 0 < i < n - 1 else (0, 1, 2) if i == 0 else (n - 3, n - 2, n - 1)
            want[i] = 2 * ((y[h] - y[m]) / (x[h] - x[m]) - (y[m] - y[l]) / (x[m] - x[l])) / (x[h] - x[l])
        else:
            l, h = dict(left=(i - 1, i), right=(i, i + 1), centre=(i - 1, i + 1))[df]
            if l < 0:
                l, h = 0, 1
            if h >= n:
                l, h = n - 2, n - 1
            want[i] = (y[h] - y[l]) / (x[h] - x[l])
    if not np.isfinite(want).all():
        raise Skip()
    finish(r, np.moveaxis(want, 0, ax), None, d, var, sel, mem, tolerance(d) * 10, 'derivative')
