"""C06: interpolation of columns with missing samples"""
from base import *
NAN = float('nan')


def valid(x, y, omit):
    import math
    p = [(a, b) for a, b in zip(x, y) if math.isfinite(a) and math.isfinite(b)]
    up = True
    for (a, _), (b, _) in zip(p, p[1:]):
        if a != b:
            up = b > a
            break
    if not up:
        p = p[::-1]
    if omit:
        q = []
        for s in p:
            if q and s[0] < q[-1][0]:
                continue
            q.append(s)
        p = q
    return p


MIN = dict(linear=2, polynomial=3, cspline=3, akima=5, cspline_periodic=2, akima_periodic=5)


def inside(p, t, typ):
    """value at t (within the range of the samples p)"""
    import numpy as np
    xs, ys = np.array([s[0] for s in p]), np.array([s[1] for s in p])
    if typ == 'linear':
        k = max(0, min(len(p) - 2, int(np.searchsorted(xs, t, side='right')) - 1))
        return ys[k] + (ys[k + 1] - ys[k]) * (t - xs[k]) / (xs[k + 1] - xs[k])
    if typ == 'polynomial':
        r = 0.
        for i in range(len(p)):
            w = 1.
            for j in range(len(p)):
                if j != i:
                    w *= (t - xs[j]) / (xs[i] - xs[j])
            r += ys[i] * w
        return r
    if typ == 'cspline':
        n = len(p)
        A, b = np.eye(n), np.zeros(n)
        h = np.diff(xs)
        for i in range(1, n - 1):
            A[i, i - 1], A[i, i], A[i, i + 1] = h[i - 1], 2 * (h[i - 1] + h[i]), h[i]
            b[i] = 6 * ((ys[i + 1] - ys[i]) / h[i] - (ys[i] - ys[i - 1]) / h[i - 1])
        m = np.linalg.solve(A, b)
        k = max(0, min(n - 2, int(np.searchsorted(xs, t, side='right')) - 1))
        d, e = t - xs[k], xs[k + 1] - t
        return (m[k] * e**3 + m[k + 1] * d**3) / (6 * h[k]) + (ys[k] / h[k] - m[k] * h[k] / 6) * e + (ys[k + 1] / h[k] - m[k + 1] * h[k] / 6) * d
    # any other kind: the library itself on exactly these samples
    from pygeode import interpcore
    out = np.empty(1)
    interpcore.interpgsl(1, len(p), 1, xs, ys, np.array([t]), out, 0, 0, NAN, NAN, typ, 0)
    return out[0]


def column(x, y, targets, typ, below, above, omit):
    p = valid(x, y, omit)
    if len(p) < MIN[typ]:
        return [NAN] * len(targets)
    if any(a[0] >= b[0] for a, b in zip(p, p[1:])):
        return 'error'
    out = []
    for t in targets:
        if t != t:
            out.append(NAN)
        elif t < p[0][0]:
            out.append(p[0][1] + below * (t - p[0][0]))
        elif t > p[-1][0]:
            out.append(p[-1][1] + above * (t - p[-1][0]))
        else:
            out.append(inside(p, t, typ))
    return out


def c_kernel(cols, xin, xout, typ, below, above, omit, before):
    """cols: values of each column; xin / xout: one list shared by the columns, or one list per column"""
    import numpy as np
    from guardmem import guard
    from pygeode import interpcore
    cols = [[NAN if v is None else v for v in c] for c in cols]
    lx, lo = isinstance(xin[0], list), isinstance(xout[0], list)
    fx = lambda q: [NAN if v is None else v for v in q]
    X = [fx(q) for q in xin] if lx else fx(xin)
    T = [fx(q) for q in xout] if lo else fx(xout)
    n, m = len(cols[0]), len(T[0] if lo else T)
    gx, gy, gt = [guard(np.array(q, 'd'), before) for q in (X, cols, T)]
    out = guard(np.full((len(cols), m), 7.25), before)
    want = [column(X[k] if lx else X, cols[k], T[k] if lo else T, typ, below, above, omit) for k in range(len(cols))]
    try:
        interpcore.interpgsl(len(cols), n, m, gx, gy, gt, out, int(lx), int(lo), below, above, typ, int(omit))
    except ValueError:
        check('error' in want, 'refused data with increasing (or decreasing) coordinates', x=X, y=cols)
        return
    check('error' not in want, 'repeated or non-monotonic coordinates accepted', x=X, y=cols, got=out.tolist())
    same(out, np.array(want).reshape(out.shape), 'interpolated columns', 1e-7, x=X, y=cols, targets=T, kind=typ)


def c_var(shape, ia, desc, xfield, tfield, nanfrac, targets, typ, below, above, seed, sel, perm):
    """interp.interpolate on a variable, and a selection of the result"""
    import numpy as np
    import pygeode as pyg
    from pygeode.interp import interpolate
    r = np.random.RandomState(seed)
    kinds = [pyg.Lat, pyg.Lon, pyg.TAxis]
    axes = []
    for k, n in enumerate(shape):
        v = np.cumsum(r.randint(1, 4, n)).astype('d')
        if k == ia:
            axes.append(pyg.ZAxis(v[::-1] if desc else v))
        else:
            axes.append(kinds[k](v * 3))
    data = r.randint(-20, 20, shape).astype('d')
    data[r.rand(*shape) < nanfrac] = np.nan
    var = pyg.Var(axes, values=data, name='v')
    zax = axes[ia]
    oax = pyg.Pres(np.array(targets, 'd'))
    inx = outx = None
    xv = np.broadcast_to(zax.values.reshape([-1 if k == ia else 1 for k in range(len(shape))]), shape).copy()
    if xfield:
        xv = xv + r.randint(0, 3, [1 if k == ia else n for k, n in enumerate(shape)])
        xv[r.rand(*shape) < nanfrac / 2] = np.nan
        p = r.permutation(len(shape)) if perm else range(len(shape))
        inx = pyg.Var([axes[i] for i in p], values=xv.transpose(p).copy(), name='x')
    rest = [k for k in range(len(shape)) if k != ia]
    oshape = [shape[k] for k in rest] + [len(targets)]
    tv = np.broadcast_to(np.array(targets, 'd'), oshape).copy()
    if tfield and rest:
        tv = tv + r.randint(0, 2, oshape[:-1] + [1])
        outx = pyg.Var([axes[k] for k in rest] + [oax], values=tv.copy(), name='t')
    Y = np.moveaxis(data, ia, -1)
    XV = np.moveaxis(xv, ia, -1)
    want = np.empty(oshape)
    for j in np.ndindex(*oshape[:-1]):
        w = column(XV[j].tolist(), Y[j].tolist(), tv[j].tolist(), typ, below, above, False)
        if w == 'error':
            raise Skip()
        want[j] = w
    out = interpolate(var, zax if seed % 2 else 'zaxis', oax, inx=inx, outx=outx, interp_type=typ, d_below=below, d_above=above)
    check([len(a) for a in out.axes] == oshape, 'shape of the interpolated variable')
    same(out.get(), want, 'interpolated variable', 1e-7)
    idx = [np.arange(n)[slice(*s)] for n, s in zip(oshape, sel)]
    if all(len(i) for i in idx):
        same(out.slice[tuple(slice(*s) for s in sel[:len(oshape)])].get(), want[np.ix_(*idx)], 'selection of the interpolated variable', 1e-7)
    check(var.get().tobytes() == data.tobytes(), 'input changed')


TYPES = ['linear', 'linear', 'linear', 'cspline', 'polynomial', 'akima', 'cspline']


def cases(tier, rng):
    import itertools
    # small scope: every pattern of missing samples / coordinates of short columns
    for n in (1, 2, 3, 4):
        for pat in itertools.product([0, 1, 2], repeat=n):
            for desc in (0, 1):
                x = [float(2 * k) for k in range(n)]
                if desc:
                    x = x[::-1]
                xi = [None if p == 2 else v for p, v in zip(pat, x)]
                y = [None if p == 1 else float(k * k + 1) for k, p in enumerate(pat)]
                for before in (False, True):
                    yield 'kernel', dict(cols=[y], xin=xi, xout=[-1., 0., 1., 2.5, 4., 7.], typ='linear', below=2., above=-3., omit=False, before=before)
                yield 'kernel', dict(cols=[y, [1.] * n], xin=[xi, x], xout=[-1., 0., 1., 2.5, 4., 7.], typ='linear', below=2., above=-3., omit=False, before=False)
    N = 2500 if tier == 'quick' else 30000
    for i in range(N):
        n, m, na = rng.randint(1, 9), rng.randint(1, 6), rng.randint(1, 4)

        def xs():
            v = sorted(rng.sample(range(-20, 40), n), reverse=rng.random() < .5)
            v = [float(q) / rng.choice([1, 2]) for q in v] if False else [float(q) for q in v]
            if rng.random() < .15 and n > 1:
                k = rng.randrange(n - 1)
                v[k] = v[k + 1]
            f = rng.choice([0, 0, .2, .6])
            return [None if rng.random() < f else q for q in v]
        lx, lo = rng.random() < .5, rng.random() < .5
        xin = [xs() for _ in range(na)] if lx else xs()
        ts = lambda: [rng.choice([rng.uniform(-30, 50), float(rng.randint(-20, 40))]) for _ in range(m)]
        f = rng.choice([0, .1, .3, .7, 1])
        yield 'kernel', dict(cols=[[None if rng.random() < f else round(rng.uniform(-9, 9), 2) for _ in range(n)] for _ in range(na)], xin=xin,
                             xout=[ts() for _ in range(na)] if lo else ts(), typ=rng.choice(TYPES), below=rng.choice([NAN if False else 0., 1.5, -2.]),
                             above=rng.choice([0., -1., 4.]), omit=rng.random() < .1, before=bool(i % 2))
        if i % 5 == 0:
            nd = rng.randint(1, 3)
            shape = [rng.randint(1, 4) for _ in range(nd)]
            ia = rng.randrange(nd)
            shape[ia] = rng.randint(2, 7)
            yield 'var', dict(shape=shape, ia=ia, desc=rng.random() < .5, xfield=rng.random() < .4 and nd > 1, tfield=rng.random() < .4, nanfrac=rng.choice([0, .1, .4]),
                              targets=sorted(rng.sample([q / 2. for q in range(-4, 40)], rng.randint(1, 5))), typ=rng.choice(TYPES), below=rng.choice([0., 2.]),
                              above=rng.choice([0., -1.]), seed=i, perm=rng.random() < .5,
                              sel=[rng.choice([[None, None, 1], [1, None, 1], [None, None, -1], [None, None, 2], [0, 1, 1]]) for _ in range(nd)])
