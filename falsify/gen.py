"""Shared generators: axes with distinct coordinates, variables with distinct values on every kind of source, selections, and numpy oracles."""
import random
import numpy as np
from base import fail, check, same, Skip

KINDS = ['lat', 'lon', 'pres', 't', 'nam', 'std', 'm365', 'nam2']
UNREL = ['lat', 'lon', 'pres', 'std', 'nam', 'nam2']   # pairwise unrelated kinds (no one can stand for another)


def perm(n, seed):
    r = list(range(n))
    random.Random(seed).shuffle(r)
    return r


def axis(spec):
    """[kind, n, order]: order 0 natural, 1 reversed, >1 shuffled with that seed"""
    import pygeode as pyg
    from pygeode.axis import TAxis
    from pygeode.timeaxis import StandardTime, ModelTime365
    kind, n, order = spec
    o = list(range(n)) if order == 0 else list(range(n))[::-1] if order == 1 else perm(n, order)
    o = np.array(o, dtype=int)
    if kind == 'lat':
        return pyg.Lat((np.linspace(-84., 87., 20)[:n] if n <= 20 else np.linspace(-84., 87., n))[o])
    if kind == 'lon':
        return pyg.Lon((np.arange(n) * 7.5)[o])
    if kind == 'pres':
        return pyg.Pres((1000. - 40. * np.arange(n) + 3. * (np.arange(n) % 3))[o])
    if kind == 't':
        return TAxis((np.arange(n) * 2.5 + 1)[o])
    if kind == 'nam':
        return pyg.NamedAxis((np.arange(n) * 1.5 - 2.)[o], 'qx')
    if kind == 'nam2':
        return pyg.NamedAxis((np.arange(n) ** 2 * 0.25)[o], 'rx')
    if kind == 'std':
        return StandardTime(values=(np.arange(n) * 9)[o], units='days', startdate=dict(year=1999, month=12, day=20))
    if kind == 'm365':
        return ModelTime365(values=(np.arange(n) * 36)[o], units='hours', startdate=dict(year=4, month=2, day=20))
    raise ValueError(kind)


def data(shape, dtype='d', nan=0, seed=7):
    n = int(np.prod(shape, dtype=int))
    a = np.array(perm(n, seed), dtype=dtype).reshape(shape)
    if dtype in ('d', 'f'):
        a = a * np.array(0.5, dtype) + np.array(1.25, dtype)
        if nan:
            a.ravel()[perm(n, nan)[:max(1, n // 4)]] = np.nan
    return a


def var(spec):
    """{axes:[axis spec..], src:, dtype:, nan:} -> (pygeode variable, numpy array of the same data)"""
    from pygeode.var import Var
    axes = [axis(a) for a in spec['axes']]
    d = data(tuple(len(a) for a in axes), spec.get('dtype', 'd'), spec.get('nan', 0), spec.get('seed', 7))
    return wrap(axes, d, spec.get('src', 'mem')), d


def wrap(axes, d, src='mem', name='v'):
    from pygeode.var import Var

    class ViewSrc(Var):
        def __init__(self):
            Var.__init__(self, axes, dtype=d.dtype, name=name)

        def getview(self, view, pbar):
            for ind, n in zip(view.integer_indices, d.shape):
                check(len(ind) == 0 or (min(ind) >= 0 and max(ind) < n), 'source asked for positions outside its axis', ind=list(ind), n=n)
            return d[np.ix_(*view.integer_indices)].copy() if d.ndim else d.copy()

    class ValSrc(Var):
        def __init__(self):
            Var.__init__(self, axes, dtype=d.dtype, name=name)

        def getvalues(self, start, count):
            for s, c, n in zip(start, count, d.shape):
                check(0 <= s and c >= 1 and s + c <= n, 'source asked for a range outside its axis', start=list(start), count=list(count), shape=d.shape)
            return d[tuple(slice(s, s + c) for s, c in zip(start, count))].copy()
    if src == 'mem':
        return Var(axes, values=d.copy(), name=name)
    if src == 'view':
        return ViewSrc()
    if src == 'vals':
        return ValSrc()
    if src == 'lazy':
        return Var(axes, values=d.copy(), name=name) * np.array(1, d.dtype)[()]
    raise ValueError(src)


SRC = ['mem', 'view', 'vals', 'lazy']


# ---- selections: ['s', a, b, c] slice, ['i', k] integer, ['l', [..]] list
def pysel(s):
    return slice(*s[1:]) if s[0] == 's' else s[1] if s[0] == 'i' else list(s[1])


def idx(s, n):
    r = list(range(n))
    if s[0] == 's':
        return r[slice(*s[1:])]
    if s[0] == 'i':
        return [r[s[1]]]
    return [r[k] for k in s[1]]


def rsel(rng, n, empty=False, neg=True, ints=True):
    for _ in range(50):
        k = rng.random()
        if k < .45:
            c = rng.choice([None, 1, 2, 3, -1, -2, -3])
            lo, hi = (-n - 2, n + 3) if neg else (0, n + 1)
            s = ['s', rng.choice([None, rng.randrange(lo, hi)]), rng.choice([None, rng.randrange(lo, hi)]), c]
        elif k < .6 and ints:
            s = ['i', rng.randrange(-n if neg else 0, n)]
        elif k < .7:
            s = ['s', None, None, rng.choice([None, -1])]
        else:
            m = rng.randrange(1, n + 3)
            s = ['l', [rng.randrange(-n if neg else 0, n) for _ in range(m)]]
        if empty or idx(s, n):
            return s
    return ['s', None, None, None]


def take(a, sels):
    for i, s in enumerate(sels):
        a = np.take(a, idx(s, a.shape[i]), axis=i)
    return a


def raxes(rng, k, nmax=6, kinds=UNREL, orders=(0, 0, 1, 5, 11), nmin=1):
    ks = rng.sample(kinds, k)
    return [[x, rng.randrange(nmin, nmax + 1), rng.choice(orders)] for x in ks]


def rvar(rng, k=None, nmax=5, srcs=SRC, dtypes=('d', 'd', 'f', 'i'), **kw):
    if k is None:
        k = rng.choice([1, 2, 2, 3])
    return dict(axes=raxes(rng, k, nmax, **kw), src=rng.choice(srcs), dtype=rng.choice(dtypes), seed=rng.randrange(1, 1000))


def axvals(ax, want_aux=True):
    """what identifies each point of an axis"""
    return [tuple([round(float(ax.values[i]), 9)]) for i in range(len(ax))]


def points(ax):
    """calendar date or coordinate value of every point of an axis"""
    from pygeode.timeaxis import Time
    if isinstance(ax, Time):
        ks = sorted(ax.auxarrays)
        return [tuple((k, int(ax.auxarrays[k][i])) for k in ks) for i in range(len(ax))]
    return [float(x) for x in ax.values]


def check_axis(ax, src, ind, what):
    p = points(src)
    same_pts = points(ax) == [p[i] for i in ind]
    check(same_pts, '%s: coordinates of the result are not those of the selected positions' % what, got=points(ax), want=[p[i] for i in ind])
    check(type(ax) is type(src), '%s: the kind of axis changed' % what, got=type(ax).__name__, want=type(src).__name__)
    for k, a in src.auxarrays.items():
        check(k in ax.auxarrays, '%s: auxiliary array %s lost' % (what, k))
        same(np.asarray(ax.auxarrays[k]), np.asarray(a)[list(ind)], '%s: auxiliary array %s' % (what, k))
