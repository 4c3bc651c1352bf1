"""V15: equality of axes is reflexive and symmetric, sees through copies, and never equates different coordinates."""
import copy
import numpy as np
from base import fail, check, same, Skip
import gen

KINDS = ['lat', 'lon', 'pres', 'height', 'z', 'x', 'y', 'nam', 'nam2', 'dummy', 'hybrid', 'station', 'axis', 'axis2', 'index', 'taxis', 'std', 'm365', 'm360', 'yearless', 'noyear']
# coordinates: starting value and steps
VALS = {'unit': (0., [1.]), 'fine': (1e5, [.5]), 'micro': (2., [1e-6]), 'tiny': (0., [1e-12, 3e-12]), 'huge': (1e15, [3e9]), 'neg': (-7.25, [.25, 1.5]), 'one': (1e-3, [1e-9]), 'mixed': (-1e4, [1e4, 1e-3, 5.]), 'desc': (100., [-2.5])}
CHG = ['none', 'copy', 'swap', 'shift1', 'perturb', 'short', 'long', 'rev', 'aux', 'kind', 'name', 'negz', 'list']


def cases(tier, rng):
    for k in KINDS:
        for v in VALS:
            for c in CHG:
                yield 'pair', dict(kind=k, vals=v, n=4, dtype='d', chg=c, seed=1, aux=0)
    for k in KINDS:
        for k2 in KINDS:
            yield 'kinds', dict(a=k, b=k2, n=3)
    for _ in range(3000 if tier == 'quick' else 100000):
        yield 'pair', dict(kind=rng.choice(KINDS), vals=rng.choice(list(VALS)), n=rng.randrange(1, 7), dtype=rng.choice(['d', 'd', 'f', 'i', 'l']), chg=rng.choice(CHG), seed=rng.randrange(1, 99999), aux=rng.randrange(6))
    for _ in range(1500 if tier == 'quick' else 50000):
        yield 'sym', dict(kind=rng.choice(KINDS), n=rng.randrange(1, 5), seed=rng.randrange(1, 99999), scale=rng.choice([1e-9, 1e-5, 1e-4, 1., 1e5, 1e9]), where=rng.choice(['vals', 'aux', 'both']))


def values(vals, n, dtype):
    s, st = VALS[vals]
    v = [s]
    while len(v) < n:
        v.append(v[-1] + st[len(v) % len(st)])
    v = np.array(v[:n], 'd')
    if dtype in 'il':
        v = np.round(v * (1 if abs(s) < 1e8 and min(map(abs, st)) > .1 else 1e3 if abs(s) <= 1e4 else 0) + np.arange(n))
    return v.astype(dtype)


def times(kind):
    return kind in ('std', 'm365', 'm360', 'yearless', 'noyear')


def mk(kind, v, aux, name=None):
    import pygeode as pyg
    from pygeode import axis as ax, timeaxis as tm
    kw = dict(aux)
    n = len(v)
    if kind in ('lat', 'lon', 'pres', 'height'):
        return dict(lat=pyg.Lat, lon=pyg.Lon, pres=pyg.Pres, height=ax.Height)[kind](v, name=name, **kw)
    if kind in ('z', 'x', 'y', 'taxis', 'axis', 'axis2'):
        return dict(z=ax.ZAxis, x=ax.XAxis, y=ax.YAxis, taxis=ax.TAxis, axis=ax.Axis, axis2=ax.Axis)[kind](v, name=name or ('zz' if kind == 'axis2' else None), **kw)
    if kind in ('nam', 'nam2', 'dummy'):
        return (ax.DummyAxis if kind == 'dummy' else ax.NamedAxis)(v, name or dict(nam='qx', nam2='rx', dummy='qx')[kind], **kw)
    if kind == 'hybrid':
        return ax.Hybrid(v, A=np.arange(n) * 3., B=np.arange(n) * .1, name=name, **kw)
    if kind == 'index':
        return ax.Index(v, name=name, **kw)
    if kind == 'station':
        return ax.Station(station=np.array(['s%r' % float(x) for x in v]), **kw)
    T = dict(std=tm.StandardTime, m365=tm.ModelTime365, m360=tm.ModelTime360, yearless=tm.Yearless, noyear=tm.StandardTime)[kind]
    iv = np.round((v.astype('d') - float(v[0])) / (np.min(np.abs(np.diff(v.astype('d')))) if n > 1 else 1.)).clip(-10**7, 10**7) if n > 1 else np.array([abs(hash(float(v[0]))) % 1000])
    a = T(values=iv, units='hours', startdate=dict(day=3) if kind == 'yearless' else dict(year=1999, month=12, day=30), **kw)
    if kind == 'noyear':
        from pygeode.timeutils import modify
        a = modify(a, exclude='year')
        if kw:
            raise Skip()
    return a


def auxof(i, n, seed):
    r = np.arange(n) + seed % 5
    return [{}, dict(p=r * 1.5), dict(p=np.where(r % 2 == 0, np.nan, r)), dict(p=np.array(['t%d' % x for x in r])), dict(p=r * 1000003 + 10**9), dict(p=r * 1., q=5)][i]


def eq(a, b):
    r, s = a == b, b == a
    check(isinstance(r, (bool, np.bool_)) and isinstance(s, (bool, np.bool_)), 'comparison does not give a truth value', got=(r, s))
    check(bool(r) == bool(s), 'equality is not symmetric', a=desc(a), b=desc(b), got=(r, s))
    check((a != b) == (not r) and (b != a) == (not s), '!= does not agree with ==', a=desc(a), b=desc(b))
    check(a == a and b == b and not a != a, 'equality is not reflexive')
    check(bool(a.alleq(b)) == bool(r), 'alleq does not agree with ==')
    return bool(r)


def desc(a):
    return (type(a).__name__, a.name, a.values.tolist(), {k: np.asarray(v).tolist() for k, v in a.auxarrays.items()}, a.auxatts)


def different(x, y):
    """clearly different coordinates: some pair further apart than a tenth of the spacing of either axis"""
    x, y = np.asarray(x, 'd'), np.asarray(y, 'd')
    d = np.abs(x - y)
    sp = min([np.abs(np.diff(z)).min() for z in (x, y) if len(z) > 1] or [np.inf])
    if np.isinf(sp):
        return bool(d[0] > 1e-4 * max(abs(x[0]), abs(y[0]), 1e-3))
    return bool(np.max(d) > 0.2 * sp)


def c_pair(kind, vals, n, dtype, chg, seed, aux):
    import pygeode as pyg
    v = values(vals, n, dtype)
    if len(set(v.tolist())) < n:
        raise Skip()
    # single precision can't hold these
    A = auxof(aux, n, seed)
    if times(kind) and 'p' in A and A['p'].dtype.kind == 'U' and False:
        raise Skip()
    a = mk(kind, v, A)
    if chg == 'none':
        b = mk(kind, v.copy(), auxof(aux, n, seed))
        check(eq(a, b), 'an axis made from the same things is not equal', a=desc(a), b=desc(b))
        b = mk(kind, v.tolist() if dtype == 'd' and kind != 'x' and False else v.copy(), auxof(aux, n, seed))
    elif chg == 'copy':
        for b in (copy.copy(a), copy.deepcopy(a), a.slice[:], a.slice[list(range(n))], a.slice[::-1].slice[::-1], a.rename(a.name)):
            check(eq(a, b), 'an exact copy is not equal', a=desc(a), b=desc(b))
        return
    elif chg == 'list':
        if kind == 'station' or dtype == 'f':
            raise Skip()
        b = mk(kind, np.array(v.tolist()), {k: np.array(x.tolist()) if hasattr(x, 'tolist') else x for k, x in auxof(aux, n, seed).items()})
        check(eq(a, b), 'an exact copy is not equal', a=desc(a), b=desc(b))
        return
    elif chg in ('swap', 'rev', 'shift1', 'perturb', 'short', 'long', 'negz'):
        w = v.copy()
        i = seed % n
        if chg == 'swap':
            if n < 2:
                raise Skip()
            j = (i + 1) % n
            w[i], w[j] = v[j], v[i]
        elif chg == 'rev':
            w = w[::-1].copy()
        elif chg == 'shift1':
            s, st = VALS[vals]
            w[i] = w[i] + (np.array(.5 * min(map(abs, st)), dtype) if dtype in 'df' else 1)
        elif chg == 'perturb':
            s, st = VALS[vals]
            w = w + (np.array(.4 * min(map(abs, st)), dtype) if dtype in 'df' else 1)
        elif chg == 'short':
            w = w[:-1]
        elif chg == 'long':
            w = np.concatenate([w, [w[-1] + 5]]).astype(dtype)
        elif chg == 'negz':
            w = w * 1. + 0.
            w[w == 0] = -0.
        if len(w) == 0 or len(set(w.tolist())) < len(w):
            raise Skip()
        b = mk(kind, w, auxof(aux, len(w), seed) if len(w) != n else auxof(aux, n, seed))
        r = eq(a, b)
        if len(a) != len(b):
            check(not r, 'axes of different length compare equal', a=desc(a), b=desc(b))
        elif times(kind):
            pa, pb = dates(a), dates(b)
            if pa != pb:
                check(not r, 'time axes with different dates compare equal', a=desc(a), b=desc(b))
            elif not A:
                check(r, 'time axes with the same dates differ', a=desc(a), b=desc(b))
        elif kind == 'station':
            check(r == (list(a.auxarrays['station']) == list(b.auxarrays['station'])), 'station axes', a=desc(a), b=desc(b))
        elif np.array_equal(v, w):
            # Lat weights follow from the coordinates
            check(r, 'axes with equal coordinates differ', a=desc(a), b=desc(b))
        elif different(v, w):
            check(not r, 'axes with different coordinates compare equal', a=desc(a), b=desc(b))
    elif chg == 'aux':
        B = auxof(aux, n, seed)
        if 'p' not in B:
            raise Skip()
        B['p'] = B['p'].copy()
        B['p'][seed % n] = dict(U='zz', i=7, f=1234.5)[B['p'].dtype.kind]
        b = mk(kind, v.copy(), B)
        eq(a, b)
        c = mk(kind, v.copy(), {})
        eq(a, c)
        eq(b, c)
        check(not a == 3 and not a == None and not a == 'x' and not a == v.tolist() and a != 3, 'an axis equals something which is not an axis')
    elif chg == 'kind':
        for k2 in KINDS:
            b = mk(k2, v.copy(), auxof(aux, n, seed) if k2 != 'noyear' else {})
            r = eq(a, b)
            if not (isinstance(a, type(b)) or isinstance(b, type(a))):
                check(not r, 'axes of different kinds compare equal', a=desc(a), b=desc(b))
    elif chg == 'name':
        if times(kind) or kind == 'station':
            raise Skip()
        b = mk(kind, v.copy(), auxof(aux, n, seed), name='other')
        r = eq(a, b)
        if kind in ('nam', 'nam2', 'dummy', 'axis', 'axis2'):
            check(not r, 'axes known by different names compare equal', a=desc(a), b=desc(b))
        else:
            check(r, 'axes of the same kind and coordinates differ', a=desc(a), b=desc(b))


def dates(a):
    ks = [k for k in a.allowed_fields if k in a.auxarrays]
    return [tuple(int(a.auxarrays[k][i]) for k in ks) for i in range(len(a))]


def c_kinds(a, b, n):
    v = np.arange(n) * 2.5 + 1
    x, y = mk(a, v, {}), mk(b, v, {})
    r = eq(x, y)
    if not (isinstance(x, type(y)) or isinstance(y, type(x))):
        check(not r, 'axes of different kinds compare equal', a=desc(x), b=desc(y))
    if a == b:
        check(r, 'axes made alike differ', a=desc(x))


def c_sym(kind, n, seed, scale, where):
    """nearly equal axes: whatever the answer, it does not depend on the order of the operands"""
    r = np.random.RandomState(seed)
    v = np.sort(r.rand(n)) * scale + (scale * r.choice([0, 0, 1, 10]))
    if len(set(v.tolist())) < n:
        raise Skip()
    for eps in (1e-5, 1.0005e-5, 1.00001e-5, 9.99999e-6, 1e-8, 1e-6, 3e-5):
        w, p, q = v.copy(), np.ones(n) * scale, np.ones(n) * scale
        if where in ('vals', 'both'):
            w = v * (1 + eps * r.rand(n)) if r.rand() < .5 else v * (1 + eps)
        if where in ('aux', 'both'):
            q = p * (1 + eps) + (1e-8 if r.rand() < .5 else 0)
        a, b = mk(kind, v, dict(p=p) if kind != 'noyear' else {}), mk(kind, w, dict(p=q) if kind != 'noyear' else {})
        eq(a, b)
        if kind == 'hybrid':
            from pygeode.axis import Hybrid
            a, b = Hybrid(v, A=p, B=p), Hybrid(w, A=q, B=p)
            eq(a, b)
