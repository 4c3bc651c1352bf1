"""V10: time aggregation uses exactly the samples of each period, for every calendar, selection and memory limit."""
import numpy as np
from base import fail, check, same, Skip
import gen
from f_v02 import Limit

FN = {'clim': dict(mean='climatology', nanmean='nanclimatology', stdev='climstdev', nanstdev='climnanstdev', count='climcount')}
for _p in ('daily', 'monthly', 'yearly', 'seasonal', 'diurnal'):
    FN[_p] = {o: _p + o for o in ('mean', 'nanmean', 'stdev', 'nanstdev', 'count')}
FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second')
CAL = {'std': 'StandardTime', '365': 'ModelTime365', '360': 'ModelTime360', 'yearless': 'Yearless'}
STEPS = {'years': ('days', 365), 'seasons': ('days', 46), 'months': ('days', 13), 'days': ('hours', 100), 'hours': ('hours', 7), 'minutes': ('minutes', 301), 'secs': ('seconds', 9001)}


def cases(tier, rng):
    for cal in CAL:
        for per in FN:
            for op in FN[per]:
                yield 'agg', dict(cal=cal, per=per, op=op, n=14, step=['hours', 190], start=[1999, 12, 25], other=[2], ti=0, lim=5, dtype='d', nan=0, seed=3, order=0, sels=None, fields=None, src='view')
    # the whole of a leap year, a common year and a century year: every day in its own season, month and year
    for cal in ('std', '365', '360'):
        for y in (1899, 1900, 1999, 2000, 2003, 2004):
            for per in ('seasonal', 'monthly', 'yearly', 'clim'):
                yield 'agg', dict(cal=cal, per=per, op='mean', n=800 if per != 'clim' else 750, step=['hours', 24], start=[y, 1, 1], other=[], ti=0, lim=10 ** 6, dtype='d', nan=0, seed=3, order=0, sels=None, fields=None, src='mem')
    for k in range(300 if tier == 'quick' else 4000):
        o = [rng.randrange(1, 4) for _ in range(k % 3)]
        yield 'trend', dict(cal=rng.choice(['std', '365', '360']), n=rng.randrange(2, 40), step=['days', rng.choice([30, 61, 92, 365, 180])], start=[rng.choice([1899, 1999, 2000]), rng.randrange(1, 13), 1],
                            res=rng.choice(['month', 'month', 'year']), other=o, ti=rng.randrange(0, len(o) + 1), lim=rng.choice([2, 5, 9, 40, 10 ** 6]), seed=rng.randrange(1, 99),
                            order=rng.choice([0, 0, 1]), sels=rng.choice([None, rng.randrange(1, 9999)]), src=rng.choice(gen.SRC))
    for _ in range(1500 if tier == 'quick' else 40000):
        cal = rng.choice(['std', 'std', '365', '360', 'yearless'])
        per = rng.choice(list(FN))
        u, m = STEPS[rng.choice(list(STEPS))]
        k = rng.choice([0, 1, 1, 2])
        other = [rng.randrange(1, 4) for _ in range(k)]
        n = rng.randrange(1, 24)
        sels = None
        if rng.random() < .5:
            sels = rng.randrange(1, 9999)
        yield 'agg', dict(cal=cal, per=per, op=rng.choice(list(FN[per])), n=n, step=[u, rng.randrange(1, m + 1)],
                          start=[rng.choice([1899, 1999, 2000, 2003, 4, -1]) if rng.random() < .8 else rng.randrange(-3000, 3000), rng.randrange(1, 13), rng.randrange(1, 29)],
                          other=other, ti=rng.randrange(0, k + 1), lim=rng.choice([1, 2, 3, 5, 9, 17, 40, 10 ** 6]), dtype=rng.choice(['d', 'd', 'f', 'i', 'h', 'B']),
                          nan=rng.choice([0, 0, 3, 5]), seed=rng.randrange(1, 99), order=rng.choice([0, 0, 1, 5]), sels=sels,
                          fields=rng.choice([None, None, None, 'month', 'day', 'hour', 'noyear']), src=rng.choice(gen.SRC))


def taxis(cal, n, step, start, order, fields):
    from pygeode import timeaxis
    from pygeode.timeutils import modify
    T = getattr(timeaxis, CAL[cal])
    vals = np.arange(n) * step[1]
    vals = vals[::-1] if order == 1 else vals[gen.perm(n, order)] if order else vals
    sd = dict(day=start[2]) if cal == 'yearless' else dict(year=start[0], month=start[1], day=start[2])
    t = T(values=vals, units=step[0], startdate=sd)
    if fields == 'noyear':
        t = modify(t, exclude='year')
    elif fields:
        if fields not in T.allowed_fields:
            raise Skip()
        t = modify(t, resolution=fields)
    return t


def keys(t, cal, per):
    f = [x for x in FIELDS if x in t.auxarrays]
    aux = {x: [int(y) for y in t.auxarrays[x]] for x in f}
    n = len(t)
    if per == 'seasonal':
        if cal not in ('std', '365') or not set(f) >= {'year', 'month', 'day'}:
            raise Skip()
        return ['year', 'season'], [(aux['year'][i] + (aux['month'][i] == 12), aux['month'][i] % 12 // 3 + 1) for i in range(n)]
    if per == 'clim':
        keep = [x for x in f if x != 'year']
    elif per == 'diurnal':
        keep = [x for x in f if x not in ('year', 'month', 'day')]
    else:
        last = dict(daily='day', monthly='month', yearly='year')[per]
        if cal == 'yearless' and last != 'day' or last not in f:
            raise Skip()
        keep = [x for x in f if FIELDS.index(x) <= FIELDS.index(last)]
    if not keep:
        raise Skip()
    return keep, [tuple(aux[x][i] for x in keep) for i in range(n)]


def c_agg(cal, per, op, n, step, start, other, ti, lim, dtype, nan, seed, order, sels, fields, src):
    import random
    import pygeode as pyg
    t = taxis(cal, n, step, start, order, fields)
    names, ks = keys(t, cal, per)
    full = [tuple(int(t.auxarrays[x][i]) for x in t.auxarrays) for i in range(n)]
    if len(set(full)) < n:
        raise Skip()
    groups = sorted(set(ks))
    axes = [gen.axis([k, m, 0]) for k, m in zip(['lat', 'pres'], other)]
    axes.insert(ti, t)
    d = gen.data(tuple(len(a) for a in axes), dtype, nan, seed)
    if seed % 7 == 0 and dtype in 'df':
        d = d * 0 + np.array(.1, dtype)      # a constant field: no spread at all
    if dtype in 'df' and seed % 3 == 0:
        d = d * np.array(.37, dtype)
    if dtype == 'h':
        d = (d.astype('i') * 999 % 32000).astype('h')
    v = gen.wrap(axes, d, src)
    with Limit(lim):
        r = getattr(pyg, FN[per][op])(v)
        check([a.name for i, a in enumerate(r.axes) if i != ti] == [a.name for i, a in enumerate(axes) if i != ti], 'axes of the result', got=[a.name for a in r.axes])
        o = r.axes[ti]
        got_k = [tuple(int(o.auxarrays[x][i]) for x in names) for i in range(len(o))]
        check(sorted(o.auxarrays) == sorted(names), 'fields of the output time', got=sorted(o.auxarrays), want=sorted(names))
        check(got_k == groups, '%s %s: output times' % (per, op), got=got_k[:40], want=groups[:40])
        y = r
        ss = None
        if sels:
            rng = random.Random(sels)
            ss = [gen.rsel(rng, m) for m in r.shape]
            y = r.slice[tuple(gen.pysel(s) for s in ss)]
        got = y.get()
    x = d.astype('d')
    ok = ~np.isnan(x)
    parts = []
    for g in groups:
        w = [i for i in range(n) if ks[i] == g]
        a, b = np.take(x, w, axis=ti), np.take(ok, w, axis=ti)
        z = np.where(b, a, 0)
        c = b.sum(ti)
        with np.errstate(all='ignore'):
            if op == 'mean':
                p = a.sum(ti) / len(w)
            elif op == 'nanmean':
                p = z.sum(ti) / c
            elif op == 'stdev':
                m = a.mean(ti, keepdims=True)
                p = ((a - m) ** 2).sum(ti) / (len(w) - 1)
                p = p if len(w) > 1 else p * np.nan
            elif op == 'nanstdev':
                m = z.sum(ti, keepdims=True) / b.sum(ti, keepdims=True)
                p = (np.where(b, a - m, 0) ** 2).sum(ti) / (c - 1)
                p = np.where(c > 1, p, np.nan)
            else:
                p = c
        parts.append(p)
    want = np.stack(parts, axis=ti).astype('d')
    if ss:
        want = gen.take(want, ss)
    got = np.asarray(got)
    scale = max(1., np.abs(np.where(ok, x, 0)).max())
    eps = 3e-7 if dtype == 'f' else 1e-14
    tol = 0 if op == 'count' else eps * 40 * n * scale
    if 'stdev' in op:
        check(got.shape == want.shape, '%s %s: shape' % (per, op), got=got.shape, want=want.shape)
        bad = np.isnan(got) & ~np.isnan(want)
        check(not bad.any(), '%s %s: missing although there are enough samples' % (per, op), got=got.tolist(), want=np.sqrt(want).tolist())
        got, tol = got.astype('d') ** 2, tol * scale * 2
        one = np.isnan(want)
        got = np.where(one & ~np.isfinite(got), np.nan, got)
    same(got, want, '%s %s on %s' % (per, op, t), tol, limit=lim, sel=ss)


def c_trend(cal, n, step, start, res, other, ti, lim, seed, order, sels, src):
    """least-squares line (value against seconds since the first time) through the samples of each period"""
    import random
    import pygeode as pyg
    t = taxis(cal, n, step, start, order, res)
    if 'month' not in t.auxarrays and 'day' not in t.auxarrays:
        raise Skip()
    names, ks = keys(t, cal, 'clim')
    full = [tuple(int(t.auxarrays[x][i]) for x in t.auxarrays) for i in range(n)]
    if len(set(full)) < n:
        raise Skip()
    groups = sorted(set(ks))
    if min(ks.count(g) for g in groups) < 2:
        raise Skip()
    axes = [gen.axis([k, m, 0]) for k, m in zip(['lat', 'pres'], other)]
    axes.insert(ti, t)
    d = gen.data(tuple(len(a) for a in axes), 'd', 0, seed)
    v = gen.wrap(axes, d, src)
    secs = np.asarray(t.reltime(units='seconds'), 'd')
    with Limit(lim):
        r = pyg.climtrend(v)
        o = r.axes[ti]
        got_k = [tuple(int(o.auxarrays[x][i]) for x in names) for i in range(len(o))]
        check(got_k == groups, 'climtrend: output times', got=got_k[:40], want=groups[:40])
        y, ss = r, None
        if sels:
            rng = random.Random(sels)
            ss = [gen.rsel(rng, m) for m in r.shape]
            y = r.slice[tuple(gen.pysel(s) for s in ss)]
        got = np.asarray(y.get())
    X = np.moveaxis(d, ti, 0)
    parts = []
    for g in groups:
        w = [i for i in range(n) if ks[i] == g]
        x, f = secs[w], X[w]
        xm, fm = x.mean(), f.mean(0)
        A = np.tensordot(x - xm, f - fm, 1) / ((x - xm) ** 2).sum()
        parts.append(np.stack([fm - A * xm, A], axis=-1))
    want = np.moveaxis(np.stack(parts, axis=0), 0, ti)
    scale = np.stack([np.full(want.shape[:-1], max(1., np.abs(d).max()) * (1 + secs.max() / secs.std())), np.full(want.shape[:-1], max(1., np.abs(d).max()) / secs.std())], axis=-1)
    if ss:
        want, scale = gen.take(want, ss), gen.take(scale, ss)
    check(got.shape == want.shape, 'climtrend: shape', got=got.shape, want=want.shape)
    same(got / scale, want / scale, 'climtrend on %s' % t, 1e-7, limit=lim, sel=ss)
