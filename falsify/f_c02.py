from base import *
import cal
from f_c01 import UN, mk, sd, fields, valid


def c_kernel(kind, ref, dates):
    import numpy as np
    cls = mk(kind)
    n = len(dates)
    a = [np.array([t[k] for t in dates], 'int32') for k in range(6)]
    keep = [x.copy() for x in a]
    v = np.full(n, -77, 'int64')
    r = cls._date_as_val(n, *ref, *a, v)
    check(r == 0, 'kernel reports failure', dates=dates)
    for i, t in enumerate(dates):
        want = cal.secs(kind, t) - cal.secs(kind, ref)
        check(int(v[i]) == want, 'offset is not the elapsed time', got=int(v[i]), want=want, date=t, ref=ref)
    check(all((x == y).all() for x, y in zip(a, keep)), 'input fields modified')


def c_order(kind, ref, units, dates, ref2):
    """later dates have larger offsets, rebasing shifts by a constant; through the axis class"""
    import numpy as np
    cls = mk(kind)
    F = fields(kind)
    dates = sorted(dates)
    kw = {f: np.array([t[cal.FLD.index(f)] for t in dates]) for f in F}
    ax = cls(units=units, startdate=sd(kind, ref), **kw)
    want = [cal.secs(kind, t) - cal.secs(kind, ref) for t in dates]
    same(ax.values, np.array(want, 'd') / UN[units], 'offsets', 1e-12)
    for i in range(len(dates) - 1):
        check((ax.values[i] < ax.values[i + 1]) == (dates[i] < dates[i + 1]), 'a later date must have a larger offset', a=dates[i], b=dates[i + 1], va=ax.values[i], vb=ax.values[i + 1])
    for u2 in UN:
        v2 = ax.date_as_val(startdate=sd(kind, ref2), units=u2)
        shift = (cal.secs(kind, ref) - cal.secs(kind, ref2)) / UN[u2]
        same(v2, np.array(want, 'd') / UN[u2] + shift, 'offsets after re-basing', 1e-11, ref=ref, ref2=ref2)
    from pygeode import timeutils
    if kind != 'yearless':
        v3 = timeutils.reltime(ax, startdate=sd(kind, ref2), units='hours')
        same(v3, (np.array(want, 'd') + cal.secs(kind, ref) - cal.secs(kind, ref2)) / 3600, 'reltime', 1e-11)
        d = timeutils.date_diff(ax, sd(kind, ref), sd(kind, ref2), units)
        check(abs(d - (cal.secs(kind, ref2) - cal.secs(kind, ref)) / UN[units]) < 1e-9 * max(1, abs(d)), 'date_diff', got=d)
        for t in dates[:2]:
            L = ax.days_in_month(t[0], t[1])
            check(round(float(L), 6) == cal.mlen(kind, t[0], t[1]), 'days_in_month', got=L, date=t)


def c_partial(kind, ref, dates, fields_, units):
    """axes which define only some fields: missing ones count from the beginning of the period"""
    import numpy as np
    cls = mk(kind)
    dflt = dict(zip(cal.FLD, [0, 1, 1, 0, 0, 0]))
    kw = {f: np.array([t[cal.FLD.index(f)] for t in dates]) for f in fields_}
    full = [[t[k] if f in fields_ else dflt[f] for k, f in enumerate(cal.FLD)] for t in dates]
    full = [t[:2] + [min(t[2], cal.mlen(kind, t[0], t[1]))] + t[3:] for t in full]
    for i, t in enumerate(full):
        if 'day' in kw:
            kw['day'][i] = t[2]
    s = {f: v for f, v in zip(cal.FLD, ref) if f in fields_}
    r = [s.get(f, dflt[f]) for f in cal.FLD]
    r[2] = min(r[2], cal.mlen(kind, r[0], r[1]))
    if 'day' in s:
        s['day'] = r[2]
    ax = cls(units=units, startdate=s, **kw)
    want = np.array([cal.secs(kind, t) - cal.secs(kind, r) for t in full], 'd') / UN[units]
    same(ax.values, want, 'offsets of a partially defined date', 1e-12, fields=fields_)


def cases(tier, rng):
    for kind in ('std', '365', '360'):
        for ref in ([1900, 1, 1, 0, 0, 0], [2000, 2, 28, 13, 59, 59], [1, 1, 1, 0, 0, 0], [-3, 5, 6, 1, 1, 1]):
            for y in (-401, -400, -101, -100, -5, -4, -1, 0, 1, 3, 4, 100, 400, 1600, 1700, 1896, 1900, 1904, 1999, 2000, 2001, 2100):
                ds = []
                for m in range(1, 13):
                    L = cal.mlen(kind, y, m)
                    ds += [[y, m, 1, 0, 0, 0], [y, m, L, 23, 59, 59], [y, m, 15, 6, 7, 8]]
                yield 'kernel', dict(kind=kind, ref=ref, dates=ds)
    N = 500 if tier == 'quick' else 6000
    for i in range(N):
        kind = rng.choice(['std', 'std', 'std', '365', '360', 'yearless'])
        ref, ref2 = cal.rand_date(rng, kind), cal.rand_date(rng, kind)
        units = rng.choice(list(UN))
        dates = [cal.rand_date(rng, kind, ref[0]) for _ in range(rng.randint(1, 6))]
        yield 'kernel', dict(kind=kind, ref=ref, dates=dates)
        yield 'order', dict(kind=kind, ref=ref, units=units, dates=dates, ref2=ref2)
        if kind != 'yearless':
            fs = rng.choice([['year', 'month'], ['year'], ['month', 'day'], ['month'], ['year', 'month', 'day'], ['month', 'day', 'hour'], ['year', 'month', 'day', 'hour']])
            yield 'partial', dict(kind=kind, ref=ref, dates=dates, fields_=fs, units=units)
