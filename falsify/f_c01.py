from base import *
import cal

UN = {'seconds': 1, 'minutes': 60, 'hours': 3600, 'days': 86400}


def mk(kind):
    import pygeode
    return getattr(pygeode, cal.CLS[kind])


def sd(kind, ref, drop=()):
    F = cal.FLD if kind != 'yearless' else cal.FLD[2:]
    return {f: v for f, v in zip(cal.FLD, ref) if f in F and f not in drop}


def fields(kind):
    return cal.FLD if kind != 'yearless' else cal.FLD[2:]


def valid(kind, t):
    y, m, d, H, M, S = t
    if not (0 <= H < 24 and 0 <= M < 60 and 0 <= S < 60):
        return False
    if kind == 'yearless':
        return y == 0 and m == 1
    return 1 <= m <= 12 and 1 <= d <= cal.mlen(kind, y, m)


def c_kernel(kind, ref, offs):
    """the C kernels directly"""
    import numpy as np
    import pygeode.timeaxis as ta
    n = len(offs)
    val = np.array(offs, 'int64')
    v0 = val.copy()
    o = [np.full(n, -77, 'int32') for _ in cal.FLD]
    cls = mk(kind)
    cls._val_as_date(n, *ref, val, *o)
    check((val == v0).all(), 'the offsets given were modified')
    for i in range(n):
        t = tuple(int(a[i]) for a in o)
        want = cal.date(kind, cal.secs(kind, ref) + offs[i])
        check(valid(kind, t), 'not a valid date', date=t, offset=offs[i], ref=ref, want=want)
        check(t == want, 'wrong date', got=t, offset=offs[i], ref=ref, want=want)
    back = np.full(n, -77, 'int64')
    r = cls._date_as_val(n, *ref, *o, back)
    check(r == 0 and back.tolist() == list(offs), 'offset not recovered', got=back.tolist(), want=offs, ref=ref)


def c_axis(kind, ref, units, offs):
    """through the Time classes: values given in units"""
    import numpy as np
    cls = mk(kind)
    vals = np.array(offs, 'd') / UN[units]
    ax = cls(values=vals, units=units, startdate=sd(kind, ref))
    check(len(ax) == len(offs), 'length changed')
    for i, s in enumerate(offs):
        want = cal.date(kind, cal.secs(kind, ref) + s)
        got = {f: int(ax.auxarrays[f][i]) for f in fields(kind)}
        check(got == {f: v for f, v in zip(cal.FLD, want) if f in fields(kind)}, 'axis constructed from offsets has the wrong date', got=got, want=want, offset=s, units=units, ref=ref)
    same(ax.values, vals, 'offsets after construction', 1e-12)
    same(ax.date_as_val(), vals, 'date_as_val of own dates', 1e-12)
    d = ax.val_as_date(allfields=True)
    for u2 in UN:
        d2 = ax.val_as_date(np.array(offs, 'd') / UN[u2], units=u2, allfields=True)
        for f in cal.FLD:
            same(d2[f], d[f], 'val_as_date in %s' % u2)
    s = ax.val_as_date(vals[0])
    for f in fields(kind):
        check(int(s[f]) == int(ax.auxarrays[f][0]), 'val_as_date of a scalar differs from that of an array', field=f, got=s)
    back = ax.date_as_val({f: int(ax.auxarrays[f][-1]) for f in fields(kind)})
    check(abs(back - vals[-1]) <= 1e-9 * max(1, abs(vals[-1])), 'date_as_val of a scalar date', got=back, want=vals[-1])


def c_dates(kind, ref, units, dates):
    """from dates to offsets and back"""
    import numpy as np
    cls = mk(kind)
    F = fields(kind)
    kw = {f: np.array([t[cal.FLD.index(f)] for t in dates]) for f in F}
    keep = {f: a.copy() for f, a in kw.items()}
    ax = cls(units=units, startdate=sd(kind, ref), **kw)
    want = np.array([cal.secs(kind, t) - cal.secs(kind, ref) for t in dates], 'd') / UN[units]
    same(ax.values, want, 'offsets of given dates', 1e-12, ref=ref, dates=dates)
    back = ax.val_as_date(allfields=True)
    for f in F:
        same(back[f], keep[f], 'date recovered from offset, ' + f, ref=ref, dates=dates)
        same(ax.auxarrays[f], keep[f], 'auxiliary ' + f)
        same(kw[f], keep[f], 'caller array ' + f)
    ax2 = cls(values=ax.values, units=units, startdate=sd(kind, ref))
    for f in F:
        same(ax2.auxarrays[f], keep[f], 'axis rebuilt from offsets, ' + f)
    if kind != 'yearless' and ref[1:] == [1, 1, 0, 0, 0]:
        # fields left out of the reference date default to the beginning of the year
        v = ax.date_as_val(kw, startdate={'year': ref[0]}, units=units)
        same(v, want, 'offsets with the default fields of the reference date', 1e-12)


def c_datefmt(kind, ref, units, dates, fmt):
    import numpy as np
    cls = mk(kind)
    if fmt == 'yyyymmdd':
        vals = [t[0] * 10000 + t[1] * 100 + t[2] for t in dates]
        ax = cls(values=vals, datefmt=fmt, units=units, startdate=sd(kind, ref))
        nf = 3
    else:
        raise Skip()
    for i, t in enumerate(dates):
        got = [int(ax.auxarrays[f][i]) for f in cal.FLD[:nf]]
        check(got == list(t[:nf]), 'date parsed from number', got=got, want=t)
    want = np.array([cal.secs(kind, t[:nf] + [0] * (6 - nf)) - cal.secs(kind, ref) for t in dates], 'd') / UN[units]
    same(ax.values, want, 'offsets of parsed dates', 1e-12)


def cases(tier, rng):
    # small scope: every day of the years around the century rules, on every calendar, from references before, inside and after
    for kind in ('std', '365', '360', 'yearless'):
        for ref in ([1900, 1, 1, 0, 0, 0], [2000, 2, 29 if kind in ('std', '360') else 28, 13, 59, 59], [1, 1, 1, 0, 0, 0], [1899, 12, 30, 23, 0, 1], [2000, 3, 1, 0, 0, 0], [1904, 12, 31 if kind != '360' else 30, 0, 0, 0], [0, 1, 1, 0, 0, 0], [-5, 7, 4, 1, 2, 3]):
            if kind == 'yearless':
                ref = [0, 1] + ref[2:]
            for k in range(0, 2200, 200):
                yield 'kernel', dict(kind=kind, ref=ref, offs=[(k + j - 1100) * 86400 + (j * 7919) % 86400 for j in range(200)])
            for y in (-401, -101, -5, 3, 99, 399, 1599, 1699, 1999, 2099, 3999):
                b = cal.secs(kind, [y, 12, 1, 0, 0, 0]) - cal.secs(kind, ref) if kind != 'yearless' else y * 400000
                yield 'kernel', dict(kind=kind, ref=ref, offs=[b + j * 43200 - (j % 2) for j in range(260)])
                yield 'kernel', dict(kind=kind, ref=ref, offs=[b + j * 86400 - 1 + j % 3 for j in range(0, 1200, 3)])
    N = 500 if tier == 'quick' else 6000
    for i in range(N):
        kind = rng.choice(['std', 'std', 'std', '365', '360', 'yearless'])
        ref = cal.rand_date(rng, kind)
        units = rng.choice(list(UN))
        n = rng.randint(1, 6)
        span = rng.choice([100, 86400, 86400 * 40, 86400 * 800, 86400 * 40000, 86400 * 900000])
        offs = [rng.choice([rng.randint(-span, span), 86400 * (rng.randint(-span, span) // 86400), 86400 * (rng.randint(-span, span) // 86400) - 1]) for _ in range(n)]
        dates = [cal.rand_date(rng, kind, ref[0]) for _ in range(n)]
        yield 'kernel', dict(kind=kind, ref=ref, offs=offs)
        yield 'axis', dict(kind=kind, ref=ref, units=units, offs=offs)
        if rng.random() < .3:
            ref2 = [ref[0], 1, 1, 0, 0, 0]
        else:
            ref2 = ref
        yield 'dates', dict(kind=kind, ref=ref2 if kind != 'yearless' else ref, units=units, dates=dates)
        if kind != 'yearless' and i % 5 == 0:
            yield 'datefmt', dict(kind=kind, ref=ref, units=units, dates=[[abs(t[0])] + t[1:] if valid(kind, [abs(t[0])] + t[1:]) else [2001, 1, 1, 0, 0, 0] for t in dates], fmt='yyyymmdd')
