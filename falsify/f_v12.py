"""V12: time axes survive being written as units-since-reference metadata."""
import os
import numpy as np
from base import fail, check, same, Skip
import gen

CAL = {'std': 'StandardTime', '365': 'ModelTime365', '360': 'ModelTime360', 'yearless': 'Yearless'}
SEC = {'seconds': 1, 'minutes': 60, 'hours': 3600, 'days': 86400}


def cases(tier, rng):
    for cal in CAL:
        for u in SEC:
            for start in ([1, 1, 1, 0, 0, 0], [1999, 12, 31, 23, 59, 58], [2000, 2, 28, 6, 7, 8], [9999, 1, 30, 12, 0, 5], [900, 3, 1, 0, 30, 0], None):
                for vals in ([0], [0, 1, 2, 3], [59, 365, 366, 1461], [-1, -400, 30]):
                    yield 'rt', dict(cal=cal, units=u, start=start, secs=[v * SEC[u] for v in vals], via='mem', fields=None, sub=False)
    for via in ('netcdf4', 'netcdf4v3', 'netcdf'):
        for cal in CAL:
            for u in SEC:
                yield 'rt', dict(cal=cal, units=u, start=[2000, 2, 28, 6, 7, 8], secs=[0, 86400, 3 * 86400 + 3661, -86400 * 400], via=via, fields=None, sub=False)
    for _ in range(2200 if tier == 'quick' else 60000):
        cal = rng.choice(list(CAL))
        u = rng.choice(list(SEC))
        start = [rng.choice([rng.randrange(1, 10000), 1, 4, 1582, 1899, 1900, 1999, 2000, 9999, 0]), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60)]
        for i in range(1, 6):
            if rng.random() < .3:
                start[i] = 1 if i < 3 else 0
        n = rng.randrange(1, 8)
        m = rng.choice([60, 86400, 86400 * 30, 86400 * 366, 86400 * 366 * 30])
        secs = sorted(rng.sample(range(-m, m), n)) if rng.random() < .7 else [rng.randrange(-m, m) for _ in range(n)]
        if rng.random() < .4:
            secs = [s // SEC[u] * SEC[u] for s in secs]
        yield 'rt', dict(cal=cal, units=u, start=start if rng.random() < .85 else None, secs=secs, via='mem', fields=rng.choice([None, None, None, 'month', 'day', 'hour', 'noyear']), sub=rng.random() < .3)


def taxis(cal, units, start, secs, fields):
    from pygeode import timeaxis
    from pygeode.timeutils import modify
    T = getattr(timeaxis, CAL[cal])
    nm = ['year', 'month', 'day', 'hour', 'minute', 'second']
    vals = np.array(secs, 'd') / SEC[units]
    s = start or [1970, 1, 1, 0, 0, 0]
    sd = dict(zip(nm, s))
    if cal == 'yearless':
        del sd['year'], sd['month']
    t = T(values=vals, units=units, startdate=sd)
    if start is None:
        # given by its dates only: the first date is the reference
        t = T(units=units, **{k: v for k, v in t.auxarrays.items()})
    if fields == 'noyear':
        if cal == 'yearless':
            raise Skip()
        # a climatological axis has no year at all
        t = modify(t, exclude='year')
    elif fields:
        if fields not in T.allowed_fields:
            raise Skip()
        t = modify(t, resolution=fields)
    if 'year' in t.auxarrays:
        if min(t.auxarrays['year']) < 0 or t.startdate['year'] < 0 or t.startdate['year'] == 0 and max(t.auxarrays['year']) == 0:
            raise Skip()      # year 0 stands for a climatology in files, unless the times leave that year
    return t


def c_rt(cal, units, start, secs, via, fields, sub):
    import pygeode as pyg
    from pygeode.formats.cfmeta import encode_cf, decode_cf
    t = taxis(cal, units, start, secs, fields)
    p = [tuple(int(t.auxarrays[k][i]) for k in sorted(t.auxarrays)) for i in range(len(t))]
    if len(set(p)) < len(p):
        raise Skip()
    if sub and len(t) > 2:
        t = t.slice[1:] if hasattr(t, 'slice') else t
    x = np.arange(len(t)) * 1. + 3
    v = pyg.Var([t], values=x, name='v')
    if via == 'mem':
        e = encode_cf(v)
        a = [a for a in e.axes if a.name == t.name][0]
        check(type(a).__name__ == 'NamedAxis', 'encoded axis', got=type(a))
        r = decode_cf(e)
    else:
        import importlib
        m = importlib.import_module('pygeode.formats.' + via.replace('v3', ''))
        fn = 't%d.nc' % os.getpid()
        if os.path.exists(fn):
            os.unlink(fn)
        m.save(fn, v, **({'version': 3} if via == 'netcdf4v3' else {}))
        r = m.open(fn)
    o = r.v.axes[0]
    check(type(o) is type(t), 'calendar', got=type(o).__name__, want=type(t).__name__)
    same(r.v.get(), x, 'values')
    f = [k for k in t.allowed_fields if k in t.auxarrays]
    for k in f:
        check(k in o.auxarrays, 'field %s lost' % k, got=sorted(o.auxarrays))
    got = [[int(y) for y in o.auxarrays[k]] for k in f]
    want = [[int(y) for y in t.auxarrays[k]] for k in f]
    check(got == want, 'dates', fields=f, got=got, want=want, encoded=[dict(startdate=t.startdate, units=t.units)])
    check(('year' in o.auxarrays) == ('year' in t.auxarrays), 'climatology or not', got=sorted(o.auxarrays))
    for k in o.auxarrays:
        if k not in f:
            check(all(int(y) == (1 if k in ('month', 'day') else 0) for y in o.auxarrays[k]), 'field %s appeared' % k, got=list(o.auxarrays[k]))
