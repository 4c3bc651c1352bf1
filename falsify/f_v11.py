"""V11: packed values, fill values and missing-value markers decode exactly."""
import os
import numpy as np
from base import fail, check, same, Skip
import gen

def FN(x):
    return '%s%d.nc' % (x, os.getpid())


INTS = ['b', 'B', 'h', 'H', 'i', 'l']


def cases(tier, rng):
    for dt in INTS + ['f', 'd']:
        for fv in (0, 1, 7, -1, 100):
            if fv < 0 and dt in 'BH':
                continue
            for att in ('_FillValue', 'missing_value', 'FillValue'):
                for so in ((None, None), (.5, None), (None, 10.), (.01, 273.15)):
                    yield 'decode', dict(dtype=dt, n=9, fills=[[att, fv]], so=list(so), sot='d', seed=4, big=0, sel=None, via='mem')
    for name in ('netcdf4', 'netcdf4v3', 'netcdf'):
        for fv in (0, 5, -32768):
            yield 'decode', dict(dtype='h', n=9, fills=[['_FillValue', fv]], so=[.25, -3.], sot='d', seed=4, big=0, sel=None, via=name)
        for k in ('plain', 'nan', 'const', 'allnan', 'offset', 'big', 'neg'):
            for dt in 'fd':
                yield 'pack', dict(field=k, dtype=dt, shape=[3, 4], seed=3, via=name, only=None, atts=[])
    for _ in range(1000 if tier == 'quick' else 30000):
        dt = rng.choice(INTS + ['f', 'd'])
        fills = [[a, rng.choice([0, 1, 2, 3, 50, 127, -1, -128, 2 ** 24 + 1, 2 ** 24, 2 ** 31 - 1, 1e20, -999])] for a in rng.sample(['_FillValue', 'missing_value', 'FillValue'], rng.randrange(0, 3))]
        yield 'decode', dict(dtype=dt, n=rng.randrange(1, 12), fills=fills, so=[rng.choice([None, .5, .1, 2., -1., 1e-4, 3]), rng.choice([None, 0., 10., -.1, 1e6, 273.15, 4])],
                             sot=rng.choice('dfp'), seed=rng.randrange(99), big=rng.randrange(3), sel=rng.randrange(1, 999) if rng.random() < .4 else None, via='mem')
    for _ in range(600 if tier == 'quick' else 20000):
        yield 'pack', dict(field=rng.choice(['plain', 'nan', 'const', 'constnan', 'offset', 'big', 'tiny', 'neg', 'int', 'two']), dtype=rng.choice('dfi'), shape=[rng.randrange(1, 5) for _ in range(rng.choice([1, 2, 2, 3]))],
                           seed=rng.randrange(99), via=rng.choice(['mem', 'mem', 'mem', 'mem', 'netcdf4', 'netcdf']), only=rng.choice([None, None, 'v', 'w']),
                           atts=rng.sample([['_FillValue', 1e20], ['missing_value', -99.], ['FillValue', 0.], ['history', 'x']], rng.randrange(3)))
    for _ in range(800 if tier == 'quick' else 20000):
        v = gen.rvar(rng, dtypes=('d', 'f', 'i', 'h', 'l', 'B'))
        if rng.random() < .6:
            v['nan'] = rng.randrange(1, 99)
        yield 'fill', dict(v=v, f=rng.choice([0, 1, -999, 1e20, 2 ** 24 + 1, 1.25, 3, .1]), sel=rng.randrange(1, 999), big=rng.randrange(3))


def num(x, dt):
    return np.dtype(dt).type(x)


def raw(dtype, n, seed, big, fills):
    info = np.iinfo(dtype) if dtype not in 'fd' else None
    r = np.random.RandomState(seed)
    if info:
        lo, hi = max(info.min, -40000), min(info.max, 40000)
        x = r.randint(lo, hi + 1, size=n).astype(dtype)
        if big == 1 and info.bits >= 32:
            x = (2 ** 24 + r.randint(-3, 4, size=n)).astype(dtype)
        if big == 2:
            x[0] = info.min
            x[-1] = info.max
        for f in fills:
            if float(f).is_integer() and info.min <= f <= info.max:
                x[r.randint(n)] = f
                # neighbours which a sloppy comparison would confuse with it
                if info.min <= f - 1:
                    x[r.randint(n)] = f - 1
                if f + 1 <= info.max:
                    x[r.randint(n)] = f + 1
        return x
    x = (r.rand(n) * 100 - 50).astype(dtype)
    if big == 2:
        x[r.randint(n)] = np.nan
    for f in fills:
        x[r.randint(n)] = f
        x[r.randint(n)] = np.nextafter(num(f, dtype), num(0 if f else 1, dtype))
    return x


def c_decode(dtype, n, fills, so, sot, seed, big, sel, via):
    import pygeode as pyg
    from pygeode.formats.cfmeta import decode_cf
    if dtype not in 'fd':
        fills = [f for f in fills if float(f[1]).is_integer() and np.iinfo(dtype).min <= f[1] <= np.iinfo(dtype).max]
    x = raw(dtype, n, seed, big, [f for _, f in fills])
    conv = (lambda y: None if y is None else float(y)) if sot == 'p' else (lambda y: None if y is None else num(y, sot))
    scale, offset = conv(so[0]), conv(so[1])
    atts = dict((a, num(f, dtype)) for a, f in fills)
    if scale is not None:
        atts['scale_factor'] = scale
    if offset is not None:
        atts['add_offset'] = offset
    v = pyg.Var([pyg.Lat(np.linspace(-80., 80, n + 1)[:n])], values=x.copy(), name='v', atts=dict(atts, history='h'))
    before = dict(v.atts)
    if via == 'mem':
        r = decode_cf(v).v
    else:
        if dtype in 'lLH' and via != 'netcdf4':
            raise Skip()
        raw_save(via, v, x, atts)
        r = opener(via)(FN('x')).v
    for a in list(atts):
        check(a not in r.atts, 'attribute %s still there after decoding' % a)
    if via == 'mem':
        check(v.atts == before, 'decoding changed the attributes of the source')
    got = r.get()
    isf = np.zeros(n, bool)
    for _, f in fills:
        isf |= x == num(f, dtype)
    if not fills and scale is None and offset is None:
        same(got, x, 'plain values')
        return
    with np.errstate(all='ignore'):
        y = x.astype('d') * (1 if scale is None else float(scale)) + (0 if offset is None else float(offset))
    mag = np.abs(x.astype('d')) * (1 if scale is None else abs(float(scale))) + (0 if offset is None else abs(float(offset)))
    single = sot == 'f' and not (scale is None and offset is None) and dtype not in 'dil' or dtype == 'f' and (scale is None and offset is None or sot == 'f')
    if sel:
        import random
        s = gen.rsel(random.Random(sel), n)
        got = r.slice[(gen.pysel(s),)].get()
        ii = gen.idx(s, n)
        y, mag, isf, x = y[ii], mag[ii], isf[ii], x[ii]
    exp_nan = isf | np.isnan(x.astype('d'))
    check(got.shape == y.shape, 'shape')
    check(got.dtype.kind == 'f', 'decoded values cannot hold missing values')
    check(((np.isnan(got)) == exp_nan).all(), 'missing values', got=got.tolist(), stored=x.tolist(), fills=fills)
    eps = 2e-6 if single else 1e-13
    err = np.abs(got.astype('d') - y)
    fin = ~exp_nan & np.isfinite(y) & (mag < 1e37 if single else True)
    check((err[fin] <= eps * mag[fin] + (1e-37 if single else 1e-300)).all(), 'decoded values', got=got.tolist(), want=y.tolist(), stored=x.tolist(), scale=scale, offset=offset)


def opener(via):
    import importlib
    m = importlib.import_module('pygeode.formats.' + via.replace('v3', ''))
    return m.open


def raw_save(via, v, x, atts):
    """store exactly the given numbers and attributes, without going through pygeode"""
    import netCDF4
    if os.path.exists(FN('x')):
        os.unlink(FN('x'))
    with netCDF4.Dataset(FN('x'), 'w', format='NETCDF4' if via == 'netcdf4' else 'NETCDF3_CLASSIC') as f:
        f.createDimension('lat', len(x))
        la = f.createVariable('lat', 'd', ['lat'])
        la[:] = v.axes[0].values
        la.units = 'degrees_north'
        y = f.createVariable('v', x.dtype, ['lat'], fill_value=atts.get('_FillValue'))
        y.set_auto_maskandscale(False)
        y.setncatts(atts)
        y[:] = x


def c_pack(field, dtype, shape, seed, via, only, atts):
    import pygeode as pyg
    from pygeode.formats import finalize_save
    from pygeode.formats.cfmeta import decode_cf
    r = np.random.RandomState(seed)
    n = int(np.prod(shape))
    d = r.rand(*shape) * 30 - 10
    if field in ('nan', 'constnan'):
        d.ravel()[r.permutation(n)[:max(1, n // 3)]] = np.nan
    if field.startswith('const'):
        d = d * 0 + 5.3
    elif field == 'allnan':
        d = d * np.nan
    elif field == 'offset':
        d = d + 2e4
    elif field == 'big':
        d = d * 1e6 + 1e8
    elif field == 'tiny':
        d = d * 1e-9
    elif field == 'neg':
        d = -np.abs(d) - 1
    elif field == 'two':
        d = np.where(r.rand(*shape) < .5, -3., 4.)
    if dtype == 'i':
        if np.isnan(d).any() or field == 'tiny':
            raise Skip()
        d = np.round(d)
    d = d.astype(dtype)
    axes = [gen.axis([k, m, 0]) for k, m in zip(['lat', 'lon', 'pres'], shape)]
    v = pyg.Var(axes, values=d.copy(), name='v', atts=dict(atts))
    w = pyg.Var(axes, values=d.copy() + 1, name='w')
    before = dict(v.atts)
    pack = True if only is None else [only]
    if via == 'mem':
        e = finalize_save(pyg.Dataset([v, w]), pack=pack)
        o = decode_cf(e)
    else:
        if any(a != 'history' for a, _ in atts):
            raise Skip()
        import importlib
        m = importlib.import_module('pygeode.formats.' + via.replace('v3', ''))
        if os.path.exists(FN('p')):
            os.unlink(FN('p'))
        m.save(FN('p'), pyg.Dataset([v, w]), pack=pack, **({'version': 3} if via == 'netcdf4v3' else {}))
        o = m.open(FN('p'))
    check(v.atts == before, 'packing changed the attributes of the source', got=v.atts, want=before)
    for name, src in (('v', d), ('w', d + 1)):
        g = np.asarray(o[name].get(), 'd')
        x = src.astype('d')
        check(g.shape == x.shape, 'shape')
        mark = [f for a, f in atts if a != 'history'] if name == 'v' and only == 'w' else []
        if mark:
            continue
        check((np.isnan(g) == np.isnan(x)).all(), '%s: missing values after packing and unpacking' % name, got=g.tolist(), want=x.tolist())
        fin = x[~np.isnan(x)]
        if not len(fin):
            continue
        if only and only != name:
            check((g[~np.isnan(x)] == fin).all(), '%s is not packed' % name, got=g.tolist(), want=x.tolist())
            continue
        step = (fin.max() - fin.min()) / (2 ** 16 - 2.)
        tol = step * 1.0001 + np.abs(fin).max() * (1e-13 if dtype != 'f' else 3e-7)
        check((np.abs(g[~np.isnan(x)] - fin) <= tol).all(), '%s: a value is off by more than a quantisation step' % name, got=g.tolist(), want=x.tolist(), step=step)


def c_fill(v, f, sel, big):
    import random
    var, d = gen.var(v)
    if big == 1 and d.dtype.itemsize >= 4 and d.dtype.kind == 'i':
        d = d + 2 ** 24 - 2
    r = np.random.RandomState(sel)
    k = d.dtype.kind
    if k == 'f' or float(f).is_integer() and np.iinfo(d.dtype).min <= f <= np.iinfo(d.dtype).max:
        d.ravel()[r.randint(d.size)] = f
    if k == 'f' and sel % 3 == 0:
        d.ravel()[r.randint(d.size)] = [np.inf, -np.inf][sel % 2]
    var = gen.wrap([gen.axis(a) for a in v['axes']], d, v['src'])
    rng = random.Random(sel)
    ss = [gen.rsel(rng, m) for m in d.shape]
    ps = tuple(gen.pysel(s) for s in ss)
    # a missing value becomes the marker (which has to be a value of this type, to rounding)
    if k == 'f' and isinstance(f, int) and float(d.dtype.type(f)) != f:
        raise Skip()
    if k == 'f':
        m = np.isnan(d)
        want = np.where(m, d.dtype.type(f), d)
        y = var.fill(f)
        same(y.get(), want, 'fill')
        same(y.slice[ps].get(), gen.take(want, ss), 'selection of fill')
        same(y.unfill(f).get(), np.where(d == d.dtype.type(f), np.nan, d), 'fill then unfill')
    elif k in 'iu' and float(f).is_integer() and np.iinfo(d.dtype).min <= f <= np.iinfo(d.dtype).max:
        same(var.fill(f).get(), d, 'fill of integers')
    y = var.unfill(f)
    hit = d == (d.dtype.type(f) if k == 'f' else f)
    want = np.where(hit, np.nan, d.astype('d'))
    got = y.get()
    check(got.dtype.kind == 'f', 'unfill: type')
    same(got.astype('d'), want, 'unfill')
    same(y.slice[ps].get().astype('d'), gen.take(want, ss), 'selection of unfill')
    if not np.isnan(d.astype('d')).any() or True:
        back = y.fill(f).get()
        same(back.astype('d'), np.where(np.isnan(d.astype('d')), got.dtype.type(f), d).astype('d') if k == 'f' else d.astype('d'), 'unfill then fill')
    same(var.get(), d, 'the source changed')
