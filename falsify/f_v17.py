"""V17: a variable assembled from many files returns, for any selection of times, what the file holding each time says."""
import os, glob
import numpy as np
from base import fail, check, same, Skip
import gen

CAL = dict(std='StandardTime', m365='ModelTime365', m360='ModelTime360')


def cases(tier, rng):
    for cal in CAL:
        for dt, per in ((24, 3), (6, 4), (12, 1), (24, 1)):
            for nf in (2, 3, 5):
                for extra in ([], ['static'], ['int']):
                    yield 'multi', dict(cal=cal, start=[2000, 2, 27], dt=dt, lens=[per] * nf, off=0 if per > 1 else 6, order=0, dtype='i' if 'int' in extra else 'd', static='static' in extra, tpos=0, bad=None, sel=3, notime=False)
    for _ in range(500 if tier == 'quick' else 15000):
        dt = rng.choice([1, 3, 6, 8, 12, 24, 24, 48])
        nf = rng.randrange(2, 7)
        one = rng.random() < .25
        if one:
            lens, dt = [1] * nf, 24
        elif dt == 24 or rng.random() < .5:
            lens = [rng.randrange(1, 6) for _ in range(nf)]
            if lens[0] == 1 and lens[-1] == 1:
                lens[0] = 3
        else:
            lens = [rng.randrange(1, 6)] * nf
            if lens[0] == 1:
                lens = [2] * nf
        bad = None
        if rng.random() < .4 and nf > 2:
            k = rng.randrange(1, nf - 1)
            bad = rng.choice([['gone', k], ['novar', k], ['unreadable', k], ['late', k]] + ([['short', k]] if lens[k] > 1 else []) + ([['hole', k]] * 2 if lens[k] > 2 else []))
        yield 'multi', dict(cal=rng.choice(list(CAL)), start=[rng.choice([1, 1999, 2000, 1900]), rng.choice([1, 2, 12]), rng.randrange(1, 29)], dt=dt, lens=lens, off=rng.choice([0, 0, dt / 2.]) if not one else rng.choice([0, 6, 12, 23]),
                            order=rng.choice([0, 0, 3]), dtype=rng.choice(['d', 'd', 'f', 'i']), static=rng.random() < .3, tpos=rng.choice([0, 0, 1]), bad=bad, sel=rng.randrange(1, 9999), notime=one and rng.random() < .3,
                            units=rng.choice(['hours', 'hours', 'days']), pat=rng.choice([0, 0, 1]))
    for _ in range(60 if tier == 'quick' else 1000):
        yield 'openall', dict(cal=rng.choice(list(CAL)), lens=[rng.randrange(1, 5) for _ in range(rng.randrange(1, 5))], tpos=rng.choice([0, 1]), sel=rng.randrange(1, 9999), sort=rng.random() < .5)


def own():
    d = 'p%d' % os.getpid()
    if os.path.basename(os.getcwd()) != d:
        os.makedirs(d, exist_ok=True)
        os.chdir(d)


def tkey(t, i):
    return tuple(int(t.auxarrays[k][i]) for k in ('year', 'month', 'day', 'hour', 'minute', 'second'))


def c_multi(cal, start, dt, lens, off, order, dtype, static, tpos, bad, sel, notime, units='hours', pat=0):
    import random
    import pygeode as pyg
    from pygeode import timeaxis
    from pygeode.formats.multifile import open_multi
    from pygeode.dataset import asdataset
    T = getattr(timeaxis, CAL[cal])
    sd = dict(year=start[0], month=start[1], day=start[2], hour=0, minute=0, second=0)
    nt = sum(lens)
    full = T(values=np.arange(nt) * float(dt), units='hours', startdate=sd)
    seg = np.cumsum([0] + lens)
    nx = 3
    lon = pyg.Lon(np.arange(nx) * 10.)
    if notime and cal != 'std':
        raise Skip()       # nothing tells the calendar
    own()
    for f in glob.glob('mf*.dat'):
        os.unlink(f)
    content, opened = {}, []
    names = []
    tvals = {}
    files_of = {}
    for k, n in enumerate(lens):
        fs = full.slice[[int(seg[k])]]
        y, m, d, h = [int(fs.auxarrays[a][0]) for a in ('year', 'month', 'day', 'hour')]
        nm = 'mf%04d%02d%02d%02d.dat' % (y, m, d, h) if not pat else 'mf%02d%02d%02d%04d.dat' % (h, d, m, y)
        names.append(nm)
        ii = np.arange(seg[k], seg[k + 1])
        # each file has its own reference date
        hrs = (ii - seg[k]) * float(dt) + off
        if bad and bad[1] == k and bad[0] == 'late':
            hrs = hrs + dt * .25
        t = T(values=hrs if units == 'hours' else hrs / 24., units=units, startdate=dict(year=y, month=m, day=d, hour=h, minute=0, second=0))
        dat = (ii[:, None] * 100 + np.arange(nx)[None, :] * 7 + 1000).astype(dtype)
        if bad and bad[1] == k and bad[0] == 'short':
            t, dat = t.slice[:-1], dat[:-1]
        if bad and bad[1] == k and bad[0] == 'hole':
            keep = [i for i in range(n) if i != n // 2]
            t, dat = t.slice[keep], dat[keep]
        if not bad or bad[1] != k or bad[0] not in ('gone', 'novar', 'unreadable', 'late'):
            for i in range(len(t)):
                tvals[tkey(t, i)] = dat[i]
                files_of[tkey(t, i)] = nm
        axes = [t, lon]
        if notime:
            v = pyg.Var([lon], values=dat[0], name='v')
        else:
            v = pyg.Var([t, lon] if tpos == 0 else [lon, t], values=dat if tpos == 0 else dat.T.copy(), name='v')
        vs = [v]
        if static:
            vs.append(pyg.Var([lon], values=np.arange(nx) + 50. * k, name='s'))
        if bad and bad[1] == k and bad[0] == 'novar':
            vs = vs[1:] or [pyg.Var([lon], values=np.zeros(nx), name='other')]
        content[nm] = asdataset(vs)
        if not (bad and bad[1] == k and bad[0] == 'gone'):
            open(nm, 'w').close()

    def opener(fn):
        b = os.path.basename(fn)
        opened.append(b)
        if bad and bad[0] == 'unreadable' and b == names[bad[1]] and armed:
            raise IOError('cannot read this')
        return content[b]
    armed = False
    ds = open_multi('mf*.dat' if order == 0 else [n for i, n in sorted(enumerate(names), key=lambda z: gen.perm(len(names), order)[z[0]]) if not (bad and bad[0] == 'gone' and i == bad[1])], opener=opener, pattern='mf$Y$m$d$H' if not pat else 'mf$H$d$m$Y')
    armed = True
    check(len(ds.vars) == (2 if static else 1), 'variables', got=[v.name for v in ds])
    v = ds.v
    ti = v.whichaxis('time')
    if static:
        s = ds.s
        ks = [k for k in range(len(lens)) if not (bad and bad[1] == k and bad[0] == 'gone')]
        check(s.shape == (len(ks), nx), 'shape of a variable without time axis', got=s.shape)
        if not (bad and bad[0] in ('unreadable',)):
            same(s.get(), np.array([np.arange(nx) + 50. * k for k in ks]), 'variable without time axis')
    t = v.axes[ti]
    check(type(t) is T, 'calendar', got=type(t))
    # the complete axis
    dates = [tkey(t, i) for i in range(len(t))]
    want = T(values=np.arange(nt) * float(dt) + off, units='hours', startdate=sd)
    if notime:
        want = full
        for i in range(nt):
            z = tkey(full, i)
            if not (bad and bad[0] == 'gone' and bad[1] == i):
                files_of[z], tvals[z] = names[i], np.array([i * 100 + j * 7 + 1000 for j in range(nx)], dtype)
            if bad and bad[0] in ('novar', 'unreadable') and bad[1] == i:
                files_of.pop(z); tvals.pop(z)
    wd = [tkey(want, i) for i in range(len(want))]
    if bad and bad[0] == 'gone' and max(lens) == 1:
        wd = wd[:bad[1]] + wd[bad[1] + 1:]
    check(dates == wd, 'times of the assembled variable', got=dates, want=wd)
    rng = random.Random(sel)
    for rep in range(5):
        ss = [gen.rsel(rng, m) for m in v.shape]
        ii = gen.idx(ss[ti], len(t))
        jj = gen.idx(ss[1 - ti], nx)
        y = v.slice[tuple(gen.pysel(s) for s in ss)]
        need = [dates[i] for i in ii]
        del opened[:]
        missing = [z for z in need if z not in tvals]
        try:
            got = y.get()
        except Exception as e:
            if missing:
                check('Multifile' in str(e), 'the error does not say what is wrong', error=str(e)[:300])
                continue
            fail('reading times which are in the files failed: %s' % str(e)[:500], times=need)
        check(not missing, 'data returned for times which no file holds', times=missing, got=got.tolist())
        w = np.array([tvals[z][jj] for z in need])
        same(got, w if ti == 0 else w.T, 'data', times=need, files=sorted(set(opened)))
        check(got.dtype == np.dtype(dtype), 'type of the data', got=got.dtype)
        allowed = {files_of[z] for z in need}
        check(set(opened) <= allowed, 'a file without any requested time was read', got=sorted(set(opened)), want=sorted(allowed))


def c_openall(cal, lens, tpos, sel, sort):
    import random
    import pygeode as pyg
    from pygeode import timeaxis
    from pygeode.formats.multifile import openall
    from pygeode.dataset import asdataset
    T = getattr(timeaxis, CAL[cal])
    own()
    for f in glob.glob('oa*.dat'):
        os.unlink(f)
    seg = np.cumsum([0] + lens)
    lon = pyg.Lon(np.arange(3) * 10.)
    content = {}
    for k, n in enumerate(lens):
        nm = 'oa%03d.dat' % k
        open(nm, 'w').close()
        t = T(values=np.arange(n), units='days', startdate=dict(year=2000, month=2, day=20 + 0 * k, hour=0, minute=0, second=0))
        t = T(values=np.arange(seg[k], seg[k + 1]) * 1., units='days', startdate=dict(year=2000, month=2, day=20, hour=0, minute=0, second=0))
        dat = np.arange(seg[k], seg[k + 1])[:, None] * 100. + np.arange(3)
        content[nm] = asdataset([pyg.Var([t, lon] if tpos == 0 else [lon, t], values=dat if tpos == 0 else dat.T.copy(), name='v')])
    ds = openall(('oa*.dat' if sel % 2 else ['oa*.dat']) if sort else sorted(content), opener=lambda f: content[os.path.basename(f)], sorted=sort)
    v = ds.v
    d = np.arange(seg[-1])[:, None] * 100. + np.arange(3)
    if tpos:
        d = d.T
    same(v.get(), d, 'all data')
    rng = random.Random(sel)
    for _ in range(3):
        ss = [gen.rsel(rng, m) for m in d.shape]
        same(v.slice[tuple(gen.pysel(s) for s in ss)].get(), gen.take(d, ss), 'selection', selection=ss)
