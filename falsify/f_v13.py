"""V13: auxiliary arrays stay attached to the coordinate values they belong to."""
import zlib
import numpy as np
from base import fail, check, same, Skip
import gen

KINDS = ['lat', 'lon', 'pres', 'nam', 'hybrid', 'station', 'std', 'm365', 'm360', 'yearless', 'xaxis', 'tfine']


def cases(tier, rng):
    for kind in KINDS:
        for n in (1, 2, 5):
            for dup in (0, 1):
                for ops in ([['slice', ['s', None, None, -1]]], [['slice', ['l', [0]]]], [['slice', ['l', [0] * n]]], [['slice', ['i', -1]]], [['sorted', None]], [['sorted', True]], [['sorted', False]], [['rename']],
                            [['concat', 3, 0]], [['concat', 1, 1]], [['vslice', ['s', None, None, 2]]], [['vconcat', 2, 0]], [['vsorted', 0]], [['mask', 3]], [['slice', ['s', 1, None, None]], ['concat', 2, 0], ['sorted', None]]):
                    yield 'ops', dict(kind=kind, n=n, order=5 if n == 5 else 0, dup=dup, ops=ops)
    for _ in range(3000 if tier == 'quick' else 80000):
        n = rng.randrange(1, 8)
        ops = []
        for _ in range(rng.randrange(1, 5)):
            t = rng.randrange(12)
            if t < 3:
                ops.append([rng.choice(['slice', 'vslice']), gen.rsel(rng, n) if not ops else ['r', rng.randrange(9999)]])
            elif t < 5:
                ops.append(['sorted', rng.choice([None, True, False])])
            elif t < 6:
                ops.append(['rename'])
            elif t < 8:
                ops.append([rng.choice(['concat', 'vconcat']), rng.randrange(1, 5), rng.randrange(3)])
            elif t < 9:
                ops.append(['vsorted', rng.choice([1, 0, -1])])
            elif t < 10:
                ops.append(['arith'])
            elif t < 11:
                ops.append(['mask', rng.randrange(1, 999)])
            else:
                ops.append([rng.choice(['rename_axes', 'select', 'load', 'subview'])])
        yield 'ops', dict(kind=rng.choice(KINDS), n=n, order=rng.choice([0, 1, 4, 17]), dup=int(rng.random() < .25), ops=ops)


def mk(kind, n, order, dup, base=0):
    """an axis together with the list of everything known about each of its points"""
    import pygeode as pyg
    from pygeode import axis as ax, timeaxis as tm
    o = np.array(list(range(n)) if order == 0 else list(range(n))[::-1] if order == 1 else gen.perm(n, order), int)
    v = np.arange(n)
    if dup:
        v = v // 2
    v = v[o]
    pos = np.arange(n)[o] + base * 100
    aux = dict(ident=pos + 10, label=np.array(['p%d' % p for p in pos]), frac=pos * .25 - 3)
    v = v + base * 20
    if kind == 'lat':
        a = pyg.Lat(v * 2. - 40, weights=pos * 1.5 + 1, **aux)
    elif kind == 'lon':
        a = pyg.Lon(v * 5., **aux)
    elif kind == 'pres':
        a = pyg.Pres(1000. - v * 10, **aux)
    elif kind == 'nam':
        a = pyg.NamedAxis(v * 3. + 1, 'qx', **aux)
    elif kind == 'xaxis':
        a = ax.XAxis(v.astype('i'), **aux)
    elif kind == 'hybrid':
        a = ax.Hybrid(v * 0.01, A=pos * 10. + 1, B=pos * .01, **aux)
    elif kind == 'station':
        if dup:
            raise Skip()
        a = ax.Station(station=np.array(['st%d' % p for p in pos]), height=pos * 7., **aux)
    elif kind == 'tfine':
        # times a second apart (positions next to each other nearly equal in value)
        a = tm.StandardTime(values=v * 1 + 86400 * 3000, units='seconds', startdate=dict(year=1950), **aux)
    else:
        T = dict(std=tm.StandardTime, m365=tm.ModelTime365, m360=tm.ModelTime360, yearless=tm.Yearless)[kind]
        sd = dict(day=3) if kind == 'yearless' else dict(year=1999 + base, month=12, day=20)
        a = T(values=v * 9, units='days', startdate=sd, **aux)
    return a, rows(a)


def rows(a):
    """(coordinate, auxiliary arrays) of each point"""
    from pygeode.axis import NonCoordinateAxis
    from pygeode.timeaxis import Time
    ks = sorted(a.auxarrays)
    out = []
    for k in ks:
        check(len(a.auxarrays[k]) == len(a.values), 'auxiliary array %s has the wrong length' % k, got=len(a.auxarrays[k]), want=len(a.values))
    for i in range(len(a)):
        r = [(k, a.auxarrays[k][i].item() if hasattr(a.auxarrays[k][i], 'item') else a.auxarrays[k][i]) for k in ks]
        if not isinstance(a, (NonCoordinateAxis, Time)):
            r.append(('coordinate', float(a.values[i])))
        out.append(tuple(r))
    return out


def key(a):
    return [float(x) for x in a.values]


def c_ops(kind, n, order, dup, ops):
    import random
    import pygeode as pyg
    from pygeode.axis import concat as axconcat, NonCoordinateAxis
    a, R = mk(kind, n, order, dup)
    cls = type(a)
    R0, a0 = list(R), a
    base = 1

    def var(ax, r):
        # a variable whose value at each point identifies the point
        return pyg.Var([ax, pyg.Freq([1., 2.])], values=np.array([[zlib.crc32(repr(x).encode()) % 99991, i] for i, x in enumerate(r)], 'd').reshape(len(r), 2), name='v')

    def vcheck(v, r, vals):
        check(rows(v.axes[0]) == r, 'auxiliary arrays of the variable\'s axis', got=rows(v.axes[0]), want=r, ops=ops)
        if vals is not None:
            same(v.get(), vals, 'data of the variable')
    for op in ops:
        o = op[0]
        if o in ('slice', 'vslice'):
            s = op[1]
            if s[0] == 'r':
                s = gen.rsel(random.Random(s[1]), len(R))
            ii = gen.idx(s, len(R))
            if o == 'slice':
                a, R = a.slice[gen.pysel(s)], [R[i] for i in ii]
            else:
                v = var(a, R)
                d = v.get()
                uniq = not (isinstance(a, NonCoordinateAxis) and len(set(R)) < len(R)) and (isinstance(a, NonCoordinateAxis) or len(set(key(a))) == len(R))
                v = v.slice[gen.pysel(s), :]
                R = [R[i] for i in ii]
                vcheck(v, R, d[ii] if uniq else None)
                a = v.axes[0]
        elif o == 'sorted':
            if isinstance(a, NonCoordinateAxis):
                raise Skip()
            S = [int(i) for i in a.argsort(reverse=op[1])]
            k = key(a)
            a = a.sorted(reverse=op[1])
            desc = op[1] if op[1] is not None else type(a0).plotatts.get('plotorder', 1) < 0
            want = sorted(k, reverse=bool(desc))
            got = key(a)
            check(got == want, 'sorted axis', got=got, want=want)
            check(sorted(S) == list(range(len(R))), 'argsort', got=S)
            check(sorted(rows(a)) == sorted(R), 'points after sorting', got=rows(a), want=R)
            R = [R[i] for i in S]
        elif o == 'rename':
            a = a.rename('other')
            check(a.name == 'other', 'name')
        elif o == 'concat':
            parts, RR = [a], list(R)
            nm = a.name
            for j in range(1 + op[2] % 2):
                b, rb = mk(kind, op[1], op[2] * 4, 0, base)
                base += 1
                if b.name != nm:
                    b = b.rename(nm)
                parts.append(b)
                RR += rb
            a, R = axconcat(parts), RR
        elif o == 'vconcat':
            b, rb = mk(kind, op[1], op[2] * 4, 0, base)
            base += 1
            if b.name != a.name:
                b = b.rename(a.name)
            va, vb = var(a, R), var(b, rb)
            d = np.concatenate([va.get(), vb.get()])
            from pygeode.concat import concat
            if len(set(R + rb)) < len(R + rb) or (not isinstance(a, NonCoordinateAxis) and len(set(key(a) + key(b))) < len(R + rb)):
                raise Skip()
            v = concat(va, vb, iaxis=0)
            R = R + rb
            vcheck(v, R, d)
            a = v.axes[0]
        elif o == 'vsorted':
            if isinstance(a, NonCoordinateAxis) or len(set(key(a))) < len(R):
                raise Skip()
            v = var(a, R)
            d = v.get()
            k = key(a)
            S = sorted(range(len(R)), key=lambda i: k[i])
            if op[1] == -1 or (op[1] == 0 and a.plotatts.get('plotorder', 1) < 0):
                S = S[::-1]
            v = v.sorted(**{a.name: op[1]})
            R = [R[i] for i in S]
            vcheck(v, R, d[S])
            a = v.axes[0]
        elif o == 'arith':
            if len(set(R)) < len(R) or (not isinstance(a, NonCoordinateAxis) and len(set(key(a))) < len(R)):
                raise Skip()
            v = var(a, R)
            w = (v + pyg.Var([a], values=np.zeros(len(R)), name='z')) * 1.
            vcheck(w, R, v.get())
            a = w.axes[0]
        elif o == 'mask':
            rng = random.Random(op[1])
            keep = sorted(rng.sample(range(len(R)), rng.randrange(1, len(R) + 1)))
            if dup and len(ops) > 1:
                raise Skip()
            a = a(**{'il_' + a.name: keep})
            R = [R[i] for i in keep]
        elif o == 'rename_axes':
            v = var(a, R)
            d = v.get()
            v = v.rename_axes(**{a.name: 'other'})
            vcheck(v, R, d)
            a = v.axes[0]
            check(a.name == 'other', 'name')
        elif o == 'select':
            # selection through an auxiliary array
            m = len(R) // 2
            ids = [dict(r)['ident'] for r in R]
            lo, hi = min(ids[0], ids[m]), max(ids[0], ids[m])
            a = a(ident=(lo, hi))
            R = [r for r, i in zip(R, ids) if lo <= i <= hi]
        elif o == 'load':
            v = var(a, R)
            d = v.get()
            v = (v * 1).load()
            vcheck(v, R, d)
            a = v.axes[0]
        elif o == 'subview':
            from pygeode.view import View
            ii = list(range(len(R)))[::-1]
            a, R = View([a], [ii]).subaxis(0), [R[i] for i in ii]
        check(type(a) is cls, 'kind of axis', got=type(a), want=cls)
        check(rows(a) == R, 'auxiliary arrays after %s' % o, got=rows(a), want=R, ops=ops)
    check(rows(a0) == R0, 'the original axis changed', got=rows(a0), want=R0)
    # another way to get at them
    for k in a.auxarrays:
        w = a.auxasvar(k)
        same(w.get(), np.array([dict(r)[k] for r in R]), 'auxasvar(%s)' % k)
