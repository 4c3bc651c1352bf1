"""V14: keyword selection keeps exactly the coordinates which satisfy the request."""
import numpy as np
from base import fail, check, same, Skip
import gen

DTY = ['d', 'd', 'd', 'f', 'i', 'l', 'h']


def coords(kind, n, seed, dtype):
    """distinct coordinate values, in natural, reversed or shuffled order"""
    v = {'lat': np.linspace(-80, 85, max(n, 2))[:n], 'lon': np.arange(n) * 12.5, 'pres': 1000. - 37.5 * np.arange(n), 'nam': np.arange(n) * 1.5 - 3, 'nam2': np.arange(n) ** 2 * 2. - 5}[kind]
    if dtype in 'ilh':
        v = np.round(v * 2)
    o = list(range(n)) if seed == 0 else list(range(n))[::-1] if seed == 1 else gen.perm(n, seed)
    return np.array(v, dtype)[o]


def mkaxis(s):
    import pygeode as pyg
    kind, n, seed, dtype = s
    if kind in ('std', 'm365'):
        return gen.axis([kind, n, seed])
    v = coords(kind, n, seed, dtype)
    ws = dict(grp=np.arange(n) // 2, alt=np.array(v, 'd') * -3 + 7)
    C = dict(lat=pyg.Lat, lon=pyg.Lon, pres=pyg.Pres)
    if kind in C:
        return C[kind](v, **ws)
    return pyg.NamedAxis(v, dict(nam='qx', nam2='rx')[kind], **ws)


ALIAS = dict(lat=['lat', 'Lat', 'LAT'], lon=['lon', 'Lon'], pres=['pres', 'zaxis'], nam=['qx'], nam2=['rx'], std=['time', 'StandardTime'], m365=['time', 'modeltime365'])


def cases(tier, rng):
    for kind in ('lat', 'pres', 'nam', 'std'):
        for n in (1, 2, 5):
            for seed in (0, 1, 7):
                for dt in ('d', 'i'):
                    for q in ([['', 'v', 0.]], [['', 'v', .4]], [['', 'v', -9.]], [['', 'v', 99.]], [['n', 'v', 1.]], [['', 'r', .2, 2.3]], [['', 'r', 2., 1.]], [['', 'r', 1., 1.]], [['n', 'r', 1., 3.]],
                              [['l', 'v', [0., 2.6, 1., 1.]]], [['l', 'v', [2., 0.]]], [['nl', 'v', [2., 0.]]], [['l', 'v', [1.]]], [['i', 'k', 0]], [['i', 'k', -1]], [['i', 's', [1, 3]]], [['i', 's', [0, -1]]], [['i', 's', [0, 5, 2]]], [['i', 's', [-1, None, -2]]],
                              [['li', 'k', [0, -1]]], [['il', 'k', [0]]], [['ni', 'k', 0]], [['nil', 'k', [0, -1]]], [['', 'a', 1.]], [['', 'g', 1]], [['', 'gr', 0, 1]], [['l', 'g', [0, 2]]], [['n', 'g', 0]], [['', 'g', 0], ['', 'r', 0., 3.]], [['i', 's', [0, 3]], ['', 'r', 1., 9.]]):
                        yield 'sel', dict(axes=[[kind, n, seed, dt]], q=[q], post='', how=0)
    for _ in range(3000 if tier == 'quick' else 80000):
        k = rng.choice([1, 1, 2, 3])
        ks = rng.sample(gen.UNREL, k)
        axes = [[x, rng.randrange(1, 9), rng.choice([0, 0, 1, 4, 9, 23]), rng.choice(DTY)] for x in ks]
        q = []
        for a in axes:
            n = a[1]
            qq = []
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                t = rng.random()
                neg = 'n' if rng.random() < .25 else ''
                r = lambda: rng.choice([float(rng.randrange(n)), rng.randrange(n) + .5, rng.uniform(-1.5, n + .5)])
                if t < .2:
                    qq.append([neg, 'v', r()])
                elif t < .45:
                    qq.append([neg, 'r', r(), r()])
                elif t < .6:
                    qq.append([neg + 'l', 'v', [r() for _ in range(rng.randrange(1, 5))]])
                elif t < .7:
                    qq.append([neg + 'i', 'k', rng.randrange(-n, n)])
                elif t < .8:
                    s = [rng.randrange(-n - 1, n + 2), rng.choice([None, rng.randrange(-n - 1, n + 2)])]
                    if rng.random() < .5:
                        s.append(rng.choice([1, 2, 3, -1, -2]))
                    qq.append([neg + 'i', 's', s])
                elif t < .88:
                    p = list(neg + 'il')
                    rng.shuffle(p)
                    qq.append([''.join(p), 'k', [rng.randrange(-n, n) for _ in range(rng.randrange(1, 6))]])
                elif t < .93:
                    qq.append([neg, 'g', rng.randrange(n // 2 + 1)])
                elif t < .96:
                    qq.append([neg, 'gr', rng.randrange(n // 2 + 1), rng.randrange(n // 2 + 1)])
                else:
                    qq.append([neg, 'a', r()])
            q.append(qq)
        yield 'sel', dict(axes=axes, q=q, post=rng.choice(['', '', '', 'm', 's']), how=rng.randrange(6))


def c_sel(axes, q, post, how):
    import pygeode as pyg
    A = [mkaxis(a) for a in axes]
    shape = tuple(len(a) for a in A)
    d = gen.data(shape)
    v = gen.wrap(A, d, gen.SRC[how % 4])
    kw, want, posted, posts = {}, [], [], None
    for j, (a, spec, qs) in enumerate(zip(A, axes, q)):
        n = len(a)
        vals = np.asarray(a.values)
        srt = np.sort(vals.astype('d'))
        integer = vals.dtype.kind in 'iu'
        keep = np.ones(n, bool)
        nm = ALIAS[spec[0]]
        nm = nm[how % len(nm)]
        istime = spec[0] in ('std', 'm365')

        def val(x):
            # position (possibly between or outside the coordinates) -> coordinate value; exact at whole positions
            i = int(np.floor(x))
            if integer:
                i = max(0, min(n - 1, i))
                return int(srt[i])
            if 0 <= x <= n - 1:
                f = x - i
                r = srt[i] if f == 0 else srt[i] + f * (srt[i + 1] - srt[i])
            else:
                r = srt[0] + 10. * x if x < 0 else srt[-1] + 10. * (x - n + 1)
            return float(np.array(r, vals.dtype))

        def near(x, arr):
            if arr.dtype.kind in 'iu':
                return arr == x
            dd = [abs(float(y) - x) for y in arr]
            m = min(dd)
            if sum(1 for z in dd if z <= m * (1 + 1e-6) + 1e-9) > 1:
                raise Skip()          # a tie
            return np.array([z == m for z in dd])
        for p, what, *arg in qs:
            kp = np.zeros(n, bool)
            key = nm
            if what == 'v':
                if isinstance(arg[0], list):
                    xs = [val(x) for x in arg[0]]
                    for x in xs:
                        kp |= near(x, vals)
                    req = [xs, tuple(xs), np.array(xs)][how % 3]
                else:
                    req = val(arg[0])
                    kp = near(req, vals)
            elif what == 'r':
                lo, hi = val(arg[0]), val(arg[1])
                kp = np.array([min(lo, hi) <= float(y) <= max(lo, hi) for y in vals])
                req = [(lo, hi), [lo, hi], np.array([lo, hi])][how % 3]
                # a range given as text
                if how % 5 == 4 and istime is False and not integer:
                    req = (repr(lo), hi)
            elif what == 'k':
                req = arg[0]
                try:
                    for x in (req if isinstance(req, list) else [req]):
                        kp[list(range(n))[x]] = True
                except IndexError:
                    raise Skip()
                if isinstance(req, list):
                    req = [req, tuple(req), np.array(req)][how % 3]
            elif what == 's':
                for x in list(range(n))[slice(*arg[0])]:
                    kp[x] = True
                req = tuple(arg[0])
            else:
                if istime:
                    raise Skip()
                if what == 'a':
                    key = 'alt'
                    req = float(np.array(val(arg[0]), 'd') * -3 + 7)
                    kp = near(req, a.auxarrays['alt'])
                elif what == 'g':
                    key = 'grp'
                    req = arg[0]
                    kp = np.isin(a.auxarrays['grp'], req)
                else:
                    key = 'grp'
                    req = (arg[0], arg[1])
                    kp = np.array([min(req) <= int(y) <= max(req) for y in a.auxarrays['grp']])
                if sum(s[0] not in ('std', 'm365') for s in axes) > 1:
                    raise Skip()      # two axes have this array
            if 'n' in p:
                kp = ~kp
            keep &= kp
            k = (p + '_' if p else '') + key
            if k in kw or k == posts:
                raise Skip()
            kw[k] = req
            if post and key == nm and j == how % len(axes) and not posted:
                del kw[k]
                kw[(post + p if how % 2 else p + post) + '_' + key] = req
                posts = k
                posted.append(j)
        want.append([i for i in range(n) if keep[i]])
    exp = d
    for j, w in enumerate(want):
        exp = np.take(exp, np.array(w, int), axis=j)
    if posted and min(exp.shape) == 0:
        raise Skip()
    if how % 4 == 3 and len(A) == 1 and not posted:
        r = A[0](**dict(kw))
        gen.check_axis(r, A[0], want[0], 'axis(%s)' % kw)
    given = repr(kw)
    if how == 5:
        ds = pyg.asdataset([v])
        r = ds(**kw).v if not posted else v(**kw)
    elif how == 4:
        r = v(ignore_mismatch=True, nosuch=3, **kw)
    else:
        r = v(**kw)
    check(repr(kw) == given, 'request altered')
    outax = list(range(len(A)))
    if posted:
        j = posted[0]
        if post == 'm':
            w = A[j].auxarrays.get('weights')
            w = None if w is None else np.asarray(w)[want[j]]
            exp = np.average(exp, axis=j, weights=w)
            outax.remove(j)
        elif exp.shape[j] == 1:
            exp = exp.reshape(exp.shape[:j] + exp.shape[j + 1:])
            outax.remove(j)
    check(tuple(r.shape) == exp.shape, 'shape of the selection', got=r.shape, want=exp.shape, request=kw, coords=[a.values.tolist() for a in A])
    for i, j in enumerate(outax):
        gen.check_axis(r.axes[i], A[j], want[j], 'selection %s' % kw)
    same(r.get(), exp, 'data of the selection', 1e-6 if posted else 0., request=kw)
