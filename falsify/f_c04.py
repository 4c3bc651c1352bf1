"""C04: nearest-value lookup within the relative tolerance"""
from base import *
import itertools


def judge(a, b, rtol, idx, what):
    """idx[k]: position for b[k] or -1"""
    import numpy as np
    for k, B in enumerate(b):
        g = int(idx[k])
        check(-1 <= g < len(a), what + ': position outside the array', a=a, b=b, k=k, got=g)
        d = [abs(x - B) for x in a]
        ok = bool(len(a)) and min(d) <= rtol * abs(B)
        if g == -1:
            check(not ok, what + ': an acceptable match was dropped', a=a, b=b, k=k, rtol=rtol)
        else:
            check(ok, what + ': reported a match outside the tolerance', a=a, b=b, k=k, got=g, rtol=rtol)
            check(d[g] == min(d), what + ': not the closest coordinate', a=a, b=b, k=k, got=g, rtol=rtol)


def c_kernel(a, b, rtol, before=False):
    import numpy as np
    from guardmem import guard
    from pygeode import toolscore
    A, B = guard(np.array(a, 'd'), before), guard(np.array(b, 'd'), before)
    idx = toolscore.map_to(A, B, float(rtol))
    check(idx.shape == (len(b),), 'one answer per requested value', got=idx.shape)
    judge(a, b, rtol, idx, 'toolscore.map_to')
    check(A.tolist() == a and B.tolist() == b, 'the caller\'s arrays were changed', a=a, b=b)


def c_tools(a, b, rtol):
    import numpy as np
    from pygeode import tools
    got = [int(g) for g in (tools.map_to(np.array(a, 'd'), np.array(b, 'd'), rtol) if rtol is not None else tools.map_to(np.array(a, 'd'), np.array(b, 'd')))]
    rt = 1e-5 if rtol is None else rtol
    k = 0
    for B in b:
        d = [abs(x - B) for x in a]
        if a and min(d) <= rt * abs(B):
            check(k < len(got), 'an acceptable match was dropped', a=a, b=b, got=got)
            check(0 <= got[k] < len(a), 'position outside the array', got=got)
            check(d[got[k]] == min(d), 'not the closest coordinate of the requested value, in the order requested', a=a, b=b, got=got, k=k)
            k += 1
    check(k == len(got), 'more positions than matches', a=a, b=b, got=got)


def c_axis(cls, a, b, same_cls=True, dt='d'):
    """Axis.map_to, with the tolerance of the axis (distinct coordinates further apart than the tolerance)"""
    import numpy as np
    import pygeode
    C = getattr(pygeode, cls)
    kw = dict(name='u') if cls == 'NamedAxis' else {}
    A, B = C(np.array(a, dt), **kw), (C if same_cls else pygeode.Axis)(np.array(b, dt), **(kw if same_cls else {}))
    got = A.map_to(B)
    if not same_cls and cls in ('NamedAxis',):
        check(got is None, 'named axis mapped to another kind')
        return
    got = [int(g) for g in got]
    check(all(0 <= g < len(a) for g in got), 'position outside the axis', got=got)
    nz = sorted(x for x in a if x)
    if len(nz) > 1 and len(set(nz)) == len(nz) and cls != 'Pres':
        check(0 < A.rtol <= 1e-3 and A.rtol <= min(abs((y - x) / x) for x, y in zip(nz, nz[1:])) * (1 + 1e-9), 'tolerance wider than the spacing of the axis', a=a, rtol=A.rtol)
    if A == B:
        want = list(range(len(a)))
    else:
        near = [min(range(len(a)), key=lambda j: abs(a[j] - x)) for x in b]
        want = [j for j, x in zip(near, b) if abs(a[j] - x) <= A.rtol * abs(x)]
    check([a[g] for g in got] == [a[w] for w in want], 'Axis.map_to', a=a, b=b, got=got, want=want, rtol=A.rtol)
    exact = [x for x in b if x in a]
    check(set(exact) <= {a[g] for g in got}, 'a coordinate present in both axes was dropped')


def c_nomap(ca, cb):
    import pygeode
    A, B = [getattr(pygeode, c)([1., 2., 3.]) for c in (ca, cb)]
    got = A.map_to(B)
    if A.isparentof(B) or B.isparentof(A):
        check([int(g) for g in got] == [0, 1, 2], 'comparable axes', got=got)
    else:
        check(got is None, 'axes of unrelated kinds were mapped', got=got)


def cases(tier, rng):
    for n in range(0, 4):
        for a in itertools.product([0., 1., 2., 4.], repeat=n):
            for b in ([1.], [2., 0.], [4., 1., 1.], [3., 1.5, 0., 2.]):
                for rt in (1e-5, .4):
                    yield 'kernel', dict(a=list(a), b=b, rtol=rt)
    N = 1500 if tier == 'quick' else 20000
    for i in range(N):
        n, m = rng.choice([0, 1, 2, 3, 5, 8, 13, 30]), rng.choice([1, 2, 3, 5, 8, 13, 30])
        mode = rng.randrange(7)
        base = rng.choice([0., 1., -50., 1000., 1e6])
        if mode == 0:
            pool = [base + rng.randint(-5, 5) for _ in range(12)]
        elif mode == 1:
            pool = [rng.uniform(-100, 100) for _ in range(20)]
        elif mode == 2:
            pool = [round(rng.uniform(-3, 3), 1) for _ in range(20)]
        elif mode == 3:
            pool = [base + 1e-5 * base * rng.choice([0, .3, .5, .9, 1.1, 2, -.5, -1.2]) + rng.randint(0, 3) for _ in range(20)]
        elif mode == 4:
            pool = [(-1) ** k * 10. ** rng.uniform(-3, 3) for k in range(20)]
        else:
            pool = [float(k) for k in range(15)]
        a = [rng.choice(pool) for _ in range(n)]
        b = [rng.choice(pool) * rng.choice([1, 1, 1, 1 + 1e-7, 1 - 3e-6, 1.01]) for _ in range(m)]
        if mode in (5, 6):
            a, b = list(dict.fromkeys(a)), list(dict.fromkeys(b))
        o = rng.randrange(5)
        if o == 1:
            a.sort()
        elif o == 2:
            a.sort(reverse=True)
        elif o == 3:
            a.sort(); b.sort()
        elif o == 4:
            b.sort(reverse=True)
        rt = rng.choice([1e-5, 1e-5, 0., 1e-3, .3, 1e-9])
        yield 'kernel', dict(a=a, b=b, rtol=rt, before=bool(i % 2))
        if i % 3 == 0:
            yield 'tools', dict(a=a, b=b, rtol=rt)
        if i % 30 == 0:
            yield 'tools', dict(a=a, b=b, rtol=None)
        if i % 2 == 0:
            step = rng.choice([1., .5, 2.5, 10.])
            off = rng.choice([0., -20., 100., 100000., 5e5])
            ks = rng.sample(range(-10, 20), rng.randint(2, 12))
            av = [off + step * k for k in ks]
            if rng.random() < .5:
                av.sort(reverse=rng.random() < .5)
            bv = [off + step * rng.choice(ks + [25, -15]) for _ in range(rng.randint(1, 10))]
            if rng.random() < .4:
                bv = sorted(set(bv), reverse=rng.random() < .5)
            dt = 'd' if step != 1. else rng.choice(['d', 'i4', 'i8'])
            cls = rng.choice(['Lat', 'Lon', 'Pres', 'XAxis', 'Height', 'NamedAxis', 'Axis'])
            yield 'axis', dict(cls=cls, a=av, b=bv, same_cls=cls in ('NamedAxis',) or rng.random() < .6, dt=dt)
    names = ['Lat', 'Lon', 'Pres', 'XAxis', 'YAxis', 'ZAxis', 'Height', 'Axis', 'Hybrid' if False else 'TAxis']
    for x in names:
        for y in names:
            yield 'nomap', dict(ca=x, cb=y)
