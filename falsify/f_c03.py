from base import *
import cal
from f_c01 import mk, sd, fields


def c_getidx(natts, inv, outv):
    import numpy as np
    from pygeode import timeaxiscore as lib
    n, m = len(inv) // natts, len(outv) // natts
    inv_ = sorted([tuple(inv[i * natts:(i + 1) * natts]) for i in range(n)])
    out_ = [tuple(outv[i * natts:(i + 1) * natts]) for i in range(m)]
    A = np.array(inv_, 'int32').reshape(n, natts)
    B = np.array(out_, 'int32').reshape(m, natts)
    ind = np.full(m, -99, 'int32')
    r = lib.get_indices(natts, A, n, B, m, ind)
    check(r == 0, 'status')
    for j in range(m):
        if out_[j] in inv_:
            check(0 <= ind[j] < n and inv_[ind[j]] == out_[j], 'equal time not found or wrong position', rows=inv_, key=out_[j], got=int(ind[j]))
        else:
            check(ind[j] == -1, 'found a time that is not there', rows=inv_, key=out_[j], got=int(ind[j]))


def c_uniq(natts, inv):
    import numpy as np
    from pygeode import timeaxiscore as lib
    n = len(inv) // natts
    rows = sorted([tuple(inv[i * natts:(i + 1) * natts]) for i in range(n)])
    A = np.array(rows, 'int32').reshape(n, natts)
    out = np.full((n, natts), -99, 'int32')
    k = lib.uniquify(natts, A, n, out)
    check([tuple(map(int, r)) for r in out[:k]] == sorted(set(rows)), 'distinct times', rows=rows, got=out[:k].tolist())


def c_cmap(natts, inv, outv):
    import numpy as np
    from pygeode import timeaxiscore as lib
    n, m = len(inv) // natts, len(outv) // natts
    a = sorted([tuple(inv[i * natts:(i + 1) * natts]) for i in range(n)])
    b = sorted([tuple(outv[i * natts:(i + 1) * natts]) for i in range(m)])
    am, bm = np.full(n + m + 1, -99, 'int32'), np.full(n + m + 1, -99, 'int32')
    k = lib.common_map(natts, n, np.array(a, 'int32').reshape(n, natts), m, np.array(b, 'int32').reshape(m, natts), am, bm)
    judge_map(a, b, am[:k].tolist(), bm[:k].tolist())


def judge_map(a, b, am, bm):
    check(len(am) == len(bm), 'maps of different length')
    for x, y in zip(am, bm):
        check(0 <= x < len(a) and 0 <= y < len(b) and a[x] == b[y], 'listed pair is not equal', a=a, b=b, am=am, bm=bm)
    for i, r in enumerate(a):
        check((i in am) == (r in b), 'time of the first axis missing from / wrongly in the map', a=a, b=b, am=am, bm=bm, row=i)
    for i, r in enumerate(b):
        check((i in bm) == (r in a), 'time of the second axis missing from / wrongly in the map', a=a, b=b, am=am, bm=bm, row=i)
    ra, rb = [a[x] for x in am], [b[y] for y in bm]
    check(ra == sorted(ra) and rb == sorted(rb), 'map not in increasing order', a=a, b=b, am=am, bm=bm)
    check(len(set(zip(am, bm))) == len(am), 'pair listed twice', am=am, bm=bm)


def axis(kind, rows, fs, units='days', ref=None):
    import numpy as np
    cls = mk(kind)
    kw = {f: np.array([r[cal.FLD.index(f)] for r in rows]) for f in fs}
    ref = ref or [2000, 1, 1, 0, 0, 0]
    return cls(units=units, startdate={f: v for f, v in zip(cal.FLD, ref) if f in fs}, **kw)


def proj(rows, fs):
    return [tuple(r[cal.FLD.index(f)] for f in fs) for r in rows]


def c_mapto(kind, a, b, fa, fb, ua='days', ub='hours'):
    """self = axis a (fields fa), other = axis b (fields fb); a's fields a subset of b's"""
    A, B = axis(kind, a, fa, ua), axis(kind, b, fb, ub, [1999, 2, 3, 4, 5, 6])
    ra, rb = proj(a, fa), proj(b, fa)
    got = A.map_to(B)
    if not set(fa) <= set(fb):
        check(got is None, 'map between incompatible times', fa=fa, fb=fb)
        return
    got = list(map(int, got))
    want = [r for r in rb if r in ra]
    check(all(0 <= g < len(ra) for g in got), 'position outside the axis', got=got)
    check([ra[g] for g in got] == want, 'map_to does not give the requested times that exist, in the requested order', got=[ra[g] for g in got], want=want)


def c_axcmap(kind, a, b, fa, fb):
    A, B = axis(kind, a, fa), axis(kind, b, fb, 'hours', [1999, 2, 3, 4, 5, 6])
    fs = [f for f in fa if f in fb]
    if not fs or not (A.isparentof(B) or B.isparentof(A)):
        raise Skip()
    am, bm = A.common_map(B)
    judge_map(proj(a, fs), proj(b, fs), list(map(int, am)), list(map(int, bm)))


def c_axuniq(kind, a, fa, drop):
    from pygeode import timeutils
    A = axis(kind, a, fa)
    keep = [f for f in fa if f not in drop]
    U = timeutils.modify(A, exclude=drop, uniquify=True)
    want = sorted(set(proj(a, keep)))
    check(sorted(U.auxarrays) == sorted(keep), 'fields of the reduced axis', got=sorted(U.auxarrays), want=keep)
    got = list(zip(*[U.auxarrays[f].tolist() for f in keep]))
    check(got == want, 'distinct times of the reduced axis', got=got, want=want)


SETS = [['year', 'month', 'day', 'hour', 'minute', 'second'], ['year', 'month', 'day'], ['year', 'month'], ['month', 'day'], ['month'], ['year'], ['year', 'month', 'day', 'hour']]


def cases(tier, rng):
    import itertools
    # small scope: every pair of ordered lists over a small alphabet
    for n in range(0, 5):
        for a in itertools.combinations_with_replacement(range(5), n):
            if n:
                yield 'getidx', dict(natts=1, inv=list(a), outv=list(range(-1, 6)))
                yield 'uniq', dict(natts=1, inv=list(a))
            if n <= 3:
                for m in range(0, 4):
                    for b in itertools.combinations_with_replacement(range(4), m):
                        if max(a + (0,)) < 4 and n and m:
                            yield 'cmap', dict(natts=1, inv=list(a), outv=list(b))
    N = 700 if tier == 'quick' else 9000
    for i in range(N):
        natts, hi = rng.randint(1, 5), rng.choice([1, 2, 2, 3, 6])
        n, m = rng.randint(1, 9), rng.randint(1, 9)
        inv, outv = [rng.randint(-1, hi) for _ in range(n * natts)], [rng.randint(-1, hi) for _ in range(m * natts)]
        yield 'getidx', dict(natts=natts, inv=inv, outv=outv)
        yield 'uniq', dict(natts=natts, inv=inv)
        yield 'cmap', dict(natts=natts, inv=inv, outv=outv)
    for i in range(N):
        kind = rng.choice(['std', '365', '360'])
        pool = []
        y0 = rng.choice([2000, 1999, 1, 1900])
        for _ in range(rng.randint(2, 12)):
            y, m = y0 + rng.randint(0, 2), rng.choice([1, 2, 12, rng.randint(1, 12)])
            pool.append([y, m, rng.choice([1, 2, 28, cal.mlen(kind, y, m)]), rng.choice([0, 6, 23]), rng.choice([0, 0, 30]), rng.choice([0, 0, 59])])
        a = [rng.choice(pool) for _ in range(rng.randint(1, 10))]
        b = [rng.choice(pool) for _ in range(rng.randint(1, 10))]
        mode = rng.random()
        if mode < .5:
            a, b = sorted(a), sorted(b)
        elif mode < .7:
            a, b = sorted(a, reverse=True), sorted(b)
        fb = rng.choice(SETS)
        fa = rng.choice([s for s in SETS if set(s) <= set(fb)] + [rng.choice(SETS)])
        yield 'mapto', dict(kind=kind, a=a, b=b, fa=fa, fb=fb, ua=rng.choice(['days', 'hours', 'seconds']))
        if i % 2:
            yield 'mapto', dict(kind=kind, a=a, b=b, fa=fb, fb=fb)
        yield 'axcmap', dict(kind=kind, a=a, b=b, fa=fa, fb=fb)
        yield 'axuniq', dict(kind=kind, a=a, fa=fb, drop=rng.choice([[], ['year'], ['day', 'hour'], ['second'], ['month', 'year']]) if fb not in (['year'], ['month']) and fb not in (['year', 'month'],) else [])
