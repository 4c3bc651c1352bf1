"""V01: expand / simplify / contiguate / loop_contiguous against Python's own sequence semantics."""
import numpy as np
from base import fail, check, same, Skip
import gen


def cases(tier, rng):
    N = 5 if tier == 'quick' else 7
    rngv = lambda n: [None] + list(range(-n - 2, n + 3))
    for n in range(0, N):
        for a in rngv(n):
            for b in rngv(n):
                for c in (None, 1, 2, 3, -1, -2, -3) + (() if tier == 'quick' else (7, -7)):
                    yield 'slice', dict(n=n, s=[a, b, c])
        for k in range(-n, n):
            yield 'int', dict(n=n, k=k, np_=False)
            yield 'int', dict(n=n, k=k, np_=True)
    import itertools
    for n in range(1, 4):
        for m in range(0, 4):
            for l in itertools.product(range(-n, n), repeat=m):
                yield 'list', dict(n=n, l=list(l))
    for m in range(1, 5 if tier == 'quick' else 6):
        for l in itertools.product(range(4), repeat=m):
            yield 'simplify', dict(n=6, l=list(l))
            yield 'contig', dict(l=list(l))
    while True:
        n = rng.randrange(1, 60)
        k = rng.random()
        if k < .3:
            yield 'slice', dict(n=n, s=[rng.choice([None, rng.randrange(-2 * n, 2 * n)]), rng.choice([None, rng.randrange(-2 * n, 2 * n)]), rng.choice([None, rng.randrange(1, n + 2), -rng.randrange(1, n + 2)])])
        elif k < .6:
            a, b, c = rng.randrange(n), rng.randrange(n), rng.choice([1, 2, 3, -1, -2, -5])
            yield 'simplify', dict(n=n, l=list(range(a, b, c)) or [a])
        elif k < .8:
            l = [rng.randrange(n)]
            for _ in range(rng.randrange(20)):
                l.append(min(n - 1, max(0, l[-1] + rng.choice([1, 1, 1, 1, 0, -1, 2, -3]))))
            yield 'contig', dict(l=l)
            yield 'simplify', dict(n=n, l=l)
        else:
            sh = [rng.randrange(1, 6) for _ in range(rng.randrange(1, 4))]
            yield 'loopc', dict(shape=sh, sels=[gen.rsel(rng, s, neg=True) for s in sh])
        if tier == 'quick' and rng.random() < 1 / 2500:
            return
        if tier != 'quick' and rng.random() < 1 / 60000:
            return


def ints(x):
    return [int(i) for i in x]


def c_slice(n, s):
    from pygeode.view import expand, simplify
    want = list(range(n))[slice(*s)]
    got = expand(slice(*s), n)
    check(ints(got) == want, 'expand(%r, %d)' % (slice(*s), n), got=ints(got), want=want)
    if want:
        sl = simplify(got)
        check(list(np.arange(n)[sl]) == want, 'simplify(expand(%r,%d)) = %r selects other positions' % (slice(*s), n, sl))


def c_int(n, k, np_):
    from pygeode.view import expand
    got = expand(np.int64(k) if np_ else k, n)
    check(ints(got) == [list(range(n))[k]], 'expand(%d, %d)' % (k, n), got=ints(got))


def c_list(n, l):
    from pygeode.view import expand
    for x in (l, tuple(l), np.array(l, dtype=int)):
        got = expand(x, n)
        check(ints(got) == [list(range(n))[k] for k in l], 'expand(%r, %d)' % (x, n), got=ints(got))


def c_simplify(n, l):
    from pygeode.view import simplify
    a = np.array(l, dtype='int32')
    sl = simplify(a)
    got = list(np.arange(n)[sl]) if isinstance(sl, slice) else list(np.arange(n)[np.asarray(sl, dtype=int)])
    check(ints(got) == l, 'simplify(%r) = %r selects other positions' % (l, sl), got=ints(got))
    check(a.tolist() == l, 'simplify changed its argument')


def c_contig(l):
    from pygeode.view import contiguate
    a = np.array(l, dtype='int32')
    runs = contiguate(a)
    got = []
    for r in runs:
        p = a[r]
        check(len(p) >= 1, 'contiguate(%r): empty run' % l)
        check(list(np.diff(p)) == [1] * (len(p) - 1), 'contiguate(%r): run %r is not contiguous' % (l, r))
        got += p.tolist()
    check(got == l, 'contiguate(%r): the runs put together are not the input' % l, got=got)


def c_loopc(shape, sels):
    from pygeode.view import View
    kinds = gen.UNREL[:len(shape)]
    axes = [gen.axis([k, n, 0]) for k, n in zip(kinds, shape)]
    src = np.arange(int(np.prod(shape))).reshape(shape)
    v = View(axes, slices=[gen.pysel(s) for s in sels])
    want = gen.take(src, sels)
    check(tuple(v.shape) == want.shape and v.size == want.size, 'View shape', got=(v.shape, v.size), want=want.shape)
    out = np.full(want.shape, -1)
    seen = np.zeros(want.shape, int)
    for outsl, start, count in v.loop_contiguous():
        check(all(0 <= s and c >= 1 and s + c <= n for s, c, n in zip(start, count, shape)), 'loop_contiguous: piece outside the axis', start=list(start), count=list(count), shape=shape)
        out[tuple(outsl)] = src[tuple(slice(s, s + c) for s, c in zip(start, count))]
        seen[tuple(outsl)] += 1
    check((seen == 1).all(), 'loop_contiguous: an element is covered %s times' % sorted(set(seen.ravel().tolist())))
    same(out, want, 'loop_contiguous')
