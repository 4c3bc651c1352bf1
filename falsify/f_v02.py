"""V02: loop_mem and loopover cover every element of a request once, in order, in pieces within the limit."""
import itertools
import numpy as np
from base import fail, check, same, Skip
import gen


def cases(tier, rng):
    for shape in [[1], [5], [2, 3], [3, 4], [2, 2, 3], [3, 1, 4], [1, 1], [4, 5, 2], [2, 3, 2, 3]]:
        for lim in (1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 23, 24, 25, 100):
            for pres in [None, [], [0], [len(shape) - 1], list(range(len(shape)))]:
                yield 'loopmem', dict(shape=shape, sels=[['s', None, None, None]] * len(shape), lim=lim, pres=pres)
    for _ in range(1500 if tier == 'quick' else 40000):
        k = rng.randrange(1, 5)
        shape = [rng.randrange(1, 7) for _ in range(k)]
        sels = [gen.rsel(rng, n, neg=False) for n in shape]
        yield 'loopmem', dict(shape=shape, sels=sels, lim=rng.randrange(1, 60), pres=rng.choice([None, rng.sample(range(k), rng.randrange(0, k + 1))]))
    for _ in range(700 if tier == 'quick' else 20000):
        v = gen.rvar(rng, k=rng.choice([1, 2, 3]))
        n = len(v['axes'])
        keep = sorted(rng.sample(range(n), rng.randrange(0, n + 1)))
        two = rng.random() < .4
        yield 'loopover', dict(v=v, keep=keep, sels=[gen.rsel(rng, v['axes'][i][1], neg=False) for i in keep],
                               lim=rng.randrange(1, 40), pres=rng.choice([None, rng.sample(range(n), rng.randrange(0, n + 1))]), two=two)


class Limit:
    def __init__(self, n):
        self.n = n

    def __enter__(self):
        import pygeode
        self.old = pygeode.MAX_ARRAY_SIZE
        pygeode.MAX_ARRAY_SIZE = self.n

    def __exit__(self, *a):
        import pygeode
        pygeode.MAX_ARRAY_SIZE = self.old


def c_loopmem(shape, sels, lim, pres):
    from pygeode.view import View
    kinds = (gen.UNREL + ['m365'])[:len(shape)]
    axes = [gen.axis([k, n, 0]) for k, n in zip(kinds, shape)]
    view = View(axes, slices=[gen.pysel(s) for s in sels])
    idx = [gen.idx(s, n) for s, n in zip(sels, shape)]
    want = list(itertools.product(*idx))
    with Limit(lim):
        pieces = list(view.loop_mem(preserve=pres))
    big = int(np.prod([len(idx[i]) for i in set(pres or [])], dtype=int))
    got, per = [], []
    for p in pieces:
        check(p.axes == view.axes, 'loop_mem: a piece lists other axes')
        sz = int(np.prod(p.shape, dtype=int))
        check(sz > 0, 'loop_mem: empty piece')
        check(sz <= max(lim, big), 'loop_mem: a piece of %d elements, limit %d' % (sz, lim), shape=p.shape, preserve=pres)
        for i in (pres or []):
            check(p.shape[i] == len(idx[i]), 'loop_mem: axis %d asked to be whole is split' % i)
        ii = [[int(x) for x in a] for a in p.integer_indices]
        per.append(ii)
        got += list(itertools.product(*ii))
        for i, sl in enumerate(p.slices):
            g = np.arange(shape[i])[sl if isinstance(sl, slice) else np.asarray(sl, dtype=int)]
            check([int(x) for x in g] == ii[i], 'piece slices and indices disagree')
    check(sorted(got) == sorted(want), 'loop_mem: elements visited are not those requested, each once', got=sorted(got)[:40], want=sorted(want)[:40], limit=lim)
    # in order: along every axis the pieces follow the request, the last axis varying fastest
    lens = []
    # the split of axis i is determined by walking the product from the last axis
    stride = 1
    for i in reversed(range(len(shape))):
        out, j, tot = [], 0, 0
        while tot < len(idx[i]) and j < len(per):
            out.append(per[j][i])
            tot += len(per[j][i])
            j += stride
        check([x for o in out for x in o] == idx[i], 'loop_mem: axis %d is not visited in the order requested' % i, got=out, want=idx[i])
        lens.insert(0, out)
        stride *= len(out)
    check(per == [list(x) for x in itertools.product(*lens)], 'loop_mem: pieces are not visited in order')


def c_loopover(v, keep, sels, lim, pres, two):
    """pieces of the input data together with the place of the output they belong to: adding them up gives the sums over the dropped axes"""
    from pygeode.view import View
    from pygeode.tools import loopover
    from pygeode.progress import FakePBar
    var, d = gen.var(v)
    outview = View([var.axes[i] for i in keep], slices=[gen.pysel(s) for s in sels])
    if any(len(set(gen.idx(s, d.shape[i]))) != len(gen.idx(s, d.shape[i])) for i, s in zip(keep, sels)):
        raise Skip()
    reds = tuple(i for i in range(d.ndim) if i not in keep)
    full = d
    for i, s in zip(keep, sels):
        full = np.take(full, gen.idx(s, d.shape[i]), axis=i)
    datas, vars_ = [full.astype('d')], var
    if two:
        vars_ = [var, gen.wrap(var.axes, d * 2 + 1, 'view')]
        datas.append(full.astype('d') * 2 + 1)
    outs = [np.zeros(outview.shape) for _ in datas]
    cnt = np.zeros(outview.shape, int)
    big = int(np.prod([full.shape[i] for i in set(pres or [])], dtype=int))
    with Limit(lim):
        for outsl, pieces in loopover(vars_, outview, **dict(inaxes=var.axes) if two else {}, preserve=pres, pbar=FakePBar()):
            check(len(pieces) == len(datas), 'loopover: number of pieces', got=len(pieces))
            for k, a in enumerate(pieces):
                check(0 < a.size <= max(lim, big), 'loopover: a piece of %d elements, limit %d' % (a.size, lim), preserve=pres)
                check(a.ndim == d.ndim, 'loopover: dimensions of a piece', shape=a.shape)
                for i in (pres or []):
                    check(a.shape[i] == full.shape[i], 'loopover: axis %d asked to be whole is split' % i)
                s = a.astype('d').sum(axis=reds)
                check(outs[k][outsl].shape == s.shape, 'loopover: the place in the output has another shape than the piece', got=outs[k][outsl].shape, want=s.shape, slices=outsl)
                outs[k][outsl] += s
                if k == 0:
                    cnt[outsl] += int(np.prod([a.shape[i] for i in reds], dtype=int))
    n = int(np.prod([d.shape[i] for i in reds], dtype=int))
    check((cnt == n).all(), 'loopover: output elements received %s samples, expected %d' % (sorted(set(cnt.ravel().tolist())), n))
    for o, w in zip(outs, datas):
        same(o, w.sum(axis=reds), 'loopover: accumulated sums', tol=1e-10)
