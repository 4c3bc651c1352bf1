"""C05: binned sums"""
from base import *


def data(rng_seed, shape, dtype, nanfrac):
    import numpy as np
    r = np.random.RandomState(rng_seed)
    x = r.randint(-50, 50, shape)
    if dtype.startswith('complex'):
        x = x + 1j * r.randint(-50, 50, shape)
    x = x.astype(dtype)
    if nanfrac and dtype[:3] in ('flo', 'com'):
        m = r.rand(*shape) < nanfrac
        if dtype.startswith('complex'):
            m2 = r.rand(*shape) < .3
            x = np.where(m, np.where(m2, np.nan + 0j, np.where(r.rand(*shape) < .5, complex(1, np.nan), complex(np.nan, np.nan))), x).astype(dtype)
        else:
            x[m] = np.nan
    return x


def oracle(arr, out, cnt, ia, outmap, nan):
    import numpy as np
    out, cnt = out.copy(), cnt.copy()
    A, O, C = [np.moveaxis(z, ia, 0) for z in (arr, out, cnt)]
    for i, o in enumerate(outmap):
        for j in np.ndindex(*A.shape[1:]):
            v = A[(i,) + j]
            if nan and v != v:
                continue
            O[(o,) + j] += v
            C[(o,) + j] += 1
    return out, cnt


def c_kernel(dtype, nx, nin, nout, ny, outmap, seed, nan, nanfrac, before):
    import numpy as np
    from guardmem import guard
    from pygeode import toolscore
    x = data(seed, (nx, nin, ny), dtype, nanfrac)
    o0, c0 = data(seed + 1, (nx, nout, ny), dtype, 0), np.random.RandomState(seed + 2).randint(0, 9, (nx, nout, ny)).astype('int32')
    X, O, C, M = guard(x, before), guard(o0, before), guard(c0, before), guard(np.array(outmap, 'int32'), before)
    getattr(toolscore, 'partial_%ssum_%s' % ('nan_' if nan else '', dtype))(nx, nin, nout, ny, X, O, C, M)
    wo, wc = oracle(x, o0, c0, 1, outmap, nan)
    if nan or not nanfrac:
        same(O, wo, 'totals of partial_%ssum_%s' % ('nan_' if nan else '', dtype), 1e-5, outmap=outmap)
    same(C, wc, 'counts of partial_%ssum_%s' % ('nan_' if nan else '', dtype), outmap=outmap)
    same(X, x, 'input changed')
    check(M.tolist() == outmap, 'bin map changed')


def c_split(dtype, shape, ia, nout, outmap, seed, nan, nanfrac, cuts, big):
    """tools.partial_sum called once or in pieces (along any axis) into a region of a larger accumulator"""
    import numpy as np
    from pygeode import tools
    f = tools.partial_nan_sum if nan else tools.partial_sum
    x = data(seed, tuple(shape), dtype, nanfrac)
    om = np.array(outmap, 'int32')
    oshape = list(shape)
    oshape[ia] = nout
    bshape = [s + (b if k != ia else 0) for k, (s, b) in enumerate(zip(oshape, big))]
    bout = data(seed + 3, tuple(bshape), dtype, 0)
    bcnt = np.zeros(bshape, 'int32') + 2
    wout, wcnt = bout.copy(), bcnt.copy()
    reg = tuple(slice(b, b + s) if k != ia else slice(None) for k, (s, b) in enumerate(zip(oshape, big)))
    # region [b:b+s] needs b extra elements in front
    r = oracle(x, bout[reg], bcnt[reg], ia, outmap, nan)
    wout[reg], wcnt[reg] = r
    ax, pts = cuts
    edges = [0] + sorted(pts) + [shape[ax]]
    for lo, hi in zip(edges[:-1], edges[1:]):
        if lo == hi:
            continue
        sub = [slice(None)] * len(shape)
        sub[ax] = slice(lo, hi)
        piece = np.ascontiguousarray(x[tuple(sub)])
        sl = list(reg)
        m = om
        if ax == ia:
            m = om[lo:hi].copy()
        else:
            sl[ax] = slice(big[ax] + lo, big[ax] + hi)
        f(piece, sl, bout, bcnt, ia, m)
    if nan or not nanfrac:
        same(bout, wout, 'totals accumulated in pieces', 1e-5, edges=edges, axis=ax, outmap=outmap)
    same(bcnt, wcnt, 'counts accumulated in pieces', edges=edges, axis=ax, outmap=outmap)


def c_layout(dtype, shape, ia, nout, outmap, seed, nan, layout):
    """the same samples in another memory layout"""
    import numpy as np
    from pygeode import tools
    f = tools.partial_nan_sum if nan else tools.partial_sum
    x = data(seed, tuple(shape), dtype, .2 if nan else 0)
    if layout == 'F':
        y = np.asfortranarray(x)
    elif layout == 'T':
        p = list(range(x.ndim))[::-1]
        y = np.ascontiguousarray(x.transpose(p)).transpose(p)
    else:
        y = np.repeat(x, 2, axis=-1)[..., ::2]
    oshape = list(shape)
    oshape[ia] = nout
    out, cnt = np.zeros(oshape, dtype), np.zeros(oshape, 'int32')
    w = oracle(x, out, cnt, ia, outmap, nan)
    f(y, [slice(None)] * x.ndim, out, cnt, ia, np.array(outmap, 'int32'))
    same(out, w[0], 'totals', 1e-5)
    same(cnt, w[1], 'counts')


def c_endian(dtype, shape, ia, nout, outmap, seed):
    import numpy as np
    from pygeode import tools
    x = data(seed, tuple(shape), dtype, 0)
    oshape = list(shape)
    oshape[ia] = nout
    out, cnt = np.zeros(oshape, dtype), np.zeros(oshape, 'int32')
    w = oracle(x, out, cnt, ia, outmap, False)
    y = x.astype(x.dtype.newbyteorder())
    tools.partial_sum(y, [slice(None)] * x.ndim, out, cnt, ia, np.array(outmap, 'int32'))
    same(out, w[0], 'totals of byte-swapped data', 1e-5)
    same(cnt, w[1], 'counts')


DT = ['float32', 'float64', 'int32', 'int64', 'complex64', 'complex128']


def cases(tier, rng):
    N = 1200 if tier == 'quick' else 15000
    for i in range(N):
        nan = rng.random() < .5
        dt = rng.choice([d for d in DT if not nan or d[:3] != 'int'])
        nin, nout = rng.randint(1, 7), rng.randint(1, 6)
        om = [rng.randrange(nout) for _ in range(nin)]
        yield 'kernel', dict(dtype=dt, nx=rng.randint(1, 4), nin=nin, nout=nout, ny=rng.randint(1, 5), outmap=om, seed=i, nan=nan,
                             nanfrac=rng.choice([0, .2, .5, 1]) if nan else rng.choice([0, 0, 0, .3]), before=bool(i % 2))
        nd = rng.randint(1, 4)
        shape = [rng.randint(1, 5) for _ in range(nd)]
        ia = rng.randrange(nd)
        om = [rng.randrange(nout) for _ in range(shape[ia])]
        ax = rng.randrange(nd)
        yield 'split', dict(dtype=dt, shape=shape, ia=ia, nout=nout, outmap=om, seed=i, nan=nan, nanfrac=rng.choice([0, .3, .8]) if nan else 0,
                            cuts=[ax, [rng.randint(0, shape[ax]) for _ in range(rng.randint(0, 3))]], big=[rng.choice([0, 0, 1, 2]) for _ in range(nd)])
        if i % 4 == 0:
            yield 'layout', dict(dtype=dt, shape=shape, ia=ia, nout=nout, outmap=om, seed=i, nan=nan, layout=rng.choice('FTS'))
        if i % 20 == 0:
            yield 'endian', dict(dtype=rng.choice(DT[:4]), shape=shape, ia=ia, nout=nout, outmap=om, seed=i)
