"""V03: any chain of selections, read in any way, gives the element stored at each selected position."""
import numpy as np
from base import fail, check, same, Skip
import gen
from f_v02 import Limit


def cases(tier, rng):
    # small-scope: every pair of 1-d selections on every kind of source
    L = [['s', None, None, None], ['s', None, None, -1], ['s', 1, None, 2], ['s', -2, None, None], ['s', None, None, -2], ['i', 0], ['i', -1],
         ['l', [0, 0]], ['l', [2, 0, 1]], ['l', [3, 1, 1, 0, 3]], ['l', [-1, 0]], ['s', 3, 0, -1]]
    for src in gen.SRC:
        for kind in ('lat', 'std', 'nam', 'pres'):
            for a in L:
                yield 'chain', dict(v=dict(axes=[[kind, 4, 0]], src=src, dtype='d', seed=3), chain=[[a]])
                if kind in ('lat', 'std'):
                    for b in L:
                        yield 'chain', dict(v=dict(axes=[[kind, 4, 1]], src=src, dtype='i', seed=3), chain=[[a], [b]])
    for _ in range(2500 if tier == 'quick' else 60000):
        v = gen.rvar(rng, k=rng.choice([1, 2, 2, 3, 4]))
        k = rng.random()
        if k < .45:
            chain, shape = [], [a[1] for a in v['axes']]
            for _ in range(rng.choice([1, 1, 2, 3])):
                sels = [gen.rsel(rng, n) for n in shape]
                shape = [len(gen.idx(s, n)) for s, n in zip(sels, shape)]
                chain.append(sels)
                if max(shape) > 9:
                    break
            yield 'chain', dict(v=v, chain=chain)
        elif k < .6:
            yield 'getitem', dict(v=v, sels=[gen.rsel(rng, a[1]) for a in v['axes']], drop=rng.randrange(0, len(v['axes'])), ell=rng.random() < .3)
        elif k < .8:
            n = len(v['axes'])
            yield 'view', dict(v=v, sels=[gen.rsel(rng, a[1]) for a in v['axes']], perm=gen.perm(n, rng.randrange(99)),
                               conform=rng.random() < .7, extra=rng.random() < .3, drop=rng.random() < .3)
        elif k < .95:
            yield 'pieces', dict(v=v, sels=[gen.rsel(rng, a[1]) for a in v['axes']], lim=rng.randrange(1, 30))
        elif k < .97:
            sels = [gen.rsel(rng, a[1]) for a in v['axes']]
            j = rng.randrange(len(sels))
            yield 'edit', dict(v=v, sels=sels, op=rng.choice(['remove', 'modify', 'unslice', 'only', 'replace', 'add']), which=sorted(rng.sample(range(len(sels)), rng.randrange(1, len(sels) + 1))),
                               new=gen.rsel(rng, v['axes'][j][1]), j=j)
        else:
            sels = [gen.rsel(rng, a[1]) for a in v['axes']]
            sels[rng.randrange(len(sels))] = ['s', 2, 2, None]
            yield 'empty', dict(v=v, sels=sels, perm=gen.perm(len(sels), rng.randrange(99)))


def c_chain(v, chain):
    var, d = gen.var(v)
    x, src = var, [list(range(n)) for n in d.shape]
    for sels in chain:
        for s, r in zip(sels, src):
            try:
                gen.idx(s, len(r))
            except IndexError:
                raise Skip()
        x = x.slice[tuple(gen.pysel(s) for s in sels)]
        src = [[r[i] for i in gen.idx(s, len(r))] for s, r in zip(sels, src)]
    want = d[np.ix_(*src)]
    check(tuple(x.shape) == want.shape, 'shape of the selection', got=x.shape, want=want.shape)
    for i, (a, b) in enumerate(zip(x.axes, var.axes)):
        gen.check_axis(a, b, src[i], 'axis %d' % i)
    same(x.get(), want, 'values read', chain=chain)
    same(var.get(), d, 'source')
    same(x.load().get() if hasattr(x, 'load') else x.get(), want, 'values loaded', chain=chain)


def c_getitem(v, sels, drop, ell):
    var, d = gen.var(v)
    key = [gen.pysel(s) for s in sels]
    if ell:
        key = key[:len(key) - drop] + [Ellipsis]
        sels = sels[:len(sels) - drop] + [['s', None, None, None]] * drop
    want = gen.take(d, sels)
    ix = tuple(0 if s[0] == 'i' else slice(None) for s in sels)
    same(var[tuple(key)], want[ix], 'var[...]', key=key)


def c_view(v, sels, perm, conform, extra, drop):
    """a view listing the axes in another order, with axes the variable lacks or without some it has"""
    from pygeode.view import View
    var, d = gen.var(v)
    axes = [var.axes[p] for p in perm]
    ss = [sels[p] for p in perm]
    want = gen.take(d, sels)
    if drop:
        # axes not mentioned are read whole; only possible without conforming
        k = perm[0]
        axes, ss = axes[1:], ss[1:]
        sels = [s if i != k else ['s', None, None, None] for i, s in enumerate(sels)]
        want = gen.take(d, sels)
        conform = False
    if extra:
        axes, ss = axes + [gen.axis(['m365', 3, 0])], ss + [['l', [1, 0]]]
    if any(a[0] == 'std' for a in v['axes']) and extra:
        raise Skip()
    got = View(axes, [gen.pysel(s) for s in ss]).get(var, strict=not drop, conform=conform)
    if conform:
        want = want.transpose(perm)
        if extra:
            want = want.reshape(want.shape + (1,))
    same(got, want, 'View.get', order=perm, selection=ss)


def c_pieces(v, sels, lim):
    """reading in pieces puts the same data together as reading at once"""
    from pygeode.view import View
    var, d = gen.var(v)
    view = View(var.axes, [gen.pysel(s) for s in sels])
    want = gen.take(d, sels)
    same(view.get(var), want, 'read at once')
    out = np.zeros(want.shape, want.dtype)
    pos = [{} for _ in sels]
    with Limit(lim):
        at = [0] * len(sels)
        pieces = list(view.loop_mem())
    # pieces come in order, the last axis fastest
    flat = []
    starts = [0] * d.ndim
    for p in pieces:
        sl = tuple(slice(s, s + n) for s, n in zip(starts, p.shape))
        same(p.get(var), want[sl], 'piece of the data', starts=starts, shape=p.shape)
        for i in reversed(range(d.ndim)):
            starts[i] += p.shape[i]
            if starts[i] < want.shape[i]:
                break
            starts[i] = 0
    check(all(s == 0 for s in starts), 'the pieces do not cover the selection')


def c_empty(v, sels, perm):
    from pygeode.view import View
    var, d = gen.var(v)
    x = var.slice[tuple(gen.pysel(s) for s in sels)]
    want = gen.take(d, sels)
    same(x.get(), want, 'empty selection')
    got = View([var.axes[p] for p in perm], [gen.pysel(sels[p]) for p in perm]).get(var)
    same(got, want.transpose(perm), 'empty selection through a view in another order')


def c_edit(v, sels, op, which, new, j):
    """the edited copies of a view select what they say: other axes keep their selection"""
    from pygeode.view import View
    var, d = gen.var(v)
    view = View(var.axes, [gen.pysel(s) for s in sels])
    whole = ['s', None, None, None]
    n = d.ndim
    by = [var.axes[i] if (i + j) % 2 else i for i in which]
    if op == 'remove':
        x = view.remove(*by)
        keep = [i for i in range(n) if i not in which]
        check([id(a) for a in x.axes] == [id(var.axes[i]) for i in keep], 'axes left', got=[a.name for a in x.axes])
        check([[int(k) for k in z] for z in x.integer_indices] == [gen.idx(sels[i], d.shape[i]) for i in keep], 'positions left', got=[list(z) for z in x.integer_indices])
        back = x
        for i in which:
            back = back.add_axis(i, var.axes[i], gen.pysel(sels[i]))
        same(back.get(var), gen.take(d, sels), 'axes removed and added again')
        return
    if op == 'modify':
        x = view.modify_slice(j, gen.pysel(new))
        sels = [new if i == j else s for i, s in enumerate(sels)]
    elif op == 'replace':
        x = view.replace_axis(j, var.axes[j], gen.pysel(new))
        sels = [new if i == j else s for i, s in enumerate(sels)]
    elif op == 'unslice':
        x = view.unslice(*by)
        sels = [whole if i in which else s for i, s in enumerate(sels)]
    elif op == 'only':
        x = view.only_slice(*by)
        sels = [s if i in which else whole for i, s in enumerate(sels)]
    else:
        e = gen.axis(['m365', 3, 0])
        if any(a[0] == 'std' for a in v['axes']):
            raise Skip()
        x = view.add_axis(j, e, [1, 0])
        got = x.get(var)
        same(got, np.expand_dims(gen.take(d, sels), j), 'axis added')
        check([int(k) for k in x.integer_indices[j]] == [1, 0], 'positions of the axis added')
        return
    same(x.get(var), gen.take(d, sels), 'View.%s' % op, which=which)
