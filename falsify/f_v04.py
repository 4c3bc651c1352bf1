"""V04: rearranged variables hold, at each set of coordinates, the value that was there before."""
import numpy as np
from base import fail, check, same, Skip
import gen


def cases(tier, rng):
    for src in gen.SRC:
        for axes in ([['lat', 3, 0], ['pres', 4, 5]], [['std', 4, 5], ['lon', 2, 1]], [['nam', 3, 1], ['lat', 1, 0], ['pres', 2, 0]]):
            n = len(axes)
            v = dict(axes=axes, src=src, dtype='d', seed=3)
            import itertools
            for p in itertools.permutations(range(n)):
                yield 'ops', dict(v=v, ops=[['transpose', list(p)]], sels=None)
            for i in range(n):
                for o in (1, 0, -1):
                    yield 'ops', dict(v=v, ops=[['sorted', i, o]], sels=None)
                yield 'ops', dict(v=v, ops=[['replace', i]], sels=None)
                yield 'ops', dict(v=v, ops=[['rename_axes', i]], sels=None)
                yield 'ops', dict(v=v, ops=[['squeeze']], sels=None)
                yield 'ops', dict(v=v, ops=[['sqkw', i, 0]], sels=None)
            for i in range(n + 1):
                yield 'ops', dict(v=v, ops=[['extend', i, [['t2', 2, 0]]]], sels=None)
    for _ in range(2500 if tier == 'quick' else 60000):
        v = gen.rvar(rng, k=rng.choice([1, 2, 3, 3]))
        if rng.random() < .4:
            v['axes'][rng.randrange(len(v['axes']))][1] = 1
        ops = []
        ext = 0
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.randrange(8)
            if k == 0:
                ops.append(['transpose', 'r%d' % rng.randrange(99)])
            elif k == 1:
                ops.append(['sorted', rng.randrange(4), rng.choice([1, 0, -1])])
            elif k == 2:
                ops.append(['squeeze'])
            elif k == 3 and not ext:
                ext = 1
                ops.append(['extend', rng.randrange(4), [['e1', rng.randrange(1, 4), 0]] + ([['e2', 2, 1]] if rng.random() < .4 else [])])
            elif k == 4:
                ops.append(['rename'])
            elif k == 5:
                ops.append(['replace', rng.randrange(4)])
            elif k == 6:
                ops.append(['sqkw', rng.randrange(4), rng.randrange(6)])
            else:
                ops.append(['sel', rng.randrange(1, 9999)])
        yield 'ops', dict(v=v, ops=ops, sels=rng.randrange(1, 9999))


def mk(spec):
    import pygeode as pyg
    if spec[0] == 'e1':
        return pyg.NamedAxis(np.arange(spec[1]) * 3. + 1, 'e1')
    if spec[0] == 'e2':
        return pyg.NamedAxis(np.arange(spec[1])[::-1] * 2. + 1, 'e2')
    if spec[0] == 't2':
        return pyg.NamedAxis(np.arange(spec[1]) * 2. + 1, 't2')
    return gen.axis(spec)


def c_ops(v, ops, sels):
    import random
    import pygeode as pyg
    var, d = gen.var(v)
    x, want, axes = var, d, [gen.points(a) for a in var.axes]
    for op in ops:
        n = x.naxes
        if op[0] == 'transpose':
            p = gen.perm(n, int(op[1][1:])) if isinstance(op[1], str) else op[1]
            if n == 0:
                raise Skip()
            keep = p if len(p) == n else p
            how = (sum(p) + n) % 3
            ids = [x.axes[i] for i in p] if how == 0 else list(p) if how == 1 else [x.axes[i].name for i in p]
            # the last ones may be left out when they are in order
            x = x.transpose(*ids)
            want = want.transpose(p)
            axes = [axes[i] for i in p]
        elif op[0] == 'sorted':
            if n == 0:
                raise Skip()
            i = op[1] % n
            ax = x.axes[i]
            o = op[2] or ax.plotatts.get('plotorder', 1)
            S = np.argsort(np.asarray(ax.values, 'd'))[::o]
            if len(set(axes[i])) < len(axes[i]):
                raise Skip()
            x = x.sorted(**{ax.name: op[2]})
            want = np.take(want, S, axis=i)
            axes[i] = [axes[i][j] for j in S]
            vals = np.asarray(x.axes[i].values, 'd')
            check(np.all(np.diff(vals) * o > 0), 'sorted axis is not in order', values=vals.tolist(), order=o)
        elif op[0] == 'squeeze':
            keep = [i for i in range(n) if want.shape[i] != 1]
            x = x.squeeze()
            axes = [axes[i] for i in keep]
            want = want.reshape([want.shape[i] for i in keep])
        elif op[0] == 'sqkw':
            if n == 0:
                raise Skip()
            i = op[1] % n
            j = op[2] % want.shape[i]
            if len(set(axes[i])) < len(axes[i]):
                raise Skip()
            x = x.squeeze(**{x.axes[i].name: float(x.axes[i].values[j])})
            # every axis of length one goes, as with squeeze()
            keep = [k for k in range(n) if k != i and want.shape[k] != 1]
            want = np.take(want, [j], axis=i)
            axes = [axes[k] for k in keep]
            want = want.reshape([want.shape[k] for k in keep])
        elif op[0] == 'extend':
            pos = min(op[1], n)
            new = [mk(s) for s in op[2]]
            x = x.extend(pos, *new) if len(new) == 1 else x.extend(pos, new)
            want = want.reshape(want.shape[:pos] + (1,) * len(new) + want.shape[pos:])
            want = np.broadcast_to(want, want.shape[:pos] + tuple(len(a) for a in new) + want.shape[pos + len(new):])
            axes = axes[:pos] + [gen.points(a) for a in new] + axes[pos:]
        elif op[0] == 'rename':
            x = x.rename('other')
            check(x.name == 'other', 'rename: name')
        elif op[0] == 'rename_axes':
            i = op[1]
            x = x.rename_axes(**{x.axes[i].name: 'newname'})
            check(x.axes[i].name == 'newname', 'rename_axes: name')
        elif op[0] == 'replace':
            if n == 0:
                raise Skip()
            i = op[1] % n
            new = pyg.NamedAxis(np.arange(want.shape[i]) * 7. - 3, 'rep%d' % i)
            if any(a.name == new.name for a in x.axes):
                raise Skip()
            x = x.replace_axes({x.axes[i].name: new}, keep_old_name=False)
            axes[i] = gen.points(new)
        elif op[0] == 'sel':
            rng = random.Random(op[1])
            ss = [gen.rsel(rng, m) for m in want.shape]
            x = x.slice[tuple(gen.pysel(s) for s in ss)] if n else x
            axes = [[a[j] for j in gen.idx(s, len(a))] for a, s in zip(axes, ss)]
            want = gen.take(want, ss)
        check(tuple(x.shape) == want.shape, 'shape after %s' % op[0], got=x.shape, want=want.shape, ops=ops)
        check([gen.points(a) for a in x.axes] == axes, 'coordinates after %s' % op[0], got=[gen.points(a) for a in x.axes], want=axes)
    same(x.get(), want, 'values after %s' % [o[0] for o in ops])
    if sels and x.naxes:
        rng = random.Random(sels)
        for _ in range(2):
            ss = [gen.rsel(rng, m) for m in want.shape]
            y = x.slice[tuple(gen.pysel(s) for s in ss)]
            same(y.get(), gen.take(want, ss), 'selection after %s' % [o[0] for o in ops], selection=ss)
