"""Contracts of ConcatVar: the joined axis is the segments' axes in order, and every selection has the values of the segments the
positions came from.  Callees by contract: View.get (V03: getview is asked for increasing positions), Axis.map_to (C04: the requested
coordinates that occur, in the order requested; coordinates of the joined axis are distinct), axis.concat (V13)."""
from absvar import *
import absvar


class Joined(AbsAxis):
    pass


class Seg(AbsAxis):
    """the axis of a segment"""
    joined = None       # the joined axis, and where this segment starts on it

    def isparentof(self, o):
        return isinstance(o, Seg)

    def map_to(self, o):
        if not isinstance(o, AbsAxis):
            return None
        if o.root is not self.root and o.root is self.joined and o.posf is not None:
            ctx = pv.CUR
            # positions of the joined axis in increasing order: those on this segment follow one another
            with ctx.each('j', o.n) as j, ctx.each('j', o.n) as j2:
                ctx.oblige('the selection of the joined axis is in increasing order', z3.Implies(z3.And(j.z < j2.z), o.pos(j) < o.pos(j2)))
            a, b = o.cut(self.start), o.cut(mk_int(zi(self.start) + zi(self.n)))
            ctx.assume(a <= b)
            r = SymArr((mk_int(b - a),), lambda idx: mk_int(o.pos(mk_int(zi(idx[0]) + a)) - zi(self.start)), 'int32')
            for t in (a, b - 1):
                o.pos(mk_int(t))
                ctx.term(t)
            r.nonneg, r.below, r.incr = True, self.n, True
            return r
        return AbsAxis.map_to(self, o)


def cutter(axis):
    """number of selected positions below a threshold (the selection is increasing): k < cut(s) exactly when pos(k) < s"""
    ctx = pv.CUR
    seen = {}

    def cut(s):
        s = z3.simplify(zi(s))
        if s not in seen:
            c = ctx.fresh('cut')
            ctx.assume(z3.And(c >= 0, c <= zi(axis.n)))
            ctx.universal(lambda k: z3.Implies(z3.And(k >= 0, k < zi(axis.n)), (k < c) == (axis.pos(mk_int(k)) < s)))
            ctx.term(c)
            ctx.term(c - 1)
            seen[s] = c
        return seen[s]
    return cut


def is_equivalent(a, b):
    """contract (V15): same kind, length and coordinates"""
    return a == b


def concat_(rank, iaxis, nseg, how, same=()):
    """nseg segments with rank axes joined along iaxis; how: 'auto' finds the axis, 'name'/'number' is given"""
    def run(repo, rep):
        given = []

        def c_concat(axes):
            """contract (V13): the points of the axes, in order"""
            given.append(list(axes))
            return pv.CUR.joined

        class NamedAxis(AbsAxis):
            def __init__(self, values, name=None, **k):
                AbsAxis.__init__(self, name or 'named', values if is_int(values) else sh_len(values))
        L = lifted(repo, lift=['pygeode.concat', 'pygeode.tools'], extra={'pygeode.axis.concat': c_concat, 'pygeode.axis.is_equivalent': is_equivalent, 'pygeode.axis.NamedAxis': NamedAxis,
                                                                          'pygeode.libhelper.load_lib': lambda *a, **k: None, 'pygeode.toolscore': object()})
        m = L.module('pygeode.concat')

        def scn(ctx):
            given.clear()
            others = [AbsAxis('a%d' % j, ctx.int('n%d' % j, 1)) for j in range(rank)]
            segs, start = [], z3.IntVal(0)
            for i in range(nseg):
                s = Seg('t', ctx.int('nt%d' % i, 1))
                s.start = mk_int(start)
                start = start + zi(s.n)
                segs.append(s)
            whole = AbsVar('whole', [Joined('t', mk_int(start)) if j == iaxis else others[j] for j in range(rank)])
            J = whole.axes[iaxis]
            ctx.joined = J
            xs = []
            for s in segs:
                s.joined = J
                x = AbsVar('x', [s if j == iaxis else others[j] for j in range(rank)])
                x.D = lambda *p, s=s: whole.D(*[mk_int(zi(q) + zi(s.start)) if j == iaxis else q for j, q in enumerate(p)])
                xs.append(x)
            v = m.concat(xs) if how == 'auto' else m.concat(*xs, iaxis='t' if how == 'name' else iaxis)
            ctx.oblige('the axes of all segments are joined, in order', z3.BoolVal(len(given) == 1 and len(given[0]) == nseg and all(a is b for a, b in zip(given[0], segs))))
            ctx.oblige('the axes are those of the segments, the joined one in its place', z3.BoolVal(len(v.axes) == rank and all(a is b for a, b in zip(v.axes, whole.axes))))
            ctx.oblige('the values have the type of the segments', z3.BoolVal(np_.dtype(v.dtype) == np_.dtype('float64')))
            view = new_view(L, v.axes, incr=True)
            sub = view.subaxis

            def subaxis(k):
                a = sub(k)
                if a.root is J:
                    a.cut = cutter(a)
                return a
            view.subaxis = subaxis
            r = v.getview(view, pbar=PBar())
            check_values(ctx, r, view, lambda p: whole.D(*p), 'value')
        verify_py(rep, 'concat.ConcatVar (%d segments, %d axes, joined along axis %d, %s)' % (nseg, rank, iaxis, how), scn)
        rep.bounded = ['ConcatVar: 2 or 3 segments, 1 to 3 axes (extents, selections, values unbounded)']
    return ('concat %d segments, %d axes, axis %d, %s' % (nseg, rank, iaxis, how), run)


def new_axis(rank, nseg):
    """all axes of the segments are the same: a new last axis counts the segments"""
    def run(repo, rep):
        class NamedAxis(AbsAxis):
            def __init__(self, values, name=None, **k):
                AbsAxis.__init__(self, name or 'named', values if is_int(values) else sh_len(values))
        L = lifted(repo, lift=['pygeode.concat', 'pygeode.tools'], extra={'pygeode.axis.is_equivalent': is_equivalent, 'pygeode.axis.NamedAxis': NamedAxis, 'warnings.warn': lambda *a, **k: None,
                                                                          'pygeode.libhelper.load_lib': lambda *a, **k: None, 'pygeode.toolscore': object()})
        m = L.module('pygeode.concat')

        def scn(ctx):
            axes = [AbsAxis('a%d' % j, ctx.int('n%d' % j, 1)) for j in range(rank)]
            xs = [AbsVar('x%d' % i, axes) for i in range(nseg)]
            v = m.concat(xs)
            ctx.oblige('the axes of the segments and a new last one', z3.BoolVal(len(v.axes) == rank + 1 and all(a is b for a, b in zip(v.axes, axes))))
            ctx.oblige('the new axis counts the segments', zi(v.shape[rank]) == nseg)
            for sel in ([0], [nseg - 1], list(range(nseg)), list(range(nseg - 1))):
                ind = const_arr(sel, 'int32')
                ind.below, ind.nonneg, ind.incr = nseg, True, True
                w = new_view(L, axes, incr=True)
                inds = list(w.integer_indices) + [ind]
                view = L.View(v.axes, force_slices=[Sel(i) for i in inds], force_integer_indices=inds)
                r = v.getview(view, pbar=PBar())

                def spec(p):
                    z = zi(p[rank])
                    out = xs[-1].D(*p[:rank])
                    for i in range(nseg - 1):
                        out = ite(z == i, xs[i].D(*p[:rank]), out)
                    return out
                check_values(ctx, r, view, spec, 'value')
        verify_py(rep, 'concat.ConcatVar (%d segments with the same %d axes)' % (nseg, rank), scn)
        rep.bounded = ['ConcatVar: 2 or 3 segments, 1 to 3 axes (extents, selections, values unbounded)']
    return ('concat same %d segments, %d axes' % (nseg, rank), run)


def tasks(prop, tier='quick'):
    if prop == 'V05':
        out = [concat_(*a) for a in ((1, 0, 2, 'auto'), (1, 0, 3, 'number'), (2, 0, 2, 'name'), (2, 1, 2, 'auto'), (2, 0, 3, 'auto'), (3, 1, 2, 'number'))]
        return out + [new_axis(1, 2), new_axis(2, 3)]
    return []
