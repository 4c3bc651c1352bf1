"""Contracts of the getview methods of derived variables: each returns, for any view of its axes, the values its definition
gives at the selected positions; View.get, View.map_to's parts, Axis and Var.__init__ are callees known by contract (absvar)."""
from absvar import *
import absvar


# ------------------------------------------------------------------------------------------------ V06
def ndiff(vals):
    while len(vals) > 1:
        vals = [b - a for a, b in zip(vals, vals[1:])]
    return vals[0]


def diff_(rank, daxis, n):
    def run(repo, rep):
        L = lifted(repo, lift=['pygeode.diff'])
        cls = L.get('pygeode.diff', 'ForwardDifferenceVar')

        def scn(ctx):
            axes = [AbsAxis('a%d' % j, ctx.int('n%d' % j, 1)) for j in range(rank)]
            ctx.assume(axes[daxis].n.z > n)
            x = AbsVar('x', axes)
            v = cls(x, daxis, n)
            ctx.oblige('the difference axis loses its last n points', zi(v.shape[daxis]) == axes[daxis].n.z - n)
            view = new_view(L, v.axes)
            for k in range(1):
                r = v.getview(view, pbar=PBar())

            def spec(p):
                return ndiff([x.D(*[mk_int(zi(q) + (i if j == daxis else 0)) for j, q in enumerate(p)]) for i in range(n + 1)])
            def hint(k):
                # each of the n+1 points needed is found where the search for the first one ends
                for u, y, s in list(ctx.searches):
                    if z3.simplify(y).eq(z3.simplify(elem(view.integer_indices[daxis], k[daxis]))):
                        for i in range(n + 1):
                            ctx.oblige('point %d of the stencil follows in the list of points read' % i, z3.And(s + i < zi(u.shape_[0]), elem(u, s + i) == y + i))
            check_values(ctx, r, view, spec, 'n-th difference', hint)
        verify_py(rep, 'diff.ForwardDifferenceVar (rank %d, axis %d, n=%d)' % (rank, daxis, n), scn)
        rep.bounded = ['ForwardDifferenceVar: number of axes 1 to 3, order of the difference 1 to 3 (extents, positions, values unbounded)']
    return run



def lag_(rank, iaxis, reverse=False):
    """LagVar: at time position t and lag l the value l steps further along the axis, missing where that is off the axis"""
    def run(repo, rep):
        made = []

        class Time(AbsAxis):
            pass

        class Yearless(AbsAxis):
            def __init__(self, values, units=None, startdate=None):
                AbsAxis.__init__(self, 'lag', sh_len(values))
                self.given, self.units = values, units
                made.append(self)

        def whole(x):
            return isinstance(x, (slice, SymSlice)) and x.start is None and x.stop is None and x.step is None

        def vars(ctx, k, loc):
            s = loc['self']
            c = s.iaxis + 1
            out = loc['out']
            nr = len(s.axes)
            junk, jn = ctx.func('junk', *([I] * nr + [R])), ctx.func('junk_nan', *([I] * nr + [B]))
            v = SymArr(out.shape_, lambda idx: ite(zi(idx[c]) < zi(k), want(loc, idx), SymReal(junk(*[zi(i) for i in idx]), jn(*[zi(i) for i in idx]))), out.dtype)
            insl, outsl = [slice(None)] * (nr - 1), [slice(None)] * nr
            insl[s.iaxis] = outsl[s.iaxis] = outsl[c] = None
            return dict(out=v, insl=insl, outsl=outsl)

        def want(loc, idx):
            view, s = loc['view'], loc['self']
            return spec(s, [mk_int(elem(i, x)) for i, x in zip(view.integer_indices, idx)])

        def spec(s, p):
            nl = sh_len(s.given)
            q = p[s.iaxis + 1]
            l = elem(s.given, zi(nl) - 1 - zi(q) if reverse else q)
            t = zi(p[s.iaxis]) + l
            n = zi(s.var.axes[s.iaxis].n)
            src = list(p[:s.iaxis]) + [mk_int(t)] + list(p[s.iaxis + 2:])
            return ite(z3.And(t >= 0, t < n), s.var.D(*src), float('nan'))

        def inv(ctx, k, loc):
            s, out = loc['self'], loc['out']
            c = s.iaxis + 1
            nr = len(s.axes)
            f = [('out keeps its shape', z3.And(*[zi(a) == zi(b) for a, b in zip(out.shape_, loc['view'].shape)]))]
            f.append(('the lists of slices are complete elsewhere', z3.BoolVal(all(whole(x) for j, x in enumerate(loc['outsl']) if j not in (s.iaxis, c)) and all(whole(x) for j, x in enumerate(loc['insl']) if j != s.iaxis) and len(loc['outsl']) == nr and len(loc['insl']) == nr - 1)))
            if ctx.phase != 'assume':
                i = [ctx.int('i%d' % j, 0, n) for j, n in enumerate(out.shape_)]
                for x in i:
                    ctx.term(x)
                f.append(('the lags done so far are filled in', z3.Implies(zi(i[c]) < zi(k), same(out.at(*i), want(loc, i)))))
            return f
        L = lifted(repo, lift=['pygeode.timeutils'], extra={'pygeode.timeaxis.lib': object(), 'pygeode.timeaxis.Yearless': Yearless, 'pygeode.timeaxis.Time': Time, 'pygeode.timeaxis.ModelTime365': type('ModelTime365', (AbsAxis,), {}),
                                                            'pygeode.Var': VarBase}, loops={'LagVar.getview#*': Inv(vars, inv)})
        m = L.module('pygeode.timeutils')

        def scn(ctx):
            made.clear()
            axes = [(Time if j == iaxis else AbsAxis)('a%d' % j, ctx.int('n%d' % j, 2 if j == iaxis else 1)) for j in range(rank)]
            x = AbsVar('x', axes)
            nl = ctx.int('nlags', 1)
            lf = ctx.func('lags', I, I)
            lags = SymArr((nl,), lambda idx: mk_int(lf(zi(idx[0]))), 'int32')
            v = m.lag(x, axes[iaxis], lags, reverse)
            v.given = lags
            ctx.oblige('one new axis', z3.BoolVal(len(v.axes) == rank + 1 and len(made) == 1 and v.axes[iaxis + 1] is made[0] and all(a is b for a, b in zip(v.axes[:iaxis + 1] + v.axes[iaxis + 2:], x.axes))))
            ctx.oblige('the lag axis has one point for each lag', zi(v.shape[iaxis + 1]) == nl.z)
            if not reverse:
                q = ctx.int('q', 0, nl)
                step = axes[iaxis].coord(1) - axes[iaxis].coord(0)
                ctx.oblige('the lag axis has the lags as multiples of the step', same(made[0].given.at(q), step * lags.at(q)))
            view = new_view(L, v.axes, incr=False)
            r = v.getview(view, pbar=PBar())
            check_values(ctx, r, view, lambda p: spec(v, p), 'value')
        verify_py(rep, 'timeutils.LagVar (%d axes, time is %d%s)' % (rank, iaxis, ', reversed' if reverse else ''), scn)
        rep.bounded = ['LagVar: 1 to 3 axes (extents, lags, selections, values unbounded)']
    return run


# ------------------------------------------------------------------------------------------------ V04, V03 (selections), V11 (markers)
def shape_(ctx, v, axes):
    ctx.oblige('the variable has the axes expected', z3.BoolVal(len(v.axes) == len(axes)))


def wrapper(name, rank, make, value=None, expect=None, dtype='float64', incr=False, mod='pygeode.varoperations', bounded=None, fixed=None):
    """make(ctx, module, x) builds the derived variable; expect(ctx, v, x) states what its axes are; each value is that of x at the
    same coordinates (through the function value, if given)"""
    def run(repo, rep):
        L = lifted(repo, lift=[mod])
        m = L.module(mod)

        def scn(ctx):
            axes = [AbsAxis('a%d' % j, 1 if fixed and j in fixed else ctx.int('n%d' % j, 1)) for j in range(rank)]
            x = AbsVar('x', axes, dtype)
            v = make(ctx, m, x)
            if expect is not None:
                expect(ctx, v, x)
            view = new_view(L, v.axes, incr=incr)
            r = v.getview(view, pbar=PBar()) if v is not x else view.get(x)

            def spec(p):
                w = x.D(*by_coords(v, x, p))
                return value(ctx, w) if value else w
            check_values(ctx, r, view, spec, 'value')
            if isinstance(r, SymArr) and not (v is x):
                ctx.oblige('values have the type announced', z3.BoolVal(r.dtype == v.dtype or (np_.dtype(r.dtype).kind == np_.dtype(v.dtype).kind)))
        verify_py(rep, '%s (%d axes)' % (name, rank), scn)
        rep.bounded = [bounded or 'derived variables: number of axes as named in each obligation (extents, selections, values unbounded)']
    return ('%s %d' % (name, rank), run)


def axes_are(f):
    def ex(ctx, v, x):
        want = f(x)
        ctx.oblige('the variable has %d axes' % len(want), z3.BoolVal(len(v.axes) == len(want)))
        for j, (a, b) in enumerate(zip(v.axes, want)):
            ctx.oblige('axis %d is the one expected' % j, z3.BoolVal(a is b or isinstance(b, tuple) and isinstance(a, AbsAxis) and a.root is b[0] and all(getattr(a, k, None) == val for k, val in b[1].items())))
    return ex


def same_extents(f):
    def ex(ctx, v, x):
        want = f(x)
        ctx.oblige('the variable has %d axes' % len(want), z3.BoolVal(len(v.axes) == len(want)))
        for j, (a, n) in enumerate(zip(v.axes, want)):
            ctx.oblige('axis %d has the extent expected' % j, zi(sh_len(a)) == zi(n))
    return ex


def var_ops():
    out = []
    add = lambda *a, **k: out.append(wrapper(*a, **k))
    import itertools
    for perm in ((1, 0), (0, 1), (2, 0, 1), (1, 2, 0), (0, 2, 1)):
        r = len(perm)
        add('varoperations.transpose %s' % (list(perm),), r, lambda ctx, m, x, perm=perm: m.transpose(x, *perm), expect=axes_are(lambda x, perm=perm: [x.axes[i] for i in perm]))
    add('varoperations.transpose [2]', 3, lambda ctx, m, x: m.transpose(x, 2), expect=axes_are(lambda x: [x.axes[2], x.axes[0], x.axes[1]]))
    add('varoperations.transpose by axis', 2, lambda ctx, m, x: m.transpose(x, x.axes[1], x.axes[0]), expect=axes_are(lambda x: [x.axes[1], x.axes[0]]))
    add('varoperations.transpose by name', 3, lambda ctx, m, x: m.transpose(x, 'a1'), expect=axes_are(lambda x: [x.axes[1], x.axes[0], x.axes[2]]))
    add('varoperations.sorted (all axes)', 2, lambda ctx, m, x: m.sorted(x), expect=axes_are(lambda x: [(a, dict(order='natural')) for a in x.axes]))
    add('varoperations.sorted (one axis)', 2, lambda ctx, m, x: m.sorted(x, 1), expect=axes_are(lambda x: [x.axes[0], (x.axes[1], dict(order='natural'))]))
    add('varoperations.sorted (a0=1, a1=-1)', 2, lambda ctx, m, x: m.sorted(x, a0=1, a1=-1), expect=axes_are(lambda x: [(x.axes[0], dict(order='increasing')), (x.axes[1], dict(order='decreasing'))]))
    add('varoperations.sorted (a1=0)', 2, lambda ctx, m, x: m.sorted(x, a1=0), expect=axes_are(lambda x: [x.axes[0], (x.axes[1], dict(order='natural'))]))
    add('varoperations.rename', 2, lambda ctx, m, x: m.rename(x, 'other'), expect=lambda ctx, v, x: (axes_are(lambda x: list(x.axes))(ctx, v, x), ctx.oblige('the name is the new one', z3.BoolVal(v.name == 'other' and x.name == 'x'))))
    # slicing
    for nm, key in (('[::-1, :]', lambda ctx, x: (slice(None, None, -1), slice(None))), ('[list]', lambda ctx, x: (index_arr('pick', ctx.int('npick', 1), 0, x.axes[0].n),)),
                    ('[..., a:b]', lambda ctx, x: (Ellipsis, SymSlice(ctx.int('a'), ctx.int('b')))), ('[i]', lambda ctx, x: (ctx.int('i', 0, x.axes[0].n),)),
                    ('[:, a:]', lambda ctx, x: (slice(None), SymSlice(ctx.int('a', 0), None)))):
        out.append(sliced_(nm, key))
    return out


def sliced_(nm, key):
    """SlicedVar: the axes are the selections, the values those of the source at the same coordinates"""
    def run(repo, rep):
        L = lifted(repo, lift=['pygeode.varoperations'])
        cls = L.get('pygeode.varoperations', 'SlicedVar')

        def scn(ctx):
            x = AbsVar('x', [AbsAxis('a%d' % j, ctx.int('n%d' % j, 1)) for j in range(2)])
            k = key(ctx, x)
            v = cls(x, k)
            full = list(k)
            if Ellipsis in [q for q in full if q is Ellipsis]:
                i = [j for j, q in enumerate(full) if q is Ellipsis][0]
                full[i:i + 1] = [slice(None)] * (2 - len(full) + 1)
            full += [slice(None)] * (2 - len(full))
            ctx.oblige('the variable has 2 axes', z3.BoolVal(len(v.axes) == 2))
            for j in range(2):
                want = x.axes[j].slice[full[j]]
                ctx.oblige('axis %d is a selection of axis %d' % (j, j), z3.BoolVal(isinstance(v.axes[j], AbsAxis) and v.axes[j].root is x.axes[j]))
                ctx.oblige('axis %d has as many points as selected' % j, zi(v.axes[j].n) == zi(want.n))
                with ctx.each('q', want.n) as q:
                    ctx.oblige('axis %d has the points selected' % j, v.axes[j].pos(q) == want.pos(q))
            if not all(bool(mk_bool(zi(a.n) > 0)) for a in v.axes):
                return
            view = new_view(L, v.axes, incr=False)
            r = v.getview(view, pbar=PBar())
            check_values(ctx, r, view, lambda p: x.D(*by_coords(v, x, p)), 'value')
        verify_py(rep, 'varoperations.SlicedVar %s' % nm, scn)
    return ('SlicedVar %s' % nm, run)


def layout():
    out = []
    add = lambda *a, **k: out.append(wrapper(*a, **k))
    # squeeze: the degenerate axes go
    def sq_expect(ctx, v, x):
        keep = [a for a in x.axes if not bool(mk_bool(zi(a.n) == 1))]
        axes_are(lambda x: keep)(ctx, v, x)
    def squeezed(name, call, drop=None):
        def run(repo, rep):
            L = lifted(repo, lift=['pygeode.varoperations'])
            m = L.module('pygeode.varoperations')

            def scn(ctx):
                x = AbsVar('x', [AbsAxis('a%d' % j, ctx.int('n%d' % j, 1)) for j in range(3)])
                v = call(m, x)
                one = [bool(mk_bool(zi(a.n) == 1)) for a in x.axes]
                gone = [o and (drop is None or j in drop) for j, o in enumerate(one)]
                keep = [j for j in range(3) if not gone[j]]
                axes_are(lambda x: [x.axes[j] for j in keep])(ctx, v, x)
                view = new_view(L, v.axes, incr=False)
                r = v.getview(view, pbar=PBar())
                check_values(ctx, r, view, lambda p: x.D(*[p[keep.index(j)] if j in keep else 0 for j in range(3)]), 'value')
            verify_py(rep, name, scn)
        return (name, run)
    out.append(squeezed('varoperations.squeeze (all axes)', lambda m, x: m.squeeze(x)))
    out.append(squeezed('varoperations.squeeze (axis 1)', lambda m, x: m.squeeze(x, 1), [1]))
    out.append(squeezed('varoperations.squeeze (axes 0, 2 by name)', lambda m, x: m.squeeze(x, 'a0', 'a2'), [0, 2]))
    out.append(squeezed('varoperations.squeeze ([0, 1])', lambda m, x: m.squeeze(x, [0, 1]), [0, 1]))

    def extended(rank, pos, new):
        def run(repo, rep):
            L = lifted(repo, lift=['pygeode.varoperations'])
            m = L.module('pygeode.varoperations')

            def scn(ctx):
                x = AbsVar('x', [AbsAxis('a%d' % j, ctx.int('n%d' % j, 1)) for j in range(rank)])
                na = [AbsAxis('b%d' % j, ctx.int('m%d' % j, 1)) for j in range(new)]
                v = m.extend(x, pos, *na)
                axes_are(lambda x: list(x.axes[:pos]) + na + list(x.axes[pos:]))(ctx, v, x)
                view = new_view(L, v.axes, incr=False)
                r = v.getview(view, pbar=PBar())
                check_values(ctx, r, view, lambda p: x.D(*by_coords(v, x, p)), 'value')
            verify_py(rep, 'varoperations.extend (%d axes, %d new at %d)' % (rank, new, pos), scn)
        return ('extend %d %d %d' % (rank, pos, new), run)
    out += [extended(*a) for a in ((1, 0, 1), (2, 1, 1), (2, 2, 1), (1, 1, 2), (2, 0, 2))]

    def replaced(name, call, want):
        def run(repo, rep):
            L = lifted(repo, lift=['pygeode.varoperations'])
            m = L.module('pygeode.varoperations')

            def scn(ctx):
                x = AbsVar('x', [AbsAxis('a%d' % j, ctx.int('n%d' % j, 1)) for j in range(2)])
                b = [AbsAxis('b%d' % j, a.n) for j, a in enumerate(x.axes)]
                made = []

                class Cls(AbsAxis):
                    def __init__(self, values, name=None, **k):
                        AbsAxis.__init__(self, name or 'cls', sh_len(values))
                        self.given = values
                        made.append(self)
                old = [a.name for a in x.axes]
                v = call(m, x, b, Cls)
                w = want(x, b)
                ctx.oblige('two axes', z3.BoolVal(len(v.axes) == 2))
                for j in range(2):
                    if w[j] == 'class':
                        ctx.oblige('axis %d is of the class given, with the values and name of the old one' % j, z3.BoolVal(v.axes[j] in made and v.axes[j].given is x.axes[j].values and v.axes[j].name == old[j]))
                    elif isinstance(w[j], tuple):
                        ctx.oblige('axis %d is the old one with the new name' % j, z3.BoolVal(v.axes[j].root is w[j][0] and v.axes[j].name == w[j][1] and w[j][0].name == old[j]))
                    else:
                        ctx.oblige('axis %d is the one expected' % j, z3.BoolVal(v.axes[j] is w[j]))
                view = new_view(L, v.axes, incr=False)
                r = v.getview(view, pbar=PBar())
                check_values(ctx, r, view, lambda p: x.D(*p), 'value')
            verify_py(rep, name, scn)
        return (name, run)
    out.append(replaced('varoperations.replace_axes (by name)', lambda m, x, b, C: m.replace_axes(x, a1=b[1]), lambda x, b: [x.axes[0], b[1]]))
    out.append(replaced('varoperations.replace_axes (two)', lambda m, x, b, C: m.replace_axes(x, {'a1': b[1], 'a0': b[0]}), lambda x, b: b))
    out.append(replaced('varoperations.replace_axes (list)', lambda m, x, b, C: m.replace_axes(x, newaxes=list(b)), lambda x, b: b))
    out.append(replaced('varoperations.replace_axes (class)', lambda m, x, b, C: m.replace_axes(x, a0=C), lambda x, b: ['class', x.axes[1]]))
    out.append(replaced('varoperations.replace_axes (unknown axis ignored)', lambda m, x, b, C: m.replace_axes(x, ignore_mismatch=True, zz=C, a1=b[1]), lambda x, b: [x.axes[0], b[1]]))
    return out


def markers():
    out = []
    add = lambda *a, **k: out.append(wrapper(*a, **k))
    F = 7
    def fill(ctx, w):
        return ite(isnanc(w), ctx.mark, w)
    def unfill(ctx, w):
        return ite(w == ctx.mark, float('nan'), w)

    def mkfill(ctx, m, x):
        ctx.mark = SymReal(ctx.fresh('mark', R))
        return m.fill(x, ctx.mark)

    def mkunfill(ctx, m, x):
        ctx.mark = SymReal(ctx.fresh('mark', R)) if x.dtype.kind == 'f' else ctx.int('mark')
        return m.unfill(x, ctx.mark)
    axs = axes_are(lambda x: list(x.axes))
    for r in (1, 2, 3):
        add('varoperations.fill', r, mkfill, value=fill, expect=axs)
        add('varoperations.unfill', r, mkunfill, value=unfill, expect=axs)
    add('varoperations.unfill (integers)', 2, mkunfill, value=lambda ctx, w: ite(w == ctx.mark, float('nan'), freal(w)), expect=axs, dtype='int32')
    add('varoperations.as_type (float32)', 2, lambda ctx, m, x: m.as_type(x, 'float32'), expect=axs)
    add('varoperations.as_type (integers to float64)', 2, lambda ctx, m, x: m.as_type(x, 'float64'), value=lambda ctx, w: freal(w), expect=axs, dtype='int32')

    def round_trip(repo, rep):
        """unfill(fill(x)) = x where x holds no marker; fill(unfill(y)) = y for every y"""
        def scn(ctx):
            x, mark = SymReal(ctx.fresh('x', R), ctx.fresh('nan', B)), SymReal(ctx.fresh('mark', R))
            ctx.mark = mark
            ctx.oblige('unfill undoes fill where the marker does not occur', z3.Implies(z3.Or(x.nan, x.v != mark.v), same(unfill(ctx, fill(ctx, x)), x)))
            ctx.oblige('fill undoes unfill on data without missing values', z3.Implies(z3.Not(x.nan), same(fill(ctx, unfill(ctx, x)), x)))
        verify_py(rep, 'lemma: fill and unfill undo each other', scn)
    out.append(('lemma fill/unfill', round_trip))
    return out


# ------------------------------------------------------------------------------------------------ V09
def uf(f, *args):
    """an arbitrary operation, missing values included"""
    v, n = pv.CUR.opf
    a = []
    for x in args:
        x = freal(x)
        a += [x.v, z3.simplify(x.nan) if z3.is_expr(x.nan) else x.nan]
    return SymReal(v(*a), n(*a))


def ufunc_(name, layout, perm=None):
    """layout: for each operand either 'scalar' or the list of root axes; the values are op(values of the operands at the same
    coordinates), each axis of the operands appears once"""
    def run(repo, rep):
        L = lifted(repo, lift=['pygeode.ufunc', 'pygeode.tools'], attrs={}, extra={'pygeode.libhelper.load_lib': lambda *a, **k: None, 'pygeode.toolscore': object()})
        m = L.module('pygeode.ufunc')

        def op(*args):
            arrs = [a if isinstance(a, SymArr) else NPX.asarray(a) for a in args]
            r = elementwise(lambda *a: uf(None, *a), *arrs, kind='f')
            if not isinstance(r, SymArr):
                r = NPX.asarray(r)
            r.dtype = np_.dtype('float64')
            return r
        op.__name__ = 'op'
        f = m.wrap_npfunc(len(layout), op)

        def scn(ctx):
            na = len(layout)
            ctx.opf = ctx.func('op', *([R, B] * na + [R])), ctx.func('opnan', *([R, B] * na + [B]))
            roots = {}
            for l in layout:
                if l != 'scalar':
                    for a in l:
                        if a not in roots:
                            roots[a] = AbsAxis(a, ctx.int('n_' + a, 1))
            args = []
            for i, l in enumerate(layout):
                args.append(AbsVar('x%d' % i, [roots[a] for a in l]) if l != 'scalar' else 2.5)
            for i, x in enumerate(args):
                if isinstance(x, AbsVar):
                    x.name = 'T'        # (names don't identify variables)
            v = f(*args)
            ctx.oblige('each axis of the operands appears exactly once', z3.BoolVal(sorted(a.nm for a in v.axes) == sorted(roots) and all(roots[a.nm] is a for a in v.axes)))
            view = new_view(L, v.axes, incr=False)
            r = v.getview(view, pbar=PBar())
            check_values(ctx, r, view, lambda p: uf(None, *[x.D(*by_coords(v, x, p)) if isinstance(x, AbsVar) else x for x in args]), 'value')
        verify_py(rep, 'ufunc.UfuncVar (%s)' % name, scn)
        rep.bounded = ['UfuncVar: numbers of operands and axes as named in each obligation (extents, selections, values, operation unbounded)']
    return ('ufunc %s' % name, run)


def tasks(prop, tier='quick'):
    if prop == 'V06':
        return [('diff %d %d %d' % a, diff_(*a)) for a in ((1, 0, 1), (1, 0, 2), (1, 0, 3), (2, 0, 1), (2, 1, 1), (2, 1, 2), (3, 1, 1))] + [('lag %d %d%s' % (a[0], a[1], ' reversed' if a[2] else ''), lag_(*a)) for a in ((1, 0, False), (1, 0, True), (2, 0, False), (2, 1, False), (3, 1, True))]
    if prop == 'V04':
        return [t for t in var_ops() if not t[0].startswith('SlicedVar')] + layout()
    if prop == 'V03':
        return [t for t in var_ops() if t[0].startswith('SlicedVar')]
    if prop == 'V11':
        return markers()
    if prop == 'V09':
        S = 'scalar'
        return [ufunc_(n, l) for n, l in (('x', [['a']]), ('x, x', [['a'], ['a']]), ('x(a,b), y(a,b)', [['a', 'b'], ['a', 'b']]), ('x(a,b), y(b,a)', [['a', 'b'], ['b', 'a']]),
                                          ('x(a,b), y(b)', [['a', 'b'], ['b']]), ('x(b), y(a,b)', [['b'], ['a', 'b']]), ('x(a), y(b)', [['a'], ['b']]),
                                          ('x(a,b), scalar', [['a', 'b'], S]), ('scalar, x(a)', [S, ['a']]), ('x(a,b), y(b,c)', [['a', 'b'], ['b', 'c']]),
                                          ('x(c,a), y(a,b,c)', [['c', 'a'], ['a', 'b', 'c']]), ('x(a), y(), z(b,a)', [['a'], [], ['b', 'a']]))]
    return []
