"""Contracts of the derivative, integral and smoothing variables (V16): for any view, the values their formulas give."""
from absvar import *
import absvar


def real(x):
    return x if isinstance(x, SymReal) else SymReal(pv.toreal(x))


def at(p, d, q):
    return list(p[:d]) + [q] + list(p[d + 1:])


def dxvar(dx, x, axes, d, rank):
    """the coordinate: the axis itself, a variable on that axis, or one on all axes"""
    if dx == 'axis':
        return None, lambda p: axes[d].coord(p[d])
    if dx == '1d':
        v = AbsVar('dx', [AbsAxis('other', axes[d].n)], nan=False)
        return v, lambda p: v.D(p[d])
    v = AbsVar('dx', axes, nan=False)
    return v, lambda p: v.D(*p)


def deriv_(rank, d, df, dx='axis', dtype='float64'):
    def run(repo, rep):
        L = lifted(repo, lift=['pygeode.deriv'])
        cls = L.get('pygeode.deriv', 'SecondDerivativeVar' if df == '2' else 'DerivativeVar')

        def scn(ctx):
            axes = [AbsAxis('a%d' % j, ctx.int('n%d' % j, 1)) for j in range(rank)]
            N = axes[d].n.z
            ctx.assume(N >= (3 if df == '2' else 2))
            x = AbsVar('x', axes, dtype)
            dxv, X = dxvar(dx, x, axes, d, rank)
            v = cls(x, d, dxv) if df == '2' else cls(x, d, dxv, df=df)
            for j in range(rank):
                ctx.oblige('axis %d is that of the source' % j, z3.BoolVal(v.axes[j] is axes[j]))
            ctx.oblige('the values are not integers', z3.BoolVal(np_.issubdtype(v.dtype, np_.inexact)))
            view = new_view(L, v.axes)
            asked = [i.copy() for i in view.integer_indices]
            r = v.getview(view, pbar=PBar())

            def spec(p):
                q = zi(p[d])
                Y = lambda t: x.D(*at(p, d, mk_int(t)))
                XX = lambda t: X(at(p, d, mk_int(t)))
                F = lambda a: real(a)
                if df == '2':
                    l, c, rr = z3.If(q == 0, z3.IntVal(2), q - 1), q, z3.If(q == N - 1, N - 3, q + 1)
                    yl, yc, yr, xl, xc, xr = [real(t) for t in (Y(l), Y(c), Y(rr), XX(l), XX(c), XX(rr))]
                    den = 2. / ((xr - xc) * (xc - xl) * (xr - xl))
                    return ((xr - xc) * den) * yl + ((xl - xr) * den) * yc + ((xc - xl) * den) * yr
                if df == 'centre':
                    l, rr = z3.If(q == 0, z3.IntVal(0), q - 1), z3.If(q == N - 1, N - 1, q + 1)
                elif df == 'left':
                    l, rr = z3.If(q == 0, z3.IntVal(0), q - 1), z3.If(q == 0, z3.IntVal(1), q)
                else:
                    l, rr = z3.If(q == N - 1, N - 2, q), z3.If(q == N - 1, N - 1, q + 1)
                yl, yr, xl, xr = Y(l), Y(rr), XX(l), XX(rr)
                return (F(yr) - F(yl)) / (F(xr) - F(xl))
            view.integer_indices = tuple(asked)
            check_values(ctx, r, view, spec, 'difference quotient')
        verify_py(rep, 'deriv.%s (rank %d, axis %d, df=%s, dx %s, %s)' % (cls.__name__, rank, d, df, dx, dtype), scn)
        rep.bounded = ['derivatives: number of axes 1 to 3 (extents, selections, values unbounded)']
    return run


def deriv_tasks():
    out = []
    for df in ('centre', 'left', 'right', '2'):
        for rank, d, dx, dt in ((1, 0, 'axis', 'float64'), (2, 0, '1d', 'float64'), (2, 1, 'axis', 'int32'), (2, 1, 'full', 'float64'), (3, 1, 'axis', 'float64')):
            out.append(('%s %d %d %s %s' % (df, rank, d, dx, dt), deriv_(rank, d, df, dx, dt)))
    return out


def integ_(rank, d, typ, dx='axis', v0='0', order=1, dtype='float64', incr=True):
    def run(repo, rep):
        L = lifted(repo, lift=['pygeode.intgr'])
        cls = L.get('pygeode.intgr', 'IntegrateVar')

        def scn(ctx):
            axes = [AbsAxis('a%d' % j, ctx.int('n%d' % j, 1)) for j in range(rank)]
            N = axes[d].n.z
            ctx.assume(N >= 2)
            x = AbsVar('x', axes, dtype)
            dxv, X = dxvar(dx, x, axes, d, rank)
            V0 = None if v0 == '0' else SymReal(ctx.fresh('v0', R)) if v0 == 'number' else AbsVar('v0', [a for j, a in enumerate(axes) if j != d])
            v = cls(x, d, dxv, V0, order, typ)
            for j in range(rank):
                ctx.oblige('axis %d is that of the source' % j, z3.BoolVal(v.axes[j] is axes[j]))
            view = new_view(L, v.axes, incr=incr)
            S, G = ctx.func('integral', *([I] * rank + [R])), ctx.func('integral_nan', *([I] * rank + [B]))
            r = v.getview(view, pbar=PBar())

            def part(p, q):
                """contribution of the interval between the points q and q+1"""
                lo, hi = at(p, d, mk_int(q)), at(p, d, mk_int(q + 1))
                if typ == 'cumsum':
                    return real(x.D(*hi))
                h = real(X(hi)) - real(X(lo))
                if typ == 'trapz':
                    return 0.5 * h * (real(x.D(*lo)) + real(x.D(*hi)))
                return h * real(x.D(*(lo if typ == 'rectl' else hi)))

            def ax(p, q):
                """the integral at point q of the axis: v0 at the first point (order 1) or the last (order -1), one more interval each further point"""
                if v0 == '0':
                    s0 = SymReal(z3.RealVal(0))
                elif v0 == 'number':
                    s0 = V0
                else:
                    s0 = real(V0.D(*[c for j, c in enumerate(p) if j != d]))
                me = tuple(zi(c) for c in at(p, d, mk_int(q)))
                before = q - 1 if order == 1 else q + 1
                pv_ = tuple(zi(c) for c in at(p, d, mk_int(before)))
                t = part(p, q - 1 if order == 1 else q)
                s1 = SymReal(S(*pv_), G(*pv_)) + t
                start = q == 0 if order == 1 else q == N - 1
                w = ite(start, s0, s1)
                ctx.assume(z3.Implies(z3.And(q >= 0, q < N), same(SymReal(S(*me), G(*me)), w)))

            def hint(k):
                p = [mk_int(elem(i, y)) for i, y in zip(view.integer_indices, k)]
                acc = ctx.accumulated[-1]

                def P(t):
                    q = t if order == 1 else N - 1 - t
                    idx = at(k, d, mk_int(t))
                    acc.step(idx)
                    ax(p, q)
                    return same(acc.fn(tuple(idx)), SymReal(*[f(*[zi(c) for c in at(p, d, mk_int(q))]) for f in (S, G)]))
                t = zi(p[d]) if order == 1 else N - 1 - zi(p[d])
                ctx.induction('running sum', P, N, at=[t])
            check_values(ctx, r, view, lambda p: SymReal(*[f(*[zi(c) for c in p]) for f in (S, G)]), 'integral', hint)
        verify_py(rep, 'intgr.IntegrateVar (rank %d, axis %d, %s, dx %s, v0 %s, order %d, %s%s)' % (rank, d, typ, dx, v0, order, dtype, '' if incr else ', any order'), scn)
        rep.bounded = ['integrals: number of axes 1 to 3 (extents, selections, values unbounded)']
    return run


def integ_tasks():
    out = []
    for typ in ('trapz', 'rectl', 'rectr', 'cumsum'):
        for order in (1, -1):
            for rank, d, dx, v0, dt in ((1, 0, 'axis', '0', 'float64'), (2, 0, '1d', 'number', 'float64'), (2, 1, 'full', 'var', 'float64'), (3, 1, 'axis', '0', 'int32')):
                if typ == 'cumsum' and dx != 'axis':
                    dx = 'axis'
                out.append(('%s %d %d %d %s %s %s' % (typ, order, rank, d, dx, v0, dt), integ_(rank, d, typ, dx, v0, order, dt)))
    return out


# ------------------------------------------------------------------------------------------------ smoothing
class Signal:
    """contract of scipy.signal: mode 'same', the sum over the kernel of products with the input reversed about the middle"""
    def convolve(self, x, y, mode):
        ctx = pv.CUR
        if mode != 'same':
            raise Unsupported('convolution mode %s' % mode)
        if not isinstance(y, SymArr):
            y = NPX.asarray(y)
        if not isinstance(x, SymArr) or x.ndim != y.ndim:
            raise Unsupported('convolution of these')
        x, y = pv.snap(x), pv.snap(y)
        d = [j for j, n in enumerate(y.shape_) if not (isinstance(n, int) and n == 1)]
        if len(d) != 1:
            raise Unsupported('kernel of %d dimensions' % len(d))
        d = d[0]
        n = zi(y.shape_[d])
        memo = []

        def fn(idx):
            key = [z3.simplify(zi(i)) for i in idx]
            for k, v in memo:
                if all(a.eq(b) for a, b in zip(k, key)):
                    return v
            c = SymReal(ctx.fresh('conv', R))
            memo.append((key, c))

            def term(j):
                """input position (along the kernel's axis) and kernel value that the j-th product is of"""
                q = zi(idx[d]) + fdiv(n - 1, z3.IntVal(2)) - zi(j)
                return q, x.fn(tuple(idx[:d]) + (mk_int(q),) + tuple(idx[d + 1:])), y.fn(tuple(mk_int(zi(j)) if i == d else 0 for i in range(y.ndim)))
            ctx.convs.append((c, d, x, n, term))
            return c
        return SymArr(x.shape_, fn, 'float64')

    fftconvolve = convolve


def smooth_(rank, d, fft, dtype='float64'):
    def run(repo, rep):
        st = {}
        import chunks
        flat = lambda w: [0 if j == d else t for j, t in enumerate(w)]       # (the axis smoothed is kept whole: one piece)

        def want(ctx, p):
            return SymReal(st['F'](*[zi(c) for c in p]))

        def vars(ctx, k, loc):
            view = loc['view']
            s = ctx.over[-1]
            junk = new_arr('junk', view.shape, 'float64')
            kk = zi(k)
            a = SymArr(view.shape, lambda idx: ite(s.cutting.place(flat(idx)) < kk, want(ctx, [mk_int(elem(i, p)) for i, p in zip(view.integer_indices, idx)]), junk.fn(idx)), 'float64')
            return dict(out=a, sslo=[slice(None)] * rank, ssli=[slice(None)] * rank, pbar=loc['pbar'])

        def inv(ctx, k, loc):
            view, v = loc['view'], loc['out']
            s = ctx.over[-1].cutting
            w = [ctx.int('w', 0, n) for n in view.shape]
            for t in w:
                ctx.term(t)
            q = s.place(flat(w))
            out = [('the result has the shape of the request', z3.And(z3.BoolVal(v.ndim == rank), *[zi(a) == zi(b) for a, b in zip(v.shape_, view.shape)]))]
            last = None
            if not isinstance(k, int):
                last = z3.simplify(zi(k) - 1)
                for j, f in enumerate(s.axisblock(last, flat(w))):
                    out.append(('axis %d: a position is in the piece just done if that is its piece' % j, z3.Implies(last >= 0, f)))
                out.append(('pieces are numbered one to one', z3.Implies(last >= 0, s.numbered(last, flat(w)))))
                out.append(('the piece just done holds its positions', z3.Implies(last >= 0, (q == last) == s.inblock(last, flat(w)))))
            for ax, sl in enumerate(loc['ssli']):
                if ax != d:
                    out.append(('the other axes are taken whole', z3.BoolVal(isinstance(sl, (slice, SymSlice)) and sl.start is None and sl.stop is None and sl.step is None)))
            for ax, sl in enumerate(loc['sslo']):
                if ax != d:
                    out.append(('the other axes are stored whole', z3.BoolVal(isinstance(sl, (slice, SymSlice)) and sl.start is None and sl.stop is None and sl.step is None)))
            n0 = len(ctx.convs)
            got = v.at(*w)
            p = [mk_int(elem(i, t)) for i, t in zip(view.integer_indices, w)]
            for c, dd, x, n, term in ctx.convs[n0:]:
                # the sum of products is the one of the definition: every product is
                here = z3.And(q == last)
                ctx.oblige('the convolution is along the axis smoothed', z3.BoolVal(dd == d))
                ctx.oblige('as many products as kernel entries', z3.Implies(here, n == st['klen']))
                j = ctx.int('j', 0, mk_int(st['klen']))
                ctx.term(j)
                pos, xv, kv = term(j)
                ctx.oblige('each product is of a value of the extended data', z3.Implies(here, z3.And(pos >= 0, pos < zi(x.shape_[d]))))
                y = zi(p[d]) + fdiv(n - 1, z3.IntVal(2)) - zi(j)
                N = st['N']
                mirrored = z3.If(y < 0, -1 - y, z3.If(y >= N, 2 * N - 1 - y, y))
                ctx.term(pos)
                ctx.oblige('each product is of the mirrored data around the point', z3.Implies(here, same(xv, real(st['x'].D(*at(p, d, mk_int(mirrored)))))))
                ctx.oblige('each product is with the normalised kernel', z3.Implies(here, same(kv, st['norm'](j))))
                ctx.assume(z3.Implies(here, same(c, want(ctx, p))))
            out.append(('the pieces done so far are in place', z3.Implies(q < zi(k), same(got, want(ctx, p)))))
            return out
        L = lifted(repo, lift=['pygeode.smooth'], extra={'scipy.signal': Signal(), 'pygeode.tools.loopover': chunks.c_loopover},
                   loops={'SmoothVar.getview#*': Inv(vars, inv)})
        f = L.get('pygeode.smooth', 'smooth')

        def scn(ctx):
            axes = [AbsAxis('a%d' % j, ctx.int('n%d' % j, 1)) for j in range(rank)]
            N = axes[d].n.z
            klen = ctx.int('klen', 3)
            ctx.assume(klen.z <= N)
            x = AbsVar('x', axes, dtype, nan=False)
            kern = new_arr('kernel', (klen,), 'float64')
            orig = kern.copy()
            v = f(x, 'a%d' % d, kern, fft=fft)
            ctx.oblige('one sum normalises the kernel', z3.BoolVal(len(ctx.sums) == 1))
            total, S = ctx.sums[0]
            j = ctx.int('j', 0, klen)
            ctx.oblige('the kernel is divided by the sum of all its entries', z3.And(z3.BoolVal(total.ndim == 1), zi(total.shape_[0]) == klen.z, same(total.at(j), orig.at(j))))
            ctx.oblige("the caller's kernel is left as it was", z3.And(z3.BoolVal(kern.ndim == 1), same(kern.at(j), orig.at(j))))
            st.update(F=ctx.func('smoothed', *([I] * rank + [R])), klen=klen.z, N=N, x=x, norm=lambda j: orig.at(j) / S)
            for i in range(rank):
                ctx.oblige('axis %d is that of the source' % i, z3.BoolVal(v.axes[i] is axes[i]))
            ctx.oblige('the values are not integers', z3.BoolVal(np_.issubdtype(v.dtype, np_.inexact)))
            view = new_view(L, v.axes)
            r = v.getview(view, pbar=PBar())
            check_values(ctx, r, view, lambda p: want(ctx, p), 'smoothed', pre=lambda k: ctx.over[-1].cutting.place(flat(k)))
        verify_py(rep, 'smooth.SmoothVar (rank %d, axis %d, fft=%s, %s)' % (rank, d, fft, dtype), scn)
        rep.bounded = ['smoothing: number of axes 1 to 3 (extents, kernel, selections, pieces, values unbounded)']
    return run


def smooth_tasks():
    return [('smooth %s' % (a,), smooth_(*a)) for a in ((1, 0, True), (1, 0, False), (2, 0, True), (2, 1, False), (3, 1, True), (2, 1, True, 'int32'))]


def tasks(prop, tier='quick'):
    if prop == 'V16':
        return deriv_tasks() + integ_tasks() + smooth_tasks()
    return []
