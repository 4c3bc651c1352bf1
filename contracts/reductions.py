"""Contracts of the reductions (reduce.py, V08): each output value is the named fold of all the source values that share its
coordinates.

The blocks come from the contract of loopover (V02, contracts/chunks.py).  For a quantity q of an output position w and the
samples r along the axes reduced, T_q(k, w) is the fold of F_q(w, r) over the samples whose block has number < k.  Facts used of T
(regrouping of a finite fold of a commutative, associative operation): T(0) is the neutral element; T(k+1, w) combines T(k, w) with
the fold over the samples of block k, and is T(k, w) if block k holds none; T(number of blocks, w) is the fold over all samples.
That the samples of w in block k are those the code folds is an obligation: the summand at an arbitrary place of the block is
F_q(w, r) for the r at that place, and the places are all of {r : block of (w, r) is k}."""
from absvar import *
import absvar
import chunks

NEUTRAL = {'sum': lambda ctx: SymReal(z3.RealVal(0)), 'nansum': lambda ctx: SymReal(z3.RealVal(0)),
           'min': lambda ctx: SymReal(ctx.infinite), 'max': lambda ctx: SymReal(-ctx.infinite),
           'nanmin': lambda ctx: SymReal(z3.RealVal(0), z3.BoolVal(True)), 'nanmax': lambda ctx: SymReal(z3.RealVal(0), z3.BoolVal(True))}


def real(x):
    return x if isinstance(x, SymReal) else float('nan') if isnan_const(x) else SymReal(toreal(x))


class Quantity:
    """kind of fold, and the summand at source positions p (all axes)"""
    def __init__(self, kind, F):
        self.kind, self.F = kind, F

    touched = None

    def setup(self, ctx, nw, whole=False):
        """whole: sums of integers are integers"""
        sort = [I] * (nw + 1) + [I if whole else R]
        self.t, self.tn = ctx.func('T', *sort), ctx.func('T_nan', *([I] * (nw + 1) + [B]))
        self.b, self.bn = ctx.func('Blk', *sort), ctx.func('Blk_nan', *([I] * (nw + 1) + [B]))
        self.plain = whole or self.kind == 'nansum'       # never NaN
        self.real = z3.ToReal if whole else lambda x: x

    def T(self, k, w):
        a = [zi(k)] + [zi(i) for i in w]
        v = self.real(self.t(*a))
        if self.touched is not None:             # nothing is folded before the first block that holds samples
            v = z3.If(self.touched(*a), v, 0)
        return SymReal(v, FALSE if self.plain else self.tn(*a))

    def blk(self, k, w):
        a = [zi(k)] + [zi(i) for i in w]
        return SymReal(self.real(self.b(*a)), FALSE if self.plain else self.bn(*a))


def op(kind, a, b):
    if kind in ('sum', 'nansum'):
        return SymReal(a.v + b.v, z3.simplify(z3.Or(a.nan, b.nan)))
    return FOLD[kind](a, b)


def reduce_(cls, rank, red, spec, dtype='float64', wax=None, nan=True, args=(), default=None, order=1):
    """spec(q, p, N) is the value in terms of the folds q[name] over all samples; red: the axes reduced; wax: those of the weights"""
    outax = [j for j in range(rank) if j not in red]
    ways = [1]

    def run(repo, rep):
        st = {}

        def holds(s, k, w):
            """block k holds samples of output position w"""
            f = [(o, j) for o, j in enumerate(outax)]
            c = st['cut']
            return z3.And(*[c(s, k, j, w[o]) for o, j in f]) if f else z3.BoolVal(True)

        def cutcond(s, k, j, pos):
            ind, n, m, cut, owner = s.ax[j]
            a, b = st['piece'](s, k)[j]
            return z3.And(a <= zi(pos), zi(pos) < b)
        st['cut'] = cutcond

        def piece(s, k):
            key = z3.simplify(zi(k))
            for kk, v in st['pieces']:
                if kk.eq(key):
                    return v
            v = s.get(mk_int(key)).cuts
            st['pieces'].append((key, v))
            return v
        st['piece'] = piece

        def touched(ctx, k, w):
            return st['U'](zi(k), *[zi(i) for i in w])

        def rep_of(ctx, q, k, w, start):
            """what an accumulator of quantity q holds before block k; start: 0 or NaN"""
            t = q.T(k, w)
            if start == 'nan':
                return SymReal(t.v, z3.Or(z3.Not(touched(ctx, k, w)), t.nan))
            return t

        def cast_back(x, dt):
            if np_.dtype(dt).kind in 'iu':
                return mk_int(z3.ToInt(x.v))
            return x

        def program(ctx, loc):
            """which program variable accumulates which quantity: the one of its name, else in some order"""
            acc = sorted(n for n in ctx.carry if isinstance(loc.get(n), SymArr))
            qs = list(st['q'])
            if set(acc) == set(qs) or len(acc) != len(qs):
                return [(n, n, st['q'][n]) for n in qs if n in acc]
            import itertools
            perms = list(itertools.permutations(qs))
            ways[0] = len(perms)
            return [(n, q, st['q'][q]) for n, q in zip(acc, perms[st['way']])]

        def vars(ctx, k, loc):
            view = st['view']
            out = {}
            for nm, _, q in program(ctx, loc):
                dt = loc[nm].dtype
                out[nm] = SymArr(view.shape, lambda idx, q=q, dt=dt: cast_back(rep_of(ctx, q, k, idx, st['start']), dt), dt)
                if not hasattr(out[nm], 'at'):
                    raise Unsupported('accumulator')
            if 'pbar' in ctx.carry:
                out['pbar'] = loc.get('pbar')
            return out

        def inv(ctx, k, loc):
            view = st['view']
            s = ctx.over[-1].cutting
            w = [ctx.int('w', 0, n) for n in view.shape]
            for t in w:
                ctx.term(t)
            after = not isinstance(k, int)
            out = []
            last = z3.simplify(zi(k) - 1) if after else None
            n0 = len(ctx.folds)
            got = {}
            prog = program(ctx, loc)
            for nm in set(st['q']) - set(q for _, q, _ in prog):
                out.append(('%s is accumulated' % nm, z3.BoolVal(False)))
            for nm, _, q in prog:
                a = loc[nm]
                if not isinstance(a, SymArr):
                    a = NPX.asarray(a)
                out.append(('%s: the shape of the request' % nm, z3.And(z3.BoolVal(a.ndim == len(view.shape)), *[zi(x) == zi(y) for x, y in zip(a.shape_, view.shape)])))
                got[nm] = a.at(*w)
            if k == 0:
                for q in st['q'].values():
                    ctx.assume(same(q.T(0, w), st['neutral'][q.kind](ctx)))
                ctx.assume(z3.Not(touched(ctx, 0, w)))
            elif ctx.phase == 'after':
                h = holds(s, last, w)
                ctx.assume(touched(ctx, k, w) == z3.Or(touched(ctx, last, w), h))
                for q in st['q'].values():
                    t1 = op(q.kind, q.T(last, w), q.blk(last, w))
                    ctx.assume(same(q.T(k, w), SymReal(z3.If(h, t1.v, q.T(last, w).v), z3.simplify(z3.If(h, t1.nan, q.T(last, w).nan)))))
                blocks(ctx, s, last, w, h, [f for f in ctx.folds[:n0] if not f["idx"]] + ctx.folds[n0:])
            for nm, _, q in prog:
                if nm in got:
                    out.append(('%s: the blocks done so far are accumulated' % nm, same(real(got[nm]), rep_of(ctx, q, k, w, st['start']))))
            return out

        def blocks(ctx, s, k, w, h, folds):
            cuts = piece(s, k)
            inds = ctx.over[-1].inds
            # an arbitrary sample of w in the block
            t = {j: ctx.int('t', 0, mk_int(cuts[j][1] - cuts[j][0])) for j in red}
            for j in red:
                ctx.term(t[j])
            pos = [mk_int(cuts[j][0] + zi(t[j])) if j in red else w[outax.index(j)] for j in range(rank)]
            P = [mk_int(elem(inds[j], p)) for j, p in enumerate(pos)]
            # the samples of w in block k are exactly these places
            r = [ctx.int('r', 0, mk_int(s.ax[j][1])) if j in red else w[outax.index(j)] for j in range(rank)]
            for x in r:
                ctx.term(x)
            for j, f in enumerate(s.axisblock(k, r)):
                ctx.oblige('axis %d: a sample is in the block if that is its block along the axis' % j, f)
            ctx.oblige('blocks are numbered one to one', s.numbered(k, r))
            ctx.oblige('the block holds its samples', (s.place(r) == k) == z3.And(h, *[cutcond(s, k, j, r[j]) for j in red]))
            for f in folds:
                base, axes = f['base'], f['axes']
                if base.ndim != rank or sorted(axes) != list(red):
                    ctx.oblige('a fold over the axes reduced, and no others', z3.Implies(h, z3.BoolVal(False)))
                    continue
                mult = z3.RealVal(1)
                tt = []
                for j in axes:
                    n, L = base.shape_[j], cuts[j][1] - cuts[j][0]
                    if isinstance(n, int) and n == 1:
                        mult = mult * z3.ToReal(L)       # the summand does not change along this axis
                        tt.append(0)
                    else:
                        ctx.oblige('a fold over the whole block', z3.Implies(h, zi(n) == L))
                        tt.append(t[j])
                if not z3.is_rational_value(mult) and f['kind'] not in ('sum', 'nansum'):
                    mult = z3.RealVal(1)
                at = real(f['at'](tt))
                # which quantity this is a fold for
                match = None
                for nm, q in st['q'].items():
                    sums = ('sum', 'nansum')
                    if q.kind == f['kind'] or q.kind in sums and f['kind'] in sums:
                        F, at_ = [real(zero_nan(real(v)) if kd == 'nansum' else v) for kd, v in ((q.kind, q.F(P)), (f['kind'], at))]
                        if ctx.check(z3.Implies(h, same(at_, F))):
                            match = (nm, q)
                            break
                if match is None:
                    nm = list(st['q'])
                    q = [q for q in st['q'].values() if q.kind == f['kind']]
                    ctx.oblige('the values folded (%s) are those of one of the quantities %s at every sample of the block' % (f['kind'], nm),
                               z3.Implies(h, same(at, real(q[0].F(P)))) if len(q) == 1 else z3.BoolVal(False))
                    continue
                nm, q = match
                ctx.oblige('%s: the values folded are those of the definition at every sample of the block' % nm, z3.Implies(h, z3.BoolVal(True)))
                v = real(f['value'])
                ctx.assume(z3.Implies(h, same(SymReal(v.v * mult if not z3.is_rational_value(mult) else v.v, v.nan), q.blk(k, w))))

        L = lifted(repo, lift=['pygeode.reduce', 'pygeode.tools'], extra={'pygeode.libhelper.load_lib': lambda *a, **k: None, 'pygeode.toolscore': object(), 'pygeode.tools.loopover': chunks.c_loopover},
                   loops={'*': Inv(vars, inv)})
        mod = L.module('pygeode.reduce')
        call = L.get('pygeode.reduce', cls)

        def scn(ctx, way):
            st.clear()
            st.update(way=way, cut=cutcond, piece=piece, pieces=[])
            sp = SPECS[spec]
            if sp.get('infinite'):
                ctx.infinite = ctx.fresh('inf', R)
                ctx.assume(ctx.infinite > 0)
            axes = [AbsAxis('a%d' % j, ctx.int('n%d' % j, 1)) for j in range(rank)]
            x = AbsVar('x', axes, dtype, nan=nan)
            wt = AbsVar('weights', [axes[j] for j in wax], nan=False) if wax is not None else None
            limits = None
            if np_.dtype(dtype).kind in 'iu':
                limits = np_.iinfo(dtype)

            def D(p):
                v = x.D(*p)
                if limits is not None:
                    ctx.assume(z3.And(zi(v) >= int(limits.min), zi(v) <= int(limits.max)))
                elif ctx.infinite is not None:
                    ctx.assume(z3.And(v.v >= -ctx.infinite, v.v <= ctx.infinite))
                return v
            W = (lambda p: wt.D(*[p[j] for j in wax])) if wt is not None else None
            raw = sp['q'](D, W)
            st['start'] = sp.get('start', 0)
            st['neutral'] = dict(NEUTRAL)
            if limits is not None:
                st['neutral'].update(min=lambda ctx: SymReal(z3.RealVal(int(limits.max))), max=lambda ctx: SymReal(z3.RealVal(int(limits.min))))
            st['q'] = {nm: Quantity(*v) for nm, v in raw.items()}
            for q in st['q'].values():
                q.setup(ctx, len(outax), limits is not None and wt is None)
            st['U'] = ctx.func('touched', *([I] * (len(outax) + 1) + [B]))
            if st['start'] == 'nan':
                for q in st['q'].values():
                    q.touched = st['U']
            st['view'] = L.View([])
            # default: what the axes carry ('none' or the weights); otherwise the weights are passed to the function
            x.getweights = lambda iaxes=None: wt if default == 'weights' else VarBase([], 'float64')
            kw = {}
            if default == 'off':
                x.getweights = lambda iaxes=None: AbsVar('other', [axes[red[0]]], nan=False)
                kw = dict(weights=False)
            elif default == 'on':
                x.getweights = lambda iaxes=None: wt
                kw = dict(weights=True)
            elif wt is not None and default is None:
                kw = dict(weights=wt)
            v = call(x, *([axes[j] for j in red][::order] if args != 'all' else []), **kw)
            scalar_out = args == 'all'
            if not scalar_out:
                ctx.oblige('the axes that are left', z3.BoolVal(len(v.axes) == len(outax) and all(a is axes[j] for a, j in zip(v.axes, outax))))
                ctx.oblige('the data type of the result', z3.BoolVal(np_.dtype(v.dtype) == np_.dtype(sp['dtype'](np_.dtype(dtype)))))
                st['view'] = view = new_view(L, v.axes)
                r = v.getview(view, pbar=PBar())
            else:
                r, view = v, None
            s = ctx.over[-1].cutting
            ctx.oblige('one pass over the data', z3.BoolVal(len(ctx.over) == 1))
            wt_ok = [axes[j] for j in range(rank)]
            w = [ctx.int('w', 0, n) for n in (view.shape if view is not None else [])]
            for t in w:
                ctx.term(t)
            if isinstance(r, SymArr):
                ctx.oblige('the result has the shape of the request', z3.And(z3.BoolVal(r.ndim == len(w)), *[zi(a) == zi(b) for a, b in zip(r.shape_, view.shape if view is not None else ())]))
            else:
                ctx.oblige('a scalar for no axes', z3.BoolVal(not w))
            got = r.at(*w) if isinstance(r, SymArr) else r
            # the sample at the origin of the reduced axes is in one of the blocks
            q0 = s.place([w[outax.index(j)] if j in outax else 0 for j in range(rank)])
            ctx.oblige('every output position has samples', z3.And(q0 >= 0, q0 < s.total))
            ctx.assume(touched(ctx, s.total, w))
            N = prod([axes[j].n for j in red])
            folds = {nm: q.T(s.total, w) for nm, q in st['q'].items()}
            want = sp['value'](ctx, folds, N)
            ctx.oblige('the value is the named function of all the samples', same(real(got), real(want)))
        verify_any(rep, 'reduce.%s (%d axes, over %s%s, %s%s%s)' % (cls, rank, red, '' if wax is None else ', weights on %s' % wax, dtype, '' if default is None else ', default weights: %s' % default, ', whole domain' if args == 'all' else ''), scn, lambda: ways[0])
        rep.bounded = ['reductions: number of axes as named in each obligation (extents, selections, blocks, values unbounded)']
    return run


def dt_float(d):
    return np_.zeros(1, d).mean().dtype


def dt_sum(d):
    return np_.zeros(1, d).sum().dtype


def nanx(x):
    return isnanc(x)


def q1(kind):
    return lambda D, W: dict(out=(kind, D))


def tr(n):
    return z3.ToReal(zi(n))


def masked(q, n, f):
    """f where n > 0, else NaN"""
    return ite(n, f, float('nan'))


def one(D, W=None):
    """1 (or the weight) at samples that are present, 0 at those that are missing"""
    def F(p):
        x = D(p)
        w = toreal_nan(W(p))[0] if W is not None else z3.RealVal(1)
        return SymReal(z3.If(isnanc(x), 0, w))
    return F


def var_of(n, x, x2):
    """textbook: the sum of (x - mean)^2 = sum of squares - 2 mean sum + n mean^2 (linearity), by n - 1"""
    m = SymReal(x.v / n, x.nan)
    return SymReal((x2.v - 2 * m.v * x.v + n * m.v * m.v) / (n - 1), z3.Or(x.nan, x2.nan))


def pos_root(ctx, v):
    return NPX.sqrt(SymReal(z3.If(v.v > 0, v.v, 0), v.nan))


SPECS = {
    'min': dict(q=q1('min'), infinite=True, dtype=lambda d: d, value=lambda ctx, f, N: f['out']),
    'max': dict(q=q1('max'), infinite=True, dtype=lambda d: d, value=lambda ctx, f, N: f['out']),
    'nanmin': dict(q=q1('nanmin'), dtype=dt_float, value=lambda ctx, f, N: f['out']),
    'nanmax': dict(q=q1('nanmax'), dtype=dt_float, value=lambda ctx, f, N: f['out']),
    'sum': dict(q=q1('sum'), dtype=dt_sum, value=lambda ctx, f, N: f['out']),
    'wsum': dict(q=lambda D, W: dict(out=('sum', lambda p: D(p) * W(p))), dtype=dt_float, value=lambda ctx, f, N: f['out']),
    'nansum': dict(q=q1('nansum'), start='nan', dtype=dt_float, value=lambda ctx, f, N: f['out']),
    'wnansum': dict(q=lambda D, W: dict(out=('nansum', lambda p: D(p) * W(p))), start='nan', dtype=dt_float, value=lambda ctx, f, N: f['out']),
    'mean': dict(q=q1('sum'), dtype=dt_float, value=lambda ctx, f, N: SymReal(f['out'].v / tr(N), f['out'].nan)),
    'wmean': dict(q=lambda D, W: dict(out=('sum', lambda p: D(p) * W(p)), W=('sum', W)), dtype=dt_float, value=lambda ctx, f, N: f['out'] / f['W']),
    'nanmean': dict(q=lambda D, W: dict(out=('nansum', D), N=('nansum', one(D))), start='nan', dtype=dt_float,
                    value=lambda ctx, f, N: masked(f, f['N'].v > 0, f['out'] / f['N'])),
    'wnanmean': dict(q=lambda D, W: dict(out=('nansum', lambda p: D(p) * W(p)), W=('nansum', one(D, W))), start='nan', dtype=dt_float,
                     value=lambda ctx, f, N: masked(f, f['W'].v > 0, f['out'] / f['W'])),
    'var': dict(q=lambda D, W: dict(x=('sum', D), x2=('sum', lambda p: D(p) * D(p))), dtype=dt_float, value=lambda ctx, f, N: var_of(tr(N), f['x'], f['x2'])),
    'sd': dict(q=lambda D, W: dict(x=('sum', D), x2=('sum', lambda p: D(p) * D(p))), dtype=dt_float, value=lambda ctx, f, N: pos_root(ctx, var_of(tr(N), f['x'], f['x2']))),
    'nanvar': dict(q=lambda D, W: dict(x=('nansum', D), x2=('nansum', lambda p: D(p) * D(p)), N=('nansum', one(D))), start='nan', dtype=dt_float,
                   value=lambda ctx, f, N: masked(f, f['N'].v > 1, var_of(f['N'].v, f['x'], f['x2']))),
    'nansd': dict(q=lambda D, W: dict(x=('nansum', D), x2=('nansum', lambda p: D(p) * D(p)), N=('nansum', one(D))), start='nan', dtype=dt_float,
                  value=lambda ctx, f, N: (lambda v: pos_root(ctx, v))(masked(f, f['N'].v > 1, var_of(f['N'].v, f['x'], f['x2'])))),
}


def arg_(cls, rank, d, dtype='float64'):
    """the position of the extreme value: a function of the values along the whole axis (numpy argmax: the first one)"""
    outax = [j for j in range(rank) if j != d]
    kind = 'argmax' if cls == 'ArgMaxVar' else 'argmin'

    def run(repo, rep):
        st = {}
        flat = lambda w: [0 if j == d else w[outax.index(j)] for j in range(rank)]

        def P(view, w):
            return [elem(i, t) for i, t in zip(view.integer_indices, w)]

        def vars(ctx, k, loc):
            view, s = st['view'], ctx.over[-1].cutting
            out = {}
            for nm in ctx.carry:
                if nm == 'pbar':
                    out[nm] = loc[nm]
                elif isinstance(loc.get(nm), SymArr):
                    junk = new_arr('junk', view.shape, 'int32')
                    out[nm] = SymArr(view.shape, lambda idx, junk=junk: ite(s.place(flat(idx)) < zi(k), mk_int(st['A'](*P(view, idx))), junk.fn(idx)), 'int32')
                    st['name'] = nm
            return out

        def inv(ctx, k, loc):
            view, s = st['view'], ctx.over[-1].cutting
            nm = [n for n in ctx.carry if isinstance(loc.get(n), SymArr)]
            if len(nm) != 1:
                return [('one result is built', z3.BoolVal(False))]
            a = loc[nm[0]]
            w = [ctx.int('w', 0, n) for n in view.shape]
            for t in w:
                ctx.term(t)
            out = [('the shape of the request', z3.And(z3.BoolVal(a.ndim == len(view.shape)), *[zi(x) == zi(y) for x, y in zip(a.shape_, view.shape)]))]
            q = s.place(flat(w))
            n0 = len(ctx.folds)
            got = a.at(*w)
            if ctx.phase == 'after':
                last = z3.simplify(zi(k) - 1)
                for j, f in enumerate(s.axisblock(last, flat(w))):
                    ctx.oblige('axis %d: a position is in the block if that is its block' % j, f)
                ctx.oblige('blocks are numbered one to one', s.numbered(last, flat(w)))
                here = q == last
                ctx.oblige('the block holds its positions', here == s.inblock(last, flat(w)))
                p = P(view, w)
                t = ctx.int('t', 0, st['axes'][d].n)
                ctx.term(t)
                for f in [f for f in ctx.folds[:n0] if not f['idx']] + ctx.folds[n0:]:
                    ok = f['kind'] == kind and f['base'].ndim == rank and f['axes'] == [d]
                    ctx.oblige('the position of the %s along the axis' % kind, z3.Implies(here, z3.BoolVal(ok)))
                    if not ok:
                        continue
                    ctx.oblige('among all the values of the axis', z3.Implies(here, zi(f['base'].shape_[d]) == zi(st['axes'][d].n)))
                    want = st['x'].D(*[t if j == d else mk_int(p[outax.index(j)]) for j in range(rank)])
                    ctx.oblige('each of them in its place', z3.Implies(here, same(f['at']([t]), want)))
                    ctx.assume(z3.Implies(here, zi(f['value']) == st['A'](*p)))
            out.append(('the blocks done so far are in place', z3.Implies(q < zi(k), zi(got) == st['A'](*P(view, w)))))
            return out
        L = lifted(repo, lift=['pygeode.reduce', 'pygeode.tools'], extra={'pygeode.libhelper.load_lib': lambda *a, **k: None, 'pygeode.toolscore': object(), 'pygeode.tools.loopover': chunks.c_loopover},
                   loops={'*': Inv(vars, inv)})
        C = L.get('pygeode.reduce', cls)

        def scn(ctx):
            axes = [AbsAxis('a%d' % j, ctx.int('n%d' % j, 1)) for j in range(rank)]
            x = AbsVar('x', axes, dtype)
            st.update(axes=axes, x=x, A=ctx.func(kind, *([I] * rank)) if rank > 1 else (lambda c: lambda: c)(ctx.fresh(kind)))
            v = C(x, [axes[d]])
            ctx.oblige('the axes that are left', z3.BoolVal(len(v.axes) == len(outax) and all(a is axes[j] for a, j in zip(v.axes, outax))))
            ctx.oblige('positions are whole numbers', z3.BoolVal(np_.dtype(v.dtype).kind == 'i'))
            st['view'] = view = new_view(L, v.axes)
            r = v.getview(view, pbar=PBar())
            w = [ctx.int('w', 0, n) for n in view.shape]
            for t in w:
                ctx.term(t)
            s = ctx.over[-1].cutting
            q = s.place(flat(w))
            ctx.oblige('every position is in one of the blocks', z3.And(q >= 0, q < s.total))
            ctx.oblige('the result has the shape of the request', z3.And(z3.BoolVal(isinstance(r, SymArr) and r.ndim == len(w)), *[zi(a) == zi(b) for a, b in zip(r.shape_, view.shape)]))
            ctx.oblige('the value is the position of the extreme along the whole axis', zi(r.at(*w)) == st['A'](*P(view, w)))
        verify_py(rep, 'reduce.%s (%d axes, over %d, %s)' % (cls, rank, d, dtype), scn)
        rep.bounded = ['reductions: number of axes as named in each obligation (extents, selections, blocks, values unbounded)']
    return run


def wvar(ctx, f, N):
    """(sum w x^2 - (sum w x)^2 / W) / (W - 1), W the sum of the weights"""
    x, x2, W = f['x'], f['x2'], f['W']
    return (x2 - x * x / W) / (W - 1)


SPECS['wvar'] = dict(q=lambda D, W: dict(x=('sum', lambda p: D(p) * W(p)), x2=('sum', lambda p: D(p) * D(p) * W(p)), W=('sum', W)), dtype=dt_float, value=wvar)
FUNCS = [('min', 'min'), ('max', 'max'), ('nanmin', 'nanmin'), ('nanmax', 'nanmax'), ('sum', 'sum'), ('nansum', 'nansum'), ('mean', 'mean'), ('nanmean', 'nanmean'),
         ('variance', 'var'), ('nanvariance', 'nanvar'), ('stdev', 'sd'), ('nanstdev', 'nansd')]
WFUNCS = [('sum', 'wsum'), ('nansum', 'wnansum'), ('mean', 'wmean'), ('nanmean', 'wnanmean'), ('variance', 'wvar')]


def tasks(prop, tier='quick'):
    out = []
    if prop == 'V08':
        for fn, sp in FUNCS:
            dw = 'none' if fn in ('mean', 'nanmean', 'nansum') else None
            for rank, red, order in ((2, [0], 1), (2, [1], 1), (3, [0, 2], -1)):
                out.append(('%s %d %s' % (fn, rank, red), reduce_(fn, rank, red, sp, default=dw, order=order)))
            out.append(('%s all' % fn, reduce_(fn, 2, [0, 1], sp, args='all', default=dw)))
        for fn, sp in (('min', 'min'), ('max', 'max'), ('sum', 'sum'), ('mean', 'mean'), ('variance', 'var')):
            out.append(('%s int32' % fn, reduce_(fn, 2, [0], sp, dtype='int32', default='none' if fn == 'mean' else None)))
        for cls in ('ArgMaxVar', 'ArgMinVar'):
            for rank, d in ((1, 0), (2, 0), (2, 1), (3, 1)):
                out.append(('%s %d %d' % (cls, rank, d), arg_(cls, rank, d)))
        for fn, sp in WFUNCS:
            for rank, red, wax in ((2, [0], [0]), (2, [1], [1]), (3, [0, 2], [0]), (3, [0, 2], [0, 2]), (3, [1, 2], [2])):
                out.append(('%s %d %s %s' % (fn, rank, red, wax), reduce_(fn, rank, red, sp, wax=wax)))
            # whether the weights of the axes are used by default
            plain = dict(FUNCS)[fn]
            if fn in ('mean', 'nanmean', 'nansum'):
                out.append(('%s by default' % fn, reduce_(fn, 2, [0], sp, wax=[0], default='weights')))
            out.append(('%s without weights' % fn, reduce_(fn, 2, [0], plain, default='off')))
            out.append(('%s with those of the axes' % fn, reduce_(fn, 2, [0], sp, wax=[0], default='on')))
    return out
