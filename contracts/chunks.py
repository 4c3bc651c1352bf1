"""Contracts of loopover (V02) and of what is computed piece by piece with it (V08 reductions): the pieces loopover yields
partition the source region, each with its place in the output."""
from absvar import *
import absvar


def c_loop_mem(self, preserve=None):
    """contract of View.loop_mem (V02): the product, over the axes, of pieces cut(0)=0 < cut(1) < ... of each axis (a single one
    for an axis kept whole), every combination once, in order"""
    ctx = pv.CUR
    rank = len(self.integer_indices)
    ax = []
    for j, ind in enumerate(self.integer_indices):
        n = zi(sh_len(ind))
        ctx.oblige('loop_mem is given some positions', n >= 1)
        m, cut, owner = ctx.fresh('pieces'), ctx.func('cut', I, I), ctx.func('owner', I, I)
        if preserve is not None and j in preserve:
            m = z3.IntVal(1)
            ctx.assume(z3.And(cut(z3.IntVal(0)) == 0, cut(m) == n))
        else:
            ctx.assume(z3.And(m >= 1, cut(z3.IntVal(0)) == 0, cut(m) == n))
        ctx.universal(lambda p, n=n, m=m, cut=cut, owner=owner: z3.Implies(z3.And(p >= 0, p < n), z3.And(owner(p) >= 0, owner(p) < m, cut(owner(p)) <= p, p < cut(owner(p) + 1))))
        ax.append((ind, n, m, cut, owner))
    total = ctx.fresh('npieces')
    piece_axis = [ctx.func('piece%d' % j, I, I) for j in range(rank)]
    ctx.assume(total >= 1)

    def get(k):
        k = zi(k)
        ok = z3.And(k >= 0, k < total)
        inds, cuts = [], []
        for (ind, n, m, cut, owner), f in zip(ax, piece_axis):
            p = f(k)
            a, b = cut(p), cut(p + 1)
            ctx.assume(z3.Implies(ok, z3.And(p >= 0, p < m, a >= 0, a < b, b <= n)))
            if z3.is_int_value(m) and m.as_long() == 1:
                a, b = z3.IntVal(0), n
            ctx.universal(lambda t, a=a, b=b, ok=ok, owner=owner, p=p: z3.Implies(z3.And(ok, t >= a, t < b), owner(t) == p))
            piece = ind[SymSlice(mk_int(a), mk_int(b), None)]
            piece.shape_ = (mk_int(b - a),)
            piece.shared = False
            piece.incr = ind.incr
            piece.nonneg = nonneg(ind)
            piece.below = getattr(ind, 'below', None)
            piece.cutfrom = (ind, a, b)
            inds.append(piece)
            cuts.append((a, b))
        v = type(self)(self.axes, force_slices=[Sel(i) for i in inds], force_integer_indices=inds)
        v.cuts = cuts
        return v
    number = ctx.func('number', *([I] * (rank + 1)))       # number of the piece with given piece numbers along the axes
    get0 = get

    def get(k):
        v = get0(k)
        k = zi(k)
        ctx.assume(z3.Implies(z3.And(k >= 0, k < total), number(*[f(k) for f in piece_axis]) == k))
        return v
    s = SymSeq(SymInt(total), get)

    def place(pos):
        """number of the piece that covers the positions (of the list selected along each axis)"""
        ps = []
        for (ind, n, m, cut, owner), p in zip(ax, pos):
            ctx.term(p)
            ps.append(owner(zi(p)))
        q = number(*ps)
        inr = z3.And(*[z3.And(p >= 0, p < m) for p, (_, _, m, _, _) in zip(ps, ax)])
        ctx.assume(z3.Implies(inr, z3.And(q >= 0, q < total, *[f(q) == p for f, p in zip(piece_axis, ps)])))
        return q
    s.place = place
    s.total = total
    s.inblock = lambda k, pos, axes_=None: z3.And(*[z3.And(cut(f(k)) <= zi(p), zi(p) < cut(f(k) + 1)) for f, (_, _, _, cut, _), p in zip(piece_axis, ax, pos)])
    s.axisblock = lambda k, pos: [(owner(zi(p)) == f(k)) == z3.And(cut(f(k)) <= zi(p), zi(p) < cut(f(k) + 1)) for f, (_, _, _, cut, owner), p in zip(piece_axis, ax, pos)]
    s.numbered = lambda k, pos: (place(pos) == k) == z3.And(*[owner(zi(p)) == f(k) for f, (_, _, _, cut, owner), p in zip(piece_axis, ax, pos)])
    s.ax = ax
    ctx.loops = getattr(ctx, 'loops', []) + [s]
    return s


# ------------------------------------------------------------------------------------------------ V02: loopover
def loopover_(rank, outax, preserve=None, nvars=1, inaxes=True, xvar=None):
    """outax: the axes of the output, as indices of the source axes.  For an arbitrary piece: the data are the values of the
    variables at the positions the piece selects on the source axes, the slices are the place of these positions in the output"""
    def run(repo, rep):
        L = lifted(repo, lift=['pygeode.tools'], extra={'pygeode.libhelper.load_lib': lambda *a, **k: None, 'pygeode.toolscore': object()})
        mod = L.module('pygeode.tools')
        L.View.loop_mem = c_loop_mem

        def scn(ctx):
            axes = [AbsAxis('a%d' % j, ctx.int('n%d' % j, 1)) for j in range(rank)]
            vs = [AbsVar('x', axes)] + [AbsVar('y%d' % i, [axes[j] for j in xvar]) for i in range(nvars - 1)]
            view = new_view(L, [axes[j] for j in outax])
            ctx.witness = [lambda self, o: cut_witness(self, o)]
            yielded = []
            ctx.per_element = lambda: ctx.oblige('every piece is yielded once', z3.BoolVal(len(yielded) == 1))
            a = (vs[0] if nvars == 1 else vs, view) + ((axes,) if nvars > 1 or not inaxes else ())
            for outsl, data in mod.loopover(*a, preserve=preserve, pbar=PBar()):
                yielded.append(1)
                s = ctx.loops[-1]
                ctx.oblige('the pieces come from one splitting of the source axes', z3.BoolVal(len(ctx.loops) == 1 and len(s.ax) == rank))
                ctx.oblige('one array for each variable', z3.BoolVal(len(data) == nvars))
                ctx.oblige('one slice for each axis of the output', z3.BoolVal(len(outsl) == len(outax)))
                k = zi(ctx.product.picked[0])
                piece = s.get(mk_int(k))
                # what is split: the selected positions of the output axes, the whole of the others
                for j in range(rank):
                    ind, n, m, cut, owner = s.ax[j]
                    q = ctx.int('q', 0, mk_int(n))
                    if j in outax:
                        oi = view.integer_indices[outax.index(j)]
                        ctx.oblige('axis %d: the positions selected are split' % j, z3.And(n == zi(sh_len(oi)), elem(ind, q) == elem(oi, q)))
                    else:
                        ctx.oblige('axis %d: all of the axis is split' % j, z3.And(n == zi(axes[j].n), elem(ind, q) == q.z))
                    if preserve and j in preserve:
                        ctx.oblige('axis %d is kept whole' % j, z3.BoolVal(z3.is_int_value(m) and m.as_long() == 1))
                lens = [b - a for a, b in piece.cuts]
                w = [ctx.int('w%d' % j, 0, mk_int(n)) for j, n in enumerate(lens)]
                for o, j in enumerate(outax):
                    sel = outsl[o].ind
                    ctx.oblige('output axis %d: as many places as positions' % o, zi(sh_len(sel)) == lens[j])
                    ctx.oblige('output axis %d: the place of each position in the output' % o, elem(sel, w[j]) == piece.cuts[j][0] + zi(w[j]))
                for v, d in zip(vs, data):
                    for j in range(rank):
                        want = lens[j] if any(a is axes[j] for a in v.axes) else z3.IntVal(1)
                        ctx.oblige('%s: extent %d of the data' % (v.name, j), z3.And(z3.BoolVal(d.ndim == rank), zi(d.shape_[j]) == want))
                    idx = [w[j] if any(a is axes[j] for a in v.axes) else 0 for j in range(rank)]
                    p = [mk_int(elem(s.ax[j][0], piece.cuts[j][0] + zi(w[j]))) for j in range(rank)]
                    ctx.oblige('%s: the data are the values at the positions of the piece' % v.name, same(d.at(*idx), v.D(*[p[[i for i in range(rank) if axes[i] is a][0]] for a in v.axes])))
        verify_py(rep, 'tools.loopover (%d axes, output %s%s%s)' % (rank, outax, '' if preserve is None else ', preserve=%s' % preserve, '' if nvars == 1 else ', %d variables, the second on %s' % (nvars, xvar)), scn)
        rep.bounded = ['loopover: number of axes and variables as named in each obligation (extents, positions, pieces, values unbounded)']
    return run


def cut_witness(self, o):
    """where the points of a piece are among the positions it was cut from"""
    # o: points taken from the axis self was taken from, at positions cut from a list equal to self's
    for ind in (getattr(o, 'ind', None),):
        c = getattr(ind, 'cutfrom', None)
        if c is not None:
            return lambda k: zi(k) + c[1]
    return None


def c_loopover(vars, outview, inaxes=None, preserve=None, pbar=None):
    """contract of loopover (above): the pieces of the source axes (the positions selected by the output along its axes, all of
    the others), each with its place in the output and the data of the variables there"""
    ctx = pv.CUR
    if isinstance(vars, VarBase):
        vars = [vars]
    if inaxes is None:
        inaxes = vars[0].axes
    inds, out = [], []
    for a in inaxes:
        o = [i for i, b in enumerate(outview.axes) if b is a]
        if len(o) > 1:
            raise Unsupported('an axis twice')
        out.append(o[0] if o else None)
        if o:
            inds.append(outview.integer_indices[o[0]])
        else:
            ind = NPX.arange(a.n, dtype='int32')
            ind.nonneg, ind.below, ind.incr = True, a.n, True
            inds.append(ind)
    if sorted(o for o in out if o is not None) != list(range(len(outview.axes))) or [o for o in out if o is not None] != sorted(o for o in out if o is not None):
        raise Unsupported('loopover where the output axes are not among the source axes, in order')
    src = type(outview)(inaxes, force_slices=[Sel(i) for i in inds], force_integer_indices=inds)
    s = c_loop_mem(src, preserve)

    def get(k):
        p = s.get(k)
        sl = [None] * len(outview.axes)
        for j, o in enumerate(out):
            if o is not None:
                sl[o] = SymSlice(mk_int(p.cuts[j][0]), mk_int(p.cuts[j][1]), None)
        data = []
        for v in vars:
            idx_of = []
            for a in v.axes:
                j = [i for i, b in enumerate(inaxes) if b is a]
                if len(j) != 1:
                    raise Unsupported('loopover of a variable on other axes')
                idx_of.append(j[0])
            if idx_of != sorted(idx_of):
                raise Unsupported('loopover of a variable with its axes in another order')
            shape = [mk_int(p.cuts[j][1] - p.cuts[j][0]) if j in idx_of else 1 for j in range(len(inaxes))]
            d = SymArr(shape, lambda idx, v=v, idx_of=idx_of: v.D(*[mk_int(elem(inds[j], p.cuts[j][0] + zi(idx[j]))) for j in idx_of]), v.dtype)
            d.flags.writeable = False
            d.piece = (s, p, idx_of)
            data.append(d)
        return tuple(sl), data
    r = SymSeq(s.n, get)
    r.cutting, r.inds, r.out = s, inds, out
    ctx.over = getattr(ctx, 'over', []) + [r]
    return r


def tasks(prop, tier='quick'):
    if prop == 'V02':
        return [('loopover %s' % (a,), loopover_(*a)) for a in ((1, [0]), (1, []), (2, [0]), (2, [1]), (2, [0, 1]), (3, [0, 2]), (3, [1]), (2, [0, 1], [1]), (2, [0], [1]),
                                                              (2, [0], None, 2, True, [1]), (2, [1], None, 2, True, [0, 1]), (3, [1], None, 2, True, [0, 2]))]
    return []
