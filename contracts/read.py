"""V03: the real View.get (with View.__init__, View.map_to, View.subaxis) against its contract, for the three kinds of variable;
expand, simplify and loop_contiguous are known by the contracts proved under V01, Axis.map_to by C04's, numpy by its manual."""
import contextlib
from absvar import *
import absvar


class Kind(AbsVar):
    pass


def make_var(kind, ctx, axes):
    x = AbsVar('x', axes)
    D = lambda idx: x.D(*idx)
    if kind == 'values':
        x.values = SymArr([a.n for a in axes], D, 'float64')
        x.values.flags.writeable = False
        x.values.shared = True
    elif kind == 'getview':
        def getview(view, pbar):
            """contract of getview: the elements at the positions of the view, given positions without repetition"""
            ctx.oblige('getview is asked for the variable\'s own axes', z3.BoolVal(len(view.axes) == len(axes) and all(a is b for a, b in zip(view.axes, axes))))
            inds = view.integer_indices
            for j, (ind, a) in enumerate(zip(inds, axes)):
                sl = view.slices[j]
                with ctx.each('p', sh_len(ind)) as p:
                    ctx.oblige('getview is asked for positions on axis %d' % j, z3.And(elem(ind, p) >= 0, elem(ind, p) < zi(a.n)))
                    with ctx.each('q', p) as q:
                        ctx.oblige('getview is asked for increasing positions of axis %d' % j, elem(ind, q) < elem(ind, p))
                    ctx.oblige('slice and positions of axis %d agree' % j, z3.BoolVal(isinstance(sl, Sel) and (sl.ind is ind)) if isinstance(sl, Sel) and sl.ind is ind
                               else elem(sl.ind, p) == elem(ind, p))
                if sl.ind is not ind:
                    ctx.oblige('slice and positions of axis %d are equally many' % j, zi(sh_len(sl.ind)) == zi(sh_len(ind)))
            return SymArr(view.shape, lambda idx: D(tuple(mk_int(elem(i, k)) for i, k in zip(inds, idx))), 'float64')
        x.getview = getview
    else:
        def getvalues(start, count):
            """contract of getvalues: the block of count[j] elements starting at start[j]"""
            ctx.oblige('getvalues is given a start and a count for each axis', z3.BoolVal(len(start) == len(axes) and len(count) == len(axes)))
            for j, a in enumerate(axes):
                ctx.oblige('getvalues is asked for a block within axis %d' % j, z3.And(zi(start[j]) >= 0, zi(count[j]) >= 1, zi(start[j]) + zi(count[j]) <= zi(a.n)))
            return SymArr(count, lambda idx: D(tuple(mk_int(zi(s) + zi(k)) for s, k in zip(start, idx))), 'float64')
        x.getvalues = getvalues
    return x


def inv_pieces(state):
    """before piece k, the pieces 0..k-1 have been stored"""
    def want(idx):
        view = state['view']
        return state['x'].D(*[mk_int(elem(i, p)) for i, p in zip(view.integer_indices, idx)])

    def vars(ctx, k, loc):
        view = loc['unique_view']
        state['view'] = view
        state['x'] = loc['var']
        junk = new_arr('junk', view.shape, 'float64', nan=True)
        k = zi(k)
        a = SymArr(view.shape, lambda idx: ite(view.pieces.place(idx) < k, want(idx), junk.fn(idx)), 'float64')
        return dict(values=a, pbar=loc['pbar'])

    def inv(ctx, k, loc):
        view = loc['unique_view']
        state['view'], state['x'] = view, loc['var']
        v = loc['values']
        w = [ctx.int('w', 0, n) for n in view.shape]
        for t in w:
            ctx.term(t)
        q = view.pieces.place(w)
        out = [('the result has the shape of the request', z3.And(z3.BoolVal(v.ndim == len(view.shape)), *[zi(a) == zi(b) for a, b in zip(v.shape_, view.shape)]))]
        if not isinstance(k, int):
            last = z3.simplify(zi(k) - 1)
            inb = view.pieces.inblock(last, w)
            for j, f in enumerate(view.pieces.axisblock(last, w)):
                out.append(('axis %d: a position is in the block just read if that is its piece' % j, z3.Implies(last >= 0, f)))
            out.append(('pieces are numbered one to one', z3.Implies(last >= 0, view.pieces.numbered(last, w))))
            out.append(('the block just read holds the positions of the piece', z3.Implies(last >= 0, (q == last) == inb)))
            out.append(('positions follow one another in the block just read', z3.Implies(z3.And(last >= 0, q == last), view.pieces.blockpos(last, w))))
        out.append(('the pieces read so far are in place', z3.Implies(q < zi(k), same(v.at(*w), want(w)))))
        return out
    return Inv(vars, inv)


def get_(kind, rank, perm, sub=(), extra=None, drop=(), strict=True, conform=True, empty=False):
    """view axes: the variable's axes permuted, those in sub replaced by a selection of them, those in drop missing, an unrelated
    one at position extra"""
    name = 'view.View.get (%s, %d axes, order %s%s%s%s%s%s)' % (kind, rank, list(perm), ', selections %s' % (list(sub),) if sub else '', ', unrelated axis' if extra is not None else '',
                                                          ', missing axes %s' % (list(drop),) if drop else '', '' if conform else ', conform=False', ', possibly empty' if empty else '')

    def run(repo, rep):
        state = {}
        L = lifted(repo, real_get=True, loops={'View.get#*': inv_pieces(state)} if kind == 'getvalues' else None)
        mod = L.module('pygeode.view')
        mod.View.loop_contiguous = c_loop_contiguous

        def scn(ctx):
            axes = [AbsAxis('a%d' % j, ctx.int('n%d' % j, 1)) for j in range(rank)]
            x = make_var(kind, ctx, axes)
            vaxes = []
            for j in perm:
                if j in drop:
                    continue
                a = axes[j]
                if j in sub:
                    m = ctx.int('m%d' % j, 1)
                    a = a.sub(index_arr('sub%d' % j, m, 0, a.n))
                vaxes.append((j, a))
            if extra is not None:
                vaxes.insert(extra, (None, AbsAxis('other', ctx.int('nother', 1))))
            inds = []
            for j, a in vaxes:
                ind = index_arr('ind', ctx.int('L', 0 if empty else 1), 0, a.n)
                ind.below = a.n
                inds.append(ind)
            v = L.View(tuple(a for _, a in vaxes), inds)
            r = v.get(x, strict=strict, conform=conform)
            ctx.oblige('an array is returned', z3.BoolVal(isinstance(r, SymArr)))
            ctx.oblige('the result is protected against writing', z3.BoolVal(r.flags.writeable is False or empty))
            where = {j: i for i, (j, a) in enumerate(vaxes) if j is not None}
            if conform:
                shape = [sh_len(inds[i]) if j is not None else 1 for i, (j, a) in enumerate(vaxes)]
            else:
                shape = [sh_len(inds[where[j]]) if j in where else axes[j].n for j in range(rank)]
            ctx.oblige('the result has the rank of the request', z3.BoolVal(r.ndim == len(shape)))
            for d, (s, t) in enumerate(zip(r.shape_, shape)):
                ctx.oblige('extent %d is that of the request' % d, zi(s) == zi(t))
            with contextlib.ExitStack() as st:
                k = [st.enter_context(ctx.each('k', s)) for s in shape]
                got = r.at(*[mk_int(zi(t)) for t in k])
                pos = []
                for j in range(rank):
                    if j in where:
                        i = where[j]
                        kk = k[i] if conform else k[j]
                        pos.append(vaxes[i][1].pos(mk_int(elem(inds[i], kk))))
                    else:
                        pos.append(zi(k[j]))
                ctx.oblige('every element is the one stored at the position selected', same(got, x.D(*pos)))
        verify_py(rep, name, scn)
        rep.bounded = ['View.get: 1 to 3 axes (1 and 2 for block-wise reading) (extents, selections and values unbounded)']
    return run


def tasks(prop, tier='quick'):
    if prop != 'V03':
        return []
    out = []

    def add(*a, **k):
        out.append(('get %s %s' % (a, k), get_(*a, **k)))
    for kind in ('values', 'getview', 'getvalues'):
        add(kind, 1, (0,))
        add(kind, 2, (1, 0))
        if kind != 'getvalues' or tier == 'thorough':
            add(kind, 2, (0, 1), sub=(1,))
        if kind == 'getview' or tier == 'thorough':
            add(kind, 2, (1, 0), sub=(0, 1))
        add(kind, 2, (0, 1), extra=1)
        add(kind, 2, (0, 1), drop=(1,), strict=False, conform=False)
        add(kind, 1, (0,), empty=True)
        add(kind, 2, (0, 1), drop=(1,), strict=False, conform=False, empty=True)
    add('values', 2, (1, 0), extra=0, empty=True)
    add('getview', 3, (1, 2, 0), empty=True)
    add('values', 3, (2, 0, 1))
    add('getview', 3, (1, 2, 0), sub=(1,))
    add('values', 2, (1, 0), extra=0, sub=(1,))
    return out
