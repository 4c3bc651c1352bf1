"""V01, V02, V03: contracts of pygeode/view.py (expand, simplify, contiguate, View)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import warnings
import z3
import pv
from pv import *

warnings.simplefilter('ignore')
LIFT = ('pygeode.view',)


def lifted(repo, contracts=None, lift=LIFT, loops=None):
    L = Lifted(repo, contracts=contracts, lift=lift, loops=loops)
    L.activate()
    return L


def elem(a, k):
    """element k of an index array, integer term"""
    return zi(a.at(mk_int(zi(k))))


# ------------------------------------------------------------------------------------------------ V01
def expand_slice(repo, rep):
    """expand(slice, n)[k] is element k of the positions Python selects (slice.indices), all of them valid"""
    f = lifted(repo).get('pygeode.view', 'expand')
    for has_start in (0, 1):
        for has_stop in (0, 1):
            for step in ('none', 'pos', 'neg'):
                def scn(ctx):
                    n = ctx.int('n', 0)
                    start = ctx.int('start') if has_start else None
                    stop = ctx.int('stop') if has_stop else None
                    st = None if step == 'none' else ctx.int('step', 1) if step == 'pos' else ctx.int('step', None, 0)
                    sl = SymSlice(start, stop, st)
                    r = f(sl, n)
                    a, b, d = slice_indices(sl, n)
                    L = sh_len(r)
                    m = range_len(a, b, d)
                    mul_mono(zi(L), zi(m) - 1, zi(d)); mul_mono(zi(m), zi(L) - 1, zi(d))
                    ctx.oblige('as many positions as the slice selects', zi(L) == zi(m))
                    with ctx.each('k', L) as k:
                        v = elem(r, k)
                        ctx.oblige('position k is start + k*step', v == zi(a) + zi(k) * zi(d))
                        K, M = zi(k), zi(m)
                        mul_mono(z3.IntVal(0), K, zi(d)); mul_mono(K, M - 1, zi(d))
                        ctx.oblige('every position exists', z3.And(v >= 0, v < zi(n)))
                verify_py(rep, 'view.expand (slice, start=%d stop=%d step=%s)' % (has_start, has_stop, step), scn)


def expand_int(repo, rep):
    f = lifted(repo).get('pygeode.view', 'expand')

    def scn(ctx):
        n = ctx.int('n', 0)
        i = ctx.int('i')
        ctx.assume(z3.And(i.z >= -n.z, i.z < n.z))
        r = f(i, n)
        ctx.oblige('one position', zi(sh_len(r)) == 1)
        ctx.oblige('the position asked for, counted from the end if negative', elem(r, 0) == z3.If(i.z < 0, i.z + n.z, i.z))
    verify_py(rep, 'view.expand (integer)', scn)


def expand_list(repo, rep):
    f = lifted(repo).get('pygeode.view', 'expand')

    def scn(ctx):
        n = ctx.int('n', 0)
        L = ctx.int('L', 0)
        ind = index_arr('ind', L, mk_int(-n.z), n)
        r = f(ind, n)
        ctx.oblige('one position for each entry', zi(sh_len(r)) == L.z)
        with ctx.each('k', L) as k:
            v, w = elem(r, k), elem(ind, k)
            ctx.oblige('each entry, counted from the end if negative', v == z3.If(w < 0, w + n.z, w))
            ctx.oblige('every position exists', z3.And(v >= 0, v < n.z))
    verify_py(rep, 'view.expand (list)', scn)


def selects(ctx, r, ind, L, n, what):
    """the result r of simplify selects, from any sequence of length n, exactly ind[0..L) in order"""
    if isinstance(r, SymSlice):
        d = zi(r.step)
        i0 = elem(ind, 0)
        if not z3.is_int_value(z3.simplify(d)):
            ctx.induction('%s: regular spacing' % what, lambda t: elem(ind, t) == i0 + t * d, L, at=[zi(L) - 1])
        a, b, st = slice_indices(r, n)
        m = range_len(a, b, st)
        M, LL = zi(m), zi(L)
        mul_mono(M, LL - 1, d); mul_mono(LL, M - 1, d)
        ctx.oblige('%s: the slice selects as many positions' % what, M == LL)
        with ctx.each('k', L) as k:
            mul_mono(z3.IntVal(0), k.z, d); mul_mono(k.z, LL - 1, d)
            v = elem(ind, k)
            ctx.oblige('%s: the slice selects the same positions in the same order' % what, zi(a) + k.z * zi(st) == v)
    else:
        ctx.oblige('%s: as many positions' % what, zi(sh_len(r)) == zi(L))
        with ctx.each('k', L) as k:
            ctx.oblige('%s: the same positions in the same order' % what, elem(r, k) == elem(ind, k))


def simplify_(repo, rep):
    """simplify(ind) used as an index into any sequence that contains the positions selects exactly ind, in order"""
    f = lifted(repo).get('pygeode.view', 'simplify')

    def scn(ctx):
        n = ctx.int('n', 0)
        L = ctx.int('L', 0)
        ind = index_arr('ind', L, 0, n)
        selects(ctx, f(ind), ind, L, n, 'simplify')
    verify_py(rep, 'view.simplify', scn)


def simplify_consecutive(repo, rep):
    """positions i, i+1, ...: the result is exactly slice(i, i+len, 1)"""
    f = lifted(repo).get('pygeode.view', 'simplify')

    def scn(ctx):
        n = ctx.int('n', 0)
        L = ctx.int('L', 1)
        ind = index_arr('ind', L, 0, n)
        i0 = elem(ind, 0)
        ctx.universal(lambda t: z3.Implies(z3.And(t >= 0, t < L.z), elem(ind, t) == i0 + t))
        ctx.universal(lambda t: z3.Implies(z3.And(t + 1 >= 0, t + 1 < L.z), elem(ind, t + 1) == i0 + t + 1))
        r = f(ind)
        ctx.oblige('the result is a slice', z3.BoolVal(isinstance(r, SymSlice)))
        if isinstance(r, SymSlice):
            ctx.oblige('from the first position to just after the last, in unit steps', z3.And(zi(r.start) == i0, z3.BoolVal(r.stop is not None), zi(r.stop) == i0 + L.z if r.stop is not None else FALSE, zi(r.step) == 1))
    verify_py(rep, 'view.simplify (consecutive positions)', scn)


def contiguate_(repo, rep):
    """contiguate(ind) cuts 0..len(ind) into consecutive pieces, each of consecutive positions"""
    f = lifted(repo).get('pygeode.view', 'contiguate')

    def scn(ctx):
        n = ctx.int('n', 0)
        L = ctx.int('L', 1)
        ind = index_arr('ind', L, 0, n)
        r = f(ind)
        m = as_seq(r).n
        ctx.oblige('there is a piece', zi(m) >= 1)
        first, last = r[0], r[mk_int(zi(m) - 1)]
        ctx.oblige('the first piece starts at the beginning', zi(first.start) == 0)
        ctx.oblige('the last piece ends at the end', zi(last.stop) == L.z)
        k = ctx.int('k', 0, m)
        p = r[k]
        ctx.oblige('pieces have unit step', z3.BoolVal(p.step in (None, 1)))
        ctx.oblige('pieces are not empty and inside', z3.And(zi(p.start) >= 0, zi(p.start) < zi(p.stop), zi(p.stop) <= L.z))
        q = ctx.int('q', p.start)
        ctx.assume(q.z + 1 < zi(p.stop))
        # position q is no jump: otherwise it would be one of the recorded ones, strictly between two consecutive ones
        occ = jumps(ctx, r, q)
        ctx.oblige('positions within a piece are consecutive', elem(ind, q.z + 1) == elem(ind, q) + 1)
        if bool(mk_bool(k.z + 1 < zi(m))):
            p2 = r[mk_int(k.z + 1)]
            ctx.oblige('each piece starts where the one before ends', zi(p2.start) == zi(p.stop))
    verify_py(rep, 'view.contiguate', scn)


def jumps(ctx, r, q):
    for m in ctx.masks:
        m.occurs(q)
    ctx.term(q)


def loop_contig(repo, rep):
    """View.loop_contiguous: each generated triple says that elements outsl of the view are source positions start, start+1, ..."""
    L = lifted(repo)
    for rank in (1, 2):
        def c_contiguate(ind):
            """contract of contiguate (proved above): m pieces from cut(k) to cut(k+1), each of consecutive positions"""
            ctx = pv.CUR
            n = zi(sh_len(ind))
            cuts_ = lambda: ctx.cuts
            m, cut = ctx.fresh('pieces'), ctx.func('cut', I, I)
            ctx.oblige('contiguate is given some positions', n >= 1)
            ctx.assume(z3.And(m >= 1, cut(z3.IntVal(0)) == 0, cut(m) == n))

            def piece(k):
                a, b = cut(zi(k)), cut(zi(k) + 1)
                ctx.assume(z3.Implies(z3.And(zi(k) >= 0, zi(k) < m), z3.And(a >= 0, a < b, b <= n)))
                i0 = elem(ind, a)
                ctx.universal(lambda t: z3.Implies(z3.And(zi(k) >= 0, zi(k) < m, t >= a, t < b), elem(ind, t) == i0 + t - a))
                p = SymSlice(mk_int(a), mk_int(b))
                return p
            cuts_().append((m, cut))
            return SymSeq(SymInt(m), piece)

        def c_simplify(ind):
            """contract of simplify (proved above) on consecutive positions"""
            ctx = pv.CUR
            i, n = elem(ind, 0), zi(sh_len(ind))
            k = ctx.int('k', 0, mk_int(n))
            ctx.oblige('simplify is given consecutive positions', z3.And(n >= 1, elem(ind, k) == i + k.z))
            return SymSlice(mk_int(i), mk_int(i + n), 1)

        mod = L.module('pygeode.view')
        mod.contiguate, mod.simplify = c_contiguate, c_simplify

        def scn(ctx):
            V = L.get('pygeode.view', 'View')
            v = V.__new__(V)
            ns = [ctx.int('n%d' % j, 0) for j in range(rank)]
            Ls = [ctx.int('L%d' % j, 1) for j in range(rank)]
            inds = [index_arr('ind%d' % j, Ls[j], 0, ns[j]) for j in range(rank)]
            v.integer_indices = tuple(inds)
            yielded, cuts = [], []
            ctx.cuts = cuts
            ctx.per_element = lambda: ctx.oblige('every combination of pieces is yielded once', z3.BoolVal(len(yielded) == 1))
            for outsl, start, count in V.loop_contiguous(v):
                yielded.append(1)
                ctx.oblige('one slice, start and count for each axis', z3.BoolVal(len(outsl) == rank and len(start) == rank and len(count) == rank))
                p = ctx.product
                ctx.oblige('all combinations of pieces are visited', z3.BoolVal(p is not None and len(p.seqs) == rank and len(cuts) == rank))
                for j in range(rank):
                    o = outsl[j]
                    k = zi(p.picked[j])
                    ctx.oblige('axis %d: there are as many pieces as the axis is cut into' % j, zi(p.seqs[j].n) == cuts[j][0])
                    ctx.oblige('axis %d: the output piece is the one cut out there' % j, z3.And(zi(o.start) == cuts[j][1](k), zi(o.stop) == cuts[j][1](k + 1), z3.BoolVal(o.step is None or o.step == 1)))
                    ctx.oblige('the count is the extent of the output piece', zi(count[j]) == zi(o.stop) - zi(o.start))
                    q = ctx.int('q', 0, count[j])
                    ctx.oblige('element q of the piece is source position start+q', elem(inds[j], zi(o.start) + q.z) == zi(start[j]) + q.z)
        verify_py(rep, 'view.View.loop_contiguous (rank %d)' % rank, scn)
    rep.bounded = getattr(rep, 'bounded', []) + ['View.loop_contiguous: number of axes 1 and 2 (extents, positions and number of pieces unbounded)']


def consecutive_lemma(repo, rep):
    """ind[q+1] = ind[q]+1 within a piece (contract of contiguate) gives ind[a+t] = ind[a]+t"""
    def scn(ctx):
        f = ctx.func('ind', I, I)
        a, b = ctx.int('a', 0), ctx.int('b')
        ctx.universal(lambda t: z3.Implies(z3.And(a.z <= t, t + 1 < b.z), f(t + 1) == f(t) + 1))

        def P(t):
            ctx.term(a.z + t)
            return f(a.z + t) == f(a.z) + t
        ctx.induction('piece', P, mk_int(b.z - a.z))
    verify_py(rep, 'lemma: a piece without jumps is i, i+1, ...', scn)


# ------------------------------------------------------------------------------------------------ V02
class FakeAxis:
    """an axis, as far as View is concerned: its length"""
    def __init__(self, n):
        self.n = n

    def __symlen__(self):
        return self.n


def c_expand(ind, n):
    """contract of expand on an array of valid positions (proved under V01): the same positions"""
    if not isinstance(ind, SymArr):
        raise Unsupported('expand of %r here' % type(ind))
    with pv.CUR.each('k', sh_len(ind)) as k:
        v = elem(ind, k)
        pv.CUR.oblige('expand is given positions on the axis', z3.And(v >= -zi(n), v < zi(n)))
    f = ind.fn
    r = SymArr(ind.shape_, lambda idx: mk_int(z3.If(zi(f(idx)) < 0, zi(f(idx)) + zi(n), zi(f(idx)))), 'int32')
    return r


def loop_mem(rank, preserve, meth='loop_mem'):
    def run(repo, rep):
        """pieces of each axis follow one another and cover it; every combination of pieces is visited once, in order; its size is within the limit"""
        import itertools
        L = lifted(repo)
        mod = L.module('pygeode.view')
        simplified = []
        mod.expand = c_expand
        mod.simplify = lambda ind: ('simplified', ind)

        def scn(ctx):
            V = mod.View
            MAX = ctx.int('MAX', 1)
            L.contracts['pygeode.MAX_ARRAY_SIZE'] = MAX
            ns = [ctx.int('n%d' % j, 0) for j in range(rank)]
            Ls = [ctx.int('L%d' % j, 1) for j in range(rank)]
            inds = [index_arr('ind%d' % j, Ls[j], 0, ns[j]) for j in range(rank)]
            axes = tuple(FakeAxis(n) for n in ns)
            v = V(axes, inds)
            ctx.oblige('View keeps the axes and positions', z3.BoolVal(all(a is b for a, b in zip(v.axes, axes)) and len(v.shape) == rank))
            ctx.product = None
            yielded = []
            ctx.per_element = lambda: ctx.oblige('every combination of pieces is yielded once', z3.BoolVal(len(yielded) == 1))
            for piece in (getattr(v, meth)(preserve=preserve) if preserve is not None else getattr(v, meth)()):
                p = ctx.product
                yielded.append(1)
                ctx.oblige('all combinations of pieces are visited', z3.BoolVal(p is not None and len(p.seqs) == rank))
                ctx.oblige('the pieces belong to the same axes', z3.BoolVal(len(piece.axes) == rank and all(a is b for a, b in zip(piece.axes, axes))))
                size = z3.IntVal(1)
                bound = MAX.z
                for j in range(rank):
                    got = piece.integer_indices[j]
                    gl = zi(sh_len(got))
                    k, m = zi(p.picked[j]), zi(p.seqs[j].n)
                    n = zi(sh_len(p.seqs[j].get(0)))
                    N = Ls[j].z
                    q = ctx.int('q', 0, SymInt(gl))
                    mul_mono(k, m - 1, n); mul_mono(k + 1, m - 1, n); mul_mono(z3.IntVal(0), k, n)
                    ctx.oblige('axis %d: the pieces cover the axis' % j, z3.And(n >= 1, (m - 1) * n < N, N <= m * n))
                    ctx.oblige('axis %d: piece k has n elements, the last one the rest' % j, gl == z3.If(k < m - 1, n, N - k * n))
                    ctx.oblige('axis %d: piece k holds positions k*n, k*n+1, ... of the view' % j, elem(got, q) == elem(inds[j], k * n + q.z))
                    ctx.oblige('axis %d: a piece is not larger than the first' % j, z3.And(gl >= 1, gl <= n))
                    if preserve is not None and j in preserve:
                        ctx.oblige('axis %d is kept whole' % j, m == 1)
                # size limit: product over the pieces that are not kept whole
                lens = [zi(sh_len(piece.integer_indices[j])) for j in range(rank)]
                free = [j for j in range(rank) if preserve is None or j not in preserve]
                keep = [j for j in range(rank) if j not in free]
                # the sizes of the first pieces, with what is left of the limit after the faster-varying axes
                left = MAX.z
                over = z3.BoolVal(False)
                for j in (preserve or ()):
                    over = z3.Or(over, left < Ls[j].z)
                    left = z3.If(left < Ls[j].z, z3.IntVal(1), left / Ls[j].z)
                lefts = [left]
                for j in reversed(free):
                    n = zi(sh_len(p.seqs[j].get(0)))
                    nl = left / n
                    ctx.oblige('axis %d: a piece fits in what is left of the limit' % j, z3.And(n >= 1, n <= left, nl >= 1, n * nl <= left))
                    left = nl
                    lefts.append(left)
                P = z3.IntVal(1)
                i = len(lefts) - 1
                # P(free axes up to j) <= what was left before axis j
                for j in free:
                    i -= 1
                    n = zi(sh_len(p.seqs[j].get(0)))
                    mul_mono(P, lefts[i + 1], n)
                    mul_mono(lens[j], n, P)
                    P2 = ctx.fresh('P')
                    ctx.assume(P2 == lens[j] * P)
                    ctx.oblige('axis %d: sizes up to here fit' % j, z3.And(P2 >= 1, P2 <= lefts[i]))
                    P = P2
                if not keep:
                    ctx.oblige('a piece holds no more elements than the limit', P <= MAX.z)
                else:
                    if len(keep) == 1:
                        K = Ls[keep[0]].z
                        mul_mono(P, lefts[0], K)
                        T = ctx.fresh('T')
                        ctx.assume(T == K * P)
                        ctx.oblige('a piece holds no more elements than the limit, unless the axes kept whole do', z3.Or(T <= MAX.z, z3.And(K > MAX.z, P == 1)))
                    else:
                        ctx.oblige('a piece holds no more elements of the other axes than the limit leaves', P <= lefts[0])
            ctx.oblige('pieces are generated from a product', z3.BoolVal(ctx.product is not None))
        verify_py(rep, 'view.View.%s (%d axes%s)' % (meth, rank, '' if preserve is None else ', preserve=%s' % (preserve,)), scn)
        rep.bounded = getattr(rep, 'bounded', []) + ['View.loop_mem: 1 to 4 axes (extents, positions and the limit unbounded)']
    return run


def tasks(prop, tier='quick'):
    if prop == 'V02':
        out = [('loop_mem %d' % r, loop_mem(r, None)) for r in (1, 2, 3, 4)]
        out += [('loop_mem %d %s' % (r, p), loop_mem(r, p)) for r, p in ((1, [0]), (2, [0]), (2, [1]), (3, [0]), (3, [1]), (3, [2]), (3, [0, 2]), (2, [0, 1]), (2, []))]
        return out + [('lemmas', lambda repo, rep: lemmas(rep))]
    if prop == 'V01':
        return [('expand slice', expand_slice), ('expand int', expand_int), ('expand list', expand_list), ('simplify', simplify_), ('simplify consecutive', simplify_consecutive),
                ('contiguate', contiguate_), ('loop_contiguous', loop_contig), ('lemmas', lambda repo, rep: lemmas(rep)), ('consecutive', consecutive_lemma)]
    return []
