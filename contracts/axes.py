"""Contracts of the methods of Axis itself: keyword selection (V14), auxiliary arrays (V13), equality (V15).  The real classes are
lifted; an axis object is arbitrary: any number of points, any coordinates, any auxiliary arrays."""
from absvar import *
import absvar

EXTRA = {'pygeode._config': object()}


class Base(VarBase):
    plotatts = {}


class Slicer:
    """contract of Var.slice"""
    def __init__(self, v): self.v = v
    def __getitem__(self, S):
        self.v.__dict__['asked'] = S
        return self.v._getitem_asvar(S)


def setup(a, values, aux, auxatts, name, rtol, atts):
    a.__dict__.update(values=values, auxarrays=dict(aux or {}), auxatts=dict(auxatts or {}), name=name or type(a).name, atts=dict(atts or {}), plotatts=dict(type(a).plotatts), naxes=1)
    a.__dict__['axes'] = (a,)
    a.__dict__['shape'] = (sh_len(values),)
    a.__dict__['dtype'] = values.dtype
    a.__dict__['rtol'] = rtol if rtol is not None else 1e-5
    a.__dict__['slice'] = Slicer(a)


def c_axis_init(self, values, name=None, atts=None, plotatts=None, rtol=None, **kw):
    """contract of Axis.__init__: array arguments are auxiliary arrays of the axis' length, others auxiliary attributes"""
    values = NPX.asarray(values)
    arrs = {k: NPX.asarray(v) for k, v in kw.items() if isinstance(v, (SymArr, list, tuple))}
    for k, v in arrs.items():
        pv.CUR.oblige('auxiliary array %s is as long as the axis' % k, zi(sh_len(v)) == zi(sh_len(values)))
    setup(self, values, arrs, {k: v for k, v in kw.items() if k not in arrs}, name, rtol, atts)


def axis_module(repo, loops=None, extra=None):
    L = lifted(repo, lift=['pygeode.axis'] + (['pygeode.tools'] if extra else []), extra=dict(EXTRA, **{'pygeode.var.Var': Base}, **(extra or {})), loops=loops)
    m = L.module('pygeode.axis')
    m.Axis.__init__ = c_axis_init
    return L, m


def make(cls, n, values, aux=None, auxatts=None, name=None, rtol=None, atts=None):
    """an arbitrary axis object of the class: its attributes are set directly"""
    r = cls.__new__(cls)
    setup(r, values, aux, auxatts, name, rtol, atts)
    return r


def reals(ctx, nm, n, nan=False):
    f = ctx.func(nm, I, R)
    g = ctx.func(nm + '_nan', I, B)
    return SymArr((n,), lambda idx: SymReal(f(zi(idx[0])), g(zi(idx[0])) if nan else FALSE), 'float64')


def ints(ctx, nm, n):
    f = ctx.func(nm, I, I)
    return SymArr((n,), lambda idx: mk_int(f(zi(idx[0]))), 'int32')


def check_mask(ctx, r, n, want, what, nm='kept'):
    """r selects exactly the positions p with want(p), in increasing order"""
    r = r.ind if isinstance(r, Sel) else r
    ctx.oblige('%s: positions are returned' % what, z3.BoolVal(isinstance(r, SymArr) and r.ndim == 1 and r.kind == 'i'))
    L = r.shape_[0]
    with ctx.each('k', L) as k, ctx.each('k', L) as k2:
        a, b = elem(r, k), elem(r, k2)
        ctx.term(a)
        ctx.oblige('%s: positions are on the axis' % what, z3.And(a >= 0, a < zi(n)))
        ctx.oblige('%s: in the order of the axis' % what, z3.Implies(k.z < k2.z, a < b))
        ctx.oblige('%s: every position %s satisfies the request' % (what, nm), want(a))
    with ctx.each('p', n) as p:
        w = want(p.z)
        if not hasattr(r, 'occurs'):
            raise Unsupported('the positions returned are not those of a mask')
        t = r.occurs(p)
        ctx.oblige('%s: every position that satisfies the request is %s' % (what, nm), z3.Implies(w, z3.And(t >= 0, t < zi(L), elem(r, t) == p.z)))


# ------------------------------------------------------------------------------------------------ V14
def sel_(name, build, cls='Lat', dtype='float64'):
    """build(ctx, A, vals, n) -> (kwargs, want(p), leftover keys, options)"""
    def run(repo, rep):
        L, m = axis_module(repo)

        def scn(ctx):
            n = ctx.int('n', 1)
            vals = reals(ctx, 'coord', n) if dtype == 'float64' else ints(ctx, 'coord', n)
            aux = dict(weights=reals(ctx, 'w', n, nan=True), station=ints(ctx, 'station', n))
            m.simplify = None
            a = make(getattr(m, cls), n, vals, aux, dict(units_='x'), name='north')
            L.module('pygeode.view').simplify = c_simplify
            kw, want, left, opt = build(ctx, a, vals, n)
            keys = list(kw)
            r = a.get_slice(kw, **opt)
            check_mask(ctx, r, n, want, 'selection')
            ctx.oblige('the keywords used are consumed, the others left', z3.BoolVal(sorted(kw) == sorted(left)))
        verify_py(rep, 'axis.Axis.get_slice (%s)' % name, scn)
    return ('get_slice %s' % name, run)


def nearest_(name, neg=False, pre='', cls='Lat', key='lat', count=1):
    """a single float value (or a list of two): exactly the nearest coordinate, the first of equally near ones"""
    def run(repo, rep):
        L, m = axis_module(repo)

        def scn(ctx):
            n = ctx.int('n', 1)
            vals = reals(ctx, 'coord', n)
            w = reals(ctx, 'w', n)
            a = make(getattr(m, cls), n, vals, dict(weights=w), {}, name='my_row')
            L.module('pygeode.view').simplify = c_simplify
            data = w if key == 'weights' else vals
            vs = [SymReal(ctx.fresh('v', R)) for _ in range(count)]
            r = a.get_slice({pre + key: vs if pre.startswith('l') or 'l' in pre else vs[0]})
            r = r.ind if isinstance(r, Sel) else r
            dist = lambda i, q: abs(vs[i] - data.at(q if is_int(q) else mk_int(q)))
            if not neg:
                with ctx.each('k', r.shape_[0]) as k, ctx.each('q', n) as q:
                    p = elem(r, k)
                    ctx.term(p)
                    ctx.oblige('the position is on the axis', z3.And(p >= 0, p < n.z))
                    if count == 1:
                        ctx.oblige('the position kept is nearest, the first such', z3.And(zb(dist(0, p) <= dist(0, q)), z3.Implies(q.z < p, zb(dist(0, p) < dist(0, q)))))
                        e0, e1 = elem(r, 0), elem(r, 1)
                        ctx.term(e0)
                        ctx.term(e1)
                        ctx.oblige('one position at most', zi(r.shape_[0]) <= 1)
            # what is nearest to entry i is kept (or, negated, dropped)
            for i in range(count):
                b = [f for f in ctx.folds if f['kind'] == 'argmin'][i]['value']

                ctx.term(b)
                q = ctx.int('q', 0, n)
                ctx.term(q)
                ctx.oblige('entry %d has a nearest coordinate' % i, z3.And(zi(b) >= 0, zi(b) < n.z, zb(dist(i, b) <= dist(i, q))))
                t = r.occurs(b)
                here = z3.And(t >= 0, t < zi(r.shape_[0]), elem(r, t) == zi(b))
                if neg:
                    with ctx.each('k', r.shape_[0]) as k:
                        ctx.oblige('the nearest coordinate of entry %d is dropped' % i, elem(r, k) != zi(b))
                else:
                    ctx.oblige('the nearest coordinate of entry %d is kept' % i, here)
            bs = [zi(f['value']) for f in ctx.folds if f['kind'] == 'argmin'][:count]
            check_mask(ctx, r, n, lambda p: (z3.Not if neg else (lambda x: x))(z3.Or(*[p == b for b in bs])), 'selection')
        verify_py(rep, 'axis.Axis.get_slice (%s)' % name, scn)
    return ('get_slice %s' % name, run)


def keyword():
    out = []
    IS = lambda x: z3.And(*[zb(c) for c in x])
    inrange = lambda vals, a, b, p: z3.Or(z3.And(zb(a <= vals.at(mk_int(p))), zb(vals.at(mk_int(p)) <= b)), z3.And(zb(b <= vals.at(mk_int(p))), zb(vals.at(mk_int(p)) <= a)))

    def range_(pre='', key='lat', neg=False, typ=tuple, what='values'):
        def build(ctx, A, vals, n):
            v = A.auxarrays.get(key, vals)
            mkv = (lambda nm: SymReal(ctx.fresh(nm, R))) if v.kind == 'f' else (lambda nm: ctx.int(nm))
            a, b = mkv('a'), mkv('b')
            w = (lambda p: z3.Not(inrange(v, a, b, p))) if neg else (lambda p: inrange(v, a, b, p))
            return {pre + key: typ([a, b])}, w, [], {}
        return build
    out.append(sel_('closed range of values, in either order', range_()))
    out.append(sel_('range given as a list, by the name of the axis', range_(key='north', typ=list)))
    out.append(sel_('complement of a range', range_('n_', neg=True)))
    out.append(sel_('range of an auxiliary array', range_(key='weights')))
    out.append(sel_('range of an integer auxiliary array', range_(key='station')))
    out.append(sel_('range on an integer axis', range_(), dtype='int32'))
    out.append(sel_('range by the name of a parent class', range_(key='yaxis')))

    def both(ctx, A, vals, n):
        a, b, c, d = (SymReal(ctx.fresh(x, R)) for x in 'abcd')
        i, j = ctx.int('i', 0), ctx.int('j', 0)
        return {'lat': (a, b), 'n_weights': (c, d), 'i_lat': (i, j)}, lambda p: z3.And(inrange(vals, a, b, p), z3.Not(inrange(A.auxarrays['weights'], c, d, p)), p >= i.z, p < j.z), [], {}
    out.append(sel_('several requests: their intersection', both))

    def others(ctx, A, vals, n):
        a, b = (SymReal(ctx.fresh(x, R)) for x in 'ab')
        return {'zz': 3, 'lat': (a, b), 'i_qq': (1, 2)}, lambda p: inrange(vals, a, b, p), ['zz', 'i_qq'], dict(ignore_mismatch=True)
    out.append(sel_('requests for other axes are left alone', others))

    def equal(ctx, A, vals, n, pre='', neg=False):
        v = ctx.int('v')
        eq = lambda p: zb(vals.at(mk_int(p)) == v)
        return {pre + 'lat': v}, (lambda p: z3.Not(eq(p))) if neg else eq, [], {}
    out.append(sel_('one value on an integer axis: equal coordinates', equal, dtype='int32'))
    out.append(sel_('complement of one value on an integer axis', lambda *a: equal(*a, pre='n_', neg=True), dtype='int32'))

    def eqlist(ctx, A, vals, n, pre='l_', neg=False):
        v = [ctx.int('v%d' % i) for i in range(3)]
        w = lambda p: z3.Or(*[zb(vals.at(mk_int(p)) == x) for x in v])
        return {pre + 'lat': v}, (lambda p: z3.Not(w(p))) if neg else w, [], {}
    out.append(sel_('three values on an integer axis: equal coordinates', eqlist, dtype='int32'))
    out.append(sel_('complement of three values on an integer axis', lambda *a: eqlist(*a, pre='nl_', neg=True), dtype='int32'))

    # positions
    def index(ctx, A, vals, n, pre='i_', neg=False):
        i = ctx.int('i', mk_int(-n.z), n)
        w = lambda p: z3.Or(p == i.z, p == i.z + n.z)
        return {pre + 'lat': i}, (lambda p: z3.Not(w(p))) if neg else w, [], {}
    out.append(sel_('one position', index))
    out.append(sel_('complement of one position', lambda *a: index(*a, pre='ni_', neg=True)))

    def pslice(ctx, A, vals, n, step=None, neg=False):
        i, j = ctx.int('i'), ctx.int('j')
        norm = lambda x: z3.If(x < 0, z3.If(x + n.z < 0, 0, x + n.z), z3.If(x > n.z, n.z, x))
        a, b = norm(i.z), norm(j.z)
        w = lambda p: z3.And(p >= a, p < b, (p - a) % (step or 1) == 0)
        return {('ni_' if neg else 'i_') + 'lat': (i, j) if step is None else (i, j, step)}, (lambda p: z3.Not(w(p))) if neg else w, [], {}
    out.append(sel_('range of positions', pslice))
    out.append(sel_('complement of a range of positions', lambda *a: pslice(*a, neg=True)))
    out.append(sel_('every second position of a range', lambda *a: pslice(*a, step=2)))
    out.append(sel_('every third position of a range', lambda *a: pslice(*a, step=3)))

    def plist(ctx, A, vals, n, count=2, pre='li_', neg=False):
        i = [ctx.int('i%d' % k, mk_int(-n.z), n) for k in range(count)]
        w = lambda p: z3.Or(*[z3.Or(p == x.z, p == x.z + n.z) for x in i])
        return {pre + 'lat': i}, (lambda p: z3.Not(w(p))) if neg else w, [], {}
    out.append(sel_('list of two positions', plist))
    out.append(sel_('list of four positions', lambda *a: plist(*a, count=4, pre='i_')))
    out.append(sel_('complement of a list of positions', lambda *a: plist(*a, count=3, pre='nli_', neg=True)))

    def parr(ctx, A, vals, n):
        k = ctx.int('m', 1)
        x = index_arr('pick', k, 0, n)
        mem = ctx.func('picked', I, B)
        at = ctx.func('pickedat', I, I)
        ctx.universal(lambda t: z3.Implies(z3.And(t >= 0, t < k.z), mem(elem(x, t))))
        ctx.universal(lambda p: z3.Implies(z3.And(p >= 0, p < n.z, mem(p)), z3.And(at(p) >= 0, at(p) < k.z, elem(x, at(p)) == p)))

        def w(p):
            ctx.term(p)
            ctx.term(at(p))
            for t in list(ctx.pool):
                pass
            return mem(p)
        return {'li_lat': x}, w, [], {}
    out.append(sel_('array of any number of positions', parr))

    # nearest
    out.append(nearest_('one value: the nearest coordinate'))
    out.append(nearest_('one value of an auxiliary array', key='weights'))
    out.append(nearest_('complement of one value', neg=True, pre='n_'))
    out.append(nearest_('list of two values: the nearest of each', pre='l_', count=2))
    out.append(nearest_('list of values of an auxiliary array', pre='l_', count=2, key='weights'))
    out.append(nearest_('list of values, by a name that contains an underscore', pre='l_', count=2, key='my_row'))
    out.append(nearest_('complement of a list of values', pre='nl_', neg=True, count=2))

    def unknown(repo, rep):
        L, m = axis_module(repo)

        def scn(ctx):
            n = ctx.int('n', 1)
            a = make(m.Lat, n, reals(ctx, 'coord', n), {}, {}, name='north')
            for kw in ({'zz': (0., 1.)}, {'i_zz': (0, 1)}, {'l_zz': [1.]}):
                raised = False
                try:
                    a.get_slice(dict(kw))
                except Exception:
                    raised = True
                ctx.oblige('a request for another axis raises (%s)' % list(kw)[0], z3.BoolVal(raised))
        verify_py(rep, 'axis.Axis.get_slice (unknown axis)', scn)
    out.append(('get_slice unknown', unknown))
    return out


# ------------------------------------------------------------------------------------------------ V13
def new_axis(ctx, m, n, cls='Lat', what='', extra=(), **kw):
    aux = dict(weights=reals(ctx, 'w' + what, n, nan=True), station=ints(ctx, 'station' + what, n))
    if cls == 'Hybrid':
        aux = dict(A=reals(ctx, 'A' + what, n), B=reals(ctx, 'B' + what, n))
    aux.update(extra)
    return make(getattr(m, cls), n, reals(ctx, 'coord' + what, n), aux, dict(units_='x', year=1999), **kw)


def same_rows(ctx, r, pos, a, what):
    """point t of r is point pos[t] of a: its coordinate and every auxiliary value"""
    ctx.oblige('%s: the class is kept' % what, z3.BoolVal(type(r) is type(a)))
    ctx.oblige('%s: the name and the attributes are kept' % what, z3.BoolVal(r.name == a.name and r.atts == a.atts))
    ctx.oblige('%s: the auxiliary attributes are kept' % what, z3.BoolVal(r.auxatts == a.auxatts))
    ctx.oblige('%s: the auxiliary arrays are kept' % what, z3.BoolVal(sorted(r.auxarrays) == sorted(a.auxarrays)))
    ctx.oblige('%s: as many points as positions' % what, z3.And(*[zi(sh_len(x)) == zi(pos.shape_[0]) for x in [r.values] + list(r.auxarrays.values())]))
    with ctx.each('t', pos.shape_[0]) as t:
        p = elem(pos, t)
        ctx.term(p)
        ctx.oblige('%s: coordinates are those of the positions' % what, same(r.values.at(t), a.values.at(mk_int(p))))
        for k in a.auxarrays:
            ctx.oblige('%s: auxiliary array %s stays with its coordinates' % (what, k), same(r.auxarrays[k].at(t), a.auxarrays[k].at(mk_int(p))))


def aux():
    out = []

    def sl(name, build, cls='Lat'):
        def run(repo, rep):
            L, m = axis_module(repo)

            def scn(ctx):
                n = ctx.int('n', 1)
                a = new_axis(ctx, m, n, cls, atts=dict(long_name='q'), name='north')
                S = build(ctx, n)
                pos = NPX.array(NPX.arange(n)[S], ndmin=1)
                same_rows(ctx, a._getitem_asvar(S), pos, a, 'selection')
            verify_py(rep, 'axis.%s._getitem_asvar (%s)' % (cls, name), scn)
        return ('selection of an axis: %s, %s' % (name, cls), run)
    slices = [('slice', lambda ctx, n: slice(ctx.int('i'), ctx.int('j'))), ('slice with step 3', lambda ctx, n: slice(ctx.int('i'), ctx.int('j'), 3)),
              ('open slice', lambda ctx, n: slice(ctx.int('i'), None)), ('whole', lambda ctx, n: slice(None)), ('all reversed', lambda ctx, n: slice(None, None, -1)),
              ('slice backwards', lambda ctx, n: slice(ctx.int('i'), ctx.int('j'), -1)), ('slice backwards with step 2', lambda ctx, n: slice(ctx.int('i'), ctx.int('j'), -2)),
              ('slice of any step', lambda ctx, n: slice(ctx.int('i'), ctx.int('j'), ctx.int('d', 1))),
              ('one position', lambda ctx, n: ctx.int('i', mk_int(-n.z), n)),
              ('positions in any order, repeated', lambda ctx, n: index_arr('pick', ctx.int('k', 0), 0, n)),
              ('positions counted from either end', lambda ctx, n: index_arr('pick', ctx.int('k', 0), mk_int(-n.z), n)),
              ('mask', lambda ctx, n: (lambda f: SymArr((n,), lambda idx: mk_bool(f(zi(idx[0]))), 'bool'))(ctx.func('mask', I, B)))]
    for nm, b in slices:
        for cls in ('Lat', 'Hybrid'):
            out.append(sl(nm, b, cls))

    def sort_(cls, reverse):
        def run(repo, rep):
            L, m = axis_module(repo)

            def scn(ctx):
                n = ctx.int('n', 1)
                a = new_axis(ctx, m, n, cls, atts=dict(long_name='q'), name='north')
                r = a.sorted() if reverse is None else a.sorted(reverse=reverse)
                S = a.asked
                ctx.oblige('sorted: positions are given', z3.BoolVal(isinstance(S, SymArr) and S.ndim == 1))
                ctx.oblige('sorted: as many as there are points', zi(S.shape_[0]) == n.z)
                down = reverse if reverse is not None else cls in ('Hybrid', 'Pres', 'ZAxis')
                with ctx.each('p', n) as p, ctx.each('q', n) as q:
                    i, j = elem(S, p), elem(S, q)
                    x, y = a.values.at(mk_int(i)), a.values.at(mk_int(j))
                    ctx.oblige('sorted: in order', z3.Implies(p.z <= q.z, zb(y <= x) if down else zb(x <= y)))
                    ctx.oblige('sorted: on the axis', z3.And(i >= 0, i < n.z))
                    ctx.oblige('sorted: no point twice', z3.Implies(p.z != q.z, i != j))
                    # (every point, then, occurs)
                    t = ctx.sorters[-1].occurs(p)
                    t = n.z - 1 - t if down else t
                    ctx.oblige('sorted: every point is kept', z3.And(t >= 0, t < n.z, elem(S, t) == p.z))
                same_rows(ctx, r, S, a, 'sorted')
            verify_py(rep, 'axis.%s.sorted (%s)' % (cls, reverse), scn)
        return ('sorting of an axis: %s %s' % (cls, reverse), run)
    for cls in ('Lat', 'Hybrid', 'Pres'):
        for rev in (None, True, False):
            out.append(sort_(cls, rev))

    def rename(cls):
        def run(repo, rep):
            L, m = axis_module(repo)

            def scn(ctx):
                n = ctx.int('n', 1)
                a = new_axis(ctx, m, n, cls, atts=dict(long_name='q'), name='north')
                r = a.rename('other')
                ctx.oblige('renamed', z3.BoolVal(r.name == 'other' and a.name == 'north'))
                r.name = 'north'
                same_rows(ctx, r, NPX.arange(n), a, 'renamed')
            verify_py(rep, 'axis.%s.rename' % cls, scn)
        return ('renaming of an axis: %s' % cls, run)
    out += [rename(c) for c in ('Lat', 'Hybrid', 'NamedAxis')]

    def join(name, parts, atts=((1999, 1999, 1999), 'x')):
        def run(repo, rep):
            L, m = axis_module(repo, extra=dict(TOOLS))

            def scn(ctx):
                segs = []
                for j, (cls, left_out, year) in enumerate(parts):
                    n = ctx.int('n%d' % j, 1)
                    a = new_axis(ctx, m, n, cls, str(j), name='north', atts=dict(long_name='q', only=j, common=3))
                    for k in left_out:
                        del a.auxarrays[k]
                    a.auxatts['year'] = year
                    if j:
                        a.atts['extra'] = 1
                    segs.append(a)
                r = m.concat(segs)
                kinds = [getattr(m, p[0]) for p in parts]
                parent = [k for k in kinds if all(issubclass(o, k) for o in kinds)][0]
                ctx.oblige('joined: the common class', z3.BoolVal(type(r) is parent))
                ctx.oblige('joined: the name', z3.BoolVal(r.name == 'north'))
                ctx.oblige('joined: exactly the common attributes', z3.BoolVal(r.atts == dict(long_name='q', common=3)))
                years = {p[2] for p in parts}
                ctx.oblige('joined: exactly the common auxiliary attributes', z3.BoolVal(r.auxatts == dict(dict(units_='x'), **(dict(year=years.pop()) if len(years) == 1 else {}))))
                keys = set(segs[0].auxarrays)
                for a in segs[1:]:
                    keys &= set(a.auxarrays)
                ctx.oblige('joined: the auxiliary arrays of all segments', z3.BoolVal(set(r.auxarrays) >= keys))
                tot = sum(a.values.shape_[0] for a in segs)
                ctx.oblige('joined: as many points as the segments have', z3.And(*[zi(sh_len(x)) == zi(tot) for x in [r.values] + list(r.auxarrays.values())]))
                start = 0
                for j, a in enumerate(segs):
                    with ctx.each('t', a.values.shape_[0]) as t:
                        p = mk_int(zi(start) + t.z)
                        ctx.oblige('joined: coordinates of segment %d' % j, same(r.values.at(p), a.values.at(t)))
                        for k in keys:
                            ctx.oblige('joined: auxiliary array %s of segment %d' % (k, j), same(r.auxarrays[k].at(p), a.auxarrays[k].at(t)))
                    start = start + a.values.shape_[0]
            verify_py(rep, 'axis.concat (%s)' % name, scn)
        return ('joining axes: %s' % name, run)
    out.append(join('two', [('Lat', '', 1999), ('Lat', '', 1999)]))
    out.append(join('three', [('Lat', '', 1999), ('Lat', '', 1999), ('Lat', '', 1999)]))
    out.append(join('hybrid', [('Hybrid', '', 1999), ('Hybrid', '', 1999)]))
    out.append(join('some auxiliary arrays missing', [('Pres', '', 1999), ('Pres', ['station'], 1999), ('Pres', [], 1998)]))
    out.append(join('some auxiliary arrays missing in the first', [('Pres', ['weights'], 1999), ('Pres', [], 1999), ('Pres', ['weights'], 1999)]))
    out.append(join('a class and its parent', [('Pres', '', 1999), ('ZAxis', '', 2000)]))
    out.append(join('a parent and its class', [('ZAxis', '', 2000), ('Pres', '', 1999), ('Pres', '', 1999)]))

    def one(repo, rep):
        L, m = axis_module(repo, extra=dict(TOOLS))

        def scn(ctx):
            n = ctx.int('n', 1)
            a = new_axis(ctx, m, n, 'Lat', atts=dict(long_name='q'), name='north')
            same_rows(ctx, m.concat([a]), NPX.arange(n), a, 'joined')
        verify_py(rep, 'axis.concat (one)', scn)
    out.append(('joining axes: one', one))
    return out


# ------------------------------------------------------------------------------------------------ V15
def arbitrary(ctx, m, cls, what, n, dtype='float64', keys=('weights', 'station'), atts=None, name='north', like=None):
    """an axis object with any coordinates (missing ones too), any auxiliary arrays, any tolerance; like: an exact copy of it"""
    if like is not None:
        cp = lambda x: SymArr(x.shape_, x.fn, x.dtype)
        return make(getattr(m, cls), n, cp(like.values), {k: cp(v) for k, v in like.auxarrays.items()}, dict(like.auxatts), name=like.name, rtol=like.rtol)
    vals = reals(ctx, 'coord' + what, n, nan=True) if dtype == 'float64' else ints(ctx, 'coord' + what, n)
    aux = {k: ints(ctx, k + what, n) if k == 'station' else reals(ctx, k + what, n, nan=True) for k in keys}
    r = ctx.fresh('rtol' + what, R)
    ctx.assume(r > 0)
    return make(getattr(m, cls), n, vals, aux, dict(atts or {}), name=name, rtol=SymReal(r))


def near(x, y, at, rt):
    return z3.Or(same(x, y), zb(abs(x - y) <= at + rt * NPX.maximum(abs(x), abs(y))))


def c_match(L, what, tol):
    """contract of _values_match and _aux_match: a symmetric function, true of exact copies, false of arrays that differ somewhere"""
    memo = []

    def match(a, b, *rt):
        ctx = pv.CUR
        a, b = NPX.asarray(a), NPX.asarray(b)
        if what == 'values':
            ctx.oblige('coordinates compared are equally many', zi(sh_len(a)) == zi(sh_len(b)))
            ctx.oblige('the tolerance is positive', zb(rt[0] > 0))
        r = ctx.fresh('match', B)
        for x, y, rt2, q in memo:
            if content(x) == content(a) and content(y) == content(b) or content(x) == content(b) and content(y) == content(a):
                ctx.assume(z3.Implies(z3.And(*[zb(s == t) for s, t in zip(rt, rt2)]), r == q))
        memo.append((a, b, rt, r))
        if content(a) == content(b):
            ctx.assume(r)
        ctx.assume(z3.Implies(r, zi(sh_len(a)) == zi(sh_len(b))))
        ctx.universal(lambda t: z3.Implies(z3.And(r, t >= 0, t < zi(sh_len(a))), tol(a, a.at(mk_int(t)), b.at(mk_int(t)), *rt)))
        return SymBool(r)
    return match


def c_value_match(L):
    return c_match(L, 'values', lambda a, x, y, rt: near(x, y, 1e-8, rt))


def c_aux_match(L):
    return c_match(L, 'aux', lambda a, x, y: near(x, y, 1e-8, 1e-5) if 'f' in (kind_of(x), kind_of(y)) else same(x, y))


def matching():
    """_values_match and _aux_match against these contracts"""
    out = []

    def one(f, d1, d2, c):
        def run(repo, rep):
            L, m = axis_module(repo)

            def scn(ctx):
                arr = lambda nm, n, d: reals(ctx, nm, n, nan=True) if d == 'float64' else ints(ctx, nm, n) if d == 'int32' else (lambda g: SymArr((n,), lambda idx: mk_bool(g(zi(idx[0]))), 'bool'))(ctx.func(nm, I, B))
                n = ctx.int('n', 1)
                nb = n if f == '_values_match' or c else ctx.int('nb', 1)
                a = arr('a', n, d1)
                b = arr('b', nb, d2) if not c else SymArr(a.shape_, a.fn, a.dtype)
                rt = ()
                if f == '_values_match':
                    r = ctx.fresh('rtol', R)
                    ctx.assume(r > 0)
                    rt = (SymReal(r),)
                F = getattr(m, f)
                r = zb(F(a, b, *rt))
                if c:
                    ctx.oblige('an array matches an exact copy', r)
                    return
                q = zb(F(b, a, *rt))
                ctx.oblige('matching is symmetric', r == q)
                ctx.oblige('arrays that match are equally long', z3.Implies(r, zi(n) == zi(nb)))
                with ctx.each('t', n) as t:
                    x, y = a.at(t), b.at(t)
                    ctx.oblige('elements of arrays that match are close', z3.Implies(r, near(x, y, 1e-8, rt[0] if rt else 1e-5) if rt or 'float64' in (d1, d2) else same(x, y)))
                    if rt and d1 == d2 == 'float64':
                        with ctx.each('k', mk_int(n.z - 1)) as k:
                            for mask in list(ctx.masks):
                                ctx.term(mask.occurs(k))
                            for v in (a, b):
                                d = abs(v.at(mk_int(k.z + 1)) - v.at(k))
                                for _, low in ctx.contents.get('min', ()):
                                    u, w = rt[0].v, (toreal(low), toreal(d))
                                    ctx.assume(z3.Implies(w[0] <= w[1], u * w[0] <= u * w[1]))      # (u > 0; lemma 'multiplication is monotone')
                                ctx.oblige('elements of arrays that match are closer than neighbours are', z3.Implies(z3.And(r, zb(d > 0)), z3.Or(same(x, y), zb(abs(x - y) <= NPX.maximum(rt[0] * d, rt[0] * NPX.maximum(abs(x), abs(y)))))))
            verify_py(rep, 'axis.%s (%s, %s%s)' % (f, d1, d2, ', a copy' if c else ''), scn)
        return ('%s %s %s %s' % (f, d1, d2, c), run)
    for f in ('_values_match', '_aux_match'):
        for d in ('float64', 'int32') + (('bool',) if f == '_aux_match' else ()):
            out += [one(f, d, d, True), one(f, d, d, False)]
        out += [one(f, 'float64', 'int32', False)]
    return out


def equality():
    out = matching()
    true = lambda x: zb(x) if isinstance(x, SymBool) else z3.BoolVal(bool(x))

    def copies(cls, keys=('weights', 'station'), dtype='float64'):
        def run(repo, rep):
            L, m = axis_module(repo)

            def scn(ctx):
                m._values_match, m._aux_match = c_value_match(L), c_aux_match(L)
                n = ctx.int('n', 1)
                a = arbitrary(ctx, m, cls, '', n, dtype, keys, dict(units_='x', year=1999))
                b = arbitrary(ctx, m, cls, '', n, dtype, keys, like=a)
                ctx.oblige('an axis equals itself', true(a == a))
                ctx.oblige('an axis equals an exact copy', true(a == b))
                ctx.oblige('the copy equals the axis', true(b == a))
                ctx.oblige('an axis does not differ from a copy', z3.Not(true(a != b)))
                ctx.oblige('alleq agrees', true(a.alleq(b, a)))
            verify_py(rep, 'axis: equality of %s and its copies (%s, %s)' % (cls, dtype, ','.join(keys)), scn)
        return ('equality of copies: %s %s %s' % (cls, dtype, ','.join(keys)), run)
    for cls in ('Axis', 'Lat', 'NamedAxis', 'Index'):
        out.append(copies(cls))
    out += [copies('Lat', dtype='int32'), copies('Pres', ()), copies('Hybrid', ('A', 'B')), copies('Hybrid', ('A', 'B', 'station')), copies('NonCoordinateAxis')]

    def pair(c1, c2, k1=('weights', 'station'), k2=('weights', 'station'), d1='float64', d2='float64', n1='north', n2='north', at1=None, at2=None, related=True, named=False, exact=False):
        nm = '%s and %s%s%s%s%s' % (c1, c2, '' if (k1, k2) == (('weights', 'station'),) * 2 else ', arrays %s | %s' % (','.join(k1), ','.join(k2)), '' if d1 == d2 == 'float64' else ', %s | %s' % (d1, d2),
                                    '' if n1 == n2 else ', other name', '' if at1 == at2 else ', other attributes')

        def run(repo, rep):
            L, m = axis_module(repo)

            def scn(ctx):
                m._values_match, m._aux_match = c_value_match(L), c_aux_match(L)
                na, nb = ctx.int('na', 1), ctx.int('nb', 1)
                a = arbitrary(ctx, m, c1, 'a', na, d1, k1, at1, n1)
                b = arbitrary(ctx, m, c2, 'b', nb, d2, k2, at2, n2)
                r, q = a == b, b == a
                ctx.oblige('equality is a truth value', z3.BoolVal(isinstance(r, (bool, SymBool)) and isinstance(q, (bool, SymBool))))
                r, q = true(r), true(q)
                ctx.oblige('equality is symmetric', r == q)
                ctx.oblige('!= is the opposite of ==', true(a != b) == z3.Not(r))
                ctx.oblige('alleq agrees with ==', true(a.alleq(b)) == r)
                if not related or set(k1) != set(k2) or (at1 or {}) != (at2 or {}) and not exact or named and n1 != n2:
                    ctx.oblige('unlike axes are not equal', z3.Not(r))
                ctx.oblige('axes of different length are not equal', z3.Implies(r, zi(na) == zi(nb)))
                with ctx.each('t', na) as t:
                    x, y = a.values.at(t), b.values.at(t)
                    if not exact:
                        ctx.oblige('coordinates of equal axes are close', z3.Implies(r, near(x, y, 1e-8, 1e-5)))
                    for k in set(k1) & set(k2):
                        x, y = a.auxarrays[k].at(t), b.auxarrays[k].at(t)
                        ctx.oblige('auxiliary array %s of equal axes is close' % k, z3.Implies(r, same(x, y) if exact else near(x, y, 1e-8, 1e-5) if x.__class__ is SymReal else same(x, y)))
            verify_py(rep, 'axis: equality of %s' % nm, scn)
        return ('equality of %s' % nm, run)
    out += [pair('Lat', 'Lat'), pair('Lat', 'Lat', d1='int32', d2='int32'), pair('Lat', 'Lat', d2='int32'), pair('Lat', 'YAxis'), pair('Axis', 'Lat'), pair('Axis', 'Axis'),
            pair('Axis', 'Axis', n2='other', named=True), pair('Lat', 'Lat', n2='other'), pair('Lat', 'Lon', related=False), pair('Pres', 'Height', related=False), pair('Pres', 'Hybrid', related=False),
            pair('Lat', 'Lat', k2=('weights',)), pair('Lat', 'Lat', k1=(), k2=('station',)), pair('Lat', 'Lat', k1=(), k2=()), pair('Lat', 'YAxis', k2=('weights', 'other')),
            pair('Lat', 'Lat', at1=dict(year=1), at2=dict(year=2)), pair('Lat', 'Lat', at1=dict(year=1), at2=dict()), pair('Lat', 'Lat', at1=dict(year=1, q='x'), at2=dict(year=1, q='x')),
            pair('NamedAxis', 'NamedAxis'), pair('NamedAxis', 'NamedAxis', n2='other', named=True), pair('NamedAxis', 'Axis'), pair('NamedAxis', 'DummyAxis'), pair('NamedAxis', 'Lat', related=False),
            pair('NamedAxis', 'DummyAxis', n2='other', named=True), pair('Hybrid', 'Hybrid', ('A', 'B'), ('A', 'B')), pair('Hybrid', 'ZAxis', ('A', 'B'), ('A', 'B')), pair('Hybrid', 'ZAxis', ('A', 'B'), ()),
            pair('NonCoordinateAxis', 'NonCoordinateAxis', exact=True), pair('NonCoordinateAxis', 'Axis', related=False, exact=True), pair('NonCoordinateAxis', 'NonCoordinateAxis', k2=('weights',), exact=True),
            pair('NonCoordinateAxis', 'Station', related=False, exact=True)]

    def other(repo, rep):
        L, m = axis_module(repo)

        def scn(ctx):
            n = ctx.int('n', 1)
            for cls in ('Axis', 'Lat', 'NamedAxis', 'Hybrid', 'NonCoordinateAxis'):
                a = arbitrary(ctx, m, cls, cls, n, keys=('A', 'B'))
                for o in (None, 3, 'lat', (1, 2), object()):
                    ctx.oblige('a %s does not equal something else' % cls, z3.And(z3.Not(true(a == o)), true(a != o), z3.Not(true(o == a))))
        verify_py(rep, 'axis: equality with something else', scn)
    out.append(('equality with something else', other))
    return out


TOOLS = {'pygeode.libhelper.load_lib': lambda *a, **k: None, 'pygeode.toolscore': object()}


def tasks(prop, tier='quick'):
    if prop == 'V14':
        return keyword()
    if prop == 'V15':
        return equality()
    if prop == 'V13':
        return aux()
    return []
