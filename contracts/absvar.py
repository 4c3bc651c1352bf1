"""Abstract axes and variables: what the contracts of Axis, Var and View.get say, for use as callee contracts."""
import sys, os, warnings
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
warnings.simplefilter('ignore')
import z3
import pv
from pv import *


def elem(a, k):
    """element k of an index array, integer term"""
    return zi(a.at(mk_int(zi(k))))


class Sel:
    """what simplify returns: an index (slice or array) that selects the positions ind from any sequence containing them"""
    __pytype__ = slice

    def __init__(self, ind):
        self.ind = ind

    def __symsel__(self):
        return self.ind


def c_simplify(ind):
    return Sel(ind)


def c_expand(sl, n):
    """contract of expand (V01): the explicit positions, all of them on the axis"""
    ctx = pv.CUR
    if isinstance(sl, Sel):
        sl = sl.ind
        if getattr(sl, 'below', None) is not None and eq_dim(sl.below, n):
            return sl
    if isinstance(sl, (slice, SymSlice)):
        if sl.start is None and sl.stop is None and sl.step is None:
            r = NPX.arange(n, dtype='int32')
        else:
            a, b, d = slice_indices(sl, n)
            r = NPX.arange(a, b, d, dtype='int32')
            mul = zi(d)
        r.nonneg = True
        r.below = n
        return r
    if isinstance(sl, (int, SymInt, np_.integer)):
        z = zi(sl)
        ctx.oblige('expand is given a position on the axis', z3.And(z >= -zi(n), z < zi(n)))
        r = const_arr([mk_int(z3.If(z < 0, z + zi(n), z))], 'int32')
        r.incr = r.nonneg = True
        r.below = n
        return r
    if isinstance(sl, (list, tuple)):
        sl = NPX.asarray(sl)
    if not isinstance(sl, SymArr):
        raise Unsupported('expand of %r' % type(sl))
    nn = nonneg(sl)
    with ctx.each('k', sh_len(sl)) as k:
        v = elem(sl, k)
        ctx.oblige('expand is given positions on the axis', z3.And(v >= (0 if nn else -zi(n)), v < zi(n)))
    f = sl.fn
    r = SymArr(sl.shape_, (lambda idx: mk_int(zi(f(idx)))) if nn else (lambda idx: mk_int(z3.If(zi(f(idx)) < 0, zi(f(idx)) + zi(n), zi(f(idx))))), 'int32')
    r.incr = sl.incr and nn
    r.nonneg = True
    r.below = n
    return r


class Slicer:
    def __init__(self, axis):
        self.axis = axis

    def __getitem__(self, key):
        a = self.axis
        if isinstance(key, (tuple, list)) and len(key) == 1:
            key = key[0]
        if isinstance(key, (slice, SymSlice)) and key.start is None and key.stop is None and key.step is None:
            return a
        ind = c_expand(key, a.n)
        return a.sub(ind)


class AbsAxis:
    """an axis: n points of a root axis with distinct coordinates; contract of Axis"""
    name = 'axis'
    rtol = 1e-5
    auxarrays = {}
    auxatts = {}
    atts = {}
    plotatts = {}
    units = ''
    dtype = np_.dtype('float64')
    naxes = 1

    def D(self, p):
        return self.coord(p)

    def __init__(self, nm, n, root=None, pos=None):
        self.nm, self.n, self.root, self.posf = nm, n, root or self, pos
        self.name = nm
        if root is None:
            self.cf = pv.CUR.func('coord_' + nm, I, R)
            self.seen = []
        self.slice = Slicer(self)

    def pos(self, k):
        """position on the root axis of point k"""
        return zi(k) if self.posf is None else zi(self.posf(k))

    def sub(self, ind):
        r = type(self).__new__(type(self))
        AbsAxis.__init__(r, self.nm, ind.shape_[0], self.root, lambda k, p=self: p.pos(elem(ind, k)))
        r.parent, r.ind = self, ind
        return r

    def coord(self, k):
        """coordinate value; distinct points of the root have distinct coordinates"""
        p = z3.simplify(self.pos(k))
        root = self.root
        c = root.cf
        if not any(p.eq(q) for q in root.seen):
            for q in root.seen:
                pv.CUR.assume(z3.Implies(z3.And(p >= 0, p < zi(root.n), q >= 0, q < zi(root.n), p != q), c(p) != c(q)))
            root.seen.append(p)
        return SymReal(c(p))

    @property
    def values(self):
        if getattr(self, '_values', None) is None:
            self._values = SymArr((self.n,), lambda idx: self.coord(idx[0]), 'float64')
            self._values.flags.writeable = False
        return self._values

    def __symlen__(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    @property
    def axes(self):
        return (self,)

    def __eq__(self, o):
        """contract of axis equality (V15): same kind, length and coordinates"""
        if self is o:
            return True
        if not isinstance(o, AbsAxis) or self.root is not o.root:
            return False
        b = SymArr((self.n,), lambda idx: mk_bool(self.pos(idx[0]) == o.pos(idx[0])), 'bool')
        same_len = bool(mk_bool(zi(self.n) == zi(o.n)))
        if not same_len:
            return False
        return bool(quant(b, True))

    def __ne__(self, o):
        return not self == o

    __hash__ = object.__hash__

    def map_to(self, o):
        """contract of Axis.map_to (C04 with distinct coordinates, each requested value present): the positions on self"""
        ctx = pv.CUR
        if not isinstance(o, AbsAxis) or o.root is not self.root:
            return None
        for wit in getattr(ctx, 'witness', ()):
            w = wit(self, o) if self.posf is not None else None
            if w is not None:
                with ctx.each('k', o.n) as k:
                    at = w(k)
                    found = ctx.check(z3.And(at >= 0, at < zi(self.n), self.pos(at) == o.pos(k)))
                if found:
                    r = SymArr((o.n,), lambda idx: mk_int(w(idx[0])), 'int32')
                    r.nonneg = True
                    r.below = self.n
                    return r
        if self.posf is None:
            r = SymArr((o.n,), lambda idx: mk_int(o.pos(idx[0])), 'int32')
        else:
            # o is a selection of self: the position each of its points was taken from holds the requested coordinate
            chain, x = [], o
            while x is not self and x is not None:
                chain.append(getattr(x, 'ind', None))
                x = getattr(x, 'parent', None)
            if x is None:
                return self.map_some(o)

            def fn(idx):
                k = idx[0]
                for ind in chain:
                    k = mk_int(elem(ind, k))
                return k
            r = SymArr((o.n,), fn, 'int32')
        r.nonneg = True
        r.below = self.n
        return r

    def map_some(self, o):
        """o is not known to be a selection of self: the requested coordinates that occur on self, in order"""
        ctx = pv.CUR
        w, found = ctx.func('where', I, I), ctx.func('found', I, B)

        def at(k):
            k = zi(k)
            c = z3.And(k >= 0, k < zi(o.n), found(k))
            ctx.assume(z3.Implies(c, z3.And(w(k) >= 0, w(k) < zi(self.n), self.pos(w(k)) == o.pos(k))))
            return found(k)
        m = SymArr((o.n,), lambda idx: mk_bool(at(idx[0])), 'bool')
        tp = mask_positions(m)

        def fn(idx):
            k = tp.fn(idx)
            at(k)
            return mk_int(w(zi(k)))
        r = SymArr(tp.shape_, fn, 'int32')
        r.nonneg = True
        r.below = self.n
        return r

    def sorted(self, reverse=None):
        """contract of Axis.sorted (V13): the same points in the order asked for"""
        ctx = pv.CUR
        perm = index_arr('perm', self.n, 0, self.n)
        inv = ctx.func('inverse', I, I)
        f = perm.fn
        ctx.universal(lambda t: z3.Implies(z3.And(t >= 0, t < zi(self.n)), z3.And(inv(t) >= 0, inv(t) < zi(self.n), zi(f((mk_int(inv(t)),))) == t, inv(zi(f((mk_int(t),)))) == t)))
        r = self.sub(perm)
        r.order = {None: 'natural', False: 'increasing', True: 'decreasing'}[reverse]
        return r

    def rename(self, nm):
        r = type(self).__new__(type(self))
        r.__dict__.update(self.__dict__)
        r.parent, r.ind = self, NPX.arange(self.n)
        r.name = nm
        return r

    def has_alias(self, nm):
        return self.name == nm

    def isparentof(self, o):
        return isinstance(o, AbsAxis) and o.root is self.root

    def __repr__(self):
        return 'AbsAxis(%s)' % self.nm


class PBar:
    def update(self, *a): pass
    def part(self, *a): return self
    def subset(self, *a): return self
    def __getattr__(self, nm):
        if nm.startswith('__'):
            raise AttributeError(nm)
        return lambda *a, **k: self


class VarBase:
    """contract of Var.__init__ and of the look-up of axes"""
    name = ''
    atts = {}
    plotatts = {}
    units = ''

    def __init__(self, axes, dtype=None, name=None, values=None, atts=None, plotatts=None):
        if values is not None:
            self.values = NPX.asarray(values)
            dtype = dtype or self.values.dtype
        self.axes = tuple(axes)
        self.naxes = len(self.axes)
        self.shape = tuple(sh_len(a) for a in self.axes)
        self.size = prod(self.shape)
        self.dtype = np_.dtype(dtype)
        self.atts = dict(atts or {})
        self.plotatts = dict(plotatts or {})
        if name is not None:
            self.name = name

    def whichaxis(self, ax):
        if isinstance(ax, (int, np_.integer)):
            return int(ax)
        for k, a in enumerate(self.axes):
            if a is ax or isinstance(ax, str) and a.name == ax or isinstance(ax, type) and isinstance(a, ax):
                return k
        for k, a in enumerate(self.axes):
            if isinstance(ax, AbsAxis) and a == ax:
                return k
        raise KeyError('axis %r' % (ax,))

    def hasaxis(self, ax):
        try:
            self.whichaxis(ax)
            return True
        except KeyError:
            return False

    def getaxis(self, ax):
        return self.axes[self.whichaxis(ax)]

    def get(self, pbar=None, **kw):
        """contract of Var.get without a selection (V03): the values of the whole variable, as its getview gives them"""
        if kw:
            raise Unsupported('Var.get with a selection')
        ind = []
        for a in self.axes:
            i = NPX.arange(a.n, dtype='int32')
            i.nonneg, i.below = True, a.n
            ind.append(i)
        view = Lifted.current.View(self.axes, force_slices=[Sel(i) for i in ind], force_integer_indices=ind)
        self.whole = view
        return self.getview(view, pbar=pbar)


class AbsVar(VarBase):
    """a source variable: any function of its positions, missing values included"""
    def __init__(self, nm, axes, dtype='float64', nan=True):
        VarBase.__init__(self, axes, dtype, name=nm)
        r = len(self.axes)
        if np_.dtype(dtype).kind == 'f':
            self.f = pv.CUR.func(nm, *([I] * r + [R])) if r else None
            self.g = pv.CUR.func(nm + '_nan', *([I] * r + [B])) if nan and r else None
            self.c = pv.CUR.fresh(nm, R), pv.CUR.fresh(nm + '_nan', B)
        else:
            self.f = pv.CUR.func(nm, *([I] * r + [I]))
            self.g = None

    def D(self, *p):
        p = [zi(x) for x in p]
        if not p:
            return SymReal(*self.c)
        if self.dtype.kind != 'f':
            return mk_int(self.f(*p))
        return SymReal(self.f(*p), self.g(*p) if self.g is not None else FALSE)

    def replace_axes(self, newaxes):
        """contract of Var.replace_axes (V04): the same values on the axes given, of the same lengths"""
        r = type(self).__new__(type(self))
        r.__dict__.update(self.__dict__)
        for a, b in zip(self.axes, newaxes):
            pv.CUR.oblige('replaced axes are as long as the new ones', zi(sh_len(a)) == zi(sh_len(b)))
        r.axes = tuple(newaxes)
        return r


def copy_meta(a, b):
    for k in ('name', 'units'):
        if hasattr(a, k):
            setattr(b, k, getattr(a, k))


def c_get(self, var, pbar=False, strict=True, conform=True):
    """contract of View.get (V03): the element stored at each selected position, in the order of the view's axes"""
    ctx = pv.CUR
    assert not (strict is False and conform is True)
    order = []
    newview = self.map_to(var.axes, strict=strict, order=order)
    inds = newview.integer_indices
    fn = lambda idx: var.D(*[mk_int(elem(inds[j], idx[j])) for j in range(len(inds))])
    for j, (ind, a) in enumerate(zip(inds, var.axes)):
        with ctx.each('k', sh_len(ind)) as k:
            v = elem(ind, k)
            ctx.oblige('positions read lie on axis %d of %s' % (j, var.name), z3.And(v >= 0, v < zi(sh_len(a))))
    r = SymArr(newview.shape, fn, var.dtype)
    if conform:
        perm = [o for o in order if o > -1]
        if sorted(perm) != list(range(len(var.axes))):
            raise Unsupported('View.get where the view lacks an axis of the variable')
        shape = [s if o > -1 else 1 for s, o in zip(self.shape, order)]
        for j, o in enumerate(order):
            if o > -1 and not eq_dim(self.shape[j], newview.shape[o]):
                ctx.oblige('the mapped selection is as long as the selection', zi(self.shape[j]) == zi(newview.shape[o]))
        where = [j for j, o in enumerate(order) if o > -1]
        f0 = r.fn
        r = SymArr(shape, lambda idx: f0(tuple(idx[[j for j in where if order[j] == i][0]] for i in range(len(var.axes)))), var.dtype)
    r.flags.writeable = False
    return r


def c_loop_contiguous(self):
    """contract of View.loop_contiguous (V01): the product, over the axes, of pieces that cut the axis at cut(0)=0 < cut(1) < ... ;
    the positions selected by a piece follow one another.  owner(p): the piece that position p of the axis belongs to."""
    ctx = pv.CUR
    rank = len(self.integer_indices)
    ax = []
    for j, ind in enumerate(self.integer_indices):
        n = zi(sh_len(ind))
        ctx.oblige('loop_contiguous is given some positions', n >= 1)
        m, cut, owner = ctx.fresh('pieces'), ctx.func('cut', I, I), ctx.func('owner', I, I)
        ctx.assume(z3.And(m >= 1, cut(z3.IntVal(0)) == 0, cut(m) == n))
        ctx.universal(lambda p, n=n, m=m, cut=cut, owner=owner: z3.Implies(z3.And(p >= 0, p < n), z3.And(owner(p) >= 0, owner(p) < m, cut(owner(p)) <= p, p < cut(owner(p) + 1))))
        ax.append((ind, n, m, cut, owner))
    total = ctx.fresh('npieces')
    piece_axis = [ctx.func('piece%d' % j, I, I) for j in range(rank)]
    number = ctx.func('number', *([I] * (rank + 1)))       # number of the piece with given piece numbers along the axes
    ctx.assume(total >= 1)

    def get(k):
        k = zi(k)
        outsl, start, count = [], [], []
        ok = z3.And(k >= 0, k < total)
        ps = [f(k) for f in piece_axis]
        ctx.assume(z3.Implies(ok, number(*ps) == k))
        for (ind, n, m, cut, owner), p in zip(ax, ps):
            a, b = cut(p), cut(p + 1)
            ctx.assume(z3.Implies(ok, z3.And(p >= 0, p < m, a >= 0, a < b, b <= n)))
            i0 = elem(ind, a)
            ctx.universal(lambda t, a=a, b=b, i0=i0, ind=ind, ok=ok, owner=owner, p=p: z3.Implies(z3.And(ok, t >= a, t < b), z3.And(elem(ind, t) == i0 + t - a, owner(t) == p)))
            ctx.term(a)
            ctx.term(b - 1)
            outsl.append(SymSlice(mk_int(a), mk_int(b), None))
            start.append(mk_int(i0))
            count.append(mk_int(b - a))
        return tuple(outsl), start, count
    s = SymSeq(SymInt(total), get)

    def place(pos):
        """number of the piece that covers the position"""
        ps = []
        for (ind, n, m, cut, owner), p in zip(ax, pos):
            ctx.term(p)
            ps.append(owner(zi(p)))
        q = number(*ps)
        inr = z3.And(*[z3.And(p >= 0, p < m) for p, (_, _, m, _, _) in zip(ps, ax)])
        ctx.assume(z3.Implies(inr, z3.And(q >= 0, q < total, *[f(q) == p for f, p in zip(piece_axis, ps)])))
        return q
    s.place = place
    s.inblock = lambda k, pos: z3.And(*[z3.And(cut(f(k)) <= zi(p), zi(p) < cut(f(k) + 1)) for f, (_, _, _, cut, _), p in zip(piece_axis, ax, pos)])
    s.axisblock = lambda k, pos: [(owner(zi(p)) == f(k)) == z3.And(cut(f(k)) <= zi(p), zi(p) < cut(f(k) + 1)) for f, (_, _, _, cut, owner), p in zip(piece_axis, ax, pos)]
    s.numbered = lambda k, pos: (place(pos) == k) == z3.And(*[owner(zi(p)) == f(k) for f, (_, _, _, cut, owner), p in zip(piece_axis, ax, pos)])
    s.blockpos = lambda k, pos: z3.And(*[elem(ind, p) == elem(ind, cut(f(k))) + zi(p) - cut(f(k)) for f, (ind, _, _, cut, _), p in zip(piece_axis, ax, pos)])
    self.pieces = s
    return s


def contracts(extra=None):
    c = {'pygeode.var.combine_meta': lambda vs, o: None, 'pygeode.progress.FakePBar': PBar, 'pygeode.progress.PBar': PBar, 'pygeode.var.Var': VarBase, 'pygeode.var.copy_meta': copy_meta,
         'pygeode.axis.Axis': AbsAxis, 'pygeode.tools.need_full_axes': None}
    c.update(extra or {})
    return c


def lifted(repo, lift=(), extra=None, loops=None, real_get=False, attrs=None, pick=None):
    """pygeode.view lifted with expand and simplify under their contracts; View.get too unless it is itself under contract here"""
    L = Lifted(repo, contracts=contracts(extra), lift=('pygeode.view',) + tuple(lift), loops=loops, attrs=attrs, pick=pick)
    L.activate()
    mod = L.module('pygeode.view')
    mod.expand, mod.simplify = c_expand, c_simplify
    if not real_get:
        mod.View.get = c_get
    L.View = mod.View
    return L


def by_coords(v, x, ind, k=None):
    """positions on the axes of x of the coordinates selected by ind (positions on the axes of v)"""
    pos = []
    for a in x.axes:
        if a.posf is not None:
            raise Unsupported('source axes must be whole axes here')
        j = [i for i, b in enumerate(v.axes) if isinstance(b, AbsAxis) and b.root is a]
        if len(j) != 1:
            raise Unsupported('axis %s occurs %d times' % (a.nm, len(j)))
        pos.append(mk_int(v.axes[j[0]].pos(ind[j[0]])))
    return pos


def new_view(L, axes, incr=True, nm='ind', empty=False):
    """an arbitrary view of the axes"""
    inds = []
    for j, a in enumerate(axes):
        n = pv.CUR.int('L%d' % j, 0 if empty else 1)
        ind = index_arr('%s%d' % (nm, j), n, 0, sh_len(a), increasing=incr)
        if incr:
            pv.CUR.assume(zi(n) <= zi(sh_len(a)))
        ind.below = sh_len(a)
        inds.append(ind)
    return L.View(axes, force_slices=[Sel(i) for i in inds], force_integer_indices=inds)


def check_values(ctx, r, view, spec, what='value', hint=None, pre=None):
    """r has the shape of the view and holds spec(positions) everywhere"""
    ctx.oblige('%s: an array of the rank of the view' % what, z3.BoolVal(isinstance(r, SymArr) and r.ndim == len(view.shape)))
    if not isinstance(r, SymArr) or r.ndim != len(view.shape):
        return
    for j, (a, b) in enumerate(zip(r.shape_, view.shape)):
        ctx.oblige('%s: extent %d is that of the view' % (what, j), zi(a) == zi(b))
    k = [ctx.int('k%d' % j, 0, n) for j, n in enumerate(view.shape)]
    for x in k:
        ctx.term(x)
    if pre is not None:
        pre(k)
    got = r.at(*k)
    if hint is not None:
        hint(k)
    want = spec([mk_int(elem(i, x)) for i, x in zip(view.integer_indices, k)])
    ctx.oblige('%s: every element is as specified' % what, same(got, want))
