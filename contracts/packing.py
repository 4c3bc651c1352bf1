"""Contracts of the packing of variables (V11): PackVar, and var_newaxes with fill values, scale and offset.
nanmin and nanmax are callees known by contract (V08)."""
from absvar import *
import absvar


def meta(a, b, plotatts=True):
    copy_meta(a, b)
    b.atts = dict(a.atts)


def lift_(repo):
    return lifted(repo, lift=['pygeode.formats', 'pygeode.formats.cfmeta'], extra={'pygeode.var.copy_meta': meta},
                  pick={'pygeode.formats': ['PackVar'], 'pygeode.formats.cfmeta': ['var_newaxes']},
                  attrs={'pygeode.formats': {'Var': VarBase}, 'pygeode.formats.cfmeta': {'Var': VarBase}})


class Bounded(AbsVar):
    """a variable with its smallest and largest value (contract of nanmin and nanmax: every value that is not missing lies between
    them, some value is each of them; missing where all values are)"""
    def __init__(self, *a, **k):
        AbsVar.__init__(self, *a, **k)
        ctx = pv.CUR
        self.lo, self.hi, self.none = ctx.fresh('min', R), ctx.fresh('max', R), ctx.fresh('nodata', B)
        ctx.assume(z3.Implies(z3.Not(self.none), self.lo <= self.hi))

    def nanmin(self): return SymReal(self.lo, self.none)
    def nanmax(self): return SymReal(self.hi, self.none)

    def D(self, *p):
        w = AbsVar.D(self, *p)
        inr = z3.And(*[z3.And(zi(q) >= 0, zi(q) < zi(sh_len(a))) for q, a in zip(p, self.axes)])
        pv.CUR.assume(z3.Implies(z3.And(inr, z3.Not(isnanc(w))), z3.And(z3.Not(self.none), self.lo <= toreal(w), toreal(w) <= self.hi)))
        return w


def pack_(rank, dtype='float64'):
    def run(repo, rep):
        L = lift_(repo)
        Pack = L.get('pygeode.formats', 'PackVar')
        New = L.get('pygeode.formats.cfmeta', 'var_newaxes')

        def scn(ctx):
            x = Bounded('x', [AbsAxis('a%d' % j, ctx.int('n%d' % j, 1)) for j in range(rank)], dtype)
            x.atts = {'missing_value': 5., 'FillValue': 6., '_FillValue': 7., 'history': 'h'}
            p = Pack(x)
            ctx.oblige('the packed variable has the axes of the source', z3.BoolVal(list(p.axes) == list(x.axes)))
            ctx.oblige('the attributes describe the packing and no other fill value', z3.BoolVal(
                p.atts.get('scale_factor') is p.scale and p.atts.get('add_offset') is p.offset and p.atts.get('_FillValue') is p.fillvalue and 'missing_value' not in p.atts and 'FillValue' not in p.atts and p.dtype == np_.dtype('int16')))
            ctx.oblige('the attributes of the source are left alone', z3.BoolVal(sorted(x.atts) == ['FillValue', '_FillValue', 'history', 'missing_value']))
            view = new_view(L, p.axes, incr=False)
            r = p.getview(view, PBar())
            ctx.oblige('packed values are of the type announced', z3.BoolVal(isinstance(r, SymArr) and r.dtype == p.dtype and r.ndim == rank))
            for j, n in enumerate(view.shape):
                ctx.oblige('extent %d of the packed values is that of the view' % j, zi(r.shape_[j]) == zi(n))
            ind = [index_arr('b%d' % j, 1, 0, n) for j, n in enumerate(view.shape)]
            k = [mk_int(elem(i, 0)) for i in ind]
            for q in k:
                ctx.term(q)
            w = x.D(*[mk_int(elem(i, q)) for i, q in zip(view.integer_indices, k)])
            got = r.at(*k)
            ctx.oblige('the fill value is stored for missing values and for no other', (zi(got) == int(p.fillvalue)) == isnanc(w))
            scale, off = toreal(p.scale), toreal(p.offset)
            ctx.oblige('the scale is positive', scale > 0)
            # decoding what was stored
            s = AbsVar('stored', p.axes, 'int16')
            s.D = lambda *q: r.at(*q)
            s.axes = tuple(AbsAxis('s%d' % j, n) for j, n in enumerate(view.shape))
            s.shape = tuple(view.shape)
            d = New(s, s.axes, fillvalue=[p.atts['_FillValue']], scale=p.atts['scale_factor'], offset=p.atts['add_offset'])
            one = L.View(d.axes, force_slices=[Sel(i) for i in ind], force_integer_indices=ind)
            back = d.getview(one, PBar()).at(*[0] * rank)
            ctx.oblige('decoding gives missing values where there were and nowhere else', isnanc(back) == isnanc(w))
            quot = (toreal(w) - off) / scale
            ok = z3.Not(isnanc(w))
            ctx.oblige('the stored value is the scaled value, rounded', z3.Implies(ok, z3.And(2 * (z3.ToReal(zi(got)) - quot) <= 1, 2 * (z3.ToReal(zi(got)) - quot) >= -1)))
            ctx.oblige('decoding undoes the scaling', z3.Implies(ok, z3.And(quot * scale == toreal(w) - off, toreal(back) - toreal(w) == (z3.ToReal(zi(got)) - quot) * scale)))
            err = toreal(back) - toreal(w)
            ctx.oblige('decoding what was packed differs by at most half a quantisation step', z3.Implies(ok, z3.And(2 * err <= scale, -scale <= 2 * err)))
            ctx.oblige('a constant field is reproduced exactly', z3.Implies(z3.And(ok, x.lo == x.hi), err == 0))
            ctx.oblige('the quantisation step is a 65534th of the range of the values', z3.Implies(z3.And(ok, x.lo < x.hi), scale * 65534 == x.hi - x.lo))
        verify_py(rep, 'formats.PackVar and var_newaxes: packing and decoding (%s, %d axes)' % (dtype, rank), scn)
        rep.bounded = ['packing and decoding: number of axes as named in each obligation']
    return ('packing %s %d' % (dtype, rank), run)


def decode_(rank, dtype, nfill, scaled, shifted):
    def run(repo, rep):
        L = lift_(repo)
        New = L.get('pygeode.formats.cfmeta', 'var_newaxes')

        def scn(ctx):
            x = AbsVar('x', [AbsAxis('a%d' % j, ctx.int('n%d' % j, 1)) for j in range(rank)], dtype)
            new = [AbsAxis('b%d' % j, a.n) for j, a in enumerate(x.axes)]
            num = (lambda nm: SymReal(ctx.fresh(nm, R))) if x.dtype.kind == 'f' else (lambda nm: ctx.int(nm))
            fills = [num('fill%d' % j) for j in range(nfill)]
            scale = SymReal(ctx.fresh('scale', R)) if scaled else None
            off = SymReal(ctx.fresh('offset', R)) if shifted else None
            v = New(x, new, name='w', fillvalue=fills or None, scale=scale, offset=off, atts={'u': 1})
            ctx.oblige('the axes are those given', z3.BoolVal(len(v.axes) == rank and all(a is b for a, b in zip(v.axes, new))))
            ctx.oblige('the decoded type has missing values where they can occur', z3.BoolVal(np_.dtype(v.dtype).kind == 'f' if nfill or scaled or shifted else v.dtype == x.dtype))
            view = new_view(L, v.axes, incr=False)
            r = v.getview(view, PBar())

            def spec(p):
                w = x.D(*p)
                y = freal(w) if nfill or scaled or shifted else w
                if scaled:
                    y = y * scale
                if shifted:
                    y = y + off
                for f in fills:
                    y = ite(w == f, float('nan'), y)
                return y
            check_values(ctx, r, view, spec, 'decoded value')
        verify_py(rep, 'formats.cfmeta.var_newaxes (%s, %d axes, %d fill values%s%s)' % (dtype, rank, nfill, ', scale' * scaled, ', offset' * shifted), scn)
        rep.bounded = ['var_newaxes: number of axes and of fill values as named in each obligation']
    return ('decode %s %d %d %d%d' % (dtype, rank, nfill, scaled, shifted), run)


def tasks(prop, tier='quick'):
    if prop != 'V11':
        return []
    return [pack_(r, d) for r, d in ((1, 'float64'), (2, 'float64'), (2, 'float32'), (1, 'int32'))] + \
           [decode_(2, d, n, s, o) for d in ('int16', 'float64') for n in (0, 1, 2) for s in (0, 1) for o in (0, 1)] + [decode_(1, 'int32', 3, 1, 1), decode_(3, 'int32', 1, 1, 1)]
