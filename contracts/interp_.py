"""C06: contract of interpgsl (interp.c).  Every array is interpolated from exactly its finite samples, in increasing order of the
coordinate; targets outside get the end value plus slope times distance; too few samples give a missing value; nothing outside the
arrays is read or written.  The GSL functions are contracts: init accepts exactly strictly increasing coordinates, eval returns the
interpolant through the samples it was initialised with (and passes through the end samples)."""
import os
import z3
from core import *
from cv import *
from tools import inr, B31, add_hook

BV = z3.BoolVal


def outer_var(u, fname):
    """the variable counting the arrays: compared with the first parameter in the condition of an outermost loop"""
    d = u.fns[fname]
    par = [c for c in d['inner'] if c['kind'] == 'ParmVarDecl'][0]['id']
    body = [c for c in d['inner'] if c['kind'] == 'CompoundStmt'][0]

    def refs(e, out):
        if e.get('kind') == 'DeclRefExpr':
            out.append(e['referencedDecl']['id'])
        for c in e.get('inner', ()):
            refs(c, out)
        return out

    def find(e):
        for s in e.get('inner', ()):
            cond = None
            if s.get('kind') == 'ForStmt':
                cond = s['inner'][2]
            elif s.get('kind') in ('WhileStmt',):
                cond = s['inner'][0]
            if cond and 'kind' in cond:
                r = refs(cond, [])
                if par in r and len(set(r)) == 2:
                    return [x for x in r if x != par][0]
            elif s.get('kind') == 'CompoundStmt':
                r = find(s)
                if r:
                    return r
    n = find(body)
    if n is None:
        raise Unsupported('the loop over the arrays is not recognised')
    return n


def check_interpgsl(u, rep, mode, xin_varies=None, xout_varies=None):
    content = mode != 'memory'
    nid = outer_var(u, 'interpgsl')
    N, NI, NO, lxin, lxout, omit, X, J, P, Q, F0, L0, ms = z3.Ints('narrays nxin nxout loop_xin loop_xout omit_nm X J P Q first last min_size')
    RI, RO = z3.Function('RI', I, I), z3.Function('RO', I, I)          # row starts: v*nxin, v*nxout
    CF, LV, FV = z3.Function('CF', I, I), z3.Function('LV', I, I), z3.Function('FV', I, I)   # valid samples before; last valid before; first valid after
    EV, EF = z3.Function('EV', I, R, R), z3.Function('EF', I, R, z3.BoolSort())
    MI, MD = z3.Bools('increasing decreasing')
    GH = [P, Q, F0, L0]

    def pre(st, ex):
        for n in (N, NI, NO):
            st.pc += [n >= 0, n < B31]
        st.pc += [RI(0) == 0, RO(0) == 0, ms >= 1, ms < B31, inr(X, 0, N), inr(J, 0, NO), inr(P, 0, NI), inr(Q, 0, NI), P < Q]
        st.pc += [RI(N) < B31, RO(N) < B31]
        for nm, v in (('loop_xin', lxin), ('loop_xout', lxout), ('omit_nm', omit)):
            st.pc += [v >= -B31, v < B31]
        for v, w in ((lxin, xin_varies), (lxout, xout_varies)):
            if w is not None:
                st.pc.append((v != 0) == BV(w))
        xi = ex.new_base(st, 'xin', 'double', z3.If(lxin != 0, RI(N), NI))
        yi = ex.new_base(st, 'yin', 'double', RI(N))
        xo = ex.new_base(st, 'xout', 'double', z3.If(lxout != 0, RO(N), NO))
        yo = ex.new_base(st, 'yout', 'double', RO(N))
        ty = ex.new_base(st, 'type', (('min_size', 'unsigned int'),), iv(1))
        st.pc.append(z3.Select(st.mem['type']['min_size'], 0) == ms)
        xa, ya, xt = st.mem['xin'], st.mem['yin'], st.mem['xout']
        XB, YB, TB, AD = z3.If(lxin != 0, RI(X), 0), RI(X), z3.If(lxout != 0, RO(X), 0), RO(X) + J
        x = lambda p: z3.Select(xa[1], XB + p)
        y = lambda p: z3.Select(ya[1], YB + p)
        val = lambda p: z3.And(z3.Select(xa[0], XB + p), z3.Select(ya[0], YB + p))
        G = st.ghost
        G.update(readonly=('xin', 'yin', 'xout', 'type'), globals={n: NULL for n in ('PyExc_MemoryError', 'PyExc_ValueError')}, x=x, y=y, val=val, AD=AD)
        st.pc += [CF(0) == 0, LV(0) == -1, FV(NI - 1) == NI]
        # first and last valid sample, if there are any
        st.pc.append(z3.Implies(CF(NI) > 0, z3.And(inr(F0, 0, NI), inr(L0, 0, NI), val(F0), val(L0), CF(F0) == 0, CF(L0) + 1 == CF(NI))))
        st.pc.append({'memory': BV(True), 'all': omit == 0, 'omit': z3.And(omit != 0, z3.Or(MI, MD))}[mode])

        def unfold(p):
            return z3.Implies(inr(p, 0, NI), z3.And(CF(p + 1) == CF(p) + z3.If(val(p), 1, 0), LV(p + 1) == z3.If(val(p), p, LV(p)), FV(p - 1) == z3.If(val(p), p, FV(p)), CF(p) >= 0, CF(p) <= p, CF(NI) <= NI))

        def mono(a, b):
            # counting is monotone (lemma); and the premise that the valid samples are strictly monotone
            return z3.Implies(z3.And(0 <= a, a < b, b <= NI), z3.And(CF(a) + z3.If(val(a), 1, 0) <= CF(b), CF(b) - CF(a) <= b - a,
                   z3.Implies(z3.And(b < NI, val(a), val(b)), z3.And(z3.Implies(MI, x(a) < x(b)), z3.Implies(MD, x(a) > x(b))))))

        def rows(v):
            r = []
            for A, k in ((RI, NI), (RO, NO)):
                r += [z3.Implies(inr(v, 0, N), z3.And(A(v + 1) == A(v) + k, A(v) >= 0, A(v) + k <= A(N))),
                      z3.Implies(z3.And(0 <= v, v < X), A(v) + k <= A(X)), z3.Implies(z3.And(X < v, v <= N), A(X) + k <= A(v))]
            return z3.And(*r)

        def facts(s, vs):
            done = s.ghost.get('known', frozenset())
            new = []
            for i in ex.intvars(s):
                v = s.env[i]
                if not (z3.is_const(v) and v.decl().name().startswith('h!')) or v.decl().name() in done:
                    continue
                done = done | {v.decl().name()}
                if i == nid:
                    s.pc.append(rows(v))
                elif content:
                    s.pc.append(unfold(v))
                    s.pc += [mono(v, g) for g in GH + [NI]] + [mono(g, v) for g in GH] + [mono(v + 1, g) for g in GH + [NI]]
                    s.pc += [mono(w, v) for w in new] + [mono(v, w) for w in new]
                    new.append(v)
                    if mode == 'omit':
                        s.pc += [unfold(LV(v)), unfold(FV(v)), mono(LV(v), v), mono(v, FV(v))]
            s.ghost = dict(s.ghost, known=done)
        st.pc += [rows(X)]
        if content:
            st.pc += [unfold(g) for g in GH] + [mono(a, b) for a in GH for b in GH + [NI] if a is not b]
        G['onhavoc'] = facts
        G['cur'] = lambda s: s.env[nid] == X

        def spec(s):
            t, tf = z3.Select(xt[1], TB + J), z3.Select(xt[0], TB + J)
            R_, Rf = z3.Select(s.mem['yout'][1], AD), z3.Select(s.mem['yout'][0], AD)
            up = x(F0) <= x(L0)
            lo, hi = z3.If(up, x(F0), x(L0)), z3.If(up, x(L0), x(F0))
            ylo, yhi = z3.If(up, y(F0), y(L0)), z3.If(up, y(L0), y(F0))
            db, da = G['db'], G['da']
            return z3.If(CF(NI) < ms, z3.Not(Rf), z3.Implies(tf, z3.If(t < lo, z3.And(Rf == db.fin, z3.Implies(Rf, R_ == ylo + db.v * (t - lo))),
                         z3.If(t > hi, z3.And(Rf == da.fin, z3.Implies(Rf, R_ == yhi + da.v * (t - hi))), z3.And(R_ == EV(X, t), Rf == EF(X, t))))))
        G['spec'] = spec
        G['db'], G['da'] = (F(z3.Bool(n + '_fin'), z3.Real(n)) for n in ('d_below', 'd_above'))
        return [N, NI, NO, xi, yi, xo, yo, lxin, lxout, G['db'], G['da'], ty, omit]

    # what an array of the samples of column X holds, forwards and backwards
    def has(G, m, g, back):
        x, y, val = G['x'], G['y'], G['val']
        r = CF(NI) - CF(g + 1) if back else CF(g)
        return r, z3.And(z3.Select(m[0], r), z3.Select(m[1], r) == x(g)), z3.And(z3.Select(m[0], r), z3.Select(m[1], r) == y(g))

    def heaps(s):
        return [b for b, t in s.types.items() if b.startswith('heap#') and t == 'double']

    def fam(ex, lp):
        e = lp.entry
        G = e.ghost
        out = []
        ints = ex.intvars(e)
        mods = [i for i in ints if i in lp.mod]
        ptrs = [i for i in lp.mod if isinstance(e.env.get(i), Ptr) and e.env[i].base]
        flts = [i for i in lp.mod if isinstance(e.env.get(i), F)]
        cur, x, y, val, spec = G['cur'], G['x'], G['y'], G['val'], G['spec']
        for p in ptrs:
            for A, fl in ((RI, None), (RO, None), (RI, lxin), (RO, lxout)):
                for n in mods:
                    out.append(lambda s, p=p, A=A, fl=fl, n=n: s.env[p].off == (A(s.env[n]) if fl is None else z3.If(fl != 0, A(s.env[n]), 0)))
        for i in mods:
            for j in mods:
                if i != j:
                    out.append(lambda s, i=i, j=j: s.env[i] + s.env[j] <= NI - 1)
        if not content:
            return out
        for n in mods:
            if n == nid:
                out.append(lambda s, n=n: z3.Implies(s.env[n] > X, spec(s)))
            else:
                out.append(lambda s, n=n: z3.Implies(z3.And(cur(s), s.env[n] > J), spec(s)))
        out.append(lambda s: z3.Implies(s.env[nid] > X, spec(s)))
        if nid in mods:
            return out
        for i in mods:
            iv_ = lambda s, i=i: s.env[i]
            if mode == 'omit':
              out.append(lambda s, i=iv_: z3.And(LV(i(s)) >= -1, LV(i(s)) < z3.If(i(s) > 0, i(s), 0), z3.Implies(LV(i(s)) >= 0, val(LV(i(s)))), (LV(i(s)) >= 0) == (CF(i(s)) > 0)))
              out.append(lambda s, i=iv_: z3.And(FV(i(s)) <= NI, FV(i(s)) > i(s), z3.Implies(FV(i(s)) < NI, val(FV(i(s)))), (FV(i(s)) < NI) == (CF(i(s) + 1) < CF(NI))))
            for j in mods:
                if j == i:
                    continue
                jv = lambda s, j=j: s.env[j]
                out.append(lambda s, i=iv_, j=jv: z3.Implies(cur(s), j(s) == CF(i(s))))
                out.append(lambda s, i=iv_, j=jv: z3.Implies(cur(s), j(s) == CF(NI) - CF(i(s) + 1)))
                out.append(lambda s, i=iv_, j=jv: z3.Implies(z3.And(cur(s), j(s) >= 0), z3.And(j(s) < i(s), val(j(s)))))
                for d in flts:
                    out.append(lambda s, i=iv_, j=jv, d=d: z3.Implies(z3.And(cur(s), z3.Or(MI, MD), s.env[d].v == 0), CF(i(s)) == z3.If(j(s) >= 0, 1, 0)))
            for h in heaps(e):
                for back in (0, 1):
                    for g in GH:
                        for w in (1, 2):
                            out.append(lambda s, i=iv_, h=h, back=back, g=g, w=w: z3.Implies(z3.And(cur(s), inr(g, 0, NI), g > i(s) if back else g < i(s), val(g)), has(G, s.mem[h], g, back)[w]))
                    for j in mods:
                        if j != i and mode == 'omit':
                            out.append(lambda s, i=iv_, h=h, back=back, j=j: z3.Implies(z3.And(cur(s), s.env[j] > 0), z3.And(z3.Select(s.mem[h][0], s.env[j] - 1),
                                       z3.Select(s.mem[h][1], s.env[j] - 1) == x(FV(i(s)) if back else LV(i(s))))))
        for d in flts:
            out.append(lambda s, d=d: s.env[d].fin)
            out.append(lambda s, d=d: z3.Implies(cur(s), s.env[d].fin))
            out.append(lambda s, d=d: z3.Implies(z3.And(cur(s), MI), s.env[d].v >= 0))
            out.append(lambda s, d=d: z3.Implies(z3.And(cur(s), MD), s.env[d].v <= 0))
        return out

    # ---- GSL
    def nothing(ex, st, vals, k):
        return k(st, None)

    def new_object(kind, check=None):
        def f(ex, st, vals, k):
            if check:
                check(ex, st, vals)
            ok = st.fresh('allocated', z3.BoolSort())

            def yes(s):
                s.nfresh[0] += 1
                b = 'gsl_%s#%d' % (kind, s.nfresh[0])
                s.types[b], s.size[b], s.mem[b], s.alloc[b] = 'opaque', iv(1), None, iv(1)
                return k(s, Ptr(b, iv(0)))
            return ex.fork(st, ok, yes, lambda s: k(s, NULL))
        return f

    def live(ex, st, p, what):
        ok = isinstance(p, Ptr) and p.base is not None and st.alloc.get(p.base) not in (None, False)
        ex.oblige(st, 'a live object is passed to ' + what, BV(bool(ok)))

    def free(ex, st, vals, k):
        if isinstance(vals[0], Ptr) and vals[0].base is not None:
            ex.b_free(st, vals, None, lambda s, _: None)
        return k(st, None)

    def size_ok(ex, st, vals):
        ex.oblige(st, 'gsl_interp_alloc: at least as many samples as the type of interpolation needs', vals[1] >= z3.Select(st.mem[vals[0].base]['min_size'], vals[0].off))

    def init(ex, st, vals, k):
        it, xa, ya, n = vals
        live(ex, st, it, 'gsl_interp_init')
        G = st.ghost
        for a in (xa, ya):
            ex.oblige(st, 'gsl_interp_init: the samples are inside the arrays', z3.And(a.off == 0, n >= 0, n <= st.size[a.base]))
        mx, my = st.mem[xa.base], st.mem[ya.base]
        if content:
            cur, val, x = G['cur'](st), G['val'], G['x']
            ex.oblige(st, 'as many samples are used as are valid', z3.Implies(cur, n == CF(NI)))

            def all_of(back):
                return z3.And(*[z3.Implies(z3.And(cur, inr(g, 0, NI), val(g)), z3.And(has(G, mx, g, back)[1], has(G, my, g, back)[2])) for g in GH])
            back = 0 if valid(st.pc, all_of(0), 8000, fallback=False)[0] == 'proved' else 1
            ex.oblige(st, 'exactly the valid samples are used, in the order of the array or in reverse', all_of(back))
            rp, rq = has(G, mx, P, back)[0], has(G, mx, Q, back)[0]
            both = z3.And(cur, val(P), val(Q))
            inc = lambda a, b: z3.Implies(z3.And(0 <= a, a < b, b < n), z3.Select(mx[1], a) < z3.Select(mx[1], b))
            ex.oblige(st, 'strictly monotone samples are handed over in increasing order of the coordinate', z3.Implies(z3.And(both, z3.Or(MI, MD)), z3.And(inc(rp, rq), inc(rq, rp))))
            # init succeeds only on strictly increasing coordinates
            rs = [iv(0), z3.simplify(n - 1)] + [has(G, mx, g, back)[0] for g in GH]
        else:
            rs = [iv(0), z3.simplify(n - 1)]
            inc = lambda a, b: z3.Implies(z3.And(0 <= a, a < b, b < n), z3.Select(mx[1], a) < z3.Select(mx[1], b))
        ok = st.fresh('accepted', z3.BoolSort())
        code = st.fresh('gsl_status')
        st.pc.append(z3.And(code > -B31, code < B31))

        def good(s):
            s.ghost = dict(s.ghost)
            s.ghost['init'] = (it.base, xa.base, ya.base, mx, my, n)
            s.pc += [inc(a, b) for a in rs for b in rs if not a.eq(b)]
            s.pc += [z3.Select(mx[0], 0), z3.Select(mx[0], n - 1), z3.Select(my[0], 0), z3.Select(my[0], n - 1)]
            s.pc.append(code == 0)
            return k(s, code)

        def bad(s):
            s.pc.append(code != 0)
            return k(s, code)
        return ex.fork(st, ok, good, bad)

    def evaluate(ex, st, vals, k):
        it, xa, ya, t, acc, out = vals
        live(ex, st, it, 'gsl_interp_eval_e')
        live(ex, st, acc, 'gsl_interp_eval_e')
        rec = st.ghost.get('init')
        ok = rec is not None and rec[0] == it.base and rec[1] == xa.base and rec[2] == ya.base and all(a.eq(b) for a, b in zip(st.mem[xa.base] + st.mem[ya.base], rec[3] + rec[4]))
        ex.oblige(st, 'gsl_interp_eval_e: the object was initialised with these samples, unchanged since', z3.And(BV(bool(ok)), xa.off == 0, ya.off == 0))
        if not ok:
            raise Unsupported('gsl_interp_eval_e without initialisation')
        mx, my, n = rec[3:]
        lo, hi = z3.Select(mx[1], 0), z3.Select(mx[1], n - 1)
        ex.oblige(st, 'gsl_interp_eval_e: the target is within the range of the samples', z3.Implies(t.fin, z3.And(lo <= t.v, t.v <= hi)))
        c = st.env[nid]
        r = F(z3.And(t.fin, EF(c, t.v)) if not z3.is_true(z3.simplify(t.fin)) else EF(c, t.v), EV(c, t.v))
        st.pc += [z3.Implies(z3.And(t.fin, t.v == lo), z3.And(EF(c, t.v), EV(c, t.v) == z3.Select(my[1], 0))), z3.Implies(z3.And(t.fin, t.v == hi), z3.And(EF(c, t.v), EV(c, t.v) == z3.Select(my[1], n - 1)))]
        if isinstance(out, tuple) and out[0] == 'ref':
            st.env[out[1]] = r
            st.written.add(out[1])
        else:
            ex.store(st, out, r)
        return k(st, iv(0))
    C = dict(gsl_set_error_handler_off=nothing, gsl_interp_accel_alloc=new_object('accel'), gsl_interp_alloc=new_object('interp', size_ok), gsl_interp_init=init,
             gsl_interp_eval_e=evaluate, gsl_interp_accel_reset=nothing, gsl_interp_free=free, gsl_interp_accel_free=free, PyErr_SetString=nothing, PyErr_Format=nothing,
             gsl_strerror=lambda ex, st, vals, k: k(st, Ptr('"str"', iv(0))))

    def post(st, ret, ex):
        if content:
            ex.oblige(st, 'post: unless an error is reported, an element is the interpolant, the extrapolation or missing', z3.Implies(ret == 0, st.ghost['spec'](st)))
        ex.oblige(st, 'post: all that was allocated is freed', BV(not [b for b, n in st.alloc.items() if n is not False]))
        ex.oblige(st, 'post: 0 or -1', z3.Or(ret == 0, ret == -1))
    rep.assume_note('GSL: gsl_interp_init succeeds only on strictly increasing finite coordinates; the interpolant passes through its end samples; allocation by malloc succeeds')
    verify(u, rep, 'interpgsl', pre, post, [fam], C, budget=1200, effort=60000, note='sizes below 2^31' + {'all': '; omit_nm off', 'omit': '; omit_nm on, monotone samples', 'memory': '; any flags (memory only)'}[mode] +
           ''.join('; %s %s' % (n, 'on' if w else 'off') for n, w in (('loop_xin', xin_varies), ('loop_xout', xout_varies)) if w is not None))


def lemmas(rep):
    c, d, n = z3.Ints('c d n')

    def L(name, pc, g):
        s, be, mo, t = valid(pc, g, 60000)
        rep.add(Obl('lemma ' + name, s, be, t, mo))
    L('the count of valid samples grows by at most one per sample (step)', [z3.Or(d == 0, d == 1), c >= 0, c <= n], z3.And(c + d >= 0, c + d <= n + 1))
    L('a valid sample is counted by all later positions (step)', [z3.Or(d == 0, d == 1), c >= 0], c + d >= c)


def tasks(prop, tier='quick'):
    unit = lambda repo: load_c(os.path.join(repo, 'pygeode', 'interp.c'))
    if prop != 'C06':
        return []
    out = [('interpgsl (memory)', lambda repo, rep: check_interpgsl(unit(repo), rep, 'memory'))]
    for m in ('all', 'omit'):
        for a in (False, True):
            for b in (False, True):
                out.append(('interpgsl (%s samples, x %s, targets %s)' % (m, 'vary' if a else 'shared', 'vary' if b else 'shared'), lambda repo, rep, m=m, a=a, b=b: check_interpgsl(unit(repo), rep, m, a, b)))
    return out + [('counting lemmas', lambda repo, rep: lemmas(rep))]
