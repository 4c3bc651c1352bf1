"""C04 and C05: contracts of the kernels of tools.c."""
import sys, os
import z3
from core import *
from cv import *

B31 = 2**31


def unit(repo):
    return load_c(os.path.join(repo, 'pygeode', 'tools.c'))


# ---------------------------------------------------------------- addresses in a 3-level array (x, m, y) of sizes (., M, ny)
def split3(off, M, ny):
    """off = (x*M + m)*ny + y, read off the polynomial; M, ny are the size symbols"""
    off = z3.simplify(off, som=True)
    terms = list(off.children()) if z3.is_add(off) else [off]
    xs, ms, ys = [], [], []

    def factors(t):
        if z3.is_mul(t):
            return [f for c in t.children() for f in factors(c)]
        return [t]

    for t in terms:
        f = factors(t)

        def take(sym):
            for k, c in enumerate(f):
                if c.eq(sym):
                    del f[k]
                    return True
            return False
        if take(ny):
            if take(M):
                dst = xs
            else:
                dst = ms
        else:
            dst = ys
        dst.append(z3.Product(*f) if len(f) > 1 else f[0] if f else iv(1))
    return tuple(z3.simplify(z3.Sum(*l)) if len(l) > 1 else l[0] if l else iv(0) for l in (xs, ms, ys))


def addr_lemmas(rep):
    r, y, R, Y, ny, d, e, n = z3.Ints('r y R Y ny d e n')

    def L(name, pc, g):
        s, be, mo, t = valid(pc, g, 60000)
        rep.add(Obl('lemma ' + name, s, be, t, mo))
    c = z3.Int('c')
    L('no more samples are counted than were seen (base)', [], z3.And(iv(0) >= 0, iv(0) <= 0))
    L('no more samples are counted than were seen (step)', [c >= 0, c <= n, z3.Or(d == 0, d == 1)], z3.And(c + d >= 0, c + d <= n + 1))
    L('product of non-negatives', [d >= 0, ny >= 0], d * ny >= 0)
    # r = R + 1 + d
    L('different rows do not share an element', [ny >= 1, 0 <= y, y < ny, 0 <= Y, Y < ny, d >= 0, e == d * ny, e >= 0], R * ny + ny + e + y > R * ny + Y)
    # n = r + 1 + d rows
    L('an element lies inside its array', [0 <= y, y < ny, r >= 0, r * ny >= 0, d >= 0, e == d * ny, e >= 0], z3.And(r * ny + y >= 0, r * ny + y < r * ny + ny + e))


def prod_facts(v, N, D):
    """0 <= v < N and D >= 0: v*D is non-negative and one more row still fits (instances of the lemmas above)"""
    return z3.Implies(z3.And(v >= 0, v < N, D >= 0), z3.And(v * D >= 0, v * D + D <= N * D))


# ---------------------------------------------------------------- C05: partial sums
def check_psum(u, rep, fname, elty, nan):
    cplx = isinstance(elty, tuple)
    isf = cplx or elty in FLTS
    mem = [m for m, _ in elty] if cplx else [None]

    def pre(st, ex):
        nx, nin, nout, ny, X, o, Y = z3.Ints('nx nin nout ny X o Y')
        st.pc += [nx >= 0, nin >= 0, nout >= 0, ny >= 0, X >= 0, X < nx, o >= 0, o < nout, Y >= 0, Y < ny]
        ni, no = nx * nin * ny, nx * nout * ny
        for p in (nx * nin, nx * nout, nin * ny, nout * ny, ni, no):
            st.pc += [p >= 0, p < B31]
        st.pc += [n < B31 for n in (nx, nin, nout, ny)]
        IN = ex.new_base(st, 'in', elty, ni)
        OUT = ex.new_base(st, 'out', elty, no)
        CNT = ex.new_base(st, 'count', 'int', no)
        MAP = ex.new_base(st, 'outmap', 'int', nin)
        in0, map0 = st.mem['in'], st.mem['outmap']
        AD = (X * nout + o) * ny + Y
        # sums and counts over the first i samples that go to bin o: recursive definitions, unfolded where they are used
        SC = z3.Function('SC', I, I)
        S = {m: z3.Function('S_%s' % m, I, R if isf else I) for m in mem}
        FN = {m: z3.Function('FN_%s' % m, I, z3.BoolSort()) for m in mem}

        def cell(m, i):
            a = (X * nin + i) * ny + Y
            arr = in0[m] if cplx else in0
            return (z3.Select(arr[0], a), z3.Select(arr[1], a)) if isf else (z3.BoolVal(True), z3.Select(arr, a))

        def unfold(i):
            hit = z3.Select(map0, i) == o
            if nan:
                hit = z3.And(hit, *[cell(m, i)[0] for m in mem])
            r = [SC(i + 1) == SC(i) + z3.If(hit, 1, 0), SC(i) >= 0, SC(i) <= i]
            for m in mem:
                f, v = cell(m, i)
                r += [S[m](i + 1) == z3.If(hit, S[m](i) + v, S[m](i)), FN[m](i + 1) == z3.And(FN[m](i), z3.Implies(hit, f))]
            return z3.Implies(z3.And(i >= 0, i < nin), z3.And(*r))
        st.pc += [SC(0) == 0] + [S[m](0) == 0 for m in mem] + [FN[m](0) for m in mem]
        G = st.ghost
        G.update(nx=nx, nin=nin, nout=nout, ny=ny, X=X, o=o, Y=Y, AD=AD, SC=SC, S=S, FN=FN, readonly=('in', 'outmap'), out0=st.mem['out'], cnt0=st.mem['count'])
        st.pc += [prod_facts(X, nx, nin), prod_facts(X, nx, nout), prod_facts(X * nout + o, nx * nout, ny), prod_facts(X * nin, nx * nin, ny), prod_facts(o, nout, ny), AD >= 0, AD < no]

        def onhavoc(s, vs):
            for v in vs:
                s.pc += [unfold(v)] + [prod_facts(v, N, D) for N, D in ((nx, nin), (nx, nin * ny), (nin, ny), (nx, nout), (nx, nout * ny))]
        G['onhavoc'] = onhavoc
        st.pc += [z3.Select(st.mem['count'], AD) >= 0, z3.Select(st.mem['count'], AD) + nin < B31]
        G['elem'] = {'outmap': lambda off, v: z3.Implies(z3.And(off >= 0, off < nin), z3.And(z3.Select(map0, off) >= 0, z3.Select(map0, off) < nout,
                                                                                   prod_facts(z3.Select(map0, off), nout, ny))),
                     # an overflow at another element is that of the instance where it is the ghost element
                     'count': lambda off, v: z3.Implies(off != AD, v < B31 - 1)}

        def touch(M, same):
            def t(s, off):
                x, m, y = split3(off, M, ny)
                inb = z3.And(x >= 0, x < nx, m >= 0, m < M, y >= 0, y < ny)
                r = x * M + m
                s.pc += [prod_facts(x, nx, M), prod_facts(r, nx * M, ny), z3.Implies(inb, z3.And(off >= 0, off < nx * M * ny, r >= 0, r < nx * M))]
                if same is not None:
                    s.pc.append(z3.Implies(inb, (off == AD) == z3.And(x == X, m == o, y == Y)))
            return t
        G['touch'] = {'in': touch(nin, None), 'out': touch(nout, 1), 'count': touch(nout, 1)}
        return [nx, nin, nout, ny, IN, OUT, CNT, MAP]

    def value(s, i):
        """the ghost element holds its initial content plus the first i samples of bin o"""
        G = s.ghost
        AD = G['AD']
        out = [z3.Select(s.mem['count'], AD) == z3.Select(G['cnt0'], AD) + G['SC'](i)]
        for m in mem:
            a, b = (s.mem['out'][m], G['out0'][m]) if cplx else (s.mem['out'], G['out0'])
            if isf:
                out += [z3.Select(a[1], AD) == z3.Select(b[1], AD) + G['S'][m](i), z3.Select(a[0], AD) == z3.And(z3.Select(b[0], AD), G['FN'][m](i))]
            else:
                out.append(z3.Select(a, AD) == z3.Select(b, AD) + G['S'][m](i))
        return z3.And(*out)

    def fam(ex, lp):
        G = lp.entry.ghost
        out = []
        ints = ex.intvars(lp.entry)
        X, Y, o, nin = G['X'], G['Y'], G['o'], G['nin']
        for x in ints:
            if x in lp.mod:
                out.append(lambda s, x=x: value(s, z3.If(s.env[x] > X, nin, 0)))
            for i in ints:
                if i == x:
                    continue
                if i in lp.mod:
                    out.append(lambda s, x=x, i=i: value(s, z3.If(s.env[x] > X, nin, z3.If(s.env[x] < X, 0, s.env[i]))))
                for y in ints:
                    if y in lp.mod and y not in (x, i):
                        out.append(lambda s, x=x, i=i, y=y: value(s, z3.If(s.env[x] > X, nin, z3.If(s.env[x] < X, 0, z3.If(s.env[y] > Y, s.env[i] + 1, s.env[i])))))
        return out

    def post(st, ret, ex):
        G = st.ghost
        AD, n = G['AD'], G['nin']
        ex.oblige(st, 'post: the count of a bin grows by the number of its samples', z3.Select(st.mem['count'], AD) == z3.Select(G['cnt0'], AD) + G['SC'](n))
        for m in mem:
            a, b = (st.mem['out'][m], G['out0'][m]) if cplx else (st.mem['out'], G['out0'])
            if isf:
                ex.oblige(st, 'post: the sum of a bin grows by exactly its samples', z3.Select(a[1], AD) == z3.Select(b[1], AD) + G['S'][m](n))
                ex.oblige(st, 'post: a bin is missing exactly when one of the samples counted is', z3.Select(a[0], AD) == z3.And(z3.Select(b[0], AD), G['FN'][m](n)))
            else:
                ex.oblige(st, 'post: the sum of a bin grows by exactly its samples', z3.Select(a, AD) == z3.Select(b, AD) + G['S'][m](n))
        ex.oblige(st, 'post: returns 0', ret == 0)
    verify(u, rep, fname, pre, post, [fam], overflow=isf, note='bin numbers in range; array sizes below 2^31' + ('' if isf else '; sums of integers assumed to fit their type'))


PS = [('partial_sum_float32', 'float', False), ('partial_sum_float64', 'double', False), ('partial_sum_int32', 'int', False), ('partial_sum_int64', 'long long', False),
      ('partial_nan_sum_float32', 'float', True), ('partial_nan_sum_float64', 'double', True),
      ('partial_sum_complex64', (('real', 'float'), ('imag', 'float')), False), ('partial_sum_complex128', (('real', 'double'), ('imag', 'double')), False),
      ('partial_nan_sum_complex64', (('real', 'float'), ('imag', 'float')), True), ('partial_nan_sum_complex128', (('real', 'double'), ('imag', 'double')), True)]


# ---------------------------------------------------------------- C04: sorting with original positions, nearest match
def inr(x, lo, hi):
    return z3.And(x >= lo, x < hi)


def sorted_facts(st, arr, off, n, terms):
    """instances of: positions 0 <= p <= q < n of a sorted stretch hold a[p] <= a[q]"""
    T = []
    for t in terms:
        if not any(t.eq(x) for x in T):
            T.append(t)
    for a in range(len(T)):
        for b in range(a + 1, len(T)):
            p, q = T[a], T[b]
            x, y = z3.Select(arr, off + p), z3.Select(arr, off + q)
            ok = z3.And(inr(p, 0, n), inr(q, 0, n))
            st.pc.append(z3.Implies(ok, z3.And(z3.Implies(p <= q, x <= y), z3.Implies(q <= p, y <= x))))


def add_hook(st, kind, base, f):
    d = dict(st.ghost.get(kind, {}))
    d[base] = f
    st.ghost[kind] = d


def check_msort(u, rep):
    """a[OA..OA+na) is sorted, a_ind[OI..OI+na) gives for every element its position in the original (plus offset), all of them"""
    def pre(st, ex):
        n, SA, SI, OA, OI, off, p, q, x, t, fa, fi = z3.Ints('na SA SI OA OI offset p q x t fa fi')
        st.pc += [n >= 1, n < 2**30, OA >= 0, OI >= 0, SA >= OA + n, SI >= OI + n, SA < B31, SI < B31, off >= 0, off + n < B31]
        st.pc += [0 <= p, p <= q, q < n, inr(x, 0, n), inr(t, 0, n), inr(fa, 0, SA), z3.Not(inr(fa, OA, OA + n)), inr(fi, 0, SI), z3.Not(inr(fi, OI, OI + n))]
        a = ex.new_base(st, 'a', 'double', SA)
        ai = ex.new_base(st, 'a_ind', 'int', SI)
        st.mem['a'] = (z3.K(I, z3.BoolVal(True)), st.mem['a'][1])     # finite values (precondition)
        G = st.ghost
        G.update(n=n, SA=SA, SI=SI, OA=OA, OI=OI, off=off, p=p, q=q, x=x, t=t, fa=fa, fi=fi, a0=st.mem['a'][1], i0=st.mem['a_ind'], calls=(), srt=())
        st.env['ghost:where'] = iv(-1)

        def onstore(s, base, o, val):
            # remember where the ghost original position went in the merged index array
            if base.startswith('heap') and not isinstance(val, F):
                s.env['ghost:where'] = z3.If(val == off + t, o, s.env['ghost:where'])
                s.written.add('ghost:where')
        G['onstore'] = onstore

        def onhavoc(s, vs):
            for arr, o, m in s.ghost['srt']:
                sorted_facts(s, arr, o, m, [y for v in vs for y in (z3.simplify(v - (o - OA)), z3.simplify(v + 1 - (o - OA)))])
            for f in s.ghost['calls']:
                for v in vs:
                    s.pc.append(f(v))
        G['onhavoc'] = onhavoc
        return [n, Ptr('a', OA), Ptr('a_ind', OI), off]

    def c_msort(ex, st, vals, k):
        """the contract of msort itself, for a shorter stretch"""
        n, a, ai, off = vals
        G = st.ghost
        if a.base != 'a' or ai.base != 'a_ind':
            raise Unsupported('msort called on other arrays')
        ex.oblige(st, 'recursive call: shorter stretch (it terminates)', z3.And(n >= 1, n < G['n']))
        ex.oblige(st, 'recursive call: stretches inside the arrays', z3.And(a.off >= 0, a.off + n <= G['SA'], ai.off >= 0, ai.off + n <= G['SI'], off >= 0, off + n < B31))
        A, Ix = st.mem['a'][1], st.mem['a_ind']
        st.mem['a'] = (st.mem['a'][0], st.fresh('a_s', z3.ArraySort(I, R)))
        st.mem['a_ind'] = st.fresh('i_s', z3.ArraySort(I, I))
        st.written |= {'a', 'a_ind'}
        A2, I2 = st.mem['a'][1], st.mem['a_ind']
        st.nfresh[0] += 1
        pos = z3.Function('pos!%d' % st.nfresh[0], I, I)

        def f(v):
            """the contract at relative position v of this msort's own stretch: element v of a and of a_ind"""
            pa, pi = G['OA'] + v, G['OI'] + v
            r = pa - a.off
            inside = inr(r, 0, n)
            src = z3.Select(I2, ai.off + r) - off
            return z3.And(z3.Implies(inside, z3.And(inr(src, 0, n), z3.Select(A2, pa) == z3.Select(A, a.off + src))),
                          z3.Implies(z3.Not(inside), z3.Select(A2, pa) == z3.Select(A, pa)),
                          z3.Implies(z3.Not(inr(pi - ai.off, 0, n)), z3.Select(I2, pi) == z3.Select(Ix, pi)))
        t = G['t'] + G['off'] - off      # the ghost original position, relative to this stretch
        w = pos(t)
        st.pc.append(z3.Implies(inr(t, 0, n), z3.And(inr(w, 0, n), z3.Select(I2, ai.off + w) == off + t)))
        # in terms of positions of the caller
        wc = w + ai.off - G['OI']
        for g in (G['p'], G['q'], G['x'], G['t'], wc) + G.get('wits', ()):
            st.pc.append(f(g))
        for h in G['calls']:
            st.pc.append(h(wc))
        st.pc.append(f(G['fa'] - G['OA']))
        st.pc.append(f(G['fi'] - G['OI']))
        # elements read by an enclosing contract: the source of each read element
        G['calls'] = G['calls'] + (f, lambda v, I2=I2, f0=tuple(G['calls']): z3.And(*[h(z3.Select(I2, G['OI'] + v) - G['off']) for h in f0]) if f0 else z3.BoolVal(True))
        G['wits'] = G.get('wits', ()) + (wc,)
        # sortedness of this stretch, and of earlier ones that this call leaves alone
        G['srt'] = tuple((A2, o, m) for _, o, m in G['srt']) + ((A2, a.off, n),)
        for arr, o, m in G['srt'][:-1]:
            ex.oblige(st, 'recursive calls sort separate stretches', z3.Or(o + m <= a.off, a.off + n <= o))
        return k(st, iv(0))

    def sel(s, base, i):
        m = s.mem[base]
        return z3.Select(m[1] if isinstance(m, tuple) else m, i)

    def fam(ex, lp):
        G0 = lp.entry.ghost
        p, q, x, t, OA, OI, off, n = [G0[k] for k in ('p', 'q', 'x', 't', 'OA', 'OI', 'off', 'n')]
        out = []
        ints = [i for i in ex.intvars(lp.entry) if i != 'ghost:where']
        mods = [i for i in ints if i in lp.mod]
        dbl = [b for b in lp.entry.mem if lp.entry.types.get(b) == 'double' and b.startswith('heap')]
        idx = [b for b in lp.entry.mem if lp.entry.types.get(b) == 'int' and b.startswith('heap')]
        W = 'ghost:where'
        for k in mods:
            for d in dbl:
                out.append(lambda s, k=k, d=d: z3.Implies(q < s.env[k], sel(s, d, p) <= sel(s, d, q)))
                out += [lambda s, k=k, d=d, g=g: z3.Implies(g < s.env[k], sel(s, 'a', OA + g) == sel(s, d, g)) for g in (p, q, x)]
                out.append(lambda s, k=k, d=d: z3.Implies(z3.And(0 <= s.env[W], s.env[W] < s.env[k], s.env[W] < n), sel(s, 'a', OA + s.env[W]) == sel(s, d, s.env[W])))
                for v in ints:
                    if v == k:
                        continue
                    for hi in ints + [None]:
                        if hi == v or hi == k:
                            continue
                        H = (lambda s, hi=hi: s.env[hi]) if hi else (lambda s: n)
                        if v in mods:
                            out += [lambda s, k=k, d=d, v=v, H=H, g=g: z3.Implies(z3.And(g < s.env[k], s.env[v] < H(s)), sel(s, d, g) <= sel(s, 'a', OA + s.env[v])) for g in (p, q)]
                for ib in idx:
                    out.append(lambda s, k=k, d=d, ib=ib: z3.Implies(x < s.env[k], z3.And(inr(sel(s, ib, x) - off, 0, n), sel(s, d, x) == z3.Select(G0['a0'], OA + sel(s, ib, x) - off))))
            for ib in idx:
                out += [lambda s, k=k, ib=ib, g=g: z3.Implies(g < s.env[k], sel(s, 'a_ind', OI + g) == sel(s, ib, g)) for g in (x,)]
                out.append(lambda s, k=k, ib=ib: z3.Implies(z3.And(0 <= s.env[W], s.env[W] < s.env[k], s.env[W] < n), sel(s, 'a_ind', OI + s.env[W]) == sel(s, ib, s.env[W])))
                out.append(lambda s, k=k, ib=ib: z3.Implies(s.env[W] != -1, z3.And(inr(s.env[W], 0, s.env[k]), sel(s, ib, s.env[W]) == off + t)))
            for v in mods:
                for wc in G0.get('wits', ()):
                    for c in ints:
                        out.append(lambda s, v=v, wc=wc, c=c: z3.Implies(z3.And(sel(s, 'a_ind', OI + wc) == off + t, wc < s.env[v], inr(t, 0, s.env[c])), s.env[W] != -1))
                        out.append(lambda s, v=v, wc=wc, c=c: z3.Implies(z3.And(sel(s, 'a_ind', OI + wc) == off + t, wc < s.env[v], t >= s.env[c]), s.env[W] != -1))
        for k in mods:
            for j in mods:
                if k < j:
                    for l in mods:
                        for c in ints:
                            if l not in (k, j) and c not in (k, j, l):
                                out.append(lambda s, k=k, j=j, l=l, c=c: s.env[k] + s.env[j] == s.env[l] + s.env[c])
        out += [lambda s: sel(s, 'a', G0['fa']) == z3.Select(G0['a0'], G0['fa']), lambda s: sel(s, 'a_ind', G0['fi']) == z3.Select(G0['i0'], G0['fi'])]
        return out

    def post(st, ret, ex):
        G = st.ghost
        p, q, x, t, OA, OI, off, n = [G[k] for k in ('p', 'q', 'x', 't', 'OA', 'OI', 'off', 'n')]
        W = st.env.get('ghost:where')
        ex.oblige(st, 'post: the stretch is in increasing order', sel(st, 'a', OA + p) <= sel(st, 'a', OA + q))
        src = sel(st, 'a_ind', OI + x) - off
        ex.oblige(st, 'post: positions refer to the stretch', inr(src, 0, n))
        ex.oblige(st, 'post: every element is the original element at the position given', sel(st, 'a', OA + x) == z3.Select(G['a0'], OA + src))
        ex.oblige(st, 'post: every original position occurs', z3.Or(z3.And(inr(W, 0, n), sel(st, 'a_ind', OI + W) == off + t), z3.And(n == 1, sel(st, 'a_ind', OI) == off + t)))
        ex.oblige(st, 'frame: elements outside the stretch are unchanged', z3.And(sel(st, 'a', G['fa']) == z3.Select(G['a0'], G['fa']), sel(st, 'a_ind', G['fi']) == z3.Select(G['i0'], G['fi'])))
    return verify(u, rep, 'msort', pre, post, [fam], {'msort': c_msort}, note='finite values, 1 <= na < 2^30')


def check_sort(u, rep):
    def pre(st, ex):
        n, p, q, x, t = z3.Ints('na p q x t')
        st.pc += [n >= 0, n < 2**30]
        st.pc += [0 <= p, p <= q] + [z3.If(n > 0, inr(g, 0, n), g == 0) for g in (p, q, x, t)]
        a = ex.new_base(st, 'a', 'double', n)
        ai = ex.new_base(st, 'a_ind', 'int', n)
        st.mem['a'] = (z3.K(I, z3.BoolVal(True)), st.mem['a'][1])
        st.ghost.update(n=n, p=p, q=q, x=x, t=t, a0=st.mem['a'][1], wit=iv(-1))
        return [n, a, ai]

    def c_msort(ex, st, vals, k):
        n, a, ai, off = vals
        G = st.ghost
        ex.oblige(st, 'call of msort: the whole array, from position 0', z3.And(z3.BoolVal(a.base == 'a' and ai.base == 'a_ind'), a.off == 0, ai.off == 0, n == G['n'], off == 0, n >= 1))
        A = st.mem['a'][1]
        st.mem['a'] = (st.mem['a'][0], st.fresh('a_s', z3.ArraySort(I, R)))
        st.mem['a_ind'] = st.fresh('i_s', z3.ArraySort(I, I))
        st.written |= {'a', 'a_ind'}
        A2, I2 = st.mem['a'][1], st.mem['a_ind']
        w = st.fresh('w')
        x = z3.Select(I2, G['x'])
        st.pc += [z3.Select(A2, G['p']) <= z3.Select(A2, G['q']), inr(x, 0, n), z3.Select(A2, G['x']) == z3.Select(A, x), inr(w, 0, n), z3.Select(I2, w) == G['t']]
        G['wit'] = w
        return k(st, iv(0))

    def sel(s, base, i):
        m = s.mem[base]
        return z3.Select(m[1] if isinstance(m, tuple) else m, i)

    def fam(ex, lp):
        G = lp.entry.ghost
        p, q, x, t, n, a0 = [G[k] for k in ('p', 'q', 'x', 't', 'n', 'a0')]
        out = []
        ints = ex.intvars(lp.entry)
        mods = [i for i in ints if i in lp.mod]
        dbl = [b for b in lp.entry.mem if lp.entry.types.get(b) == 'double' and b.startswith('heap')]
        A = lambda i: z3.Select(a0, i)
        for k in mods:
            for f in mods:
                if f == k:
                    continue
                for z in (0, 1):
                    for c in (lambda u, v: u <= v, lambda u, v: u >= v):
                        out += [lambda s, k=k, f=f, z=z, c=c: z3.Implies(z3.And(s.env[f] == z, p < s.env[k], q < s.env[k]), c(A(p), A(q))),
                                lambda s, k=k, f=f, z=z, c=c: z3.Implies(z3.And(s.env[f] == z, p < s.env[k]), c(A(p), A(s.env[k] - 1)))]
                    out.append(lambda s, f=f, z=z: z3.Implies(s.env[f] == z, n >= 2))
            for g in (x, t, n - 1 - t):
                out += [lambda s, k=k, g=g: z3.Implies(g < s.env[k], sel(s, 'a_ind', g) == g), lambda s, k=k, g=g: z3.Implies(g < s.env[k], sel(s, 'a_ind', g) == n - 1 - g)]
            for d in dbl:
                out += [lambda s, k=k, d=d, g=g: z3.Implies(g < s.env[k], sel(s, d, g) == A(n - 1 - g)) for g in (p, q, x)]
                # instance of the loop result at mirrored positions
        # order of the mirrored ghost positions
        P, Q = n - 1 - q, n - 1 - p
        for k in mods:
            for f in mods:
                if f != k:
                    for z in (0, 1):
                        out += [lambda s, k=k, f=f, z=z: z3.Implies(z3.And(n > 0, s.env[f] == z, Q < s.env[k]), A(P) >= A(Q)),
                                lambda s, k=k, f=f, z=z: z3.Implies(z3.And(n > 0, s.env[f] == z, P < s.env[k]), A(P) >= A(s.env[k] - 1))]
        return out

    def post(st, ret, ex):
        G = st.ghost
        p, q, x, t, n = [G[k] for k in ('p', 'q', 'x', 't', 'n')]
        ne = n > 0
        src = sel(st, 'a_ind', x)
        ex.oblige(st, 'post: increasing order', z3.Implies(ne, sel(st, 'a', p) <= sel(st, 'a', q)))
        ex.oblige(st, 'post: positions inside the array', z3.Implies(ne, inr(src, 0, n)))
        ex.oblige(st, 'post: every element is the original element at the position given', z3.Implies(ne, sel(st, 'a', x) == z3.Select(G['a0'], src)))
        ex.oblige(st, 'post: every original position occurs', z3.Implies(ne, z3.Or(*[z3.And(inr(w, 0, n), sel(st, 'a_ind', w) == t) for w in (t, n - 1 - t, G['wit'])])))
        ex.oblige(st, 'post: returns 0', ret == 0)
    return verify(u, rep, 'sort', pre, post, [fam], {'msort': c_msort}, note='finite values, 0 <= na < 2^30')


def absr(x):
    return z3.If(x >= 0, x, -x)


def check_map_to(u, rep):
    """indices[j] is -1 or the position of an a nearest to b_orig[j] within the tolerance; -1 only if there is no such a
    (for any j and any competing position g)"""
    def pre(st, ex):
        na, nb, g, j = z3.Ints('na nb g j')
        rt = z3.Real('rtol')
        st.pc += [na >= 0, nb >= 0, na < 2**30, nb < 2**30, z3.Implies(na > 0, inr(g, 0, na)), inr(j, 0, nb), rt >= 0]
        a = ex.new_base(st, 'a_orig', 'double', na)
        b = ex.new_base(st, 'b_orig', 'double', nb)
        ix = ex.new_base(st, 'indices', 'int', nb)
        for x in ('a_orig', 'b_orig'):
            st.mem[x] = (z3.K(I, z3.BoolVal(True)), st.mem[x][1])
        a0, b0 = st.mem['a_orig'][1], st.mem['b_orig'][1]
        B = z3.Select(b0, j)
        st.ghost.update(na=na, nb=nb, g=g, j=j, rt=rt, a0=a0, b0=b0, B=B, Ag=z3.Select(a0, g), readonly=('a_orig', 'b_orig'), srt=(), ga=None, pj=None)

        def onhavoc(s, vs):
            for arr, n, gh in s.ghost['srt']:
                sorted_facts(s, arr, iv(0), n, [gh] + [y for v in vs if not z3.is_int_value(v) for y in (v, z3.simplify(v + 1), z3.simplify(v - 1))])
        st.ghost['onhavoc'] = onhavoc
        return [na, a, nb, b, ix, F(z3.BoolVal(True), rt)]

    def c_sort(ex, st, vals, k):
        n, a, ai = vals
        G = st.ghost
        orig = st.mem[a.base]
        x = z3.Int('x!c')

        def is_copy(o):
            for y in (G['g'] if o == 'a_orig' else G['j'], st.fresh('any')):
                N = G['na'] if o == 'a_orig' else G['nb']
                if valid(st.pc, z3.And(n == N, z3.Implies(inr(y, 0, n), z3.Select(orig[1], y) == z3.Select(st.mem[o][1], y))), 3000, fallback=False)[0] != 'proved':
                    return False
            return True
        which = [o for o in ('a_orig', 'b_orig') if is_copy(o)]
        ex.oblige(st, 'call of sort: a copy of one of the coordinate arrays, with room for the positions', z3.And(z3.BoolVal(len(which) >= 1), a.off == 0, ai.off == 0, st.size[a.base] >= n, st.size[ai.base] >= n, n >= 0))
        y = st.fresh('fin')
        ex.oblige(st, 'call of sort: finite values', z3.Implies(inr(y, 0, n), z3.Select(orig[0], y)))
        if len(which) != 1:
            raise Unsupported('sort of something else')
        o = which[0]
        O = G['a0'] if o == 'a_orig' else G['b0']
        gh = G['g'] if o == 'a_orig' else G['j']
        st.mem[a.base] = (z3.K(I, z3.BoolVal(True)), st.fresh('sorted', z3.ArraySort(I, R)))
        st.mem[ai.base] = st.fresh('order', z3.ArraySort(I, I))
        st.written |= {a.base, ai.base}
        S, Ix = st.mem[a.base][1], st.mem[ai.base]
        w = st.fresh('pos')
        st.pc += [z3.Implies(n > 0, z3.And(inr(w, 0, n), z3.Select(Ix, w) == gh, z3.Select(S, w) == z3.Select(O, gh)))]
        add_hook(st, 'elem', ai.base, lambda off, v: z3.Implies(inr(off, 0, n), z3.And(inr(v, 0, n), z3.Select(S, off) == z3.Select(O, v))))
        G['srt'] = G['srt'] + ((S, n, w),)
        G['readonly'] = G['readonly'] + (a.base, ai.base) if False else G['readonly']
        G['ga' if o == 'a_orig' else 'pj'] = w
        G['A' if o == 'a_orig' else 'Bs'] = S
        return k(st, iv(0))

    def good(G, r):
        B = G['B']
        d = lambda v: absr(v - B)
        return z3.Or(r == -1, z3.And(inr(r, 0, G['na']), d(z3.Select(G['a0'], r)) <= d(G['Ag']), d(z3.Select(G['a0'], r)) <= G['rt'] * absr(B)))

    def has(G):
        return z3.And(G['na'] > 0, absr(G['Ag'] - G['B']) <= G['rt'] * absr(G['B']))

    def fam(ex, lp):
        G = lp.entry.ghost
        out = []
        ints = ex.intvars(lp.entry)
        mods = [i for i in ints if i in lp.mod]
        R_ = lambda s: z3.Select(s.mem['indices'], G['j'])
        out.append(lambda s: good(G, R_(s)))
        for k in mods:
            out.append(lambda s, k=k: z3.Implies(G['j'] < s.env[k], good(G, R_(s))))
            out.append(lambda s, k=k: z3.Implies(G['j'] < s.env[k], R_(s) == -1))
        if G['ga'] is None or G['pj'] is None:
            return out
        A, Bs, ga, pj = G['A'], G['Bs'], G['ga'], G['pj']
        va = lambda s, i: z3.Select(A, s.env[i])
        vb = lambda i: z3.Select(Bs, i)
        Ag = z3.Select(A, ga)
        flt = [i for i, v in lp.entry.env.items() if isinstance(v, F)]
        for bi in mods:
            out.append(lambda s, bi=bi: z3.Implies(z3.And(s.env[bi] > pj, has(G)), R_(s) != -1))
            for ai in mods:
                if ai != bi:
                    out.append(lambda s, ai=ai, bi=bi: z3.Implies(ga <= s.env[ai], z3.Or(s.env[ai] == ga, z3.And(s.env[bi] > 0, absr(va(s, ai) - vb(s.env[bi] - 1)) <= absr(Ag - vb(s.env[bi] - 1))))))
        for ai in mods:
            for bi in ints:
                if bi != ai:
                    out.append(lambda s, ai=ai, bi=bi: z3.Implies(ga <= s.env[ai], absr(va(s, ai) - vb(s.env[bi])) <= absr(Ag - vb(s.env[bi]))))
                    for x in ints:
                        if x not in (ai, bi):
                            out.append(lambda s, ai=ai, bi=bi, x=x: absr(va(s, ai) - vb(s.env[bi])) <= absr(va(s, x) - vb(s.env[bi])))
        return out

    def post(st, ret, ex):
        G = st.ghost
        r = z3.Select(st.mem['indices'], G['j'])
        d = lambda v: absr(v - G['B'])
        ex.oblige(st, 'post: a reported position is inside the array', z3.Or(r == -1, inr(r, 0, G['na'])))
        ex.oblige(st, 'post: no element is closer than the one reported', z3.Or(r == -1, d(z3.Select(G['a0'], r)) <= d(G['Ag'])))
        ex.oblige(st, 'post: the element reported is within the tolerance', z3.Or(r == -1, d(z3.Select(G['a0'], r)) <= G['rt'] * absr(G['B'])))
        ex.oblige(st, 'post: no match reported only if no element is within the tolerance', z3.Implies(has(G), r != -1))
        ex.oblige(st, 'post: returns 0', ret == 0)
    return verify(u, rep, 'map_to', pre, post, [fam], {'sort': c_sort}, note='finite values, rtol >= 0, sizes below 2^30')


def tasks(prop, tier='quick'):
    out = []
    if prop == 'C04':
        for n, f in (('msort', check_msort), ('sort', check_sort), ('map_to', check_map_to)):
            def g(repo, rep, f=f):
                rep.assume_note('partial correctness: termination of the loops is not proved (the recursion of msort is shown to work on ever shorter stretches)')
                rep.assume_note('doubles are treated as exact reals (differences are not rounded); coordinates are finite')
                f(unit(repo), rep)
            out.append((n, g))
    if prop == 'C05':
        out.append(('address lemmas', lambda repo, rep: addr_lemmas(rep)))
        for f, t, n in PS:
            def g(repo, rep, f=f, t=t, n=n):
                rep.assume_note('partial correctness: termination of the loops is not proved')
                rep.assume_note('floating-point additions are treated as real additions')
                check_psum(unit(repo), rep, f, t, n)
            out.append((f, g))
    return out
