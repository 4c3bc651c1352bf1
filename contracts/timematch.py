"""C03: contracts of the matching kernels of timeaxis.c (get_index, get_indices, uniquify, cmpval, common_map)."""
import sys, os
import z3
from core import *
from cv import *

B30 = 2**30


def unit(repo):
    return load_c(os.path.join(repo, 'pygeode', 'timeaxis.c'))


def split_rc(off, natts):
    """off = row*natts + col, read off the polynomial"""
    off = z3.simplify(off, som=True)
    terms = [off]
    if z3.is_add(off):
        terms = off.children()
    row, col = [], []
    for t in terms:
        if t.eq(natts):
            row.append(iv(1))
            continue
        if z3.is_mul(t):
            ch = list(t.children())
            idx = [k for k, c in enumerate(ch) if c.eq(natts)]
            if idx:
                del ch[idx[0]]
                r = ch[0] if len(ch) == 1 else z3.Product(*ch)
                row.append(r)
                continue
        col.append(t)
    return (z3.Sum(row) if row else iv(0)), (z3.Sum(col) if col else iv(0))


def lin(r, c, r2, c2, natts):
    """order of flattened positions (nonlinear fact; proved as a lemma)"""
    return z3.Implies(z3.And(0 <= c, c < natts, 0 <= c2, c2 < natts, r < r2), r * natts + c < r2 * natts + c2)


def box(r, c, n, natts):
    return z3.Implies(z3.And(0 <= c, c < natts, 0 <= r, r < n), z3.And(0 <= r * natts + c, r * natts + c < n * natts))


def lemmas(rep):
    r, c, r2, c2, n, m, d, e = z3.Ints('r c r2 c2 n natts d e')

    def L(name, pc, g):
        s, be, mo, t = valid(pc, g, 60000)
        rep.add(Obl('lemma ' + name, s, be, t, mo))
    # r2 = r + 1 + d
    L('flattened positions are ordered by row', [m >= 1, d >= 0, 0 <= c, c < m, 0 <= c2, c2 < m, e == d * m, e >= 0], r * m + c < r * m + m + e + c2)
    L('product of non-negatives', [d >= 0, m >= 1], d * m >= 0)
    L('position inside the array', [m >= 1, 0 <= c, c < m, 0 <= r, d >= 0, e == d * m, e >= 0, n == r + 1 + d, r * m >= 0],
      z3.And(0 <= r * m + c, r * m + c < r * m + m + e))
    # lexicographic order: x <= y and y < z give x < z, stated with first differences (instances of the definition)
    X, Y, Z = [z3.Function(k, I, I) for k in 'XYZ']
    f, g, h = z3.Ints('f g h')     # first differences of (x,y), (y,z), (x,z)

    def fd(P, Q, q, ks):
        return [z3.Implies(z3.And(0 <= k, k < q), P(k) == Q(k)) for k in ks] + [z3.Implies(q < m, P(q) != Q(q)), q >= 0, q <= m]
    ks = (f, g, h)
    base = [m >= 1] + fd(X, Y, f, ks) + fd(Y, Z, g, ks) + fd(X, Z, h, ks)
    le = z3.Or(f == m, X(f) < Y(f))
    L('lexicographic order is transitive (x<=y<z)', base + [le, g < m, Y(g) < Z(g)], z3.And(h < m, X(h) < Z(h)))
    L('lexicographic order is transitive (x<=y=z)', base + [le, g == m], z3.Or(h == m, X(h) < Z(h)))


# ---------------------------------------------------------------- get_index
def check_get_index(u, rep):
    fdf = z3.Function('fd', I, I)      # first field in which row r differs from the key (natts: none)
    sgn = z3.Function('sgn', I, I)     # order of row r and the key

    def pre(st, ex):
        natts, n, g, b = z3.Ints('natts n g b')
        st.pc += [natts >= 1, n >= 0, n < B30, n * natts < 2**31 - 1, g >= 0, g < n, b >= 0, b < natts, natts < B30, n * natts >= 0]
        V = ex.new_base(st, 'values', 'int', n * natts)
        K_ = ex.new_base(st, 'key', 'int', natts)
        v0, k0 = st.mem['values'], st.mem['key']
        r = z3.Int('r!q')
        st.pc.append(z3.ForAll([r], z3.And(0 <= fdf(r), fdf(r) <= natts, (sgn(r) == 0) == (fdf(r) == natts), sgn(r) >= -1, sgn(r) <= 1), patterns=[fdf(r)]))
        st.pc.append(z3.ForAll([r], z3.And(0 <= fdf(r), fdf(r) <= natts, (sgn(r) == 0) == (fdf(r) == natts), sgn(r) >= -1, sgn(r) <= 1), patterns=[sgn(r)]))

        def touch(s, off):
            row, col = split_rc(off, natts)
            inb = z3.And(0 <= row, row < n, 0 <= col, col < natts)
            a, k = z3.Select(v0, off), z3.Select(k0, col)
            s.pc += [box(row, col, n, natts),
                     z3.Implies(inb, z3.And(z3.Implies(col < fdf(row), a == k), z3.Implies(col == fdf(row), z3.And(a != k, (sgn(row) < 0) == (a < k))))),
                     z3.Implies(z3.And(inb, row <= g), sgn(row) <= sgn(g)), z3.Implies(z3.And(inb, row >= g), sgn(row) >= sgn(g))]
        st.ghost.update(natts=natts, n=n, g=g, b=b, touch={'values': touch}, readonly=('values', 'key'), v0=v0, k0=k0)
        return [natts, V, n, K_]

    def fam(ex, lp):
        G = lp.entry.ghost
        out = []
        ints = ex.intvars(lp.entry)
        g = G['g']
        for v in ints:
            if v in lp.mod:
                out += [lambda s, v=v: z3.Implies(g < s.env[v], sgn(g) < 0), lambda s, v=v: z3.Implies(g > s.env[v], sgn(g) > 0),
                        lambda s, v=v: z3.Implies(g <= s.env[v], sgn(g) < 0), lambda s, v=v: z3.Implies(g >= s.env[v], sgn(g) > 0)]
            for a in ints:
                if a == v:
                    continue
                if a in lp.mod or v in lp.mod:
                    out += [lambda s, v=v, a=a: fdf(s.env[v]) >= s.env[a],
                            lambda s, v=v, a=a: z3.Implies(s.env[a] != 0, z3.And(sgn(s.env[v]) == 0, s.env[v] >= 0, s.env[v] < G['n'])),
                            lambda s, v=v, a=a: z3.Implies(s.env[a] == 0, z3.And(sgn(s.env[v]) == 0, s.env[v] >= 0, s.env[v] < G['n']))]
        return out

    def post(st, ret, ex):
        G = st.ghost
        ex.oblige(st, 'post: no match reported only if no row equals the key', z3.Implies(ret == -1, sgn(G['g']) != 0))
        ex.oblige(st, 'post: a reported position is inside the axis', z3.Or(ret == -1, z3.And(ret >= 0, ret < G['n'])))
        ex.oblige(st, 'post: the row at a reported position equals the key in every field', z3.Implies(ret != -1, fdf(ret) == G['natts']))
        s2 = st.copy()
        off = z3.simplify(ret * G['natts'] + G['b'])
        G['touch']['values'](s2, off)
        ex.oblige(s2, 'post: field by field equality', z3.Implies(ret != -1, z3.Select(G['v0'], off) == z3.Select(G['k0'], G['b'])))
    verify(u, rep, 'get_index', pre, post, [fam], note='rows sorted (weakly) in lexicographic order; natts >= 1')


# ---------------------------------------------------------------- get_indices
def check_get_indices(u, rep):
    eq = z3.Function('row_eq', I, I, z3.BoolSort())     # row r of the axis equals requested row j

    def c_get_index(ex, st, vals, k):
        G = st.ghost
        natts, V, n, key = vals
        row, col = split_rc(key.off, G['natts'])
        ex.oblige(st, 'call of get_index: the axis and its length are passed on', z3.And(natts == G['natts'], n == G['n'], z3.BoolVal(V.base == 'invalues'), V.off == 0))
        ex.oblige(st, 'call of get_index: the key is the start of a requested row', z3.And(z3.BoolVal(key.base == 'outvalues'), col == 0, row >= 0, row < G['m']))
        r = st.fresh('found')
        st.pc.append(z3.Or(z3.And(r == -1, z3.Not(eq(G['g'], row))), z3.And(r >= 0, r < n, eq(r, row))))
        return k(st, r)

    def pre(st, ex):
        natts, n, m, g, j = z3.Ints('natts n_in n_out g j')
        st.pc += [natts >= 1, n >= 0, m >= 0, n < B30, m < B30, n * natts < 2**31 - 1, m * natts < 2**31 - 1, g >= 0, g < n, j >= 0, j < m, n * natts >= 0, m * natts >= 0]
        V = ex.new_base(st, 'invalues', 'int', n * natts)
        W = ex.new_base(st, 'outvalues', 'int', m * natts)
        X = ex.new_base(st, 'indices', 'int', m)
        st.ghost.update(natts=natts, n=n, m=m, g=g, j=j, readonly=('invalues', 'outvalues'))
        # i*natts stays in range for 0 <= i < n_out (instance of the lemma 'position inside the array')
        q = z3.Int('q!')
        st.pc.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m), z3.And(q * natts >= 0, q * natts < m * natts)), patterns=[q * natts]))
        return [natts, V, n, W, m, X]

    def P(s, i, G):
        r = z3.Select(s.mem['indices'], i)
        return z3.Or(z3.And(r == -1, z3.Not(eq(G['g'], i))), z3.And(r >= 0, r < G['n'], eq(r, i)))

    def fam(ex, lp):
        G = lp.entry.ghost
        return [lambda s, v=v: z3.Implies(s.env[v] > G['j'], P(s, G['j'], G)) for v in ex.intvars(lp.entry) if v in lp.mod]

    def post(st, ret, ex):
        G = st.ghost
        ex.oblige(st, 'post: every requested row is answered with an equal row of the axis, or -1 when there is none', P(st, G['j'], G))
        ex.oblige(st, 'post: returns 0', ret == 0)
    verify(u, rep, 'get_indices', pre, post, [fam], {'get_index': c_get_index})


# ---------------------------------------------------------------- uniquify
def check_uniquify(u, rep):
    cls = z3.Function('cls', I, I)     # number of distinct rows before the first row equal to row i

    def c_get_index(ex, st, vals, k):
        G = st.ghost
        natts, V, n, key = vals
        row, col = split_rc(key.off, G['natts'])
        ex.oblige(st, 'call of get_index: field count', natts == G['natts'])
        ex.oblige(st, 'call of get_index: searches the output rows', z3.And(z3.BoolVal(V.base == 'out_atts'), V.off == 0))
        ex.oblige(st, 'call of get_index: the key is an input row', z3.And(z3.BoolVal(key.base == 'in_atts'), col == 0, row >= 0, row < G['n']))
        st.pc.append(clsfacts(row, G))
        # precondition "rows sorted": output rows 0..n-1 are the distinct input rows 0..row-1 in order (ghost row g, ghost field b)
        ex.oblige(st, 'call of get_index: the searched rows are the distinct rows so far', z3.If(row == 0, n == 0, n == cls(row - 1) + 1))
        ex.oblige(st, 'call of get_index: the searched rows are sorted', z3.Implies(cls(G['g']) < n, copied(st, G)))
        r = st.fresh('found')
        st.pc.append(z3.If(cls(row) < n, r == cls(row), r == -1))
        return k(st, r)

    def clsfacts(i, G):
        return z3.And(z3.Implies(i == 0, cls(i) == 0), z3.Implies(z3.And(i > 0, i < G['n']), z3.Or(cls(i) == cls(i - 1), cls(i) == cls(i - 1) + 1)),
                      z3.Implies(z3.And(i >= 0, i < G['n']), z3.And(cls(i) >= 0, cls(i) <= i)),
                      z3.Implies(z3.And(G['g'] <= i, i < G['n']), cls(G['g']) <= cls(i)), z3.Implies(z3.And(i >= 0, i <= G['g']), cls(i) <= cls(G['g'])),
                      z3.Implies(z3.And(i > 0, G['g'] <= i - 1, i < G['n']), cls(G['g']) <= cls(i - 1)), z3.Implies(i > 0, cls(i - 1) >= 0))

    def copied(s, G):
        # equal rows have equal class: any input row of that class has the same fields
        return z3.Select(s.mem['out_atts'], cls(G['g']) * G['natts'] + G['b']) == z3.Select(G['in0'], G['g'] * G['natts'] + G['b'])

    def pre(st, ex):
        natts, n, g, b = z3.Ints('natts n_in g b')
        st.pc += [natts >= 1, n >= 0, n < B30, natts < B30, n * natts < 2**31 - 1, g >= 0, g < n, b >= 0, b < natts, n * natts >= 0]
        V = ex.new_base(st, 'in_atts', 'int', n * natts)
        W = ex.new_base(st, 'out_atts', 'int', n * natts)
        C = ex.new_base(st, 'n_out', 'int', iv(1))
        G = st.ghost
        in0 = st.mem['in_atts']
        G.update(natts=natts, n=n, g=g, b=b, readonly=('in_atts',), in0=in0)

        def eqclass(row):
            # definition of the class: rows of equal class have equal fields
            return z3.Implies(z3.And(row >= 0, row < n, cls(row) == cls(g)), z3.Select(in0, row * natts + b) == z3.Select(in0, g * natts + b))
        G['onhavoc'] = lambda s, vs: s.pc.extend([clsfacts(v, G) for v in vs] + [eqclass(v) for v in vs])
        st.pc += [clsfacts(g, G), clsfacts(n - 1, G), box(g, b, n, natts), box(cls(g), b, n, natts)]

        def touch(s, off):
            row, col = split_rc(off, natts)
            s.pc += [box(row, col, n, natts), lin(row, col, cls(g), b, natts), lin(cls(g), b, row, col, natts), box(row, iv(0), n, natts),
                     z3.Implies(z3.And(row >= 0, row < n, row * natts + col == cls(g) * natts + b, col >= 0, col < natts), z3.And(row == cls(g), col == b)),
                     clsfacts(row, G), eqclass(row)]
        G['touch'] = {'in_atts': touch, 'out_atts': touch}
        q = z3.Int('q!')
        st.pc.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(q * natts >= 0, q * natts < n * natts)), patterns=[q * natts]))
        return [natts, V, n, W, C]

    def fam(ex, lp):
        G = lp.entry.ghost
        out = []
        ints = ex.intvars(lp.entry)
        g, b, natts = G['g'], G['b'], G['natts']
        for i in ints:
            for o in ints:
                if i == o:
                    continue
                if i in lp.mod:
                    out.append(lambda s, i=i, o=o: z3.If(s.env[i] == 0, s.env[o] == 0, s.env[o] == cls(s.env[i] - 1) + 1))
                for a in ints:
                    if a in lp.mod and a not in (i, o):
                        out.append(lambda s, i=i, o=o, a=a: z3.Implies(s.env[a] > b, z3.Select(s.mem['out_atts'], s.env[o] * natts + b) == z3.Select(G['in0'], s.env[i] * natts + b)))
            out.append(lambda s, i=i: z3.Implies(s.env[i] > cls(g), copied(s, G)))
        return out

    def post(st, ret, ex):
        G = st.ghost
        no = z3.Select(st.mem['n_out'], 0)
        ex.oblige(st, 'post: one output row per distinct input row', z3.If(G['n'] == 0, no == 0, no == cls(G['n'] - 1) + 1))
        ex.oblige(st, 'post: each input row is present in the output, in order', copied(st, G))
        ex.oblige(st, 'post: returns 0', ret == 0)
    verify(u, rep, 'uniquify', pre, post, [fam], {'get_index': c_get_index}, note='input rows sorted (weakly)')


# ---------------------------------------------------------------- cmpval
def check_cmpval(u, rep):
    f = z3.Int('f')   # first field where the rows differ (natts if none)

    def pre(st, ex):
        natts = z3.Int('natts')
        X = ex.new_base(st, 'x', 'int', natts)
        Y = ex.new_base(st, 'y', 'int', natts)
        x0, y0 = st.mem['x'], st.mem['y']
        st.pc += [natts >= 0, natts < B30, f >= 0, f <= natts]
        for m in ('x', 'y'):
            pass

        def touch(s, off):
            a, b = z3.Select(x0, off), z3.Select(y0, off)
            s.pc += [z3.Implies(z3.And(off >= 0, off < f), a == b), z3.Implies(z3.And(off == f, f < natts), a != b),
                     a >= -B30, a < B30, b >= -B30, b < B30]
        st.ghost.update(touch={'x': touch, 'y': touch}, readonly=('x', 'y'), natts=natts, x0=x0, y0=y0)
        return [natts, X, Y]

    def fam(ex, lp):
        return [lambda s, v=v: f >= s.env[v] for v in ex.intvars(lp.entry) if v in lp.mod]

    def post(st, ret, ex):
        G = st.ghost
        a, b = z3.Select(G['x0'], f), z3.Select(G['y0'], f)
        ex.oblige(st, 'post: zero exactly when all fields agree', (ret == 0) == (f == G['natts']))
        ex.oblige(st, 'post: result is an int', z3.And(ret >= -2**31, ret < 2**31))
        ex.oblige(st, 'post: sign is that of the first difference', z3.Implies(f < G['natts'], (ret < 0) == (a < b)))
    verify(u, rep, 'cmpval', pre, post, [fam], note='field values in [-2^30, 2^30)')


# ---------------------------------------------------------------- common_map
def check_common_map(u, rep):
    RA, RB = z3.Function('RA', I, I), z3.Function('RB', I, I)   # rank of a row in the common lexicographic order

    def rank(p, G):
        return (RA if p.base == 'a' else RB), split_rc(p.off, G['natts'])

    def mono(st, row, base, G):
        F, n = (RA, G['na']) if base == 'a' else (RB, G['nb'])
        gh = G['p'] if base == 'a' else G['q']
        inb = z3.And(row >= 0, row < n)
        st.pc += [z3.Implies(z3.And(inb, row <= gh), F(row) <= F(gh)), z3.Implies(z3.And(inb, row >= gh), F(row) >= F(gh))]

    def c_cmpval(ex, st, vals, k):
        G = st.ghost
        natts, x, y = vals
        rs = []
        for p in (x, y):
            F, (row, col) = rank(p, G)
            n = G['na'] if p.base == 'a' else G['nb']
            ex.oblige(st, 'call of cmpval: argument is the start of a row', z3.And(natts == G['natts'], col == 0, row >= 0, row < n, z3.BoolVal(p.base in ('a', 'b'))))
            mono(st, row, p.base, G)
            if p.base == x.base == y.base:
                pass
            rs.append(F(row))
        if x.base == y.base:
            (r1, _), (r2, _) = split_rc(x.off, G['natts']), split_rc(y.off, G['natts'])
            F = RA if x.base == 'a' else RB
            st.pc += [z3.Implies(r1 <= r2, F(r1) <= F(r2)), z3.Implies(r2 <= r1, F(r2) <= F(r1))]
        r = st.fresh('cmp')
        st.pc += [(r == 0) == (rs[0] == rs[1]), (r < 0) == (rs[0] < rs[1]), r >= -2**31, r < 2**31]
        return k(st, r)

    def pre(st, ex):
        natts, na, nb, p, q, kk, cap = z3.Ints('natts na nb p q k cap')
        st.pc += [natts >= 1, na >= 0, nb >= 0, na < B30, nb < B30, na * natts < 2**31 - 1, nb * natts < 2**31 - 1, na * natts >= 0, nb * natts >= 0,
                  p >= 0, p < na, q >= 0, q < nb, kk >= 0, cap == na + nb]
        A_ = ex.new_base(st, 'a', 'int', na * natts)
        B_ = ex.new_base(st, 'b', 'int', nb * natts)
        C = ex.new_base(st, 'nmap', 'int', iv(1))
        X = ex.new_base(st, 'a_map', 'int', cap)
        Y = ex.new_base(st, 'b_map', 'int', cap)
        st.ghost.update(natts=natts, na=na, nb=nb, p=p, q=q, k=kk, readonly=('a', 'b'))
        t = z3.Int('q!')
        for n in (na, nb):
            st.pc.append(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < n), z3.And(t * natts >= 0, t * natts < n * natts)), patterns=[t * natts]))
        return [natts, na, A_, nb, B_, C, X, Y]

    def found(s, base, row, m):
        t = z3.Int('w!')
        return z3.Exists([t], z3.And(t >= 0, t < m, z3.Select(s.mem[base], t) == row))

    def pair_ok(s, G, m):
        k = G['k']
        x, y = z3.Select(s.mem['a_map'], k), z3.Select(s.mem['b_map'], k)
        return z3.Implies(k < m, z3.And(x >= 0, x < G['na'], y >= 0, y < G['nb'], RA(x) == RB(y)))

    def last(G):
        return z3.And(z3.Implies(G['p'] + 1 < G['na'], RA(G['p'] + 1) > RA(G['p'])))

    def order(s, G, m):
        k = G['k']
        x, y, x1, y1 = [z3.Select(s.mem[b], k + d) for d in (0, 1) for b in ('a_map', 'b_map')]
        return z3.Implies(k + 1 < m, z3.And(x <= x1, y <= y1, x + y < x1 + y1))

    def fam(ex, lp):
        G = lp.entry.ghost
        out = []
        ints = [v for v in ex.intvars(lp.entry) if v in lp.mod]
        p, q, k = G['p'], G['q'], G['k']
        same = RA(p) == RB(q)
        for m in ints:
            out.append(lambda s, m=m: pair_ok(s, G, s.env[m]))
            out.append(lambda s, m=m: order(s, G, s.env[m]))
            for a in ints:
                for b in ints:
                    if len({a, b, m}) == 3:
                        out.append(lambda s, a=a, b=b, m=m: s.env[m] <= s.env[a] + s.env[b])
                        out.append(lambda s, a=a, b=b, m=m: z3.Implies(z3.And(same, z3.Or(s.env[a] > p, s.env[b] > q)), found(s, 'a_map', p, s.env[m])))
                        out.append(lambda s, a=a, b=b, m=m: z3.Implies(z3.And(same, last(G), z3.Or(s.env[a] > p, s.env[b] > q)), found(s, 'b_map', q, s.env[m])))
                        # the last pair written lies before the current position
                        out.append(lambda s, a=a, b=b, m=m: z3.Implies(k == s.env[m] - 1, z3.And(
                            z3.Select(s.mem['a_map'], k) <= s.env[a], z3.Select(s.mem['b_map'], k) <= s.env[b],
                            z3.Select(s.mem['a_map'], k) + z3.Select(s.mem['b_map'], k) < s.env[a] + s.env[b])))
        return out

    def post(st, ret, ex):
        G = st.ghost
        m = z3.Select(st.mem['nmap'], 0)
        ex.oblige(st, 'post: number of pairs within the arrays', z3.And(m >= 0, m <= G['na'] + G['nb']))
        ex.oblige(st, 'post: every listed pair has equal fields', pair_ok(st, G, m))
        ex.oblige(st, 'post: pairs are listed in increasing order', order(st, G, m))
        same = RA(G['p']) == RB(G['q'])
        ex.oblige(st, 'post: a row of the first axis present in the second is listed', z3.Implies(same, found(st, 'a_map', G['p'], m)))
        ex.oblige(st, 'post: a row of the second axis present in the first is listed', z3.Implies(z3.And(same, last(G)), found(st, 'b_map', G['q'], m)))
        ex.oblige(st, 'post: returns 0', ret == 0)
    verify(u, rep, 'common_map', pre, post, [fam], {'cmpval': c_cmpval}, note='rows of both axes sorted (weakly); output arrays of na+nb entries')


def tasks(prop, tier='quick'):
    out = [('lemmas', lambda repo, rep: lemmas(rep))]
    for f in (check_get_index, check_get_indices, check_uniquify, check_cmpval, check_common_map):
        def g(repo, rep, f=f):
            rep.assume_note('partial correctness: termination of the loops is not proved')
            rep.assume_note('rows of the axes are in lexicographic order when the kernels are called (established by argsort/lexsort in the Python callers)')
            f(unit(repo), rep)
        out.append((f.__name__[6:], g))
    return out
