"""C01/C02: contracts of the calendar functions of timeaxis.c (sidecar; the text verified is clang's AST of the real file)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'engine'))
import z3
from core import *
from cv import *

SRC = 'timeaxis.c'
MD = [0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
YMAX = 100000


def leap(y):
    return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))


Dstd = z3.Function('D', z3.IntSort(), z3.IntSort())     # days before 1 January of a year (standard calendar), abstract


def Ddef(y):
    return 365 * y + (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400


def table(vals, m):
    e = z3.IntVal(vals[-1])
    for k in range(len(vals) - 2, -1, -1):
        e = z3.If(m == k, z3.IntVal(vals[k]), e)
    return e


MLEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
CUM = [0]
for x in MLEN:
    CUM.append(CUM[-1] + x)
CUML = [c + (1 if i >= 2 else 0) for i, c in enumerate(CUM)]   # cumulative days in a leap year


class Cal:
    def __init__(self, kind):
        self.kind = kind

    def D(self, y):
        k = self.kind
        return Dstd(y) if k == 'std' else 365 * y if k == '365' else 360 * y if k == '360' else z3.IntVal(0)

    def before_month(self, y, m):
        k = self.kind
        if k == '360':
            return (m - 1) * 30
        if k == 'yearless':
            return z3.IntVal(0)
        a = table([0] + CUM[:12], m)
        if k == '365':
            return a
        return a + z3.If(z3.And(leap(y), m > 2), 1, 0)

    def mlen(self, y, m):
        k = self.kind
        if k == '360':
            return z3.IntVal(30)
        a = table([0] + MLEN, m)
        if k == '365':
            return a
        return a + z3.If(z3.And(leap(y), m == 2), 1, 0)

    def valid(self, t):
        y, m, d, h, mi, s = t
        tod = z3.And(h >= 0, h < 24, mi >= 0, mi < 60, s >= 0, s < 60)
        if self.kind == 'yearless':
            return z3.And(y == 0, m == 1, tod)
        return z3.And(m >= 1, m <= 12, d >= 1, d <= self.mlen(y, m), tod)

    def day(self, t):
        y, m, d = t[:3]
        return self.D(y) + self.before_month(y, m) + d - 1

    def E(self, t):
        """seconds elapsed between 1 January of year 0 and the date, on this calendar"""
        return self.day(t) * 86400 + t[3] * 3600 + t[4] * 60 + t[5]


FLD = ('year', 'month', 'day', 'hour', 'minute', 'second')


def dfacts(st, *ys):
    """instances of the lemmas about D proved in lemmas()"""
    for y in ys:
        st.pc.append(Dstd(y + 1) - Dstd(y) == 365 + z3.If(leap(y), 1, 0))
    for a in ys:
        for b in ys:
            if a is not b:
                st.pc.append(z3.Implies(a <= b, z3.And(Dstd(b) - Dstd(a) >= 365 * (b - a), Dstd(b) - Dstd(a) <= 366 * (b - a))))


def c_ndays(ex, st, vals, k):
    """contract of ndays: the number of days between 1 Jan of two years"""
    a, b = vals
    ref = st.ghost.get('ref')
    dfacts(st, a, b, *([ref[0]] if ref is not None else []))
    ex.oblige(st, 'call of ndays: years in range', z3.And(a >= -4 * YMAX, a <= 4 * YMAX, b >= -4 * YMAX, b <= 4 * YMAX))
    r = st.fresh('ndays')
    st.pc.append(r == Dstd(b) - Dstd(a))
    return k(st, r)


def check_ndays(u, rep):
    def pre(st, ex):
        a, b = z3.Ints('year1 year2')
        st.pc += [a >= -4 * YMAX, a <= 4 * YMAX, b >= -4 * YMAX, b <= 4 * YMAX]
        st.ghost['a'], st.ghost['b'] = a, b
        return [a, b]

    def post(st, ret, ex):
        ex.oblige(st, 'post: result is the number of days between the two first-of-Januaries', ret == Ddef(st.ghost['b']) - Ddef(st.ghost['a']))
    verify(u, rep, 'ndays', pre, post)


def lemmas(rep):
    y, k = z3.Ints('y k')

    def L(name, pc, g):
        s, be, m, t = valid(pc, g, 60000)
        rep.add(Obl('lemma ' + name, s, be, t, m))
    L('D(y+1)-D(y) = 365 + leap(y)', [], Ddef(y + 1) - Ddef(y) == 365 + z3.If(leap(y), 1, 0))
    L('365k <= D(y+k)-D(y) (step of the induction on k)', [k >= 0, Ddef(y + k) - Ddef(y) >= 365 * k], Ddef(y + k + 1) - Ddef(y) >= 365 * (k + 1))
    L('D(y+k)-D(y) <= 366k (step of the induction on k)', [k >= 0, Ddef(y + k) - Ddef(y) <= 366 * k], Ddef(y + k + 1) - Ddef(y) <= 366 * (k + 1))
    for kind in ('std', '365', '360', 'yearless'):
        c = Cal(kind)
        t = [z3.Int('a_' + f) for f in FLD]
        u = [z3.Int('b_' + f) for f in FLD]
        st = State()
        if kind == 'std':
            dfacts(st, t[0], u[0])
            st.pc += [z3.Implies(t[0] < u[0], Dstd(u[0]) >= Dstd(t[0] + 1)), z3.Implies(u[0] < t[0], Dstd(t[0]) >= Dstd(u[0] + 1))]
            # (monotonicity: instance of the lemma above with a = y+1, b)
        lex = z3.BoolVal(False)
        for a, b in reversed(list(zip(t, u))):
            lex = z3.Or(a < b, z3.And(a == b, lex))
        L('%s calendar: a later valid date has a larger elapsed time' % kind, st.pc + [c.valid(t), c.valid(u), lex], c.E(t) < c.E(u))
        L('%s calendar: elapsed time identifies a valid date' % kind, st.pc + [c.valid(t), c.valid(u), c.E(t) == c.E(u)], z3.And(*[a == b for a, b in zip(t, u)]))
        v = z3.Int('v')
        r = [z3.Int('r_' + f) for f in FLD]
        L('%s calendar: round trip from the two contracts' % kind, st.pc + [c.valid(t), c.valid(u), c.E(t) - c.E(r) == v, c.E(u) - c.E(r) == v], z3.And(*[a == b for a, b in zip(t, u)]))
        r2 = [z3.Int('q_' + f) for f in FLD]
        L('%s calendar: rebasing shifts every offset by the same amount' % kind, [], (c.E(t) - c.E(r)) - (c.E(t) - c.E(r2)) == (c.E(u) - c.E(r)) - (c.E(u) - c.E(r2)))


def common_pre(st, ex, kind, vals_in):
    c = Cal(kind)
    n = z3.Int('n')
    g = z3.Int('g')   # ghost: an arbitrary element
    st.pc += [n >= 0, n < 2**31, g >= 0, g < n]
    ref = [z3.Int('ref_' + f) for f in FLD]
    st.pc.append(c.valid(ref))
    if kind != 'yearless':
        st.pc += [ref[0] >= -YMAX, ref[0] <= YMAX]
    else:
        st.pc += [ref[2] >= -20000000, ref[2] <= 20000000]
    arr = {}
    for f in FLD:
        arr[f] = ex.new_base(st, f, 'int', n)
    val = ex.new_base(st, 'val', 'long long', n)
    st.ghost.update(n=n, g=g, ref=ref, cal=c, arr=arr, val0=st.mem['val'], mem0={f: st.mem[f] for f in FLD})
    if kind == 'std':
        dfacts(st, ref[0])
    return n, g, ref, arr, val


def at(st, f, i):
    return z3.Select(st.mem[f], i)


VMAX = 86400 * 366 * YMAX


def check_val_as_date(u, rep, kind):
    def pre(st, ex):
        n, g, ref, arr, val = common_pre(st, ex, kind, True)
        st.ghost['readonly'] = ('val',)
        lim = VMAX if kind != 'yearless' else 20000000 * 86400
        v0 = st.mem['val']
        st.ghost['elem'] = {'val': lambda i, x=None: z3.And(z3.Select(v0, i) >= -lim, z3.Select(v0, i) <= lim)}
        st.pc.append(st.ghost['elem']['val'](g))
        return [n] + ref + [val] + [arr[f] for f in FLD]

    def P(st, i, G):
        c = G['cal']
        t = [at(st, f, i) for f in FLD]
        return z3.And(c.valid(t), c.E(t) - c.E(G['ref']) == z3.Select(G['val0'], i))

    def fam(ex, lp):
        G = lp.entry.ghost
        out = []
        ints = ex.intvars(lp.entry)
        # after element g has been visited, it satisfies the postcondition
        for i in ints:
            if i in lp.mod:
                out.append(lambda s, i=i: z3.Implies(s.env[i] > G['g'], P(s, G['g'], G)))
        # conservation of the instant: D(y)*86400 + s == const ; D(y) + d == const
        c = G['cal']
        for a in lp.mod:
            if a not in ints:
                continue
            for b in lp.mod:
                if b == a or b not in ints:
                    continue
                for unit in (86400, 1):
                    e0 = c.D(lp.entry.env[a]) * unit + lp.entry.env[b]
                    out.append(lambda s, a=a, b=b, unit=unit, e0=e0: c.D(s.env[a]) * unit + s.env[b] == e0)
        # facts about D at every year-like variable are added through the contract of ndays
        for m in ints:
            for dd in ints:
                if m == dd or m not in lp.mod:
                    continue
                for y in ints:
                    if y in (m, dd):
                        continue
                    if kind == 'std':
                        out.append(lambda s, m=m, dd=dd, y=y: z3.Implies(s.env[m] < 12, c.before_month(s.env[y], s.env[m] + 1) > s.env[dd]))
                if kind in ('365',):
                    out.append(lambda s, m=m, dd=dd: z3.Implies(s.env[m] < 12, c.before_month(None, s.env[m] + 1) >= s.env[dd]))
            if m in lp.mod:
                out.append(lambda s, m=m: s.env[m] <= 12)
        # a negative remainder means nothing has been adjusted yet
        if kind == 'std':
            for b in ints:
                if b in lp.mod:
                    for a in ints:
                        if a in lp.mod:
                            out.append(lambda s, a=a, b=b, e0=lp.entry.env[a]: z3.Implies(s.env[b] < 0, s.env[a] == e0))
        # magnitude bounds so that the machine arithmetic stays in range
        for a in ints:
            if a in lp.mod:
                for bnd in (3 * YMAX, 4 * VMAX):
                    out.append(lambda s, a=a, bnd=bnd: z3.And(s.env[a] >= -bnd, s.env[a] <= bnd))
        return out

    def post(st, ret, ex):
        G = st.ghost
        ex.oblige(st, 'post: every element is a valid date', G['cal'].valid([at(st, f, G['g']) for f in FLD]))
        c = G['cal']
        t = [at(st, f, G['g']) for f in FLD]
        ex.oblige(st, 'post: the date lies exactly the given offset after the reference', c.E(t) - c.E(G['ref']) == z3.Select(G['val0'], G['g']))
        ex.oblige(st, 'post: returns 0', ret == 0)
    verify(u, rep, 'val_as_date_' + kind, pre, post, [fam], {'ndays': c_ndays})


def check_date_as_val(u, rep, kind):
    def pre(st, ex):
        n, g, ref, arr, val = common_pre(st, ex, kind, False)
        st.ghost['readonly'] = FLD
        c = st.ghost['cal']
        m0 = st.ghost['mem0']

        def elem(i, x=None):
            t = [z3.Select(m0[f], i) for f in FLD]
            yb = z3.And(t[0] >= -2 * YMAX, t[0] <= 2 * YMAX) if kind != 'yearless' else z3.And(t[2] >= -20000000, t[2] <= 20000000)
            return z3.And(c.valid(t), yb)
        st.ghost['elem'] = {f: elem for f in FLD}
        st.pc.append(elem(g))
        st.ghost['t'] = lambda s, i: [z3.Select(s.ghost['mem0'][f], i) for f in FLD]
        return [n] + ref + [arr[f] for f in FLD] + [val]

    def P(st, i, G):
        c = G['cal']
        return z3.Select(st.mem['val'], i) == c.E([z3.Select(G['mem0'][f], i) for f in FLD]) - c.E(G['ref'])

    def fam(ex, lp):
        G = lp.entry.ghost
        return [lambda s, i=i: z3.Implies(s.env[i] > G['g'], P(s, G['g'], G)) for i in ex.intvars(lp.entry) if i in lp.mod]

    def post(st, ret, ex):
        ex.oblige(st, 'post: offset is the time elapsed since the reference on this calendar', P(st, st.ghost['g'], st.ghost))
        ex.oblige(st, 'post: returns 0', ret == 0)
    verify(u, rep, 'date_as_val_' + kind, pre, post, [fam], {'ndays': c_ndays})


def unit(repo):
    return load_c(os.path.join(repo, 'pygeode', SRC))


NOTES = ['calendar preconditions: reference date valid, |reference year| <= %d, offsets within %d calendar years of it' % (YMAX, YMAX),
         'double arithmetic in ndays (k/4., k/100., k/400.) treated as exact: |k| < 2^31 so the quotient cannot round across an integer',
         'partial correctness: termination of the loops is not proved']


def tasks(prop, tier='quick'):
    def T(name, f):
        def g(repo, rep):
            for a in NOTES:
                rep.assume_note(a)
            f(repo, rep)
        return (name, g)
    out = [T('lemmas', lambda repo, rep: lemmas(rep)), T('ndays', lambda repo, rep: check_ndays(unit(repo), rep))]
    for k in ('std', '365', '360', 'yearless'):
        if prop == 'C01':
            out.append(T('val_as_date_' + k, lambda repo, rep, k=k: check_val_as_date(unit(repo), rep, k)))
        out.append(T('date_as_val_' + k, lambda repo, rep, k=k: check_date_as_val(unit(repo), rep, k)))
    return out
