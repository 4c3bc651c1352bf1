"""VC generator for Python: the real source is executed on symbolic values ("lifted" execution).

The function under contract is taken from the repository's file on every run.  A mechanical rewriting of its syntax tree replaces
  - numpy by contracts of the numpy functions used (class NP below),
  - the builtins len, range, zip, min, ... by versions that also accept symbolic values,
  - imports from pygeode by lifted modules or by contracts,
  - list comprehensions and generator expressions over sequences of symbolic length by element-wise definitions,
  - for loops over sequences of symbolic length by an inductive invariant (given in the sidecar contract),
and everything else is Python itself.  Branches on symbolic conditions are explored by re-execution, one path at a time; every
obligation is discharged by the SMT solver under the path condition, for all values of the symbols.
"""
import ast, sys, os, time, traceback, types, weakref, builtins, itertools, textwrap
import z3
from core import *

REAL_SITE = '/opt/venv/lib/python3.12/site-packages'


def real_numpy():
    if REAL_SITE not in sys.path:
        sys.path.insert(0, REAL_SITE)
    import numpy
    return numpy


np_ = real_numpy()
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(BaseException):
    pass


class PathEnd(BaseException):
    pass


CUR = None


class Each:
    def __init__(self, ctx, nm, lo, n):
        self.ctx, self.nm, self.lo, self.n = ctx, nm, lo, n

    def __enter__(self):
        k = self.ctx.fresh(self.nm)
        self.ctx.guards.append(z3.And(k >= zi(self.lo), k < zi(self.n)))
        self.ctx.term(k)
        return SymInt(k)

    def __exit__(self, *a):
        self.ctx.guards.pop()


class Ctx:
    def __init__(self, rep, fname, prefix, deadline):
        self.rep, self.fname, self.prefix, self.deadline = rep, fname, prefix, deadline
        self.pc, self.taken, self.alts, self.n = [], [], [], 0
        self.obliged = 0
        self.universals, self.pool = [], []
        self.known = set()
        self.masks, self.searches, self.accumulated, self.sums, self.convs = [], [], [], [], []
        self.per_element = None
        self.depth = 0
        self.folds = []
        self.guards, self.nonempty = [], []
        self.touched = []            # arrays changed in place
        self.infinite = None         # set where infinities may occur (values are then compared only)
        self.numpy_funcs = {}
        self.contents, self.sorters = {}, []

    def each(self, nm, n, lo=0):
        """with ctx.each('k', n) as k: obligations about every k in lo..n-1 (none if that is empty); nothing else is assumed"""
        return Each(self, nm, lo, n)

    def count(self):
        self.n += 1
        return self.n

    def kept_before(self, mark, what):
        """nothing that existed at mark has been changed in place since"""
        for a in self.touched:
            if a.serial <= mark:
                raise Unsupported('%s changes an array in place that exists before the loop, through a call' % what)

    def fresh(self, nm, sort=I):
        self.n += 1
        return z3.Const('%s!%d' % (nm, self.n), sort)

    def func(self, nm, *sorts):
        self.n += 1
        return z3.Function('%s!%d' % (nm, self.n), *sorts)

    def int(self, nm, lo=None, hi=None, some=False):
        """an arbitrary integer of a range; the range must be known not to be empty (some: its being non-empty is a premise)"""
        if hi is not None and lo is not None and not some:
            c = z3.simplify(zi(lo) < zi(hi))
            if not z3.is_true(c) and not any(c.eq(x) for x in self.nonempty):
                if valid(self.pc, c, 4000, fallback=False)[0] != 'proved':
                    self.rep.add(Obl('%s: the range of %s is not empty (nothing is assumed by it)' % (self.fname, nm), 'error', detail='%s\n%s' % (c, ''.join(traceback.format_stack(limit=6)[:-1]))))
                self.nonempty.append(c)
        x = self.fresh(nm)
        if lo is not None:
            self.assume(x >= zi(lo))
        if hi is not None:
            self.assume(x < zi(hi))
        return SymInt(x)

    def assume(self, c):
        c = zb(c)
        if z3.is_true(c):
            return
        i = c.get_id()
        if i in self.known:
            return
        self.known.add(i)
        self.pc.append(c)

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = len(self.taken)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            if time.time() > self.deadline:
                raise Unsupported('time budget of the symbolic execution exceeded')
            t = feasible(self.pc + [c], 2000)
            f = feasible(self.pc + [z3.Not(c)], 2000)
            if t and f:
                d = True
                self.alts.append(self.taken + [False])
            elif t or f:
                d = t
            else:
                raise PathEnd()
        self.taken.append(d)
        self.assume(c if d else z3.Not(c))
        return d

    def choose(self, k):
        """fork over k alternatives"""
        for i in range(k - 1):
            if self.branch(self.fresh('choice', B)):
                return i
        return k - 1

    def oblige(self, name, goal, timeout=None):
        goal = zb(goal)
        if self.guards:
            goal = z3.Implies(z3.And(*self.guards), goal)
        self.obliged += 1
        nm = '%s: %s' % (self.fname, name)
        key = (nm, goal.get_id(), tuple(c.get_id() for c in self.pc))
        if key in self.rep.cache:
            return
        status, be, model, secs = valid(self.pc, goal, timeout)
        self.rep.cache[key] = (status, goal, list(self.pc))
        o = Obl(nm, status, be, secs, model, detail='' if status == 'proved' else goal.sexpr()[:800] + '\npath: %s' % ''.join('01'[int(bool(x))] for x in self.taken))
        self.rep.add(o)
        # known from here on (as in any verification-condition generator: checked once, then available)
        self.assume(goal)

    def check(self, goal, timeout=3000):
        return valid(self.pc + self.guards, zb(goal), timeout, fallback=False)[0] == 'proved'

    def universal(self, f):
        """f holds at every index; instantiated at the index terms that occur"""
        self.universals.append(f)
        self.depth += 1
        for t in list(self.pool):
            self.assume(f(t))
        self.depth -= 1

    def term(self, t):
        """an index term: instantiate the universal facts there (terms that arise in an instantiation are not taken further)"""
        if self.depth > 0:
            return
        t = z3.simplify(zi(t))
        if any(t.eq(x) for x in self.pool):
            return
        self.pool.append(t)
        self.depth += 1
        for f in list(self.universals):
            self.assume(f(t))
        self.depth -= 1

    def induction(self, name, P, n, at=()):
        """P(0) and P(k) => P(k+1) below n: P holds for 0 <= k < n"""
        n = zi(n)
        k = self.fresh('k')
        self.oblige(name + ' (base)', z3.Implies(n > 0, P(z3.IntVal(0))))
        pc, kn = list(self.pc), set(self.known)
        self.assume(z3.And(k >= 0, k + 1 < n))
        self.assume(P(k))
        self.oblige(name + ' (step)', P(k + 1))
        self.pc, self.known = pc, kn
        for t in at:
            t = zi(t)
            self.assume(z3.Implies(z3.And(t >= 0, t < n), P(t)))
        self.universal(lambda t: z3.Implies(z3.And(t >= 0, t < n), P(t)))


# ---------------------------------------------------------------- scalars
def zi(x):
    if isinstance(x, SymInt):
        return x.z
    if isinstance(x, SymBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, (bool, int, np_.integer, np_.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, SymArr) and x.ndim == 0:
        return zi(x.fn(()))
    raise Unsupported('not an integer: %r' % (type(x),))


def zb(x):
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, (bool, np_.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, SymInt):
        return x.z != 0
    raise Unsupported('not a truth value: %r' % (type(x),))


def mk_int(z):
    z = z3.simplify(z)
    return z.as_long() if z3.is_int_value(z) else SymInt(z)


def mk_bool(z):
    z = z3.simplify(z)
    return True if z3.is_true(z) else False if z3.is_false(z) else SymBool(z)


def mk(z):
    if z.sort() == I:
        return mk_int(z)
    if z.sort() == B:
        return mk_bool(z)
    return SymReal(z)


def scalar(x):
    return isinstance(x, (int, float, complex, bool, np_.number, np_.bool_, SymInt, SymReal, SymBool))


def is_int(x):
    return isinstance(x, (SymInt, SymBool, int, np_.integer, np_.bool_)) or isinstance(x, SymArr) and x.ndim == 0 and x.kind in 'ib'


class SymBool:
    __pytype__ = bool
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return CUR.branch(self.z)

    def _b(self, o, f):
        if isinstance(o, SymArr):
            return NotImplemented
        return mk_bool(f(self.z, zb(o)))

    def __and__(self, o): return self._b(o, lambda a, b: z3.And(a, b))
    def __or__(self, o): return self._b(o, lambda a, b: z3.Or(a, b))
    def __xor__(self, o): return self._b(o, lambda a, b: z3.Xor(a, b))
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__
    def __invert__(self): return mk_bool(z3.Not(self.z))
    def __eq__(self, o): return mk_bool(self.z == zb(o))
    def __ne__(self, o): return mk_bool(self.z != zb(o))
    size, ndim, shape, kind = 1, 0, (), 'b'
    def __hash__(self): raise Unsupported('hash of a symbolic value')
    def __add__(self, o): return mk_int(zi(self)) + o
    __radd__ = __add__
    def __mul__(self, o): return mk_int(zi(self)) * o
    __rmul__ = __mul__
    def __index__(self): raise Unsupported('a symbolic truth value where Python needs a number')


def fdiv(a, b):
    """floor division"""
    if z3.is_int_value(b) and b.as_long() > 0:
        return a / b
    return z3.If(b > 0, a / b, (-a) / (-b))


class SymInt:
    __pytype__ = int
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def _a(self, o, f, rev=False):
        if isinstance(o, (SymArr, SymReal)) or isinstance(o, np_.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, (float, np_.floating)):
            return getattr(SymReal(z3.ToReal(self.z)), f.__name__ if False else '_a')(o, f, rev)
        if not is_int(o):
            return NotImplemented
        a, b = self.z, zi(o)
        return mk_int(f(b, a) if rev else f(a, b))

    def __add__(self, o): return self._a(o, lambda a, b: a + b)
    def __radd__(self, o): return self._a(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._a(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._a(o, lambda a, b: a - b, True)
    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return rep_seq(o, self)
        return self._a(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __floordiv__(self, o): return self._div(o, False, fdiv)
    def __rfloordiv__(self, o): return self._div(o, True, fdiv)
    def __mod__(self, o): return self._div(o, False, lambda a, b: a - b * fdiv(a, b))
    def __rmod__(self, o): return self._div(o, True, lambda a, b: a - b * fdiv(a, b))

    def _div(self, o, rev, f):
        if isinstance(o, (SymArr, SymReal, float)):
            return NotImplemented
        d = self.z if rev else zi(o)
        CUR.oblige('no division by zero', d != 0)
        return self._a(o, f, rev)

    def __truediv__(self, o):
        return SymReal(z3.ToReal(self.z)) / o

    def __rtruediv__(self, o):
        return o / SymReal(z3.ToReal(self.z)) if isinstance(o, SymReal) else SymReal(toreal(o)) / SymReal(z3.ToReal(self.z))

    def __neg__(self): return mk_int(-self.z)
    def __pos__(self): return self
    def __abs__(self): return mk_int(z3.If(self.z >= 0, self.z, -self.z))

    def _c(self, o, f):
        if isinstance(o, (SymArr,)):
            return NotImplemented
        if o is None or isinstance(o, (str, tuple, list, type)):
            return NotImplemented
        if isinstance(o, SymReal) or isinstance(o, (float, np_.floating)):
            return SymReal(z3.ToReal(self.z))._c(o, f)
        if not is_int(o):
            return NotImplemented
        return mk_bool(f(self.z, zi(o)))

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._c(o, lambda a, b: a == b)
    def __ne__(self, o): return self._c(o, lambda a, b: a != b)
    def __hash__(self): raise Unsupported('hash of a symbolic value')
    def __bool__(self): return CUR.branch(self.z != 0)
    def __index__(self): raise Unsupported('a symbolic integer where Python needs a number')
    def __int__(self): raise Unsupported('a symbolic integer where Python needs a number')
    def __float__(self): raise Unsupported('a symbolic integer where Python needs a number')
    size, ndim, shape = 1, 0, ()
    def __repr__(self): return 'SymInt(%s)' % self.z


def toreal(o):
    if isinstance(o, SymReal):
        return o.v
    if isinstance(o, (SymInt, SymBool)):
        return z3.ToReal(zi(o))
    if isinstance(o, (bool, int, np_.integer, np_.bool_)):
        return z3.RealVal(int(o))
    if isinstance(o, (float, np_.floating)):
        if o != o or o in (float('inf'), float('-inf')):
            if o == o and CUR.infinite is not None:
                return CUR.infinite if o > 0 else -CUR.infinite
            raise Unsupported('non-finite constant')
        from fractions import Fraction
        return z3.RealVal(str(Fraction(float(o))))
    if isinstance(o, SymArr) and o.ndim == 0:
        return toreal(o.fn(()))
    raise Unsupported('not a real: %r' % (type(o),))


FALSE = z3.BoolVal(False)


def isnanc(o):
    if isinstance(o, SymReal):
        return o.nan
    if isinstance(o, (float, np_.floating)) and o != o:
        return z3.BoolVal(True)
    return FALSE


class SymReal:
    """a floating-point number, as a real number or NaN (rounding is not modelled)"""
    __pytype__ = float
    __slots__ = ('v', 'nan')

    def __init__(self, v, nan=FALSE):
        self.v, self.nan = v, nan

    def _a(self, o, f, rev=False):
        if isinstance(o, SymArr) or isinstance(o, np_.ndarray) and o.ndim:
            return NotImplemented
        if not scalar(o):
            return NotImplemented
        if CUR.infinite is not None:
            raise Unsupported('arithmetic where values may be infinite')
        n = z3.simplify(z3.Or(self.nan, isnanc(o)))
        b = z3.RealVal(0) if isinstance(o, (float, np_.floating)) and o != o else toreal(o)
        return SymReal(z3.simplify(f(b, self.v) if rev else f(self.v, b)), n)

    def __add__(self, o): return self._a(o, lambda a, b: a + b)
    def __radd__(self, o): return self._a(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._a(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._a(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._a(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._a(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._a(o, lambda a, b: a / b, True)
    def __pow__(self, o):
        if o == 2:
            return self * self
        raise Unsupported('power')
    def __neg__(self): return SymReal(-self.v, self.nan)
    def __abs__(self): return SymReal(z3.If(self.v >= 0, self.v, -self.v), self.nan)

    def _c(self, o, f, ne=False):
        if isinstance(o, SymArr) or o is None or isinstance(o, str):
            return NotImplemented
        if isinstance(o, (float, np_.floating)) and o != o:
            return ne
        n = z3.Or(self.nan, isnanc(o))
        if isinstance(o, (float, np_.floating)) and abs(o) == float('inf') and CUR.infinite is None:
            big = z3.RealVal(1) if o > 0 else z3.RealVal(-1)
            return mk_bool(z3.And(z3.Not(n), z3.BoolVal(bool(z3.is_true(z3.simplify(f(z3.RealVal(0), big)))))))
        c = f(self.v, toreal(o))
        return mk_bool(z3.Or(n, c) if ne else z3.And(z3.Not(n), c))

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._c(o, lambda a, b: a == b)
    def __ne__(self, o): return self._c(o, lambda a, b: a != b, True)
    def __hash__(self): raise Unsupported('hash of a symbolic value')
    def __bool__(self): return CUR.branch(z3.Or(self.nan, self.v != 0))
    def __float__(self): raise Unsupported('a symbolic number where Python needs a number')
    size, ndim, shape = 1, 0, ()
    def __repr__(self): return 'SymReal(%s)' % self.v


def same(a, b):
    """identical values (missing or equal)"""
    if isinstance(a, SymReal) or isinstance(b, SymReal):
        na, nb = isnanc(a), isnanc(b)
        va = z3.RealVal(0) if z3.is_true(na) else toreal(a)
        vb = z3.RealVal(0) if z3.is_true(nb) else toreal(b)
        return z3.And(na == nb, z3.Or(na, va == vb))
    if isinstance(a, (SymBool, bool, np_.bool_)) and isinstance(b, (SymBool, bool, np_.bool_)):
        return zb(a) == zb(b)
    if is_int(a) and is_int(b):
        return zi(a) == zi(b)
    if scalar(a) and scalar(b):
        return same(SymReal(toreal(a)) if not isnan_const(a) else SymReal(z3.RealVal(0), z3.BoolVal(True)), b)
    raise Unsupported('comparison of %r and %r' % (type(a), type(b)))


def isnan_const(a):
    return isinstance(a, (float, np_.floating)) and a != a


def ite(c, a, b):
    c = z3.simplify(zb(c))
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, SymReal) or isinstance(b, SymReal) or isinstance(a, (float, np_.floating)) or isinstance(b, (float, np_.floating)):
        na, nb = isnanc(a), isnanc(b)
        va = z3.RealVal(0) if z3.is_true(na) else toreal(a)
        vb = z3.RealVal(0) if z3.is_true(nb) else toreal(b)
        return SymReal(z3.If(c, va, vb), z3.simplify(z3.If(c, na, nb)))
    if isinstance(a, (SymBool, bool, np_.bool_)) and isinstance(b, (SymBool, bool, np_.bool_)):
        return mk_bool(z3.If(c, zb(a), zb(b)))
    return mk_int(z3.If(c, zi(a), zi(b)))


# ---------------------------------------------------------------- slices
class SymSlice:
    """a slice object whose bounds may be symbolic"""
    __pytype__ = slice

    def __init__(self, *a):
        if len(a) == 1:
            a = (None, a[0], None)
        elif len(a) == 2:
            a = (a[0], a[1], None)
        self.start, self.stop, self.step = a

    def indices(self, n):
        return slice_indices(self, n)

    def __eq__(self, o):
        return isinstance(o, (slice, SymSlice)) and bool(self.start == o.start) and bool(self.stop == o.stop) and bool(self.step == o.step)

    def __hash__(self):
        raise Unsupported('hash of a slice')

    def __repr__(self):
        return 'SymSlice(%r,%r,%r)' % (self.start, self.stop, self.step)


def slice_indices(s, n):
    """contract of slice.indices (Python reference, 'slice objects'): the documented adjustment of missing, negative and
    out-of-range bounds"""
    step = 1 if s.step is None else s.step
    n = zi(n)
    zs = zi(step)
    CUR.oblige('slice step is not zero', zs != 0)
    if isinstance(step, SymInt):
        pos = bool(SymBool(zs > 0))
    else:
        pos = step > 0
    lo, hi = (z3.IntVal(0), n) if pos else (z3.IntVal(-1), n - 1)

    def adj(v, default):
        if v is None:
            return default
        v = zi(v)
        if not z3.is_int_value(v) and pos and CUR.check(z3.And(v >= 0, v <= n), 1000):
            return v
        v = z3.If(v < 0, v + n, v)
        return z3.If(v < lo, lo, z3.If(v > hi, hi, v))
    return mk_int(adj(s.start, lo if pos else hi)), mk_int(adj(s.stop, hi if pos else lo)), step


def mul_mono(a, b, d):
    """a <= b and d >= 0: a*d <= b*d (lemma 'multiplication is monotone')"""
    CUR.assume(z3.Implies(z3.And(a <= b, d >= 0), a * d <= b * d))
    CUR.assume(z3.Implies(z3.And(a <= b, d <= 0), a * d >= b * d))


def range_len(start, stop, step):
    """number of elements of range(start, stop, step)"""
    a, b, d = z3.simplify(zi(start)), z3.simplify(zi(stop)), z3.simplify(zi(step))
    if z3.is_int_value(d):
        k = d.as_long()
        if k == 0:
            raise ValueError('range() arg 3 must not be zero')
        x = (b - a) if k > 0 else (a - b)
        k = abs(k)
        return mk_int(z3.If(x <= 0, z3.IntVal(0), x if k == 1 else (x + (k - 1)) / k))
    CUR.oblige('range step is not zero', d != 0)
    L = CUR.fresh('rlen')
    up = z3.And(d > 0, a < b)
    dn = z3.And(d < 0, a > b)
    CUR.assume(L >= 0)
    CUR.assume(z3.Implies(up, z3.And(L >= 1, (L - 1) * d < b - a, b - a <= L * d)))
    CUR.assume(z3.Implies(dn, z3.And(L >= 1, (L - 1) * d > b - a, b - a >= L * d)))
    CUR.assume(z3.Implies(z3.Not(z3.Or(up, dn)), L == 0))
    return SymInt(L)


# ---------------------------------------------------------------- sequences of symbolic length
class SymSeq:
    """a list (or tuple) of symbolic length: element at index k is get(k)"""
    def __init__(self, n, get, pytype=list):
        self.n, self.get, self.__pytype__ = n, get, pytype

    def __symlen__(self):
        return self.n

    def __len__(self):
        if isinstance(self.n, SymInt):
            raise Unsupported('length of a symbolic sequence')
        return self.n

    def at(self, k):
        return self.get(k)

    def __getitem__(self, k):
        if isinstance(k, (slice, SymSlice)):
            a, b, d = slice_indices(k, self.n)
            m = range_len(a, b, d)
            return SymSeq(m, lambda i, a=a, d=d: self.get(mk_int(zi(a) + zi(i) * zi(d))), self.__pytype__)
        z = zi(k)
        z = z3.If(z < 0, z + zi(self.n), z)
        CUR.oblige('list index in range', z3.And(z >= 0, z < zi(self.n)))
        return self.get(mk_int(z))

    def __add__(self, o):
        if isinstance(o, (list, tuple)):
            o = from_list(o)
        n1 = self.n

        def get(k):
            if bool(mk_bool(zi(k) < zi(n1))):
                return self.get(k)
            return o.get(mk_int(zi(k) - zi(n1)))
        return SymSeq(mk_int(zi(n1) + zi(o.n)), get)

    def __radd__(self, o):
        return from_list(o) + self

    def __iter__(self):
        if not isinstance(self.n, SymInt):
            return iter([self.get(k) for k in range(self.n)])
        raise Unsupported('iteration over a sequence of symbolic length')

    def __contains__(self, x):
        raise Unsupported('membership in a symbolic sequence')


def from_list(l):
    l = list(l)

    def get(k):
        if isinstance(k, int):
            return l[k]
        for j, x in enumerate(l[:-1]):
            if bool(mk_bool(zi(k) == j)):
                return x
        return l[-1]
    return SymSeq(len(l), get)


def rep_seq(o, n):
    if len(o) != 1:
        raise Unsupported('repetition of a longer list a symbolic number of times')
    return SymSeq(mk_int(z3.If(zi(n) > 0, zi(n), 0)), lambda k: o[0], type(o))


class SymRange(SymSeq):
    __pytype__ = range

    def __init__(self, *a):
        if len(a) == 1:
            a = (0, a[0], 1)
        elif len(a) == 2:
            a = (a[0], a[1], 1)
        self.start, self.stop, self.step = a
        SymSeq.__init__(self, range_len(*a), lambda k: mk_int(zi(self.start) + zi(k) * zi(self.step)), range)

    def __reversed__(self):
        return SymSeq(self.n, lambda k: self.get(mk_int(zi(self.n) - 1 - zi(k))))


# ---------------------------------------------------------------- arrays
def prod(l):
    p = 1
    for x in l:
        p = p * x
    return p


def kind_of(x):
    if isinstance(x, (SymBool, bool, np_.bool_)):
        return 'b'
    if isinstance(x, (SymInt, int, np_.integer)):
        return 'i'
    return 'f'


DT = {'i': np_.dtype('int64'), 'f': np_.dtype('float64'), 'b': np_.dtype('bool')}


class SymArr:
    """numpy array of concrete rank; every extent may be symbolic; fn(index tuple) gives the element"""
    __pytype__ = np_.ndarray
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, shape, fn, dtype):
        self.shape_ = tuple(mk_int(zi(s)) for s in shape)
        self.fn = fn
        self.dtype = np_.dtype(dtype)
        self.shared = False
        self.serial = CUR.count() if CUR is not None else 0
        self.views = []
        self.flags = types.SimpleNamespace(writeable=True)
        self.incr = False        # strictly increasing (1-d)

    # -- basics
    @property
    def shape(self):
        return self.shape_

    @shape.setter
    def shape(self, s):
        a = self.reshape(s)
        CUR.touched.append(self)
        self.shape_, self.fn = a.shape_, a.fn

    @property
    def ndim(self):
        return len(self.shape_)

    @property
    def kind(self):
        k = self.dtype.kind
        return 'i' if k in 'iu' else 'b' if k == 'b' else 'f'

    @property
    def size(self):
        return prod(self.shape_)

    @property
    def T(self):
        return self.transpose()

    def __symlen__(self):
        if not self.shape_:
            raise TypeError('len() of unsized object')
        return self.shape_[0]

    def __len__(self):
        n = self.__symlen__()
        if isinstance(n, SymInt):
            raise Unsupported('native len of a symbolic array')
        return n

    def at(self, *idx):
        """element at valid indices"""
        for t in idx:
            if not isinstance(t, int):
                CUR.term(t)
        return self.fn(tuple(idx))

    def __iter__(self):
        n = self.shape_[0]
        if isinstance(n, SymInt):
            raise Unsupported('iteration over a symbolic array')
        return iter([self[k] for k in range(n)])

    def copy(self):
        return SymArr(self.shape_, self.fn, self.dtype)

    def alias(self, r):
        """r is a view of this array; neither may change while both are in use"""
        self.views.append(weakref.ref(r))
        r.base = self
        r.shared = True

    def in_use(self, but=None):
        return self.shared or any(v() is not None and v() is not but for v in self.views)

    def __array__(self, *a, **k):
        raise Unsupported('a symbolic array reached real numpy')

    # -- indexing
    def norm_key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = [k.z if False else k for k in key]
        n_real = sum(1 for k in key if k is not None and k is not Ellipsis and not (isinstance(k, SymArr) and k.kind == 'b' and k.ndim > 1))
        if any(k is Ellipsis for k in key):
            i = [j for j, k in enumerate(key) if k is Ellipsis][0]
            key[i:i + 1] = [slice(None)] * (self.ndim - n_real)
            n_real = self.ndim
        key += [slice(None)] * (self.ndim - n_real)
        return key

    def plan(self, key):
        """for each source axis: ('int', z) | ('slice', start, len, step) | ('arr', SymArr); plus the result dimensions"""
        out, ax = [], 0
        for k in self.norm_key(key):
            if k is None:
                out.append(('new',))
                continue
            if ax >= self.ndim:
                raise IndexError('too many indices for array')
            n = self.shape_[ax]
            ax += 1
            if isinstance(k, (slice, SymSlice)):
                if k.start is None and k.stop is None and k.step is None:
                    out.append(('slice', 0, n, 1))
                else:
                    a, b, d = slice_indices(k, n)
                    out.append(('slice', a, range_len(a, b, d), d))
            elif is_int(k) and not isinstance(k, (bool, SymBool)):
                z = zi(k)
                z = z3.simplify(z3.If(z < 0, z + zi(n), z))
                CUR.oblige('array index in range', z3.And(z >= 0, z < zi(n)))
                out.append(('int', mk_int(z)))
            else:
                if isinstance(k, (list, tuple, np_.ndarray, SymSeq)):
                    k = NPX.asarray(k) if len(k) else const_arr([], 'int64')
                if hasattr(k, '__symsel__'):
                    k = k.__symsel__()
                if not isinstance(k, SymArr):
                    raise Unsupported('index of type %r' % type(k))
                if k.kind == 'b':
                    if k.ndim != 1:
                        raise Unsupported('mask of rank %d in an index' % k.ndim)
                    k = mask_positions(k)
                elif k.kind != 'i':
                    raise IndexError('arrays used as indices must be of integer (or boolean) type')
                else:
                    # bounds of a generic element
                    g = tuple(mk_int(CUR.fresh('g')) for _ in k.shape_)
                    for t in g:
                        CUR.term(t)
                    z = zi(k.fn(g))
                    CUR_n = zi(n)
                    inb = z3.And(*[z3.And(zi(t) >= 0, zi(t) < zi(m)) for t, m in zip(g, k.shape_)]) if g else z3.BoolVal(True)
                    CUR.oblige('indices of a selection in range', z3.Implies(inb, z3.And(z >= -CUR_n, z < CUR_n)))
                out.append(('arr', snap(k)))
        return out

    def __getitem__(self, key):
        if isinstance(key, MaskWhere) and key.mask.ndim > 1:
            key = key.mask
        if isinstance(key, SymArr) and key.kind == 'b' and key.ndim == self.ndim and self.ndim > 1:
            return MaskSel(self, key)
        if isinstance(key, (SymBool, bool)) and self.ndim == 0:
            return MaskSel(self, SymArr((), lambda idx: key, 'bool'), key)
        if isinstance(key, SymArr) and key.kind == 'b' and key.ndim == 1 and self.ndim == 1:
            if getattr(key, 'positions_', (None,))[0] is not key.fn:
                key.positions_ = (key.fn, mask_positions(key))
            r = self[key.positions_[1]]
            r.masksel = MaskSel(self, key)
            return r
        pl = self.plan(key)
        arrs = [(j, p[1]) for j, p in enumerate(pl) if p[0] == 'arr']
        adv_shape, first = (), None
        if arrs:
            adv = [j for j, p in enumerate(pl) if p[0] in ('arr', 'int')]
            adv_shape = broadcast_shape([a.shape_ for _, a in arrs])
            contiguous = adv == list(range(adv[0], adv[-1] + 1))
            first = adv[0] if contiguous else -1
        shape = []
        if first == -1:
            shape += list(adv_shape)
        layout = []        # per plan entry: position in result
        advpos = 0 if first == -1 else None
        for j, p in enumerate(pl):
            if first is not None and j == first:
                advpos = len(shape)
                shape += list(adv_shape)
            if p[0] == 'slice':
                layout.append(len(shape))
                shape.append(p[2])
            elif p[0] == 'new':
                layout.append(len(shape))
                shape.append(1)
            else:
                layout.append(None)
        na = len(adv_shape)
        sshape, old = self.shape_, self.fn

        def fn(idx):
            out = []
            for j, p in enumerate(pl):
                if p[0] == 'new':
                    continue
                if p[0] == 'int':
                    out.append(p[1])
                elif p[0] == 'slice':
                    i = idx[layout[j]]
                    out.append(mk_int(zi(p[1]) + zi(i) * zi(p[3])))
                else:
                    a = p[1]
                    sub = broadcast_index(idx[advpos:advpos + na], adv_shape, a.shape_)
                    v = zi(a.at(*sub))
                    n = sshape[sum(1 for q in pl[:j] if q[0] != 'new')]
                    if not nonneg(a):
                        v = z3.If(v < 0, v + zi(n), v)
                    out.append(mk_int(v))
            for t in out:
                if not isinstance(t, int):
                    CUR.term(t)
            return old(tuple(out))
        if not shape:
            return fn(())
        r = SymArr(shape, fn, self.dtype)
        if not arrs:
            self.alias(r)
            if self.incr and self.ndim == 1 and pl[0][0] == 'slice' and not isinstance(pl[0][3], SymInt) and pl[0][3] > 0:
                r.incr = True
        return r

    def __setitem__(self, key, val):
        if self.in_use(val):
            raise Unsupported('assignment into an array that shares memory with another')
        if not self.flags.writeable:
            raise ValueError('assignment destination is read-only')
        CUR.touched.append(self)
        old = self.fn
        if isinstance(key, MaskWhere):
            key = key.mask
        if isinstance(key, (SymBool, bool)) and self.ndim == 0:
            if isinstance(val, MaskSel) and val.key is not key:
                raise Unsupported('masked assignment from another mask')
            key = SymArr((), lambda idx, key=key: key, 'bool') if not isinstance(val, MaskSel) else val.mask
        if isinstance(key, SymArr) and key.kind == 'b' and key.ndim == self.ndim:
            CUR.oblige('mask has the shape of the array', z3.And(*[zi(a) == zi(b) for a, b in zip(key.shape_, self.shape_)]))
            ms = val if isinstance(val, MaskSel) else getattr(val, 'masksel', None)
            if ms is not None:
                if not ms.under(key):
                    raise Unsupported('masked assignment from another mask')
                kf, vf, dt = key.fn, ms.arr, self.dtype
                if not isinstance(vf, SymArr):
                    vf = NPX.asarray(vf)
                vf = vf.fn
                self.fn = lambda idx: ite(kf(idx), cast(vf(idx), dt), old(idx))
                self.incr = False
                return
            if isinstance(val, SymArr) and val.ndim > 0:
                raise Unsupported('masked assignment of an array')
            v = val.fn(()) if isinstance(val, SymArr) else val
            kf = key.fn
            v = cast(v, self.dtype)
            self.fn = lambda idx: ite(kf(idx), v, old(idx))
            self.incr = False
            return
        pl = self.plan(key)
        arrs = [p[1] for p in pl if p[0] == 'arr']
        if len(arrs) > 1:
            raise Unsupported('assignment to two lists of positions')
        if arrs and getattr(arrs[0], 'occurs', None) is None:
            if isinstance(val, (SymArr, list, tuple, np_.ndarray)):
                raise Unsupported('assignment of an array to a list of positions')
            membership(arrs[0], self.shape_[[j for j, p in enumerate([p for p in pl if p[0] != 'new']) if p[0] == 'arr'][0]])
        shape, advpos = [], None
        if arrs:
            # the positions of the true elements of a mask: increasing, each once
            adv = [j for j, p in enumerate(pl) if p[0] in ('arr', 'int')]
            first = adv[0] if adv == list(range(adv[0], adv[-1] + 1)) else -1
        for j, p in enumerate([('head',)] + pl):
            if arrs and j == first + 1:
                advpos = len(shape)
                shape.append(arrs[0].shape_[0])
            if p[0] in ('slice', 'new'):
                shape.append(p[2] if p[0] == 'slice' else 1)
        if isinstance(val, (list, tuple, np_.ndarray)):
            val = NPX.asarray(val)
        if isinstance(val, SymArr):
            if val.ndim > len(shape):
                raise Unsupported('assignment of an array of higher rank')
            off = len(shape) - val.ndim
            for a, b in zip(val.shape_, shape[off:]):
                if not eq_dim(a, b) and not (isinstance(a, int) and a == 1):
                    CUR.oblige('shapes agree in an assignment', zi(a) == zi(b))
            vfn = val.fn
            vshape = val.shape_
            val = None
        else:
            vfn = None

        def fn(idx):
            conds, sub = [], []
            ax = 0
            for p in pl:
                if p[0] == 'new':
                    sub.append(0)
                    continue
                i = zi(idx[ax])
                ax += 1
                if p[0] == 'int':
                    conds.append(i == zi(p[1]))
                elif p[0] == 'arr':
                    rank = p[1].occurs(i) if hasattr(p[1], 'occurs') else None
                    conds.append(p[1].ismember(i))
                else:
                    a, L, d = zi(p[1]), zi(p[2]), zi(p[3])
                    if z3.is_int_value(d) and d.as_long() == 1:
                        k = i - a
                    elif z3.is_int_value(d) and d.as_long() == -1:
                        k = a - i
                    elif z3.is_int_value(d):
                        k = fdiv(i - a, d)
                        conds.append(i == a + k * d)
                    else:
                        raise Unsupported('assignment to a slice with symbolic step')
                    conds += [k >= 0, k < L]
                    sub.append(mk_int(k))
            if advpos is not None and vfn is not None:
                sub.insert(advpos, mk_int(rank))
            c = z3.simplify(z3.And(*conds)) if conds else z3.BoolVal(True)
            if z3.is_false(c):
                return old(idx)
            if vfn is None:
                v = val
            else:
                s = sub[len(sub) - len(vshape):] if vshape else []
                v = vfn(tuple(0 if isinstance(m, int) and m == 1 else t for t, m in zip(s, vshape)))
            if z3.is_true(c):
                return cast(v, self.dtype)
            return ite(c, cast(v, self.dtype), old(idx))
        self.fn = fn
        self.incr = False

    # -- shape
    def transpose(self, *order):
        if len(order) == 1 and isinstance(order[0], (list, tuple)):
            order = tuple(order[0])
        if not order:
            order = tuple(reversed(range(self.ndim)))
        order = [o + self.ndim if o < 0 else o for o in order]
        if sorted(order) != list(range(self.ndim)):
            raise ValueError("axes don't match array")
        f = self.fn
        r = SymArr([self.shape_[o] for o in order], lambda idx: f(tuple(idx[order.index(j)] for j in range(len(order)))), self.dtype)
        self.alias(r)
        return r

    def reshape(self, *s):
        if len(s) == 1 and isinstance(s[0], (list, tuple)):
            s = tuple(s[0])
        if self.ndim == 0 and all(isinstance(x, int) and x == 1 for x in s):
            f = self.fn
            return SymArr(s, lambda idx: f(()), self.dtype)
        mine = [(j, n) for j, n in enumerate(self.shape_) if not (isinstance(n, int) and n == 1)]
        theirs = [(j, n) for j, n in enumerate(s) if not (isinstance(n, int) and n == 1)]
        if len(mine) < len(theirs):
            # an extent of 1 known only from the path condition
            cand = [(j, n) for j, n in enumerate(self.shape_)]
            mine = cand if len(cand) == len(theirs) else mine
        if len(mine) > len(theirs):
            mine2 = [(j, n) for j, n in mine if not CUR.check(zi(n) == 1)]
            mine = mine2 if len(mine2) == len(theirs) else mine
        if len(mine) != len(theirs):
            raise Unsupported('reshape of %s to %s' % (self.shape_, s))
        for (_, a), (_, b) in zip(mine, theirs):
            if isinstance(b, int) and b == -1:
                continue
            if not eq_dim(a, b):
                CUR.oblige('reshape keeps the extents', zi(a) == zi(b))
        m = {j: k for (j, _), (k, _) in zip(mine, theirs)}
        shape = list(s)
        for (j, a), (k, b) in zip(mine, theirs):
            shape[k] = a
        f = self.fn
        nd = self.ndim
        r = SymArr(shape, lambda idx: f(tuple(idx[m[j]] if j in m else 0 for j in range(nd))), self.dtype)
        self.alias(r)
        return r

    def squeeze(self, axis=None):
        raise Unsupported('squeeze')

    def astype(self, dt, **k):
        f = self.fn
        if np_.dtype(dt).kind in 'iu' and self.kind == 'f':
            # conversion of floating-point values: each must have a value of the type
            import contextlib
            info = np_.iinfo(dt)
            with contextlib.ExitStack() as st:
                q = tuple(st.enter_context(CUR.each('q', n)) for n in self.shape_)
                v = f(q)
                CUR.oblige('values converted to %s are not missing and lie in its range' % np_.dtype(dt).name, z3.And(z3.Not(isnanc(v)), toreal(v) > int(info.min) - 1, toreal(v) < int(info.max) + 1))
            r = SymArr(self.shape_, lambda idx: sh_int(f(idx)), dt)
            return r
        r = SymArr(self.shape_, lambda idx: cast(f(idx), dt), dt)
        r.incr = self.incr
        return r

    def tolist(self):
        return SymSeq(self.shape_[0], lambda k: self.at(k)) if self.ndim == 1 else Unsupported('tolist')

    def flatten(self):
        if self.ndim == 1:
            return self.copy()
        raise Unsupported('flatten')

    ravel = flatten

    def min(self, axis=None): return NPX.min(self, axis)
    def max(self, axis=None): return NPX.max(self, axis)
    def all(self, axis=None): return NPX.all(self)
    def any(self, axis=None): return NPX.any(self)
    def sum(self, *a, **k): return NPX.sum(self, *a, **k)

    # -- elementwise
    def ew(self, o, f, kind=None, rev=False):
        if isinstance(o, (list, tuple, np_.ndarray)):
            o = NPX.asarray(o)
        return elementwise((lambda a, b: f(b, a)) if rev else f, self, o, kind=kind)

    def __add__(self, o):
        r = self.ew(o, lambda a, b: a + b)
        r.nonneg = nonneg(self) and (nonneg(o) if isinstance(o, SymArr) else isinstance(o, int) and o >= 0)
        r.incr = self.incr and is_int(o) and self.ndim == 1
        return r

    def __radd__(self, o): return self.ew(o, lambda a, b: a + b, rev=True)
    def __sub__(self, o): return self.ew(o, lambda a, b: a - b)
    def __rsub__(self, o): return self.ew(o, lambda a, b: a - b, rev=True)
    def __mul__(self, o): return self.ew(o, lambda a, b: a * b)
    def __rmul__(self, o): return self.ew(o, lambda a, b: a * b, rev=True)
    def __truediv__(self, o): return self.ew(o, lambda a, b: freal(a) / freal(b), 'f')
    def __rtruediv__(self, o): return self.ew(o, lambda a, b: freal(a) / freal(b), 'f', rev=True)
    def __floordiv__(self, o): return self.ew(o, lambda a, b: a // b)
    def __mod__(self, o): return self.ew(o, lambda a, b: a % b)
    def __pow__(self, o): return self.ew(o, lambda a, b: a ** b)
    def __neg__(self): return elementwise(lambda a: -a, self)
    def __abs__(self): return elementwise(abs, self)
    def __eq__(self, o): return self.ew(o, lambda a, b: a == b, 'b')
    def __ne__(self, o): return self.ew(o, lambda a, b: a != b, 'b')
    def __lt__(self, o): return self.ew(o, lambda a, b: a < b, 'b')
    def __le__(self, o): return self.ew(o, lambda a, b: a <= b, 'b')
    def __gt__(self, o): return self.ew(o, lambda a, b: a > b, 'b')
    def __ge__(self, o): return self.ew(o, lambda a, b: a >= b, 'b')
    def __and__(self, o): return self.ew(o, lambda a, b: mk_bool(z3.And(zb(a), zb(b))), 'b')
    def __or__(self, o): return self.ew(o, lambda a, b: mk_bool(z3.Or(zb(a), zb(b))), 'b')
    def __invert__(self):
        if self.kind != 'b':
            raise Unsupported('~ of numbers')
        return elementwise(lambda a: mk_bool(z3.Not(zb(a))), self, kind='b')

    def inplace(self, r):
        if self.in_use():
            raise Unsupported('in-place change of an array that shares memory with another')
        if not isinstance(r, SymArr):
            r = NPX.asarray(r)
        for a, b in zip(r.shape_, self.shape_):
            CUR.oblige('in-place operation keeps the shape', zi(a) == zi(b))
        f = r.fn
        CUR.touched.append(self)
        self.fn = lambda idx: cast(f(idx), self.dtype)
        self.incr = False
        return self

    def __iadd__(self, o): return self.inplace(self + o)
    def __isub__(self, o): return self.inplace(self - o)
    def __imul__(self, o): return self.inplace(self * o)
    def __itruediv__(self, o): return self.inplace(self / o)

    def __bool__(self):
        n = self.size
        CUR.oblige('truth value of an array of one element', zi(n) == 1)
        return bool(self.fn(tuple(0 for _ in self.shape_)) != 0) if self.kind != 'b' else bool(self.fn(tuple(0 for _ in self.shape_)))

    def __hash__(self):
        raise TypeError('unhashable')

    def __repr__(self):
        return 'SymArr%s' % (self.shape_,)


def nonneg(a):
    """elements known to be non-negative (declared)"""
    return getattr(a, 'nonneg', False)


def freal(a):
    return a if isinstance(a, SymReal) else SymReal(z3.RealVal(0), z3.BoolVal(True)) if isnan_const(a) else SymReal(toreal(a))


def eq_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return z3.is_true(z3.simplify(zi(a) == zi(b)))


def cast(v, dt):
    dt = np_.dtype(dt)
    if dt.kind in 'fc':
        return freal(v)
    if dt.kind == 'b':
        return v if isinstance(v, (bool, SymBool)) else mk_bool(zb(v != 0))
    if dt.kind in 'iu':
        if isinstance(v, (SymReal, float)):
            raise Unsupported('conversion of floating-point values to integers')
        return mk_int(zi(v))
    return v


def broadcast_shape(shapes):
    nd = max([len(s) for s in shapes] or [0])
    out = []
    for j in range(nd):
        d = 1
        for s in shapes:
            k = j - (nd - len(s))
            if k < 0:
                continue
            n = s[k]
            if isinstance(n, int) and n == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = n
            elif not eq_dim(d, n):
                # numpy also accepts an extent that happens to be 1; that would be a different result shape
                CUR.oblige('shapes agree', zi(d) == zi(n))
        out.append(d)
    return tuple(out)


def broadcast_index(idx, shape, s):
    off = len(shape) - len(s)
    return tuple(0 if isinstance(s[k], int) and s[k] == 1 else idx[off + k] for k in range(len(s)))


def elementwise(f, *args, kind=None):
    ms = [a if isinstance(a, MaskSel) else getattr(a, 'masksel', None) for a in args]
    if any(isinstance(a, MaskSel) for a in args):
        return MaskSel.combine(f, args, ms, kind)
    arrs = [a for a in args if isinstance(a, SymArr)]
    picked = [getattr(a, 'masksel', None) for a in arrs]
    if len(arrs) > 1 and all(m is not None and m.under(picked[0].mask) for m in picked):
        shape = arrs[0].shape_
    else:
        shape = broadcast_shape([a.shape_ for a in arrs])
    fns = [(a.fn, a.shape_) if isinstance(a, SymArr) else None for a in args]
    others = [None if isinstance(a, SymArr) else a for a in args]      # (the arrays themselves may change later)

    def fn(idx):
        return f(*[(fs[0](broadcast_index(idx, shape, fs[1])) if fs else a) for fs, a in zip(fns, others)])
    if kind is None:
        ks = [a.kind if isinstance(a, SymArr) else kind_of(a) for a in args]
        kind = 'f' if 'f' in ks else 'i' if 'i' in ks else 'b'
    fl = [a.dtype for a in arrs if a.kind == kind]
    dt = np_.result_type(*fl) if fl else DT[kind]
    if not shape:
        return fn(())          # (numpy operations on arrays without dimensions give scalars)
    r = SymArr(shape, fn, dt)
    if arrs and all(m is not None and m.under(picked[0].mask) for m in picked):
        r.masksel = MaskSel.combine(f, args, ms, kind)
    return r


def snap(a):
    """the array as it is now"""
    if not isinstance(a, SymArr):
        return a
    r = SymArr.__new__(SymArr)
    r.__dict__.update(a.__dict__)
    r.views = []
    return r


def const_arr(l, dt=None):
    """an array given element by element"""
    l = list(l)
    if l and isinstance(l[0], (list, tuple)):
        raise Unsupported('nested list as an array')
    k = kind_of(l[0]) if l else 'f'
    if any(kind_of(x) == 'f' for x in l):
        k = 'f'

    def fn(idx):
        i = idx[0]
        if isinstance(i, int):
            return l[i]
        v = l[-1]
        for j in range(len(l) - 2, -1, -1):
            v = ite(zi(i) == j, l[j], v)
        return v
    return SymArr((len(l),), (lambda idx: cast(fn(idx), dt)) if dt is not None else fn, dt or DT[k])


def new_arr(nm, shape, dtype='float64', nan=False):
    """an arbitrary input array"""
    dt = np_.dtype(dtype)
    r = len(shape)
    if dt.kind == 'f':
        f = CUR.func(nm, *([I] * r + [R]))
        g = CUR.func(nm + '_nan', *([I] * r + [B])) if nan else None
        def fn(idx):
            t = [zi(x) for x in idx]
            return SymReal(f(*t) if t else z3.Const(nm, R), (g(*t) if g is not None and t else FALSE))
    elif dt.kind in 'iu':
        f = CUR.func(nm, *([I] * r + [I]))
        def fn(idx):
            return mk_int(f(*[zi(x) for x in idx]))
    else:
        f = CUR.func(nm, *([I] * r + [B]))
        def fn(idx):
            return mk_bool(f(*[zi(x) for x in idx]))
    a = SymArr(shape, fn, dt)
    a.name = nm
    return a


def index_arr(nm, n, lo, hi, dtype='int32', increasing=False):
    """an arbitrary 1-d array of integers in [lo, hi)"""
    f = CUR.func(nm, I, I)
    ctx = CUR
    seen = []

    def fn(idx):
        t = zi(idx[0])
        v = f(t)
        ctx.assume(z3.Implies(z3.And(t >= 0, t < zi(n)), z3.And(v >= zi(lo), v < zi(hi))))
        if increasing:
            if not any(t.eq(s) for s in seen):
                for s in seen:
                    incr_pair(f, t, s, n)
                seen.append(t)
        return mk_int(v)
    a = SymArr((n,), fn, dtype)
    a.incr = increasing
    a.nonneg = isinstance(lo, int) and lo >= 0
    return a


def incr_pair(f, t, s, n):
    ok = z3.And(t >= 0, t < zi(n), s >= 0, s < zi(n))
    CUR.assume(z3.Implies(ok, z3.And(z3.Implies(t < s, f(t) + (s - t) <= f(s)), z3.Implies(s < t, f(s) + (t - s) <= f(t)))))


def content(a):
    """the element at an arbitrary place: two arrays of the same content and length are equal"""
    x = a.fn((mk_int(z3.Int('anywhere!')),))
    return [z3.simplify(zi(a.shape_[0]))] + ([z3.simplify(toreal_nan(x)[0]), z3.simplify(toreal_nan(x)[1])] if a.kind == 'f' else [z3.simplify(zb(x) if a.kind == 'b' else zi(x))])


def same_content(ctx, what, a):
    """the result recorded for an array of the same content (a function of the content gives the same result twice)"""
    c = content(a)
    for c2, r in ctx.contents.get(what, ()):
        if len(c) == len(c2) and all(x.eq(y) for x, y in zip(c, c2)):
            return r
    return None


def keep_content(ctx, what, a, r):
    ctx.contents.setdefault(what, []).append((content(a), r))


def mask_positions(m):
    """positions of the true elements of a 1-d mask, increasing; every true position occurs"""
    ctx = CUR
    m = snap(m)
    old = same_content(ctx, 'mask', m)
    if old is not None:
        return old
    n = m.shape_[0]
    L = ctx.fresh('ntrue')
    f, g = ctx.func('truepos', I, I), ctx.func('rank', I, I)
    ctx.assume(z3.And(L >= 0, L <= zi(n)))
    seen = []

    def fn(idx):
        t = zi(idx[0])
        v = f(t)
        ctx.assume(z3.Implies(z3.And(t >= 0, t < L), z3.And(v >= 0, v < zi(n), zb(m.at(mk_int(v))))))
        if not any(t.eq(s) for s in seen):
            for s in seen:
                incr_pair(f, t, s, L)
            seen.append(t)
        return mk_int(v)
    a = SymArr((SymInt(L),), fn, 'int64')
    a.incr = True
    a.nonneg = True

    def occurs(p):
        """a true element at p has a rank"""
        p = zi(p)
        c = z3.And(p >= 0, p < zi(n), zb(m.at(mk_int(p))))
        r = g(p)
        fn((mk_int(r),))
        ctx.assume(z3.Implies(c, z3.And(r >= 0, r < L, f(r) == p)))
        return r
    a.occurs = occurs
    a.ismember = lambda p: z3.And(zi(p) >= 0, zi(p) < zi(n), zb(m.at(mk_int(zi(p)))))
    ctx.masks.append(a)
    keep_content(ctx, 'mask', m, a)
    # as many true elements as elements: all of them, in order
    ctx.universal(lambda t: z3.Implies(z3.And(L == zi(n), t >= 0, t < L), f(t) == t))
    # none at all: no element is true
    ctx.universal(lambda t: z3.Implies(z3.And(L == 0, t >= 0, t < zi(n)), z3.Not(zb(m.fn((mk_int(t),))))))
    return a


def membership(a, n):
    """a.ismember(i): position i is one of those listed (counted from the end where negative) on an axis of n"""
    ctx = CUR
    if a.ndim != 1:
        raise Unsupported('list of positions of rank %d' % a.ndim)
    L, n = zi(a.shape_[0]), zi(n)
    f = a.fn
    el = lambda t: z3.simplify(z3.If(zi(f((mk_int(t),))) < 0, zi(f((mk_int(t),))) + n, zi(f((mk_int(t),)))))
    if z3.is_int_value(z3.simplify(L)):
        els = [el(z3.IntVal(t)) for t in range(z3.simplify(L).as_long())]
        a.ismember = lambda i: z3.Or(*[zi(i) == e for e in els]) if els else z3.BoolVal(False)
        return
    mem, which = ctx.func('member', I, B), ctx.func('whichof', I, I)
    ctx.universal(lambda t: z3.Implies(z3.And(t >= 0, t < L), mem(el(t))))

    def ismember(i):
        i = zi(i)
        w = which(i)
        ctx.term(w)
        ctx.assume(z3.Implies(mem(i), z3.And(w >= 0, w < L, el(w) == i)))
        return mem(i)
    a.ismember = ismember


# ---------------------------------------------------------------- numpy
class NpFunc:
    """a numpy function without a contract: may be passed around, not called"""
    def __init__(self, nm):
        self.__name__ = self.__qualname__ = nm
        self.__doc__ = ''

    def __call__(self, *a, **k):
        raise Unsupported('numpy.%s has no contract here' % self.__name__)


class MaskWhere(tuple):
    """what where(mask) returns: the positions of the true elements"""
    def __new__(cls, mask):
        r = tuple.__new__(cls, (mask_positions(mask),) if mask.ndim == 1 else ())
        r.mask = mask
        return r


class Accumulate:
    """numpy.add"""
    __name__ = 'add'

    def __call__(self, a, b):
        return a + b

    def accumulate(self, a, axis=0, dtype=None):
        """running sums: the first element, then each sum is the previous one plus the next element"""
        ctx = CUR
        a = NPX.asarray(a, dtype)
        ax = axis + a.ndim if axis < 0 else axis
        S, G = ctx.func('acc', *([I] * a.ndim + [R])), ctx.func('acc_nan', *([I] * a.ndim + [B]))
        f = a.fn

        def step(idx):
            idx = tuple(zi(i) for i in idx)
            k = idx[ax]
            prev = idx[:ax] + (k - 1,) + idx[ax + 1:]
            x = toreal_nan(f(tuple(mk_int(i) for i in idx)))
            first = k == 0
            ctx.assume(z3.Implies(k >= 0, z3.And(G(*idx) == z3.If(first, x[1], z3.Or(G(*prev), x[1])), z3.Or(G(*idx), S(*idx) == z3.If(first, x[0], S(*prev) + x[0])))))

        def fn(idx):
            idx = tuple(zi(i) for i in idx)
            return SymReal(S(*idx), G(*idx))
        r = SymArr(a.shape_, fn, np_.dtype(dtype or a.dtype))
        r.step = step
        ctx.accumulated.append(r)
        return r


def f_extreme(lo, skip):
    def f(a, b):
        if kind_of(a) != 'f' and kind_of(b) != 'f':
            return ite(zb(a <= b if lo else a >= b), a, b)
        na, nb = isnanc(a), isnanc(b)
        va, vb = toreal_nan(a)[0], toreal_nan(b)[0]
        v = z3.If(va <= vb if lo else va >= vb, va, vb)
        if skip:
            return SymReal(z3.If(na, vb, z3.If(nb, va, v)), z3.simplify(z3.And(na, nb)))
        return SymReal(v, z3.simplify(z3.Or(na, nb)))
    return f


def zero_nan(x):
    return SymReal(z3.If(x.nan, 0, x.v)) if isinstance(x, SymReal) else 0. if isnan_const(x) else x


# folds over an axis: how two values combine
FOLD = {'sum': lambda a, b: a + b, 'nansum': lambda a, b: zero_nan(a) + zero_nan(b), 'min': f_extreme(True, False), 'max': f_extreme(False, False),
        'nanmin': f_extreme(True, True), 'nanmax': f_extreme(False, True)}


def lift2(f, a, b):
    if isinstance(a, SymArr) or isinstance(b, SymArr):
        return elementwise(f, a, b)
    return f(a, b)


def lift1(nm, a):
    """a function of one number, known only to be a function (NaN for NaN)"""
    g = CUR.numpy_funcs.setdefault(nm, z3.Function('np_' + nm, R, R))
    h = CUR.numpy_funcs.setdefault(nm + '?', z3.Function('np_%s_nan' % nm, R, B))
    f = lambda x: SymReal(g(toreal_nan(x)[0]), z3.simplify(z3.Or(toreal_nan(x)[1], h(toreal_nan(x)[0]))))
    return elementwise(f, a, kind='f') if isinstance(a, SymArr) else f(a)


def fold(kind, a, axis):
    """the values along an axis combined; each result is recorded with what it combines"""
    if isinstance(a, (list, tuple)) and a and isinstance(a[0], SymArr):
        if axis != 0 or kind not in FOLD:
            raise Unsupported('%s over the arrays of a list' % kind)
        r = a[0]
        for b in a[1:]:
            if not isinstance(b, SymArr) or b.ndim != r.ndim:
                raise Unsupported('arrays of several ranks in a list')
            for x, y in zip(r.shape_, b.shape_):
                if not eq_dim(x, y):
                    CUR.oblige('the arrays of a list are of one shape', zi(x) == zi(y))
            r = lift2(FOLD[kind], r, b)
        return r
    a = NPX.asarray(a)
    if axis is None and a.ndim == 1:
        axis = 0
    if axis is None or not isinstance(axis, (int, np_.integer)):
        raise Unsupported('%s over %r' % (kind, axis))
    ax = int(axis) + a.ndim if axis < 0 else int(axis)
    if ax < 0 or ax >= a.ndim:
        raise ValueError('axis out of range')
    if a.ndim == 1 and isinstance(a.shape_[0], int) and kind in FOLD and a.shape_[0] > 0:
        r = a.at(0)
        for k in range(1, a.shape_[0]):
            r = FOLD[kind](r, a.at(k))
        return zero_nan(r) if kind == 'nansum' else r
    inner = getattr(a, 'folded', None)
    if inner is not None and inner[0] == kind and kind in FOLD:
        base, axes, out = inner[1:]
        axes, out = axes + [out[ax]], out[:ax] + out[ax + 1:]
    else:
        base, axes, out = snap(a), [ax], [j for j in range(a.ndim) if j != ax]
    if kind not in ('sum', 'nansum'):
        for j in axes:
            CUR.oblige('extremum of a non-empty array', zi(base.shape_[j]) > 0)
    dt = np_.dtype('int64') if kind.startswith('arg') or kind.endswith('sum') and base.kind != 'f' else base.dtype
    memo = []

    def fn(idx):
        key = [z3.simplify(zi(i)) for i in idx]
        for k, v in memo:
            if all(x.eq(y) for x, y in zip(k, key)):
                return v
        if dt.kind == 'f':
            c = SymReal(CUR.fresh(kind, R), CUR.fresh(kind + '_nan', B) if kind != 'nansum' else FALSE)
        elif dt.kind == 'b':
            c = SymBool(CUR.fresh(kind, B))
        else:
            c = SymInt(CUR.fresh(kind))
        memo.append((key, c))

        def at(t):
            """the summand at positions t along the axes folded (in the order of axes)"""
            return base.fn(tuple(t[axes.index(j)] if j in axes else idx[out.index(j)] for j in range(base.ndim)))
        CUR.folds.append(dict(value=c, kind=kind, base=base, axes=axes, at=at, out=out, idx=idx))
        if kind in ('argmin', 'argmax') and base.ndim == 1:
            # the first missing value if there is one, else the first extreme one
            n, z = zi(base.shape_[0]), zi(c)
            CUR.assume(z3.And(z >= 0, z < n))
            CUR.term(z)
            vz = at((c,))
            nz = zb(isnanc(vz)) if isinstance(vz, SymReal) else z3.BoolVal(False)

            def fact(t):
                vt = at((mk_int(t),))
                nt = zb(isnanc(vt)) if isinstance(vt, SymReal) else z3.BoolVal(False)
                a, b = (toreal_nan(vz)[0], toreal_nan(vt)[0]) if isinstance(vz, SymReal) else (zi(vz), zi(vt))
                if kind == 'argmax':
                    a, b = b, a
                return z3.Implies(z3.And(t >= 0, t < n), z3.And(z3.Or(nz, z3.And(z3.Not(nt), a <= b)), z3.Implies(t < z, z3.And(z3.Not(nt), z3.Or(nz, a < b)))))
            CUR.universal(fact)
        return c
    shape = [base.shape_[j] for j in out]
    if not shape:
        return fn(())
    r = SymArr(shape, fn, dt)
    r.folded = (kind, base, axes, out)
    return r


def total_of(a):
    """the sum of all elements; two sums whose terms agree are equal (stated where it is used)"""
    a = snap(a)
    s = SymReal(CUR.fresh('sum', R), CUR.fresh('sum_nan', B))
    CUR.sums.append((a, s))
    return s


def toreal_nan(x):
    n = isnanc(x)
    return (z3.RealVal(0) if z3.is_true(n) else toreal(x)), n


class NPX_:
    """contracts of the numpy functions (numpy reference manual)"""
    ndarray, integer, floating, number, bool_, inexact = np_.ndarray, np_.integer, np_.floating, np_.number, np_.bool_, np_.inexact
    nan, inf, newaxis, pi = np_.nan, np_.inf, None, np_.pi
    add = Accumulate()
    float32, float64, int8, int16, int32, int64 = np_.float32, np_.float64, np_.int8, np_.int16, np_.int32, np_.int64

    def __getattr__(self, nm):
        if nm.startswith('__'):
            raise AttributeError(nm)
        if not hasattr(np_, nm):
            raise AttributeError(nm)
        if callable(getattr(np_, nm, None)) and not isinstance(getattr(np_, nm), type):
            f = NpFunc(nm)
            self.__dict__[nm] = f
            return f
        raise Unsupported('numpy.%s has no contract here' % nm)

    def dtype(self, *a): return np_.dtype(*a)
    def issubdtype(self, a, b): return np_.issubdtype(a, b)
    def find_common_type(self, arrays, scalars=()):
        if len(scalars):
            raise Unsupported('find_common_type of scalars')
        return np_.result_type(*arrays)

    def result_type(self, *a): return np_.result_type(*[x.dtype if isinstance(x, SymArr) else x for x in a])
    def isscalar(self, x): return scalar(x) or np_.isscalar(x)

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, SymArr):
            return x if dtype is None or np_.dtype(dtype) == x.dtype else x.astype(dtype)
        if isinstance(x, SymSeq):
            return SymArr((x.n,), lambda idx: x.get(idx[0]) if dtype is None else cast(x.get(idx[0]), dtype), dtype or 'int64')
        if isinstance(x, np_.ndarray):
            if x.ndim == 1:
                return const_arr(x.tolist(), dtype or x.dtype)
            raise Unsupported('constant array of rank %d' % x.ndim)
        if scalar(x):
            return SymArr((), lambda idx: x if dtype is None else cast(x, dtype), dtype or DT[kind_of(x)])
        if isinstance(x, (list, tuple)):
            return const_arr(x, dtype)
        raise Unsupported('asarray of %r' % type(x))

    def array(self, x, dtype=None, **k):
        a = self.asarray(x, dtype)
        b = a.copy()
        b.incr = a.incr
        if b.ndim < k.get('ndmin', 0):
            b = b.reshape(*(1,) * (k['ndmin'] - b.ndim) + tuple(b.shape_))
        return b

    def errstate(self, **k):
        import contextlib
        return contextlib.nullcontext()

    ascontiguousarray = asarray

    def arange(self, *a, dtype=None):
        if len(a) == 1:
            a = (0, a[0], 1)
        elif len(a) == 2:
            a = (a[0], a[1], 1)
        if not all(is_int(x) for x in a):
            raise Unsupported('arange of floating-point numbers')
        n = range_len(*a)
        s, d = zi(a[0]), zi(a[2])
        r = SymArr((n,), lambda idx: mk_int(s + zi(idx[0]) * d), dtype or 'int64')
        r.incr = z3.is_int_value(z3.simplify(d)) and z3.simplify(d).as_long() > 0
        return r

    def _alloc(self, shape, dtype, v):
        if not isinstance(shape, (list, tuple)):
            shape = (shape,)
        dtype = np_.dtype(dtype or 'float64')
        return shape, dtype

    def empty(self, shape, dtype=None):
        shape, dtype = self._alloc(shape, dtype, None)
        return new_arr('uninitialised', tuple(shape), dtype)

    def zeros(self, shape, dtype=None):
        shape, dtype = self._alloc(shape, dtype, 0)
        return SymArr(shape, lambda idx: cast(0, dtype), dtype)

    def ones(self, shape, dtype=None):
        shape, dtype = self._alloc(shape, dtype, 1)
        return SymArr(shape, lambda idx: cast(1, dtype), dtype)

    def full(self, shape, v, dtype=None):
        if not isinstance(shape, (list, tuple)):
            shape = (shape,)
        dtype = np_.dtype(dtype or DT[kind_of(v)])
        return SymArr(shape, lambda idx: cast(v, dtype), dtype)

    def diff(self, a, n=1, axis=-1):
        if not is_int(n) or isinstance(n, SymInt):
            raise Unsupported('diff of symbolic order')
        ax = axis + a.ndim if axis < 0 else axis
        for _ in range(n):
            m = a.shape_[ax]
            L = mk_int(z3.If(zi(m) > 0, zi(m) - 1, zi(m)))
            f = a.fn
            def fn(idx, f=f):
                up = idx[:ax] + (mk_int(zi(idx[ax]) + 1),) + idx[ax + 1:]
                return f(up) - f(idx)
            a = SymArr(a.shape_[:ax] + (L,) + a.shape_[ax + 1:], fn, a.dtype)
        return a

    def where(self, c, a=None, b=None):
        if a is None:
            return MaskWhere(c)
        return elementwise(lambda c, a, b: ite(c, a, b), c, a, b, kind=None if False else 'f' if 'f' in [x.kind if isinstance(x, SymArr) else kind_of(x) for x in (a, b)] else 'i')

    def set_(self, arrs, nm):
        """sorted distinct elements of some 1-d integer arrays"""
        ctx = CUR
        arrs = [snap(a) for a in arrs]
        L = ctx.fresh('n' + nm)
        f = ctx.func(nm, I, I)
        tot = sum((zi(a.shape_[0]) for a in arrs), z3.IntVal(0))
        ctx.assume(z3.And(L >= 0, L <= tot, z3.Implies(tot > 0, L >= 1)))
        seen = []
        rank = ctx.func(nm + 'rank', I, I)       # number of elements below a value
        srcw = ctx.func(nm + 'which', I, I)
        srcp = ctx.func(nm + 'from', I, I)

        def fn(idx):
            t = zi(idx[0])
            if not any(t.eq(s) for s in seen):
                for s in seen:
                    incr_pair(f, t, s, L)
                seen.append(t)
                # it is one of the elements
                ok = z3.And(t >= 0, t < L)
                w, p = srcw(t), srcp(t)
                alts = []
                for k, a in enumerate(arrs):
                    alts.append(z3.And(w == k, p >= 0, p < zi(a.shape_[0]), f(t) == zi(a.fn((mk_int(p),)))))
                ctx.assume(z3.Implies(ok, z3.Or(*alts)))
                ctx.term(p)
            return mk_int(f(t))
        u = SymArr((SymInt(L),), fn, arrs[0].dtype)
        u.incr = True
        u.nonneg = all(nonneg(a) for a in arrs)

        # the elements of the input arrays occur, each at the place given by its rank
        ctx.universal(lambda t: z3.And(*[occ_formula(rank, f, a, L, t) for a in arrs]))
        u.members = (arrs,)
        u.rank = rank
        # two elements at least: two different values
        fn((0,))
        fn((1,))
        return u

    def unique(self, a):
        if a.kind != 'i' or a.ndim != 1:
            raise Unsupported('unique of %s' % a.dtype)
        if a.incr:
            return a.copy_incr() if False else self.array(a)
        return self.set_([a], 'uniq')

    def union1d(self, a, b):
        arrs = []
        for x in (self.asarray(a), self.asarray(b)):
            # the elements of a set are those of the arrays it was made of
            arrs += x.members[0] if getattr(x, 'members', None) else [x]
        return self.set_(arrs, 'union')

    def searchsorted(self, u, v, side='left'):
        """position of the first element >= v of an increasing array"""
        if not u.incr:
            raise Unsupported('searchsorted in an array not known to be increasing')
        ctx = CUR
        u, v = snap(u), snap(v)
        n = zi(u.shape_[0])

        def one(x):
            x = zi(x)
            rk = getattr(u, 'rank', None)
            if rk is not None:
                r = rk(x) if side == 'left' else rk(x + 1)
                ctx.assume(z3.And(r >= 0, r <= n))
                ctx.searches.append((u, x, r))
                return mk_int(r)
            r = ctx.fresh('ss')
            ctx.assume(z3.And(r >= 0, r <= n))
            a = zi(u.at(mk_int(r)))
            b = zi(u.at(mk_int(r - 1)))
            ctx.assume(z3.Implies(r < n, a >= x if side == 'left' else a > x))
            ctx.assume(z3.Implies(r > 0, b < x if side == 'left' else b <= x))
            ctx.searches.append((u, x, r))
            return mk_int(r)
        if not isinstance(v, SymArr):
            if scalar(v):
                return one(v)
            v = self.asarray(v)
        memo = {}

        def fn(idx):
            x = zi(v.at(*idx))
            k = z3.simplify(x)
            for kk, r in memo.items():
                if kk.eq(k):
                    return r
            memo[k] = one(k)
            return memo[k]
        r = SymArr(v.shape_, fn, 'int64')
        r.nonneg = True
        return r

    def cumsum(self, a, axis=None, dtype=None):
        a = self.asarray(a)
        if a.ndim != 1 or isinstance(a.shape_[0], SymInt):
            raise Unsupported('cumsum of a symbolic number of elements')
        out, t = [], 0
        for k in range(a.shape_[0]):
            t = t + a.at(k)
            out.append(t)
        return const_arr(out)

    def sum(self, a, axis=None, **kw):
        a = self.asarray(a)
        if kw:
            raise Unsupported('sum with further arguments')
        if axis is not None:
            return fold('sum', a, axis)
        if a.ndim != 1 or isinstance(a.shape_[0], SymInt):
            if axis is None and a.kind == 'f':
                return total_of(a)
            raise Unsupported('sum of a symbolic number of elements')
        t = 0
        for k in range(a.shape_[0]):
            t = t + a.at(k)
        return t

    def concatenate(self, arrs, axis=0):
        if isinstance(arrs, SymSeq) and isinstance(arrs.n, SymInt):
            raise Unsupported('concatenation of a symbolic number of arrays')
        arrs = [self.asarray(a) for a in arrs]
        ax = axis + arrs[0].ndim if axis < 0 else axis
        shape = list(arrs[0].shape_)
        starts, tot = [], 0
        for a in arrs:
            starts.append(tot)
            tot = tot + a.shape_[ax]
            for j in range(a.ndim):
                if j != ax and not eq_dim(a.shape_[j], shape[j]):
                    CUR.oblige('extents agree in a concatenation', zi(a.shape_[j]) == zi(shape[j]))
        shape[ax] = tot
        fns = [a.fn for a in arrs]

        def fn(idx):
            v = None
            i = zi(idx[ax])
            for k in range(len(arrs) - 1, -1, -1):
                sub = idx[:ax] + (mk_int(i - zi(starts[k])),) + idx[ax + 1:]
                x = fns[k](sub)
                v = x if v is None else ite(i < zi(starts[k + 1]), x, v)
            return v
        return SymArr(shape, fn, np_.result_type(*[a.dtype for a in arrs]))

    def expand_dims(self, a, axis):
        f = a.fn
        ax = axis + a.ndim + 1 if axis < 0 else axis
        return SymArr(a.shape_[:ax] + (1,) + a.shape_[ax:], lambda idx: f(idx[:ax] + idx[ax + 1:]), a.dtype)

    def broadcast_to(self, a, shape):
        a = self.asarray(a)
        s = broadcast_shape([a.shape_, tuple(shape)])
        f, m = a.fn, a.shape_
        return SymArr(s, lambda idx: f(broadcast_index(idx, s, m)), a.dtype)

    def transpose(self, a, order=None): return a.transpose(order) if order is not None else a.transpose()
    def reshape(self, a, s): return a.reshape(s)

    def _ext(self, a, lo):
        if a.ndim != 1:
            raise Unsupported('extremum over rank %d' % a.ndim)
        CUR.oblige('extremum of a non-empty array', zi(a.shape_[0]) > 0)
        if a.incr:
            last = a.at(mk_int(zi(a.shape_[0]) - 1))
            first = a.at(0)
            return first if lo else last
        old = same_content(CUR, 'min' if lo else 'max', a)
        if old is not None:
            return old
        p = CUR.fresh('argext')
        n = zi(a.shape_[0])
        CUR.assume(z3.And(p >= 0, p < n))
        v = a.at(mk_int(p))
        keep_content(CUR, 'min' if lo else 'max', a, v)
        g = CUR.fresh('g')
        x = a.at(mk_int(g))
        if isinstance(x, SymReal) and not z3.is_false(z3.simplify(x.nan)):
            CUR.oblige('no value of an extremum is missing', z3.Implies(z3.And(g >= 0, g < n), z3.Not(x.nan)))
        f = a.fn
        CUR.universal(lambda t: z3.Implies(z3.And(t >= 0, t < n), zb(f((mk_int(t),)) >= v) if lo else zb(f((mk_int(t),)) <= v)))
        return v

    def min(self, a, axis=None):
        if axis is not None:
            return fold('min', a, axis)
        if isinstance(a, (list, tuple)):
            return sh_min(a)
        return self._ext(a, True)

    def max(self, a, axis=None):
        if axis is not None:
            return fold('max', a, axis)
        if isinstance(a, (list, tuple)):
            return sh_max(a)
        return self._ext(a, False)

    amin, amax = min, max

    def nansum(self, a, axis=None): return fold('nansum', a, axis)
    def nanmin(self, a, axis=None): return fold('nanmin', a, axis)
    def nanmax(self, a, axis=None): return fold('nanmax', a, axis)
    def argmax(self, a, axis=None): return fold('argmax', a, axis)
    def argmin(self, a, axis=None): return fold('argmin', a, axis)

    def minimum(self, a, b): return lift2(FOLD['min'], a, b)
    def maximum(self, a, b): return lift2(FOLD['max'], a, b)
    def fmin(self, a, b): return lift2(FOLD['nanmin'], a, b)
    def fmax(self, a, b): return lift2(FOLD['nanmax'], a, b)

    def sqrt(self, a): return lift1('sqrt', a)

    def flatnonzero(self, a):
        if a.ndim != 1 or a.kind != 'b':
            raise Unsupported('flatnonzero of %s, rank %d' % (a.dtype, a.ndim))
        return mask_positions(a)

    def argsort(self, a):
        """a permutation that puts the values (no missing ones) in increasing order, equal ones in any order"""
        ctx = CUR
        if a.ndim != 1:
            raise Unsupported('argsort of rank %d' % a.ndim)
        a = snap(a)
        n = zi(a.shape_[0])
        f, inv = ctx.func('sorter', I, I), ctx.func('unsorter', I, I)
        g = mk_int(ctx.fresh('g'))
        x = a.at(g)
        if isinstance(x, SymReal):
            ctx.oblige('the values sorted are not missing', z3.Implies(z3.And(zi(g) >= 0, zi(g) < n), z3.Not(zb(isnanc(x)))))
        seen = []

        def fn(idx):
            t = z3.simplify(zi(idx[0]))
            if not any(t.eq(s) for s in seen):
                ok = lambda t: z3.And(t >= 0, t < n)
                ctx.assume(z3.Implies(ok(t), z3.And(f(t) >= 0, f(t) < n, inv(f(t)) == t)))
                vt = a.fn((mk_int(f(t)),))
                for s in seen:
                    vs = a.fn((mk_int(f(s)),))
                    ctx.assume(z3.Implies(z3.And(ok(s), ok(t)), z3.And(z3.Implies(s <= t, zb(vs <= vt)), z3.Implies(t <= s, zb(vt <= vs)))))
                seen.append(t)
            return mk_int(f(t))
        r = SymArr((a.shape_[0],), fn, 'int64')
        r.nonneg = True

        def occurs(p):
            p = zi(p)
            ctx.assume(z3.Implies(z3.And(p >= 0, p < n), z3.And(inv(p) >= 0, inv(p) < n, f(inv(p)) == p)))
            fn((mk_int(inv(p)),))
            return inv(p)
        r.occurs, r.ismember = occurs, lambda p: z3.And(zi(p) >= 0, zi(p) < n)
        r.sorter = True
        ctx.sorters.append(r)
        return r

    def sort(self, a):
        l = list(a) if not isinstance(a, SymArr) else [a.at(k) for k in range(len(a))]
        if not all(isinstance(x, (int, np_.integer)) for x in l):
            raise Unsupported('sort of symbolic values')
        return const_arr(sorted(int(x) for x in l))

    def product(self, a, axis=None):
        if isinstance(a, SymArr) or axis is not None:
            raise Unsupported('product of an array')
        return prod(list(a))
    prod = product
    def clip(self, a, lo, hi): return elementwise(lambda x: ite(zb(x < lo), lo, ite(zb(x > hi), hi, x)), a)
    def abs(self, a): return abs(a)
    absolute = fabs = abs

    def all(self, a, axis=None):
        if isinstance(a, (bool, SymBool)):
            return a
        if a.ndim == 0:
            return a.fn(())
        return quant(a, True)

    def any(self, a, axis=None):
        if isinstance(a, (bool, SymBool)):
            return a
        if a.ndim == 0:
            return a.fn(())
        r = quant(a, False)
        return r

    def isnan(self, a):
        if isinstance(a, SymArr):
            return elementwise(lambda x: mk_bool(isnanc(x)), a, kind='b')
        return mk_bool(isnanc(a))

    def isfinite(self, a):
        if isinstance(a, SymArr):
            return elementwise(lambda x: mk_bool(z3.Not(isnanc(x))), a, kind='b')
        return mk_bool(z3.Not(isnanc(a)))

    def round(self, a, decimals=0):
        """nearest integer, to even where two are equally near"""
        def one(x):
            v = toreal(x)
            r = z3.ToInt(v)
            r = z3.ToReal(z3.If(v - z3.ToReal(r) > z3.RealVal('1/2'), r + 1, z3.If(v - z3.ToReal(r) < z3.RealVal('1/2'), r, z3.If(r % 2 == 0, r, r + 1))))
            return SymReal(r, isnanc(x))
        if decimals != 0:
            raise Unsupported('round to decimals')
        return elementwise(one, a, kind='f') if isinstance(a, SymArr) else one(a)
    rint = around = round

    def ravel(self, a):
        if isinstance(a, (list, tuple)) and all(scalar(x) for x in a):
            return list(a)
        if scalar(a):
            return [a]
        raise Unsupported('ravel')

    def logical_or(self, a, b): return a | b
    def logical_and(self, a, b): return a & b
    def logical_not(self, a): return ~a


def occ_formula(rank, f, a, L, t):
    """element t of a occurs in the set f[0..L), and just one value lies between its rank and the next"""
    v = zi(a.fn((mk_int(t),)))
    q = rank(v)
    return z3.Implies(z3.And(t >= 0, t < zi(a.shape_[0])), z3.And(q >= 0, q < L, f(q) == v, rank(v + 1) == q + 1))


def quant(a, forall):
    """all() / any() of a boolean array: a fresh truth value with its meaning"""
    ctx = CUR
    b = ctx.fresh('all' if forall else 'any', B)
    w = tuple(ctx.fresh('w') for _ in a.shape_)
    inb = z3.And(*[z3.And(x >= 0, x < zi(n)) for x, n in zip(w, a.shape_)])
    v = zb(a.at(*[mk_int(x) for x in w]))
    if a.ndim == 1:
        ctx.term(w[0])
    if forall:
        ctx.assume(z3.Implies(z3.Not(b), z3.And(inb, z3.Not(v))))
    else:
        ctx.assume(z3.Implies(b, z3.And(inb, v)))
    if a.ndim == 1:
        f, n = a.fn, zi(a.shape_[0])
        if forall:
            ctx.universal(lambda t: z3.Implies(z3.And(b, t >= 0, t < n), zb(f((mk_int(t),)))))
        else:
            ctx.universal(lambda t: z3.Implies(z3.And(z3.Not(b), t >= 0, t < n), z3.Not(zb(f((mk_int(t),))))))
    return SymBool(b)


NPX = NPX_()


# ---------------------------------------------------------------- builtins
class Shim:
    """a builtin type that also knows its symbolic counterpart"""
    def __init__(self, real, call):
        self.real, self.call = real, call

    def __call__(self, *a, **k):
        return self.call(*a, **k)

    @property
    def dtype(self):
        return np_.dtype(self.real)

    def __getattr__(self, nm):
        return getattr(self.real, nm)

    def __eq__(self, o):
        return o is self or o is self.real

    def __hash__(self):
        return hash(self.real)


def pytype(x):
    return getattr(x, '__pytype__', None)


def sh_isinstance(x, t):
    if isinstance(t, tuple):
        return any(sh_isinstance(x, u) for u in t)
    if isinstance(t, Shim):
        t = t.real
    p = pytype(x)
    if p is not None and not isinstance(x, type):
        if isinstance(p, type) and isinstance(t, type):
            return issubclass(p, t)
        return False
    return isinstance(x, t)


def sh_issubclass(x, t):
    def un(y):
        return tuple(un(z) for z in y) if isinstance(y, tuple) else y.real if isinstance(y, Shim) else y
    return issubclass(un(x), un(t))


def sh_len(x):
    f = getattr(x, '__symlen__', None)
    if f is None and isinstance(getattr(type(x), '__len__', None), types.FunctionType):
        return type(x).__len__(x)
    return f() if f is not None else len(x)


def sh_int(x=0, *a):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return mk_int(zi(x))
    if isinstance(x, SymArr):
        return sh_int(x.fn(tuple(0 for _ in x.shape_)))
    if isinstance(x, SymReal):
        # truncation towards zero
        v = x.v
        return mk_int(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))
    return int(x, *a)


def sh_float(x=0.):
    if isinstance(x, (SymInt, SymReal, SymBool)):
        return freal(x)
    if isinstance(x, SymArr):
        return freal(x.fn(tuple(0 for _ in x.shape_)))
    return float(x)


def sh_range(*a):
    if any(isinstance(x, SymInt) for x in a):
        r = SymRange(*a)
        if not isinstance(r.n, SymInt):
            return [r.get(k) for k in range(r.n)]
        return r
    return range(*a)


def symbolic_seq(x):
    return isinstance(x, SymSeq) and isinstance(x.n, SymInt) or isinstance(x, SymArr) and isinstance(x.shape_[0], SymInt)


def as_seq(x):
    if isinstance(x, SymSeq):
        return x
    if isinstance(x, SymArr):
        return SymSeq(x.shape_[0], lambda k: x[k] if x.ndim > 1 else x.at(k))
    return from_list(x)


def sh_zip(*s):
    if any(isinstance(x, SymProduct) for x in s):
        if not all(isinstance(x, SymProduct) for x in s):
            raise Unsupported('zip of a product and something else')
        return ZipProduct(list(s))
    if any(symbolic_seq(x) for x in s):
        s = [as_seq(x) for x in s]
        n = s[0].n
        for x in s[1:]:
            n = mk_int(z3.If(zi(x.n) < zi(n), zi(x.n), zi(n)))
        return SymSeq(n, lambda k: tuple(x.get(k) for x in s))
    return zip(*s)


def sh_enumerate(x, start=0):
    if symbolic_seq(x):
        x = as_seq(x)
        return SymSeq(x.n, lambda k: (k + start if start else k, x.get(k)))
    return enumerate(x, start)


def sh_list(x=()):
    if symbolic_seq(x):
        x = as_seq(x)
        return SymSeq(x.n, x.get, list)
    return list(x)


def sh_tuple(x=()):
    if symbolic_seq(x):
        x = as_seq(x)
        return SymSeq(x.n, x.get, tuple)
    return tuple(x)


def sh_reversed(x):
    if symbolic_seq(x):
        x = as_seq(x)
        return SymSeq(x.n, lambda k: x.get(mk_int(zi(x.n) - 1 - zi(k))))
    return reversed(x)


def sh_min(*a, **k):
    if len(a) == 1:
        if symbolic_seq(a[0]):
            return NPX.min(NPX.asarray(a[0]))
        a = list(a[0])
    if not any(isinstance(x, (SymInt, SymReal)) for x in a):
        return min(*a, **k) if len(a) > 1 else a[0]
    v = a[0]
    for x in a[1:]:
        v = ite(zb(x < v), x, v)
    return v


def sh_max(*a, **k):
    if len(a) == 1:
        if symbolic_seq(a[0]):
            return NPX.max(NPX.asarray(a[0]))
        a = list(a[0])
    if not any(isinstance(x, (SymInt, SymReal)) for x in a):
        return max(*a, **k) if len(a) > 1 else a[0]
    v = a[0]
    for x in a[1:]:
        v = ite(zb(x > v), x, v)
    return v


def sh_sum(x, start=0):
    if symbolic_seq(x):
        raise Unsupported('sum over a symbolic sequence')
    return sum(x, start)


def sh_all(x):
    if symbolic_seq(x):
        x = as_seq(x)
        return quant(SymArr((x.n,), lambda idx: x.get(idx[0]), 'bool'), True)
    for v in x:
        if not v:
            return False
    return True


def sh_any(x):
    if symbolic_seq(x):
        x = as_seq(x)
        return quant(SymArr((x.n,), lambda idx: x.get(idx[0]), 'bool'), False)
    for v in x:
        if v:
            return True
    return False


def sh_sorted(x, **k):
    if symbolic_seq(x):
        raise Unsupported('sorted on a symbolic sequence')
    return sorted(x, **k)


def sh_abs(x):
    return abs(x)


def sh_bool(x=False):
    return x if isinstance(x, SymBool) else bool(x)


def sh_type(x, *a):
    if a:
        return type(x, *a)
    p = pytype(x)
    return p if p is not None and not isinstance(x, type) else type(x)


def sh_product(*s):
    if any(symbolic_seq(x) for x in s):
        return SymProduct([as_seq(x) for x in s])
    return concrete_product([list(x) for x in s])


def concrete_product(s):
    p = SymProduct([from_list(x) for x in s])
    if CUR is not None:
        CUR.product = p
    for idx in itertools.product(*[range(len(x)) for x in s]):
        p.picked = list(idx)
        yield tuple(x[k] for x, k in zip(s, idx))


class SymProduct:
    """the cartesian product of sequences, in order (last one fastest)"""
    def __init__(self, seqs):
        self.seqs = seqs

    def element(self, idx):
        return tuple(s.get(k) for s, k in zip(self.seqs, idx))


class ZipProduct(SymProduct):
    """zip of products over sequences of pairwise equal lengths"""
    def __init__(self, ps):
        self.ps = ps
        self.seqs = ps[0].seqs
        for p in ps[1:]:
            CUR.oblige('products taken together have the same number of factors', z3.BoolVal(len(p.seqs) == len(self.seqs)))
            for a, b in zip(p.seqs, self.seqs):
                CUR.oblige('products taken together have factors of equal length', zi(a.n) == zi(b.n))

    def element(self, idx):
        return tuple(p.element(idx) for p in self.ps)


SHIMS = dict(len=sh_len, range=Shim(range, sh_range), zip=sh_zip, enumerate=sh_enumerate, min=sh_min, max=sh_max, sum=sh_sum, all=sh_all, any=sh_any,
             isinstance=sh_isinstance, issubclass=sh_issubclass, reversed=sh_reversed, sorted=sh_sorted, abs=sh_abs,
             int=Shim(int, sh_int), float=Shim(float, sh_float), bool=Shim(bool, sh_bool), list=Shim(list, sh_list), tuple=Shim(tuple, sh_tuple),
             slice=Shim(slice, SymSlice), type=Shim(type, sh_type))


# ---------------------------------------------------------------- rewriting
class Rewriter(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname = fname
        self.locals = [set()]
        self.nloop = 0
        self.qual = []

    # imports
    def visit_Import(self, n):
        out, keep = [], []
        for a in n.names:
            if a.name == 'numpy':
                out.append(ast.parse('%s = __np__' % (a.asname or 'numpy')).body[0])
            elif a.name.startswith('pygeode'):
                if a.asname:
                    out.append(ast.parse('%s = __mod__(%r)' % (a.asname, a.name)).body[0])
                else:
                    out.append(ast.parse('%s = __mod__(%r)' % (a.name.split('.')[0], a.name.split('.')[0])).body[0])
            else:
                keep.append(a)
        if keep:
            out.append(ast.Import(names=keep))
        return out

    def visit_ImportFrom(self, n):
        mod = n.module or ''
        if n.level:
            mod = 'pygeode' + ('.' + mod if mod else '') if '/formats/' not in self.fname else ('pygeode.formats' + ('.' + mod if mod else '') if n.level == 1 else 'pygeode' + ('.' + mod if mod else ''))
        if mod == '__future__':
            return n
        if mod.split('.')[0] in ('pygeode', 'numpy', 'itertools', 'copy', 'functools', 'scipy'):
            return [ast.parse('%s = __imp__(%r, %r)' % (a.asname or a.name, mod, a.name)).body[0] for a in n.names if a.name != '*']
        return n

    # functions: know the local names
    def visit_FunctionDef(self, n):
        loc = set(a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs)
        if n.args.vararg:
            loc.add(n.args.vararg.arg)
        if n.args.kwarg:
            loc.add(n.args.kwarg.arg)
        for s in ast.walk(n):
            if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                loc.add(s.id)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    loc.add((a.asname or a.name).split('.')[0])
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s is not n:
                loc.add(s.name)
        self.locals.append(loc)
        self.qual.append(n.name)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        n.body = self.body(n.body)
        self.qual.pop()
        self.locals.pop()
        return n

    def visit_ClassDef(self, n):
        self.locals.append(set())
        self.qual.append(n.name)
        n.body = self.body(n.body)
        self.qual.pop()
        self.locals.pop()
        return n

    def body(self, b):
        out = []
        for s in b:
            r = self.visit(s)
            out += r if isinstance(r, list) else [r] if r is not None else []
        return out or [ast.Pass()]

    def comp(self, n, kind):
        if len(n.generators) != 1 or n.generators[0].is_async:
            return self.generic_visit(n)
        g = n.generators[0]
        tgt = g.target
        if any(isinstance(s, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for s in ast.walk(n)):
            return self.generic_visit(n)

        def lam(e):
            if isinstance(tgt, ast.Name):
                return ast.Lambda(args=args([tgt.id]), body=e)
            if isinstance(tgt, ast.Tuple) and all(isinstance(x, ast.Name) for x in tgt.elts):
                inner = ast.Lambda(args=args([x.id for x in tgt.elts]), body=e)
                return ast.Lambda(args=args(['__t']), body=ast.Call(func=inner, args=[ast.Starred(value=ast.Name(id='__t', ctx=ast.Load()), ctx=ast.Load())], keywords=[]))
            return None
        if lam(ast.Constant(value=0)) is None:
            return self.generic_visit(n)
        tn = set(x.id for x in ast.walk(tgt) if isinstance(x, ast.Name))
        # the locals used by the element expression are fixed at this point
        used = set()
        for e in [n.elt] + g.ifs:
            for s in ast.walk(e):
                if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Load) and s.id not in tn and any(s.id in l for l in self.locals):
                    used.add(s.id)
        inner_targets = set()
        for e in [n.elt] + g.ifs:
            for s in ast.walk(e):
                if isinstance(s, ast.comprehension):
                    inner_targets |= set(x.id for x in ast.walk(s.target) if isinstance(x, ast.Name))
                elif isinstance(s, ast.Lambda):
                    inner_targets |= set(a.arg for a in s.args.args)
        used = sorted(used - inner_targets)
        it = self.visit(g.iter)
        self.locals.append(tn | inner_targets)
        elt = self.visit(n.elt)
        ifs = [self.visit(c) for c in g.ifs]
        self.locals.pop()
        cond = ast.Constant(value=None)
        if ifs:
            cond = lam(ifs[0] if len(ifs) == 1 else ast.BoolOp(op=ast.And(), values=ifs))
        pair = ast.Tuple(elts=[lam(elt), cond], ctx=ast.Load())
        fac = ast.Call(func=ast.Lambda(args=args(used), body=pair), args=[ast.Name(id=u, ctx=ast.Load()) for u in used], keywords=[])
        return ast.Call(func=ast.Name(id='__comp__', ctx=ast.Load()), args=[fac, it, ast.Constant(value=kind)], keywords=[])

    def visit_ListComp(self, n):
        return self.comp(n, 'list')

    def visit_GeneratorExp(self, n):
        return self.comp(n, 'gen')

    def visit_For(self, n):
        self.nloop += 1
        lid = '%s#%d' % ('.'.join(self.qual), self.nloop)
        stores, tgt_names = [], [x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)]
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id not in stores:
                    stores.append(x.id)
        carry = carried(n.body, set(tgt_names)) | leaves(n.body)
        stores += [x for x in sorted(carry) if x not in stores and x != '__break__']
        body = self.body(n.body)
        it = self.visit(n.iter)
        name = lambda x, c=None: ast.Name(id=x, ctx=c or ast.Load())
        call = lambda f, *a: ast.Call(func=name(f), args=list(a), keywords=[])
        h = '__h%d' % self.nloop

        def updates(expr):
            """h = expr; for each variable the loop changes: if it is in h, take its value from there"""
            out = [ast.Assign(targets=[name(h, ast.Store())], value=expr)]
            for v in stores:
                out.append(ast.If(test=ast.Compare(left=ast.Constant(value=v), ops=[ast.In()], comparators=[name(h)]),
                                  body=[ast.Assign(targets=[name(v, ast.Store())], value=ast.Subscript(value=name(h), slice=ast.Constant(value=v), ctx=ast.Load()))], orelse=[]))
            return out
        loop = ast.For(target=n.target,
                       iter=call('__loop__', ast.Constant(value=lid), it, call('locals'), ast.Constant(value=tuple(sorted(carry)))),
                       body=updates(call('__head__', ast.Constant(value=lid))) + body,
                       orelse=updates(call('__head__', ast.Constant(value=lid))) + [y for s in n.orelse for y in (lambda r: r if isinstance(r, list) else [r])(self.visit(s))])
        return loop

    def visit_While(self, n):
        n = self.generic_visit(n)
        return n

    def visit_AugAssign(self, n):
        """a[k] op= v"""
        n = self.generic_visit(n)
        if not isinstance(n.target, ast.Subscript):
            return n
        key = n.target.slice
        if isinstance(key, ast.Slice) or isinstance(key, ast.Tuple) and any(isinstance(x, (ast.Slice, ast.Starred)) for x in key.elts):
            key = ast.Subscript(value=ast.Name(id='__key__', ctx=ast.Load()), slice=key, ctx=ast.Load())
        return ast.Expr(ast.Call(func=ast.Name(id='__aug__', ctx=ast.Load()), args=[n.target.value, key, ast.Constant(value=type(n.op).__name__), n.value], keywords=[]))


class Key:
    def __getitem__(self, k):
        return k


def do_aug(a, key, op, v):
    """a[key] op= v"""
    import operator
    nm = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv', 'Mod': 'mod', 'Pow': 'pow', 'BitAnd': 'and_', 'BitOr': 'or_', 'BitXor': 'xor', 'LShift': 'lshift', 'RShift': 'rshift', 'MatMult': 'matmul'}[op]
    if not isinstance(a, SymArr):
        t = a[key]
        a[key] = getattr(operator, 'i' + nm.rstrip('_'))(t, v)
        return
    f = getattr(operator, nm)
    if isinstance(key, (SymArr, SymBool)) and getattr(key, 'kind', 'b') == 'b' and key.ndim == a.ndim:
        a[key] = f(a[key], v)
        return
    t = a[key]
    r = f(t, v)
    if isinstance(t, SymArr):
        if r.ndim != t.ndim:
            raise ValueError('non-broadcastable output operand')
        for x, y in zip(r.shape_, t.shape_):
            if not eq_dim(x, y):
                CUR.oblige('an in-place operation keeps the shape', zi(x) == zi(y))
        if a.kind != 'f' and r.kind == 'f':
            raise TypeError('Cannot cast ufunc output')
    del t
    a[key] = r


class MaskSel:
    """a[mask] for a mask of the rank of a: combined element by element with scalars and with others under the same mask"""
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, arr, mask, key=None):
        self.arr, self.mask, self.fn = arr.copy() if isinstance(arr, SymArr) else arr, mask, mask.fn
        self.key = key

    def under(self, mask):
        return isinstance(mask, SymArr) and (mask is self.mask and mask.fn is self.fn or self.key is not None and mask.ndim == 0 and mask.fn(()) is self.key)

    @staticmethod
    def combine(f, args, ms, kind):
        m0 = [m for m in ms if m is not None][0]
        for a, m in zip(args, ms):
            if m is None and not scalar(a) or m is not None and not m.under(m0.mask):
                raise Unsupported('masked values combined with others')
        return MaskSel(elementwise(f, *[m.arr if m is not None else a for a, m in zip(args, ms)], kind=kind), m0.mask, m0.key)

    def ew(self, o, f, kind=None, rev=False):
        return elementwise((lambda a, b: f(b, a)) if rev else f, self, o, kind=kind)

    def __add__(self, o): return self.ew(o, lambda a, b: a + b)
    def __radd__(self, o): return self.ew(o, lambda a, b: a + b, rev=True)
    def __sub__(self, o): return self.ew(o, lambda a, b: a - b)
    def __rsub__(self, o): return self.ew(o, lambda a, b: a - b, rev=True)
    def __mul__(self, o): return self.ew(o, lambda a, b: a * b)
    def __rmul__(self, o): return self.ew(o, lambda a, b: a * b, rev=True)
    def __truediv__(self, o): return self.ew(o, lambda a, b: freal(a) / freal(b), 'f')
    def __rtruediv__(self, o): return self.ew(o, lambda a, b: freal(a) / freal(b), 'f', rev=True)
    def __pow__(self, o): return self.ew(o, lambda a, b: a ** b)
    def __neg__(self): return elementwise(lambda a: -a, self)
    def __hash__(self): raise TypeError('unhashable')


MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'update', 'add', 'sort', 'reverse', 'clear', 'setdefault'}


def carried(body, targets):
    """names through which one iteration may influence the next (an over-approximation): variables read before they are written
    in the body, and objects from outside the body that it changes"""
    done, carry = set(targets), set()

    def expr(e):
        if e is None:
            return
        inner = set()
        for x in ast.walk(e):
            if isinstance(x, ast.comprehension):
                inner |= {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
            if isinstance(x, ast.Lambda):
                inner |= {a.arg for a in x.args.args}
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in done and x.id not in inner:
                reads.add(x.id)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and isinstance(x.func.value, ast.Name) and x.func.value.id not in done:
                carry.add(x.func.value.id)
    reads, writes = set(), set()

    def target(t):
        if isinstance(t, ast.Name):
            writes.add(t.id)
            done.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for u in t.elts:
                target(u)
        elif isinstance(t, ast.Starred):
            target(t.value)
        else:
            b = t
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                if isinstance(b, ast.Subscript):
                    expr(b.slice)
                b = b.value
            if isinstance(b, ast.Name) and b.id not in done:
                carry.add(b.id)

    def stmts(b):
        for s in b:
            if isinstance(s, ast.Assign):
                expr(s.value)
                for t in s.targets:
                    target(t)
            elif isinstance(s, ast.AugAssign):
                expr(s.value)
                if isinstance(s.target, ast.Name):
                    if s.target.id not in done:
                        reads.add(s.target.id)
                    writes.add(s.target.id)
                else:
                    target(s.target)
            elif isinstance(s, (ast.If, ast.While)):
                expr(s.test)
                # written on one branch only: still not certain afterwards
                saved = set(done)
                stmts(s.body)
                a = set(done)
                done.clear(); done.update(saved)
                stmts(s.orelse)
                b2 = set(done)
                done.clear(); done.update(a & b2 if isinstance(s, ast.If) else saved)
            elif isinstance(s, ast.For):
                expr(s.iter)
                saved = set(done)
                target(s.target)
                stmts(s.body)
                done.clear(); done.update(saved)
                stmts(s.orelse)
            elif isinstance(s, ast.Try):
                stmts(s.body)
                for h in s.handlers:
                    stmts(h.body)
                stmts(s.orelse)
                stmts(s.finalbody)
            elif isinstance(s, ast.With):
                for i in s.items:
                    expr(i.context_expr)
                    if i.optional_vars is not None:
                        target(i.optional_vars)
                stmts(s.body)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    done.add((a.asname or a.name).split('.')[0])
            else:
                for x in ast.iter_child_nodes(s):
                    if isinstance(x, ast.expr):
                        expr(x)
    stmts(body)
    return carry | (reads & writes)


def leaves(body, inner=False):
    """can the loop end before its last element?  (a return only matters to a generator, whose consumer misses the rest)"""
    out = set()
    for s in body:
        if isinstance(s, ast.Break) and not inner:
            out.add('__break__')
        elif isinstance(s, ast.Return) and s.value is None:
            out.add('__break__')
        elif isinstance(s, (ast.For, ast.While)):
            out |= leaves(s.body, True) | leaves(s.orelse, inner)
        elif not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            for f in ('body', 'orelse', 'finalbody'):
                out |= leaves(getattr(s, f, []) or [], inner)
            for h in getattr(s, 'handlers', []) or []:
                out |= leaves(h.body, inner)
    return out


def args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in names], kwonlyargs=[], kw_defaults=[], defaults=[])


def snapshot(x):
    return x


def do_comp(fc, it, kind):
    f, c = fc
    if symbolic_seq(it):
        s = as_seq(it)
        if c is not None:
            raise Unsupported('comprehension with a condition over a symbolic sequence')
        return SymSeq(s.n, lambda k: f(s.get(k)))
    if isinstance(it, SymArr):
        it = list(it)
    if kind == 'gen':
        return (f(x) for x in it if c is None or c(x))
    return [f(x) for x in it if c is None or c(x)]


HEAD = {}


def do_head(lid):
    return HEAD.pop(lid, ())


class Inv:
    """invariant of a for loop over n elements: vars(ctx, k, entry locals) gives arbitrary values of the variables the loop
    changes before element k; inv(ctx, k, locals) lists (name, formula) that hold before element k"""
    def __init__(self, vars, inv):
        self.vars, self.inv = vars, inv

    def run(self, lid, seq, loc, carry):
        ctx = CUR
        loc = dict(loc)
        n = seq.n
        ctx.phase, ctx.carry = 'before', set(carry) - {'__break__'}
        for nm, f in self.inv(ctx, 0, loc):
            ctx.oblige('%s: %s holds before the first element' % (lid, nm), f)
        missing = set(carry) - {'__break__'}
        ctx.carry = missing
        last = bool(ctx.branch(ctx.fresh('leave', B)))
        k = n if last else ctx.int('k', 0, n, some=True)
        mark, ctx.touched = ctx.count(), []
        new = self.vars(ctx, k, loc)
        if missing - set(new):
            raise Unsupported('loop %s also changes %s' % (lid, sorted(missing - set(new))))
        loc.update(new)
        ctx.phase = 'assume'
        for nm, f in self.inv(ctx, k, loc):
            ctx.assume(f)
        HEAD[lid] = new
        if last:
            return
        ctx.touched = []
        yield seq.get(k)
        ctx.kept_before(mark, lid)
        after = dict(sys._getframe(1).f_locals)
        k1 = mk_int(zi(k) + 1)
        ctx.phase = 'after'
        for nm, f in self.inv(ctx, k1, after):
            ctx.oblige('%s: %s is kept' % (lid, nm), f)
        raise PathEnd()


def do_loop(lid, it, loc, carry=()):
    h = Lifted.loops.get(lid) or Lifted.loops.get(lid.split('#')[0] + '#*') or Lifted.loops.get('*')
    HEAD.pop(lid, None)
    if symbolic_seq(it):
        if h is None and not carry:
            return arbitrary(SymProduct([as_seq(it)]), single=True)
        if h is None:
            raise Unsupported('loop %s over a sequence of symbolic length carries %s and has no invariant' % (lid, sorted(carry)))
        if isinstance(h, Inv):
            return h.run(lid, as_seq(it), loc, carry)
        return h(as_seq(it), loc)
    if isinstance(it, SymProduct):
        if h is None:
            if carry:
                raise Unsupported('loop %s over a product carries %s and has no invariant' % (lid, sorted(carry)))
            return arbitrary(it)
        return h(it, loc)
    return it


def arbitrary(p, single=False):
    """an arbitrary element (the body carries nothing from one element to the next); or none at all"""
    CUR.product = p
    some = z3.And(*[zi(s.n) > 0 for s in p.seqs])
    if CUR.branch(some) and not CUR.branch(CUR.fresh('leave', B)):
        idx = [CUR.int('pick', 0, s.n, some=True) for s in p.seqs]
        p.picked = idx
        v = p.element(idx)
        mark, CUR.touched = CUR.count(), []
        yield v[0] if single else v
        CUR.kept_before(mark, 'a loop')
        if CUR.per_element is not None:
            CUR.per_element()
        # what the body assigned is not relied upon after the loop
        raise PathEnd()


class Module(types.ModuleType):
    pass


class Lifted:
    """modules of the repository, lifted"""
    loops = {}

    def __init__(self, repo, contracts=None, lift=(), loops=None, attrs=None, pick=None):
        self.repo, self.contracts, self.lift = repo, contracts or {}, set(lift)
        self.attrs = attrs or {}
        self.pick = pick or {}
        self.mods = {}
        self.loops_ = loops or {}
        self.used = {}

    def activate(self):
        Lifted.loops = self.loops_
        Lifted.current = self

    def path(self, mod):
        p = os.path.join(self.repo, *mod.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        return p + '.py'

    def module(self, mod):
        if mod in self.mods:
            return self.mods[mod]
        if mod not in self.lift:
            raise Unsupported('module %s is used but not lifted' % mod)
        src = open(self.path(mod)).read()
        tree = ast.parse(src, self.path(mod))
        if mod in self.pick:
            # only these definitions of the module (its other statements are not executed; attrs has the names they need)
            tree.body = [n for n in tree.body if isinstance(n, (ast.ClassDef, ast.FunctionDef)) and n.name in self.pick[mod]]
        import copy
        # functions of one argument are run as they are when that is a data type
        native = [copy.deepcopy(n) for n in tree.body if isinstance(n, ast.FunctionDef) and not n.decorator_list and len(n.args.args) == 1 and not n.args.defaults and not n.args.kwarg and not n.args.vararg]
        tree = Rewriter(self.path(mod)).visit(tree)
        ast.fix_missing_locations(tree)
        m = Module(mod)
        g = m.__dict__
        self.mods[mod] = m
        g.update(SHIMS)
        g.update(__name__=mod, __np__=NPX, __comp__=do_comp, __loop__=do_loop, __aug__=do_aug, __key__=Key(), __head__=do_head, __imp__=self.imp, __mod__=self.modobj, __file__=self.path(mod), print=lambda *a, **k: None)
        g['hasattr'] = hasattr
        g.update(self.attrs.get(mod, {}))
        g['__dual__'] = lambda f: f
        if native:
            g2 = {'__name__': mod}
            exec(compile(ast.Module(body=native, type_ignores=[]), self.path(mod), 'exec'), g2)
            for n in tree.body:
                if isinstance(n, ast.FunctionDef) and n.name in g2:
                    n.decorator_list.append(ast.parse('__dual__', mode='eval').body)
            ast.fix_missing_locations(tree)

            def dual(f):
                h = g2[f.__name__]

                def d(*a, **k):
                    if len(a) == 1 and isinstance(a[0], np_.dtype) and not k:
                        return h(*a)
                    return f(*a, **k)
                d.__name__, d.__doc__, d.lifted = f.__name__, f.__doc__, f
                return d
            g['__dual__'] = dual
        exec(compile(tree, self.path(mod), 'exec'), g)
        return m

    def modobj(self, mod):
        if mod == 'pygeode':
            return Pkg(self)
        return self.module(mod)

    def imp(self, mod, nm):
        if mod == 'numpy':
            return getattr(NPX, nm)
        if mod == 'itertools' and nm == 'product':
            return sh_product
        if mod in ('itertools', 'functools', 'copy'):
            return getattr(__import__(mod), nm)
        q = mod + '.' + nm
        if q in self.contracts:
            self.used[q] = 1
            return self.contracts[q]
        if q in self.lift:
            return self.module(q)
        if mod.split('.')[0] == 'scipy':
            raise Unsupported('%s has no contract here' % q)
        m = self.module(mod)
        if not hasattr(m, nm):
            raise Unsupported('%s is not defined by the lifted module' % q)
        return getattr(m, nm)

    def get(self, mod, qual):
        o = self.module(mod)
        for p in qual.split('.'):
            if not hasattr(o, p):
                raise LookupError('%s.%s not found' % (mod, qual))
            o = getattr(o, p)
        return o


class Pkg:
    """a package, or a module of which only some parts have contracts"""
    def __init__(self, l, nm='pygeode'):
        self.l, self.nm = l, nm

    def __getattr__(self, nm):
        q = self.nm + '.' + nm
        if q in self.l.contracts:
            return self.l.contracts[q]
        if q in self.l.lift:
            return self.l.module(q)
        if any(c.startswith(q + '.') for c in self.l.contracts):
            return Pkg(self.l, q)
        raise Unsupported(q)


# ---------------------------------------------------------------- driver
def verify_py(rep, name, scenario, budget=400, max_paths=600, may_raise=(), note=''):
    """explore every path of scenario(ctx); it sets up the inputs, calls the code and states the obligations"""
    global CUR
    rep.functions.setdefault(name, note)
    deadline = time.time() + budget
    stack, paths, done = [[]], 0, 0
    n0 = len(rep.obls)
    while stack:
        prefix = stack.pop()
        paths += 1
        if paths > max_paths:
            rep.add(Obl('%s: within the reach of the verifier' % name, 'unknown', detail='more than %d paths' % max_paths))
            break
        ctx = Ctx(rep, name, prefix, deadline)
        CUR = ctx
        try:
            scenario(ctx)
            done += feasible(ctx.pc)
        except PathEnd:
            pass
        except Unsupported as e:
            if feasible(ctx.pc):
                rep.add(Obl('%s: within the reach of the verifier' % name, 'unknown', detail='unsupported: %s\n%s' % (e, tb())))
        except LookupError as e:
            if isinstance(e, (KeyError, IndexError)):
                ctx.oblige('does not raise %s (%s)' % (type(e).__name__, e), z3.BoolVal(False))
            else:
                rep.add(Obl('%s: function under contract exists' % name, 'error', detail=str(e)))
                break
        except z3.Z3Exception as e:
            rep.add(Obl('%s: within the reach of the verifier' % name, 'unknown', detail='engine: %s\n%s' % (e, tb())))
        except Exception as e:
            if isinstance(e, tuple(may_raise)) if may_raise else False:
                done += 1
            else:
                ctx.oblige('does not raise %s' % type(e).__name__, z3.BoolVal(False))
                if rep.obls and rep.obls[-1].status != 'proved':
                    rep.obls[-1].detail += '\n%s\n%s' % (e, tb())
        stack += ctx.alts
        if len(rep.failed()) > 12:
            break
    rep.reached[name] = done
    if not done:
        rep.add(Obl('%s: a return is reachable' % name, 'error', detail='no path completes'))
    if len(rep.obls) == n0:
        rep.add(Obl('%s: generates obligations' % name, 'error', detail='zero obligations'))


def tb():
    import traceback
    return traceback.format_exc()[-1200:]


def lemma(rep, name, pc, goal, timeout=60000):
    s, be, mo, t = valid(pc, goal, timeout)
    rep.add(Obl('lemma ' + name, s, be, t, mo))


def lemmas(rep):
    a, b, d, e = z3.Ints('a b d e')
    lemma(rep, 'product of non-negatives', [e >= 0, d >= 0], e * d >= 0)
    lemma(rep, 'multiplication is monotone', [b == a + e, e >= 0, d >= 0, e * d >= 0], a * d <= b * d)
    lemma(rep, 'multiplication by a negative number reverses', [b == a + e, e >= 0, d <= 0, e * (-d) >= 0], a * d >= b * d)


def verify_any(rep, name, scenario, ways, **kw):
    """verify_py under one of several assignments of ghost quantities to program variables (ways: a list, or a function giving
    the list once the scenario has run); the first that discharges everything is kept, else the first"""
    first, k = None, 0
    while True:
        r = Report()
        verify_py(r, name, lambda ctx: scenario(ctx, k), **kw)
        if not r.failed():
            break
        first = first or r
        k += 1
        if k >= (ways() if callable(ways) else ways):
            r = first
            break
    for o in r.obls:
        rep.add(o)
    rep.functions.update(r.functions)
    rep.reached.update(r.reached)
    for a in r.assumptions:
        rep.assume_note(a)
    rep.errors += r.errors
