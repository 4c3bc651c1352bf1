"""VC generator for C: symbolic execution of clang's AST of the real file, in continuation-passing style.

Integers are mathematical with a no-overflow obligation at every signed int / long long operation (option), doubles are
reals with a "finite" flag.  Memory: one logical array per object (base), pointers are (base, offset).
Loops are cut by invariants found by Houdini from candidate families (generic ones here, property-specific ones in the
sidecar contract): a candidate survives only if it is established on entry and preserved by the real body, so a surviving
set is an inductive invariant; candidates are hints, never assumptions.
"""
import json, re, subprocess, sys, time, os
import z3
from core import *

sys.setrecursionlimit(20000)
DEBUG = os.environ.get('VP_DEBUG')
I = z3.IntSort()
R = z3.RealSort()


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- front end
_ast_cache = {}


def load_c(path, defines=()):
    key = (path, tuple(defines))
    if key in _ast_cache:
        return _ast_cache[key]
    py = subprocess.run(['/opt/venv/bin/python', '-c',
                         'import sysconfig,numpy;print(sysconfig.get_paths()["include"]);print(numpy.get_include())'],
                        capture_output=True, text=True).stdout.split()
    cmd = ['clang', '-fsyntax-only', '-w', '-std=gnu99'] + ['-I' + p for p in py] + ['-D' + d for d in defines] + \
          ['-Xclang', '-ast-dump=json', path]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise Unsupported('clang cannot parse %s: %s' % (path, r.stderr[-500:]))
    # identities are addresses in clang's memory: numbered in order of appearance, for runs that can be repeated
    ids = {}
    text = re.sub(r'"(0x[0-9a-f]+)"', lambda m: '"n%d"' % ids.setdefault(m.group(1), len(ids)), r.stdout)
    tu = json.loads(text)
    fns, globs, typedefs, records = {}, {}, {}, {}
    last = None
    for d in tu['inner']:
        k = d.get('kind')
        if k == 'FunctionDecl' and any(c.get('kind') == 'CompoundStmt' for c in d.get('inner', ())):
            fns[d['name']] = d
        elif k == 'VarDecl':
            globs[d['id']] = d
        elif k == 'TypedefDecl':
            typedefs[d['name']] = d['type'].get('desugaredQualType', d['type']['qualType'])
            if last is not None:
                records[d['name']] = last
        last = None
        if k == 'RecordDecl':
            last = [(c['name'], c['type']) for c in d.get('inner', ()) if c['kind'] == 'FieldDecl' and 'name' in c]
            if 'name' in d:
                records[d['name']] = records['struct ' + d['name']] = last
    u = Unit(path, fns, globs, typedefs)
    u.records = records
    _ast_cache[key] = u
    return u


class Unit:
    def __init__(self, path, fns, globs, typedefs):
        self.path, self.fns, self.globs, self.typedefs = path, fns, globs, typedefs

    def ctype(self, t):
        """canonical type string"""
        q = t.get('desugaredQualType', t['qualType']) if isinstance(t, dict) else t
        q = q.replace('const ', '').replace(' const', '').replace('static ', '').strip()
        base = q.rstrip('* ').strip()
        seen = 0
        while base in self.typedefs and seen < 10:
            nb = self.typedefs[base].replace('const ', '').strip()
            q = q.replace(base, nb, 1)
            base = nb
            seen += 1
        return q


INTS = {'int': (-2**31, 2**31 - 1), 'long long': (-2**63, 2**63 - 1), 'long': (-2**63, 2**63 - 1),
        'unsigned int': (0, 2**32 - 1), 'unsigned long': (0, 2**64 - 1), 'unsigned long long': (0, 2**64 - 1),
        'char': (-128, 127), 'signed char': (-128, 127), 'unsigned char': (0, 255), 'short': (-2**15, 2**15 - 1),
        'unsigned short': (0, 2**16 - 1), '_Bool': (0, 1), 'long long int': (-2**63, 2**63 - 1)}
FLTS = ('double', 'float', 'long double')


# ---------------------------------------------------------------- values
def width(ty):
    lo, hi = INTS[ty]
    return (hi - lo + 1).bit_length() - 1


def modular(v, ty):
    """the value of v converted to ty, modulo 2^width"""
    lo, hi = INTS[ty]
    if z3.is_int_value(v):
        return iv((v.as_long() - lo) % (hi - lo + 1) + lo)
    u = v % (hi - lo + 1)
    return u if lo == 0 else z3.If(u > hi, u - (hi - lo + 1), u)


P2 = z3.Function('pow2', I, I)      # 2**n for symbolic n


class F:
    """a double: finite flag, real value, and (if known) an Int term equal to the value"""
    __slots__ = ('fin', 'v', 'iv')

    def __init__(self, fin, v, iv=None):
        self.fin, self.v, self.iv = fin, v, iv


class Ptr:
    __slots__ = ('base', 'off', 'dims', 'pre')

    def __init__(self, base, off, dims=(), pre=None):
        self.base, self.off, self.dims, self.pre = base, off, tuple(dims), pre      # pre: the member of the element that it points to


NULL = Ptr(None, z3.IntVal(0))


class Anywhere:
    """a pointer that points to one object or another, depending on the iteration; it may be overwritten but not used"""


class Struct:
    def __init__(self, fields):
        self.f = fields


def iv(n):
    return z3.IntVal(n)


class State:
    __slots__ = ('env', 'mem', 'size', 'pc', 'types', 'ghost', 'written', 'nfresh', 'alloc', 'trace', 'consts')

    def __init__(self):
        self.env, self.mem, self.size, self.pc, self.types = {}, {}, {}, [], {}
        self.ghost, self.written, self.nfresh = {}, set(), [0]
        self.alloc, self.trace = {}, ()
        self.consts = {}

    def copy(self):
        s = State()
        s.env, s.mem, s.size, s.pc, s.types = dict(self.env), dict(self.mem), dict(self.size), list(self.pc), dict(self.types)
        s.ghost, s.written, s.nfresh = dict(self.ghost), set(self.written), self.nfresh
        s.alloc, s.trace = dict(self.alloc), self.trace
        s.consts = self.consts
        return s

    def fresh(self, nm, sort=I):
        self.nfresh[0] += 1
        return z3.Const('%s!%d' % (nm, self.nfresh[0]), sort)


def cdiv(a, b):
    """C division, truncating"""
    if z3.is_int_value(b) and b.as_long() > 0:
        if z3.is_int_value(a):
            x, y = a.as_long(), b.as_long()
            return iv(abs(x) // y * (1 if x >= 0 else -1))
        return z3.If(a >= 0, a / b, -((-a) / b))
    q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
    return q


def cmod(a, b):
    return a - b * cdiv(a, b)


class Loop:
    """what a candidate family may look at"""

    def __init__(self, ex, st0, vars, fn, ordinal, mod):
        self.ex, self.entry, self.vars, self.fn, self.ordinal, self.mod = ex, st0, vars, fn, ordinal, mod


class Exec:
    def __init__(self, unit, report, contracts=None, overflow=True, fname='', families=(), notes=None, max_paths=4000,
                 reach_every=True):
        self.u, self.rep, self.contracts = unit, report, contracts or {}
        self.overflow, self.fname, self.families = overflow, fname, list(families)
        self.record = True
        self.loop_count = {}
        self.paths = 0
        self.max_paths = max_paths
        self.stack = []
        self.loopinfo = []
        self.fns_seen = set()
        self.deadline = None
        self.mixed = set()
        self.wrap = False
        self.effort = None
        self.onload = None
        self.candms = 2000
        self.split = []
        self.inv_found = {}
        self.dead = {}

    # ---- obligations
    def oblige(self, st, name, goal, timeout=None):
        if not self.record:
            return
        nm = '%s: %s' % (self.fname, name)
        key = (nm, goal.get_id(), tuple(c.get_id() for c in st.pc))
        if key in self.rep.cache:
            return
        status, be, model, secs = valid(st.pc, goal, timeout)
        self.rep.cache[key] = (status, goal, list(st.pc))
        o = Obl(nm, status, be, secs, model, detail='' if status == 'proved' else goal.sexpr()[:600])
        o.pc = None
        self.rep.add(o)
        if status != 'proved':
            o.detail += '\npath: ' + ' '.join(map(str, st.trace[-30:]))
        if status == 'failed' and model is not None:
            o.model = model
        return status

    def assume(self, st, c):
        c = z3.simplify(c) if False else c
        if not z3.is_true(c):
            st.pc.append(c)

    def chkint(self, st, v, ty, what):
        if self.wrap and ty in INTS and ty.startswith('unsigned'):
            return modular(v, ty)
        if self.overflow and ty in INTS and not (z3.is_int_value(v)):
            lo, hi = INTS[ty]
            if ty.startswith('unsigned'):
                return v
            self.oblige(st, 'no overflow in %s' % ty, z3.And(v >= lo, v <= hi))
        return v

    def fork(self, st, c, kt, kf):
        c = z3.simplify(c)
        if z3.is_true(c):
            return kt(st)
        if z3.is_false(c):
            return kf(st)
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the symbolic execution exceeded')
        self.paths += 1
        if self.paths > self.max_paths:
            raise Unsupported('too many paths')
        a = st.copy()
        a.pc.append(c)
        b = st
        b.pc.append(z3.Not(c))
        if feasible(a.pc, effort=self.effort):
            a.trace = a.trace + (1,)
            kt(a)
        if feasible(b.pc, effort=self.effort):
            b.trace = b.trace + (0,)
            kf(b)

    # ---- memory
    def new_base(self, st, name, elty, size, arr=None):
        st.types[name] = elty
        st.size[name] = size
        if arr is None:
            if elty in FLTS:
                arr = (st.fresh(name + '_fin', z3.ArraySort(I, z3.BoolSort())), st.fresh(name + '_v', z3.ArraySort(I, R)))
            elif isinstance(elty, tuple):  # struct of named members
                arr = {m: ((st.fresh(name + '_' + m + 'f', z3.ArraySort(I, z3.BoolSort())),
                            st.fresh(name + '_' + m, z3.ArraySort(I, R))) if t in FLTS else
                           st.fresh(name + '_' + m, z3.ArraySort(I, I))) for m, t in elty}
            else:
                arr = st.fresh(name, z3.ArraySort(I, I))
        st.mem[name] = arr
        return Ptr(name, iv(0))

    def load(self, st, p, member=None):
        if p.base is None:
            self.oblige(st, 'no null dereference', z3.BoolVal(False))
            return None
        self.bounds(st, p, 'read')
        ty = st.types[p.base]
        m = st.mem[p.base]
        off = z3.simplify(p.off)
        h = st.ghost.get('members', {}).get((p.base, member))
        if h is not None:
            return h(off)
        if isinstance(ty, tuple):
            if member is None:
                raise Unsupported('whole-struct read')
            if member not in m:
                raise Unsupported('member ' + member)
            m = m[member]
            ty = dict(ty)[member]
        elif member is not None:
            raise Unsupported('member ' + member)
        if p.base in st.consts:
            tab = st.consts[p.base]
            if z3.is_int_value(off):
                k = off.as_long()
                return iv(tab[k]) if 0 <= k < len(tab) else st.fresh('oob')
            e = iv(tab[-1])
            for k in range(len(tab) - 2, -1, -1):
                e = z3.If(off == k, iv(tab[k]), e)
            return e
        if ty in FLTS:
            if self.onload is not None:
                self.onload(st, p.base, off)
            return F(z3.Select(m[0], off), z3.Select(m[1], off))
        v = z3.Select(m, off)
        h = st.ghost.get('elem', {}).get(p.base)
        if h is not None:
            st.pc.append(h(off, v))
        if ty in INTS:
            lo, hi = INTS[ty]
            st.pc.append(z3.And(v >= lo, v <= hi))
        return v

    def bounds(self, st, p, what):
        t = st.ghost.get('touch', {}).get(p.base)
        if t is not None:
            t(st, z3.simplify(p.off))
        sz = st.size[p.base]
        if sz is not None:
            self.oblige(st, '%s within %s' % (what, p.base.split('#')[0]), z3.And(p.off >= 0, p.off < sz))

    def store(self, st, p, val, member=None):
        if p.base is None:
            self.oblige(st, 'no null dereference', z3.BoolVal(False))
            return
        self.bounds(st, p, 'write')
        ro = st.ghost.get('readonly', ())
        if p.base in ro:
            self.oblige(st, 'frame: %s not modified' % p.base, z3.BoolVal(False))
        st.written.add(p.base)
        ty = st.types[p.base]
        m = st.mem[p.base]
        off = z3.simplify(p.off)
        if isinstance(ty, tuple):
            d = dict(m)
            t2 = dict(ty)[member]
            mm = m[member]
            d[member] = (z3.Store(mm[0], off, val.fin), z3.Store(mm[1], off, val.v)) if t2 in FLTS else z3.Store(mm, off, val)
            st.mem[p.base] = d
        elif ty in FLTS:
            st.mem[p.base] = (z3.Store(m[0], off, val.fin), z3.Store(m[1], off, val.v))
        else:
            st.mem[p.base] = z3.Store(m, off, val)
        h = st.ghost.get('onstore')
        if h is not None:
            h(st, p.base, off, val)

    # ---- conversions
    def conv(self, st, v, ty, cast=False):
        ty = self.u.ctype(ty)
        if isinstance(v, (Ptr, Struct)) or v is None:
            return v
        if ty in FLTS:
            if isinstance(v, F):
                return v
            return F(z3.BoolVal(True), z3.ToReal(v), v)
        if ty in INTS:
            if isinstance(v, F):
                t = v.iv if v.iv is not None else z3.If(v.v >= 0, z3.ToInt(v.v), -z3.ToInt(-v.v))
                if self.overflow:
                    self.oblige(st, 'finite value converted to integer', v.fin)
                return self.chkint(st, t, ty, 'conversion')
            if isinstance(v, z3.BoolRef):
                return z3.If(v, iv(1), iv(0))
            if self.wrap and ty != '_Bool':
                return modular(v, ty) if cast else v          # (the casts are in the syntax tree)
            if self.overflow and not z3.is_int_value(v):
                lo, hi = INTS[ty]
                if ty == 'char':
                    return v
                self.oblige(st, 'value fits when converted to %s' % ty, z3.And(v >= lo, v <= hi))
            return v
        return v

    def wider(self, a, b):
        """may a value of type a not fit into b?"""
        a, b = INTS.get(self.u.ctype(a)), INTS.get(self.u.ctype(b))
        return not (a and b and b[0] <= a[0] and a[1] <= b[1])

    def truth(self, v):
        if isinstance(v, z3.BoolRef):
            return v
        if isinstance(v, F):
            return z3.Or(z3.Not(v.fin), v.v != 0)
        if isinstance(v, Ptr):
            return z3.BoolVal(v.base is not None)
        return v != 0

    def num(self, v):
        if isinstance(v, z3.BoolRef):
            return z3.If(v, iv(1), iv(0))
        return v

    # ---- expressions: ev(st, node, k) with k(st, value)
    def ev(self, st, e, k):
        m = getattr(self, 'e_' + e['kind'], None)
        if m is None:
            raise Unsupported('expression %s' % e['kind'])
        return m(st, e, k)

    def e_ParenExpr(self, st, e, k):
        return self.ev(st, e['inner'][0], k)

    e_ConstantExpr = e_ParenExpr

    def e_IntegerLiteral(self, st, e, k):
        return k(st, iv(int(e['value'])))

    def e_CharacterLiteral(self, st, e, k):
        return k(st, iv(int(e['value'])))

    def e_FloatingLiteral(self, st, e, k):
        x = float(e['value'])
        q = z3.RealVal(repr(x)) if 'e' not in repr(x) else z3.RealVal(str(__import__('fractions').Fraction(x)))
        return k(st, F(z3.BoolVal(True), q, iv(int(x)) if x == int(x) else None))

    def e_StringLiteral(self, st, e, k):
        return k(st, Ptr('"str"', iv(0)))

    def e_DeclRefExpr(self, st, e, k):
        d = e['referencedDecl']
        if d['kind'] == 'FunctionDecl':
            return k(st, ('fn', d['name']))
        i = d['id']
        if i in st.env:
            return k(st, st.env[i])
        if i in self.u.globs:
            gp = st.ghost.get('globals', {}).get(d['name'])
            if gp is not None:
                return k(st, gp)
            raise Unsupported('global %s' % d['name'])
        if d['kind'] == 'EnumConstantDecl':
            raise Unsupported('enum')
        raise Unsupported('variable %s used before definition' % d['name'])

    def e_ImplicitCastExpr(self, st, e, k):
        ck = e['castKind']
        sub = e['inner'][0]
        if ck == 'LValueToRValue':
            return self.lv(st, sub, lambda s, l: k(s, self.rd(s, l)))
        if ck == 'ArrayToPointerDecay':
            if sub['kind'] in ('StringLiteral', 'PredefinedExpr') or sub['kind'] == 'UnaryOperator' and sub['opcode'] == '__extension__':
                return k(st, Ptr('"str"', iv(0)))
            return self.lv(st, sub, lambda s, l: k(s, self.member_array(s, l) if l[0] == 'mem' else self.rd(s, l)))
        if ck in ('FunctionToPointerDecay', 'NoOp', 'BuiltinFnToFnPtr'):
            return self.ev(st, sub, k)
        if ck == 'NullToPointer':
            return k(st, NULL)
        if ck in ('BitCast', 'ToVoid', 'PointerToBoolean'):
            return self.ev(st, sub, k)
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'IntegralToBoolean'):
            if self.wrap and ck == 'IntegralCast' and 'type' in sub:
                a, b = INTS.get(self.u.ctype(sub['type'])), INTS.get(self.u.ctype(e['type']))
                if a and b and b[0] <= a[0] and a[1] <= b[1]:
                    return self.ev(st, sub, lambda s, v: k(s, self.num(v)))
            return self.ev(st, sub, lambda s, v: k(s, self.conv(s, v, e['type'], True)))
        if ck in ('FloatingToBoolean',):
            return self.ev(st, sub, lambda s, v: k(s, self.truth(v)))
        raise Unsupported('cast ' + ck)

    e_CStyleCastExpr = e_ImplicitCastExpr

    def member_array(self, st, l):
        p, member = l[1], l[2]
        if member is None:
            return p
        b = '%s.%s' % (p.base, member)
        if b not in st.mem or not z3.is_int_value(z3.simplify(p.off)) or z3.simplify(p.off).as_long() != 0:
            raise Unsupported('array member %s' % member)
        return Ptr(b, iv(0))

    def e_ConditionalOperator(self, st, e, k):
        c, a, b = e['inner']

        def after(s, v):
            t = self.truth(v)
            self.fork(s, t, lambda s1: self.ev(s1, a, k), lambda s2: self.ev(s2, b, k))
        # pure operands of numeric type: no fork needed
        if self.pure(a) and self.pure(b):
            def aft(s, v):
                t = z3.simplify(self.truth(v))
                if z3.is_true(t):
                    return self.ev(s, a, k)
                if z3.is_false(t):
                    return self.ev(s, b, k)
                # evaluate both under guards (obligations guarded)
                r = {}
                s1 = s.copy(); s1.pc.append(t)
                self.ev(s1, a, lambda _, x: r.__setitem__('a', x))
                s2 = s.copy(); s2.pc.append(z3.Not(t))
                self.ev(s2, b, lambda _, x: r.__setitem__('b', x))
                x, y = r.get('a'), r.get('b')
                if isinstance(x, (Ptr, Struct, tuple)) or x is None or isinstance(y, (Ptr, Struct, tuple)) or y is None:
                    return after(s, v)
                if isinstance(x, F) or isinstance(y, F):
                    return k(s, F(z3.If(t, x.fin, y.fin), z3.If(t, x.v, y.v),
                                  z3.If(t, x.iv, y.iv) if x.iv is not None and y.iv is not None else None))
                # keep facts collected while reading memory
                return k(s, z3.If(t, self.num(x), self.num(y)))
            return self.ev(st, c, aft)
        return self.ev(st, c, after)

    def pure(self, e):
        kd = e['kind']
        if kd in ('CallExpr', 'CompoundAssignOperator', 'StmtExpr'):
            return False
        if kd == 'BinaryOperator' and e['opcode'] == '=':
            return False
        if kd == 'UnaryOperator' and e['opcode'] in ('++', '--'):
            return False
        return all(self.pure(c) for c in e.get('inner', ()) if 'kind' in c)

    def e_UnaryOperator(self, st, e, k):
        op = e['opcode']
        sub = e['inner'][0]
        if op in ('++', '--'):
            d = 1 if op == '++' else -1

            def upd(s, l):
                old = self.rd(s, l)
                if isinstance(old, Ptr):
                    new = Ptr(old.base, z3.simplify(old.off + d), old.dims)
                elif isinstance(old, F):
                    new = F(old.fin, old.v + d)
                else:
                    new = self.chkint(s, z3.simplify(old + d), self.u.ctype(e['type']), op)
                self.wr(s, l, new)
                return k(s, old if e.get('isPostfix') else new)
            return self.lv(st, sub, upd)
        if op == '&':
            def addr(s, l):
                if l[0] == 'mem':
                    return k(s, l[1] if l[2] is None or not self.u.ctype(e['inner'][0]['type']) in self.u.records else Ptr(l[1].base, l[1].off, (), l[2]))
                # address of a local scalar: box it
                return k(s, ('ref', l[1]))
            return self.lv(st, sub, addr)
        if op == '*':
            return self.lv(st, e, lambda s, l: k(s, self.rd(s, l)))

        def f(s, v):
            if op == '-':
                if isinstance(v, F):
                    return k(s, F(v.fin, -v.v, -v.iv if v.iv is not None else None))
                return k(s, self.chkint(s, z3.simplify(-self.num(v)), self.u.ctype(e['type']), '-'))
            if op == '+':
                return k(s, v)
            if op == '!':
                return k(s, z3.Not(self.truth(v)))
            if op == '__extension__':
                return k(s, v)
            raise Unsupported('unary ' + op)
        return self.ev(st, sub, f)

    def e_BinaryOperator(self, st, e, k):
        op = e['opcode']
        a, b = e['inner']
        if op == '=':
            def got_l(s, l):
                def got_v(s2, v):
                    if isinstance(v, Ptr) and v.base and s2.types.get(v.base) == 'bytes':
                        self.type_heap(s2, v, self.u.ctype(e['type']))
                    v = self.conv(s2, v, e['type'])
                    self.wr(s2, l, v)
                    return k(s2, v)
                return self.ev(s, b, got_v)
            return self.lv(st, a, got_l)
        if op == ',':
            return self.ev(st, a, lambda s, _: self.ev(s, b, k))
        if op in ('&&', '||'):
            def left(s, v):
                t = z3.simplify(self.truth(v))
                if op == '&&' and z3.is_false(t) or op == '||' and z3.is_true(t):
                    return k(s, t)
                if op == '&&' and z3.is_true(t) or op == '||' and z3.is_false(t):
                    return self.ev(s, b, lambda s2, w: k(s2, self.truth(w)))
                if self.pure(b):
                    r = {}
                    s1 = s.copy(); s1.pc.append(t if op == '&&' else z3.Not(t))
                    self.ev(s1, b, lambda _, x: r.__setitem__('b', x))
                    if 'b' not in r:
                        return k(s, z3.BoolVal(op == '||'))
                    w = self.truth(r['b'])
                    return k(s, z3.And(t, w) if op == '&&' else z3.Or(t, w))
                if op == '&&':
                    return self.fork(s, t, lambda s1: self.ev(s1, b, lambda s2, w: k(s2, self.truth(w))),
                                     lambda s2: k(s2, z3.BoolVal(False)))
                return self.fork(s, t, lambda s1: k(s1, z3.BoolVal(True)),
                                 lambda s2: self.ev(s2, b, lambda s3, w: k(s3, self.truth(w))))
            return self.ev(st, a, left)
        return self.ev(st, a, lambda s, x: self.ev(s, b, lambda s2, y: k(s2, self.binop(s2, op, x, y, e['type']))))

    def binop(self, st, op, x, y, ty):
        ty = self.u.ctype(ty)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op == '+' and isinstance(x, Ptr):
                return Ptr(x.base, z3.simplify(x.off + self.num(y)), x.dims)
            if op == '+':
                return Ptr(y.base, z3.simplify(y.off + self.num(x)), y.dims)
            if op == '-' and not isinstance(y, Ptr):
                return Ptr(x.base, z3.simplify(x.off - self.num(y)), x.dims)
            if op == '-' and isinstance(y, Ptr) and x.base == y.base:
                return z3.simplify(x.off - y.off)
            if op in ('==', '!='):
                if x.base is None or y.base is None:
                    r = (x.base is None) == (y.base is None)
                    return z3.BoolVal(r if op == '==' else not r)
                if x.base != y.base:
                    return z3.BoolVal(op == '!=')
                return (x.off == y.off) if op == '==' else (x.off != y.off)
            if op in ('<', '>', '<=', '>=') and x.base == y.base:
                return {'<': x.off < y.off, '>': x.off > y.off, '<=': x.off <= y.off, '>=': x.off >= y.off}[op]
            raise Unsupported('pointer ' + op)
        if isinstance(x, tuple) or isinstance(y, tuple):
            raise Unsupported('binop on reference')
        if isinstance(x, F) or isinstance(y, F):
            if not isinstance(x, F):
                x = F(z3.BoolVal(True), z3.ToReal(x), x)
            if not isinstance(y, F):
                y = F(z3.BoolVal(True), z3.ToReal(y), y)
            both = z3.And(x.fin, y.fin)
            ii = x.iv is not None and y.iv is not None
            if op == '+':
                return F(both, x.v + y.v, x.iv + y.iv if ii else None)
            if op == '-':
                return F(both, x.v - y.v, x.iv - y.iv if ii else None)
            if op == '*':
                return F(both, x.v * y.v, x.iv * y.iv if ii else None)
            if op == '/':
                r = F(z3.And(both, y.v != 0), x.v / y.v)
                if ii and z3.is_int_value(y.iv) and y.iv.as_long() > 0:
                    r.iv = None
                    r = FQ(r.fin, r.v, x.iv, y.iv)
                return r
            if z3.is_true(z3.simplify(both)):
                both = z3.BoolVal(True)
            if op == '!=':
                return z3.Or(z3.Not(both), x.v != y.v) if not z3.is_true(both) else (x.v != y.v)
            c = {'<': x.v < y.v, '>': x.v > y.v, '<=': x.v <= y.v, '>=': x.v >= y.v, '==': x.v == y.v}.get(op)
            if c is None:
                raise Unsupported('double ' + op)
            if z3.is_true(both):
                return c
            # comparison involving a non-finite operand: unspecified here (could be an infinity)
            u = st.fresh('nfcmp', z3.BoolSort())
            return z3.If(both, c, u)
        x, y = self.num(x), self.num(y)
        if op == '+':
            return self.chkint(st, z3.simplify(x + y), ty, op)
        if op == '-':
            if self.wrap and z3.is_app(x) and x.decl().eq(P2) and z3.is_int_value(y) and y.as_long() == 1:
                return x - y                    # 2**n - 1 with n below the width (an obligation of the shift)
            return self.chkint(st, z3.simplify(x - y), ty, op)
        if op == '*':
            if self.wrap and not z3.is_int_value(x) and not z3.is_int_value(y):
                # instance of: products of numbers in an interval
                st.pc.append(z3.Implies(z3.And(0 <= x, x < 2**31, 0 <= y, y < 2**16), z3.And(x * y >= 0, x * y < 2**47)))
            return self.chkint(st, z3.simplify(x * y), ty, op)
        if op in ('/', '%'):
            if not z3.is_int_value(y) or y.as_long() == 0:
                self.oblige(st, 'no division by zero', y != 0)
            return cdiv(x, y) if op == '/' else cmod(x, y)
        if op in ('<<', '>>') and z3.is_int_value(y):
            if op == '<<':
                r = x * (1 << y.as_long())
                return modular(r, ty) if self.wrap and ty in INTS else self.chkint(st, r, ty, op)
            return x / (1 << y.as_long())
        if op in ('<<', '>>') and self.wrap and ty in INTS:
            self.oblige(st, 'shift by less than the width', z3.And(y >= 0, y < width(ty)))
            st.pc.append(P2(y) > 0)
            if op == '>>':
                return x / P2(y)
            if z3.is_int_value(x) and x.as_long() == 1:
                self.oblige(st, 'shifted bit fits', y < width(ty) - (0 if ty.startswith('unsigned') else 1))
                return P2(y)
        if op in ('&', '|', '^') and self.wrap:
            r = self.bits(st, op, x, y)
            if r is not None:
                return r
        c = {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}.get(op)
        if c is None:
            raise Unsupported('int operator ' + op)
        return c

    def bits(self, st, op, x, y):
        if z3.is_int_value(x) and not z3.is_int_value(y):
            x, y = y, x
        known = lambda g: valid(st.pc, g, 4000, fallback=False)[0] == 'proved'
        if z3.is_int_value(y) and y.as_long() >= 0:
            c = y.as_long()
            if z3.is_int_value(x) and x.as_long() >= 0:
                a = x.as_long()
                return iv({'&': a & c, '|': a | c, '^': a ^ c}[op])
            if c & (c + 1) == 0 and op == '&':
                return x % (c + 1)                              # two's complement: also for negative x
            if bin(c).count('1') <= 16:
                bs = [1 << k for k in range(c.bit_length()) if c >> k & 1]
                bit = lambda b: (x / b) % 2
                if op == '&':
                    return z3.Sum([b * bit(b) for b in bs]) if bs else iv(0)
                if op == '|':
                    return x + z3.Sum([b * (1 - bit(b)) for b in bs]) if bs else x
                return x + z3.Sum([b * (1 - 2 * bit(b)) for b in bs]) if bs else x
        if op == '&':
            for a, b in ((x, y), (y, x)):
                t = z3.simplify(b + 1)
                if z3.is_app(t) and t.decl().eq(P2) and known(a >= 0):
                    return a % t
        if op in ('|', '^'):
            # disjoint bits: one operand is below 2^k and the other a multiple of 2^k
            for a, b in ((x, y), (y, x)):
                for k in (8, 16, 24, 32, 40, 48, 56):
                    if known(z3.And(b >= 0, b < 2**k, a % 2**k == 0)):
                        return a + b
        return None

    def e_CompoundAssignOperator(self, st, e, k):
        op = e['opcode'][:-1]
        a, b = e['inner']

        def f(s, l):
            return self.ev(s, b, lambda s2, v: g(s2, l, v))

        def g(s, l, v):
            old = self.rd(s, l)
            ct = e.get('computeResultType', e['type'])
            if not isinstance(old, Ptr):
                old = self.conv(s, old, e.get('computeLHSType', e['type']), self.wider(e['type'], e.get('computeLHSType', e['type'])))
            r = self.binop(s, op, old, v, ct)
            r = self.conv(s, r, e['type'], self.u.ctype(ct) != self.u.ctype(e['type']))
            self.wr(s, l, r)
            return k(s, r)
        return self.lv(st, a, f)

    def e_ArraySubscriptExpr(self, st, e, k):
        return self.lv(st, e, lambda s, l: k(s, self.rd(s, l)))

    def e_MemberExpr(self, st, e, k):
        return self.lv(st, e, lambda s, l: k(s, self.rd(s, l)))

    def e_UnaryExprOrTypeTraitExpr(self, st, e, k):
        t = e.get('argType')
        if t is None:
            for c in e.get('inner', ()):
                if 'type' in c:
                    t = c['type']
        t = self.u.ctype(t or {'qualType': ''})
        if t in self.u.records:
            n = 0
            for _, ft in self.u.records[t]:
                q = self.u.ctype(ft)
                m = re.fullmatch(r'(?:un)?(?:signed )?char\[(\d+)\]', q)
                if not m:
                    raise Unsupported('sizeof ' + t)
                n += int(m.group(1))
            return k(st, iv(n))
        sz = 8 if t.endswith('*') else {'double': 8, 'float': 4, 'int': 4, 'unsigned int': 4, 'char': 1, 'long long': 8,
                                        'unsigned long long': 8, 'long': 8, 'unsigned long': 8}.get(t)
        if e.get('name') != 'sizeof' or sz is None:
            raise Unsupported('sizeof ' + t)
        return k(st, iv(sz))

    def e_StmtExpr(self, st, e, k):
        body = e['inner'][0]
        return self.ex(st, body, K(lambda s: k(s, None), None, None, None))

    # ---- lvalues: ('var', id) or ('mem', Ptr, member)
    def lv(self, st, e, k):
        kd = e['kind']
        if kd == 'ParenExpr':
            return self.lv(st, e['inner'][0], k)
        if kd == 'DeclRefExpr':
            d = e['referencedDecl']
            i = d['id']
            if i in st.env and isinstance(st.env[i], tuple) and st.env[i][0] == 'array':
                return k(st, ('mem', st.env[i][1], None))
            if i not in st.env and i in self.u.globs:
                g = st.ghost.get('globals', {}).get(d['name'])
                if g is None:
                    raise Unsupported('global %s' % d['name'])
                return k(st, ('val', g))
            return k(st, ('var', i))
        if kd == 'ArraySubscriptExpr':
            a, b = e['inner']

            def f(s, p):
                def g(s2, i):
                    if not isinstance(p, Ptr):
                        raise Unsupported('subscript of non-pointer')
                    if p.dims:
                        return k(s2, ('mem', Ptr(p.base, z3.simplify(p.off + self.num(i) * p.dims[0]), p.dims[1:]), None))
                    return k(s2, ('mem', Ptr(p.base, z3.simplify(p.off + self.num(i))), None))
                return self.ev(s, b, g)
            return self.ev(st, a, f)
        if kd == 'UnaryOperator' and e['opcode'] == '*':
            def f(s, p):
                if isinstance(p, tuple) and p[0] == 'ref':
                    return k(s, ('var', p[1]))
                if not isinstance(p, Ptr):
                    raise Unsupported('deref')
                return k(s, ('mem', Ptr(p.base, p.off, p.dims[1:]) if p.dims else p, None))
            return self.ev(st, e['inner'][0], f)
        if kd == 'MemberExpr':
            if e.get('isArrow'):
                return self.ev(st, e['inner'][0], lambda s, p: k(s, ('mem', p, e['name'] if getattr(p, 'pre', None) is None else p.pre + '.' + e['name'])))
            return self.lv(st, e['inner'][0], lambda s, l: k(s, (l[0], l[1], e['name'] if len(l) < 3 or l[2] is None else l[2] + '.' + e['name'])))
        if kd in ('ImplicitCastExpr', 'CStyleCastExpr'):
            return self.ev(st, e, lambda s, v: k(s, ('mem', v, None)))
        raise Unsupported('lvalue ' + kd)

    def rd(self, st, l):
        if l[0] == 'val':
            return l[1]
        if l[0] == 'var':
            if l[1] not in st.env:
                raise Unsupported('uninitialised variable')
            v = st.env[l[1]]
            if isinstance(v, Anywhere):
                raise Unsupported('use of a pointer to different objects in different iterations')
            if isinstance(v, str) and v == 'uninit':
                # reading an uninitialised local: arbitrary value
                return st.fresh('uninit')
            return v
        if l[1].dims and l[2] is None:
            return l[1]                         # a row of an array of pointers or of arrays
        return self.load(st, l[1], l[2])

    def wr(self, st, l, v):
        if l[0] == 'var':
            st.env[l[1]] = v if not isinstance(v, z3.BoolRef) else z3.If(v, iv(1), iv(0))
            st.written.add(l[1])
        elif l[0] == 'mem':
            self.store(st, l[1], v if not isinstance(v, z3.BoolRef) else z3.If(v, iv(1), iv(0)), l[2])
        else:
            raise Unsupported('write to global')

    # ---- calls
    def e_CallExpr(self, st, e, k):
        fn, args = e['inner'][0], e['inner'][1:]

        def go(s, f, i, vals):
            if i == len(args):
                return self.call(s, f, vals, e, k)
            return self.ev(s, args[i], lambda s2, v: go(s2, f, i + 1, vals + [v]))
        return self.ev(st, fn, lambda s, f: go(s, f, 0, []))

    def call(self, st, f, vals, e, k):
        if not (isinstance(f, tuple) and f[0] == 'fn'):
            raise Unsupported('indirect call')
        name = f[1]
        if name in self.contracts:
            self.rep.functions.setdefault('%s (contract used)' % name, '')
            return self.contracts[name](self, st, vals, k)
        b = getattr(self, 'b_' + name, None)
        if b is not None:
            return b(st, vals, e, k)
        if name in self.u.fns:
            if len(self.stack) > 8 or name in self.stack:
                raise Unsupported('recursion in %s without a contract' % name)
            return self.inline(st, name, vals, k)
        raise Unsupported('call of %s' % name)

    def inline(self, st, name, vals, k):
        d = self.u.fns[name]
        self.fns_seen.add(name)
        parms = [c for c in d['inner'] if c['kind'] == 'ParmVarDecl']
        body = [c for c in d['inner'] if c['kind'] == 'CompoundStmt'][0]
        saved = {}
        for p, v in zip(parms, vals):
            saved[p['id']] = st.env.get(p['id'])
            st.env[p['id']] = v
        self.stack.append(name)

        def ret(s, v):
            self.stack.pop()
            try:
                return k(s, v)
            finally:
                self.stack.append(name)
        self.ex(st, body, K(lambda s: ret(s, None), None, None, ret))
        self.stack.pop()

    # builtins
    def b___builtin_isnan(self, st, v, e, k):
        return k(st, z3.Not(v[0].fin) if isinstance(v[0], F) else z3.BoolVal(False))

    b_isnan = b___isnan = b___isnanf = b___builtin_isnan

    def b___builtin_isfinite(self, st, v, e, k):
        return k(st, v[0].fin if isinstance(v[0], F) else z3.BoolVal(True))

    b_isfinite = b_finite = b___finite = b___builtin_isfinite

    def b___builtin_isinf_sign(self, st, v, e, k):
        raise Unsupported('isinf')

    def b_fabs(self, st, v, e, k):
        x = v[0]
        return k(st, F(x.fin, z3.If(x.v >= 0, x.v, -x.v)))

    b___builtin_fabs = b_fabs

    def b_floor(self, st, v, e, k):
        x = v[0]
        if isinstance(x, FQ):
            q = x.num / x.den
            return k(st, F(x.fin, z3.ToReal(q), q))
        if x.iv is not None:
            return k(st, x)
        q = z3.ToInt(x.v)
        return k(st, F(x.fin, z3.ToReal(q), q))

    def b_ceil(self, st, v, e, k):
        x = v[0]
        q = -((-x.num) / x.den) if isinstance(x, FQ) else -z3.ToInt(-x.v)
        return k(st, F(x.fin, z3.ToReal(q), q))

    def b_abs(self, st, v, e, k):
        return k(st, z3.If(v[0] >= 0, v[0], -v[0]))

    b_labs = b_llabs = b_abs

    def b___builtin_nanf(self, st, v, e, k):
        return k(st, F(z3.BoolVal(False), st.fresh('nan', R)))

    b___builtin_nan = b___builtin_nanf

    def b___assert_fail(self, st, v, e, k):
        self.oblige(st, 'assert() holds', z3.BoolVal(False))

    def b_printf(self, st, v, e, k):
        return k(st, st.fresh('printf'))

    def b_malloc(self, st, v, e, k):
        st.nfresh[0] += 1
        return k(st, self.do_malloc(st, v[0]))

    def do_malloc(self, st, nbytes):
        name = 'heap#%d' % st.nfresh[0]
        st.types[name] = 'bytes'
        st.size[name] = None
        st.alloc[name] = nbytes
        st.mem[name] = None
        return Ptr(name, iv(0))

    def b_free(self, st, v, e, k):
        p = v[0]
        if isinstance(p, Ptr) and p.base is not None:
            ok = st.alloc.get(p.base)
            self.oblige(st, 'free of a live allocation, once', z3.BoolVal(ok is not None and ok is not False))
            self.oblige(st, 'free of the start of an allocation', p.off == 0)
            st.alloc[p.base] = False
            st.size[p.base] = iv(0)
        return k(st, None)

    def b_memcpy(self, st, v, e, k):
        d, s_, n = v
        ty = st.types[d.base]
        w = {'double': 8, 'int': 4, 'float': 4, 'long long': 8}.get(ty)
        if w is None or st.types[s_.base] != ty:
            raise Unsupported('memcpy of %s' % (ty,))
        cnt = z3.simplify(n / w)
        self.memcopy(st, d, s_, cnt)
        return k(st, d)

    def memcopy(self, st, d, s_, cnt):
        self.oblige(st, 'memcpy within source', z3.And(cnt >= 0, z3.Implies(cnt > 0, z3.And(s_.off >= 0, s_.off + cnt <= st.size[s_.base]))))
        self.oblige(st, 'memcpy within destination', z3.Implies(cnt > 0, z3.And(d.off >= 0, d.off + cnt <= st.size[d.base])))
        st.written.add(d.base)
        x = z3.Int('x!mc')

        def cp(new, old):
            return z3.Lambda([x], z3.If(z3.And(x >= d.off, x < d.off + cnt), z3.Select(new, x - d.off + s_.off), z3.Select(old, x)))
        a, b = st.mem[s_.base], st.mem[d.base]
        st.mem[d.base] = tuple(cp(n_, o) for n_, o in zip(a, b)) if isinstance(a, tuple) else cp(a, b)

    # ---- statements
    def ex(self, st, s, K_):
        m = getattr(self, 's_' + s['kind'], None)
        if m is None:
            if 'valueCategory' in s:
                return self.ev(st, s, lambda s2, v: K_.next(s2))
            raise Unsupported('statement %s' % s['kind'])
        return m(st, s, K_)

    def seq(self, st, lst, i, K_):
        if i >= len(lst):
            return K_.next(st)
        s = lst[i]
        lbl = K_.labels
        return self.ex(st, s, K_.with_next(lambda s2: self.seq(s2, lst, i + 1, K_)))

    def s_CompoundStmt(self, st, s, K_):
        lst = s.get('inner', [])
        labels = dict(K_.labels)
        for i, c in enumerate(lst):
            if c['kind'] == 'LabelStmt':
                labels[c['declId']] = (lst, i)
        if len(labels) != len(K_.labels):
            K2 = K_.copy()
            K2.labels = labels
            for did, (l, i) in list(labels.items()):
                if l is lst:
                    labels[did] = (lst, i, K2)
            K_ = K2
        return self.seq(st, lst, 0, K_)

    def s_LabelStmt(self, st, s, K_):
        return self.ex(st, s['inner'][0], K_)

    def s_GotoStmt(self, st, s, K_):
        tgt = K_.labels.get(s['targetLabelDeclId'])
        if tgt is None:
            raise Unsupported('goto')
        lst, i, K2 = tgt
        if K_.depth_goto > 3:
            raise Unsupported('goto loop')
        K3 = K2.copy()
        K3.depth_goto = K_.depth_goto + 1
        return self.seq(st, lst, i, K3)

    def s_NullStmt(self, st, s, K_):
        return K_.next(st)

    def s_DeclStmt(self, st, s, K_):
        decls = s.get('inner', [])

        def go(st, i):
            if i == len(decls):
                return K_.next(st)
            d = decls[i]
            if d['kind'] != 'VarDecl':
                return go(st, i + 1)
            ty = self.u.ctype(d['type'])
            init = [c for c in d.get('inner', ()) if 'kind' in c and not c['kind'].endswith('Attr')]
            if '[' in ty:
                el, dims = ty.split('[', 1)
                el = el.strip()
                try:
                    dims = [int(x) for x in ('[' + dims).strip('[]').split('][')]
                except ValueError:
                    raise Unsupported('variable length array')
                n = 1
                for x in dims:
                    n *= x
                self.new_base(st, d['name'] + '#' + d['id'], el, iv(n))
                st.env[d['id']] = ('array', Ptr(d['name'] + '#' + d['id'], iv(0), self.strides(dims)))
                if init:
                    if init[0]['kind'] != 'InitListExpr':
                        raise Unsupported('array initialiser')
                    vals = []
                    if not self.flat(init[0], vals):
                        raise Unsupported('non-constant table')
                    vals += [0] * (n - len(vals))
                    st.consts = dict(st.consts)
                    st.consts[d['name'] + '#' + d['id']] = vals
                return go(st, i + 1)
            if ty in self.u.records and not init:
                st.env[d['id']] = ('array', self.record_base(st, d['name'] + '#' + d['id'], ty))
                return go(st, i + 1)
            st.types['var:' + d['id']] = ty
            if d.get('storageClass') == 'static':
                h = st.ghost.get('static')
                if h is None:
                    raise Unsupported('static variable ' + d['name'])
                st.env[d['id']] = h(self, st, d)
                return go(st, i + 1)
            st.env.setdefault('names', {})
            if init:
                def f(s2, v):
                    if isinstance(v, Ptr) and v.base and st.types.get(v.base) == 'bytes':
                        self.type_heap(s2, v, ty)
                    s2.env[d['id']] = self.conv(s2, v, d['type'])
                    s2.written.add(d['id'])
                    return go(s2, i + 1)
                return self.ev(st, init[0], f)
            st.env[d['id']] = 'uninit'
            if ty in FLTS:
                st.env[d['id']] = F(st.fresh('uninitf', z3.BoolSort()), st.fresh('uninit', R))
            elif ty in INTS:
                st.env[d['id']] = st.fresh('uninit_' + d['name'])
            return go(st, i + 1)
        return go(st, 0)

    def record_base(self, st, name, rec):
        """an object of record type: scalar members under its name, array members as objects of their own"""
        fields = []
        for m, ft in self.u.records[rec]:
            q = self.u.ctype(ft)
            a = re.fullmatch(r'(.*)\[(\d+)\]', q)
            if a:
                self.new_base(st, '%s.%s' % (name, m), a.group(1).strip(), iv(int(a.group(2))))
            elif q in INTS or q in FLTS:
                fields.append((m, q))
        return self.new_base(st, name, tuple(fields), iv(1))

    def strides(self, dims):
        """list such that subscripting at level j multiplies by dims[j+1:] product"""
        out = []
        for j in range(len(dims)):
            n = 1
            for x in dims[j + 1:]:
                n *= x
            out.append(n)
        return tuple(out)

    def flat(self, e, out):
        if e['kind'] == 'InitListExpr':
            return all(self.flat(c, out) for c in e.get('inner', ()))
        while e['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ConstantExpr'):
            e = e['inner'][0]
        neg = 1
        if e['kind'] == 'UnaryOperator' and e['opcode'] == '-':
            neg = -1
            e = e['inner'][0]
        if e['kind'] == 'IntegerLiteral':
            out.append(neg * int(e['value']))
            return True
        return False

    def type_heap(self, st, p, ty):
        el = ty.rstrip('* ').strip()
        w = {'double': 8, 'int': 4, 'float': 4, 'long long': 8, 'char': 1, 'unsigned char': 1, 'unsigned int': 4, 'unsigned long long': 8, 'long': 8}.get(el)
        if w is None:
            raise Unsupported('allocation of ' + ty)
        nb = st.alloc[p.base]
        nb = z3.simplify(nb)
        sz = z3.simplify(nb / w)
        # bytes = w*n (or n*w): recover n
        n = st.fresh('len')
        st.pc.append(z3.Implies(nb >= 0, z3.And(n * w <= nb, n * w > nb - w)))
        st.types[p.base] = el
        st.size[p.base] = n
        if el in FLTS:
            st.mem[p.base] = (st.fresh(p.base + '_fin', z3.ArraySort(I, z3.BoolSort())), st.fresh(p.base + '_v', z3.ArraySort(I, R)))
        else:
            st.mem[p.base] = st.fresh(p.base, z3.ArraySort(I, I))

    def s_IfStmt(self, st, s, K_):
        inner = s['inner']
        c, t = inner[0], inner[1]
        f = inner[2] if len(inner) > 2 else None
        return self.ev(st, c, lambda s2, v: self.fork(
            s2, self.truth(v), lambda a: self.ex(a, t, K_),
            lambda b: self.ex(b, f, K_) if f else K_.next(b)))

    def s_ReturnStmt(self, st, s, K_):
        if s.get('inner'):
            return self.ev(st, s['inner'][0], lambda s2, v: K_.ret(s2, v))
        return K_.ret(st, None)

    def s_BreakStmt(self, st, s, K_):
        return K_.brk(st)

    def s_ContinueStmt(self, st, s, K_):
        return K_.cont(st)

    def s_WhileStmt(self, st, s, K_):
        c, b = s['inner'][0], s['inner'][1]
        return self.loop(st, s, c, b, None, K_)

    def s_DoStmt(self, st, s, K_):
        b, c = s['inner'][0], s['inner'][1]
        # do B while (C)  ==  B; while (C) B   (break/continue inside the first B handled)
        K1 = K_.copy()
        K1.next = lambda s2: self.loop(s2, s, c, b, None, K_)
        K1.cont = K1.next
        K1.brk = lambda s2: K_.next(s2)
        return self.ex(st, b, K1)

    def s_ForStmt(self, st, s, K_):
        init, _, c, inc, b = s['inner']
        if init and 'kind' in init:
            return self.ex(st, init, K_.with_next(lambda s2: self.loop(s2, s, c, b, inc, K_)))
        return self.loop(st, s, c, b, inc, K_)

    # ---- loops
    def assigned(self, e, out):
        """ids of scalars assigned in e"""
        kd = e.get('kind')
        tgt = None
        if kd == 'BinaryOperator' and e['opcode'] == '=' or kd == 'CompoundAssignOperator':
            tgt = e['inner'][0]
        elif kd == 'UnaryOperator' and e['opcode'] in ('++', '--', '&'):
            tgt = e['inner'][0]
        elif kd == 'VarDecl':
            out.add(e['id'])
        if tgt is not None:
            while tgt['kind'] in ('ParenExpr',):
                tgt = tgt['inner'][0]
            if tgt['kind'] == 'DeclRefExpr':
                out.add(tgt['referencedDecl']['id'])
        for c in e.get('inner', ()):
            self.assigned(c, out)

    def havoc(self, st, ids, bases, tag):
        for i in ids:
            v = st.env.get(i)
            if v is None or (isinstance(v, str) and v == 'uninit'):
                continue
            if i in self.mixed:
                st.env[i] = Anywhere()
            elif isinstance(v, Ptr):
                st.env[i] = Ptr(v.base, st.fresh('off'), v.dims)
            elif isinstance(v, F):
                st.env[i] = F(st.fresh('hf', z3.BoolSort()), st.fresh('hv', R))
            elif isinstance(v, z3.ArithRef):
                n = st.fresh('h')
                ty = st.types.get('var:' + i)
                if ty in INTS:
                    lo, hi = INTS[ty]
                    st.pc.append(z3.And(n >= lo, n <= hi))
                st.env[i] = n
            elif isinstance(v, tuple):
                pass
        for b in bases:
            m = st.mem.get(b)
            if m is None:
                continue
            if isinstance(m, dict):
                st.mem[b] = {kk: (tuple(st.fresh(b + 'h', a.sort()) for a in mm) if isinstance(mm, tuple) else st.fresh(b + 'h', mm.sort()))
                             for kk, mm in m.items()}
            elif isinstance(m, tuple):
                st.mem[b] = tuple(st.fresh(b + 'h', a.sort()) for a in m)
            else:
                st.mem[b] = st.fresh(b + 'h', m.sort())
        h = st.ghost.get('onhavoc')
        if h is not None:
            h(st, [st.env[i] for i in self.intvars(st)])

    def intvars(self, st):
        return [i for i, v in st.env.items() if isinstance(v, z3.ArithRef) and v.sort() == I]

    def ptrvars(self, st):
        return [i for i, v in st.env.items() if isinstance(v, Ptr) and v.base]

    def generic_candidates(self, lp):
        """order relations between the integer variables (and pointer offsets)"""
        out = []
        st0 = lp.entry
        mod = [i for i in lp.mod if i in st0.env]
        ints = [i for i in self.intvars(st0)]
        mints = [i for i in mod if i in ints]
        for i in mints:
            e0 = st0.env[i]
            out.append(lambda s, i=i, e0=e0: s.env[i] >= e0)
            out.append(lambda s, i=i, e0=e0: s.env[i] <= e0)
            for c in (-1, 0, 1):
                out.append(lambda s, i=i, c=c: s.env[i] >= c)
            for j in ints:
                if j == i:
                    continue
                out.append(lambda s, i=i, j=j: s.env[i] <= s.env[j])
                out.append(lambda s, i=i, j=j: s.env[i] >= s.env[j])
                out.append(lambda s, i=i, j=j: s.env[i] <= s.env[j] - 1)
                out.append(lambda s, i=i, j=j: s.env[i] <= s.env[j] + 1)
                if j in mints:
                    e1 = st0.env[j]
                    out.append(lambda s, i=i, j=j, e0=e0, e1=e1: s.env[i] - s.env[j] == e0 - e1)
                    out.append(lambda s, i=i, j=j, e0=e0, e1=e1: s.env[i] + s.env[j] == e0 + e1)
        for i in mod:
            v = st0.env.get(i)
            if isinstance(v, Ptr) and v.base:
                out.append(lambda s, i=i, o=v.off: s.env[i].off == o)
                for j in mints:
                    e1 = st0.env[j]
                    out.append(lambda s, i=i, j=j, o=v.off, e1=e1: s.env[i].off - o == s.env[j] - e1)
        return out

    def loop(self, st, node, c, body, inc, K_):
        fn = self.stack[-1] if self.stack else self.fname
        ordn = node['id']
        mod = set()
        for x in (c, body, inc):
            if x and 'kind' in x:
                self.assigned(x, mod)
        mod_live = [i for i in mod if i in st.env]
        entry = st.copy()
        hascond = c and 'kind' in c
        cond = (lambda s, kt, kf: self.ev(s, c, lambda s2, v: self.fork(s2, self.truth(v), kt, kf))) if hascond else (lambda s, kt, kf: kt(s))

        # which objects does the body write?
        saved = self.record
        self.record = False
        written = set()
        dead0, self.dead = self.dead, {}
        npaths = self.paths
        bases = set()
        lps = len(self.loopinfo)
        again = []
        for rnd in range(12):
            probe = entry.copy()
            probe.written = set()
            self.havoc(probe, mod_live, bases, 'p')
            seen = set()

            def note(s):
                seen.update(s.written)
                for i in mod_live:
                    a, b = entry.env.get(i), s.env.get(i)
                    if (isinstance(a, Ptr) or isinstance(b, (Ptr, Anywhere))) and i not in self.mixed and getattr(a, 'base', 0) != getattr(b, 'base', 1):
                        self.mixed.add(i)
                        again.append(i)

            def end(s):
                note(s)
            Kp = Kont(next=lambda s: (self.ev(s, inc, lambda s2, _: end(s2)) if inc and 'kind' in inc else end(s)),
                      brk=end, ret=lambda s, v: end(s))
            Kp.cont = Kp.next
            Kp.labels = K_.labels and {kk: (v[0], v[1], Kont(next=end, brk=end, ret=lambda s, v: end(s), labels={})) for kk, v in K_.labels.items()}
            try:
                cond(probe, lambda s: self.ex(s, body, Kp), note)
            finally:
                pass
            if again:
                del again[:]
                continue
            nb = {b for b in seen if b in entry.mem}
            nm = {i for i in seen if i in entry.env and i not in entry.mem}
            if nb <= bases and nm <= set(mod_live):
                break
            bases |= nb
            mod_live = list(set(mod_live) | nm)
        else:
            raise Unsupported('the objects a loop writes to cannot be determined')
        self.record, self.dead = saved, dead0

        lp = Loop(self, entry, None, fn, ordn, mod_live)
        cands = self.generic_candidates(lp)
        for fam in self.families:
            cands += fam(self, lp) or []

        def val(cf, s):
            try:
                v = cf(s)
            except (KeyError, AttributeError, TypeError, z3.Z3Exception):
                return None
            return v
        # establish on entry; candidates refuted before at this point (under stronger assumptions of the enclosing loops) are not tried again
        dead = self.dead.setdefault((ordn, st.trace, tuple(self.stack), len(cands)), set())
        number = {id(cf): k for k, cf in enumerate(cands)}
        ctx = [(cf, val(cf, st)) for k, cf in enumerate(cands) if k not in dead]
        ctx = [(cf, v) for cf, v in ctx if v is not None and v is not False and not z3.is_false(v)]
        live = self.filter(st.pc, ctx)
        # preservation
        self.record = False
        depth = 0
        while True:
            depth += 1
            H = entry.copy()
            H.pc = list(st.pc)
            self.havoc(H, mod_live, bases, 'H')
            assum = [val(cf, H) for cf in live]
            H.pc += [a for a in assum if a is not None]
            ends = []

            def fin(s):
                ends.append(s)
            Kp = Kont(next=lambda s: (self.ev(s, inc, lambda s2, _: fin(s2)) if inc and 'kind' in inc else fin(s)),
                      brk=lambda s: None, ret=lambda s, v: None)
            Kp.cont = Kp.next
            Kp.labels = {kk: (v[0], v[1], Kont(next=lambda s: None, brk=lambda s: None, ret=lambda s, v: None, labels={})) for kk, v in K_.labels.items()}
            cond(H.copy(), lambda s: self.ex(s, body, Kp), lambda s: None)
            before = len(live)
            if DEBUG:
                print('loop', ordn, 'round', depth, 'candidates', before, 'ends', len(ends), 'pc', len(H.pc), time.strftime('%X'), flush=True)
            for E in ends:
                ctx = []
                for cf in live:
                    v = val(cf, E)
                    if v is not None and v is not False:
                        ctx.append((cf, v))
                live = self.filter(E.pc, ctx)
            if len(live) == before:
                dead |= set(number.values()) - {number[id(cf)] for cf in live}
                break
            if depth > 40:
                raise Unsupported('no fixpoint of loop invariants')
        self.record = saved
        # final pass: obligations inside the body are recorded; break/return paths go on
        H = entry.copy()
        H.pc = list(st.pc)
        H.written = set(st.written) | bases | set(mod_live)
        self.havoc(H, mod_live, bases, 'I')
        H.pc += [v for v in (val(cf, H) for cf in live) if v is not None]
        if saved:
            self.inv_found[ordn] = len(live)
        Kb = K_.copy()
        Kb.next = lambda s: (self.ev(s, inc, lambda s2, _: None) if inc and 'kind' in inc else None)
        Kb.cont = Kb.next
        Kb.brk = lambda s: K_.next(s)
        return cond(H, lambda s: self.ex(s, body, Kb), lambda s: K_.next(s))

    def filter(self, pc, ctx):
        """keep the candidates whose value is entailed by pc (model-guided)"""
        ctx = list(ctx)
        s = mk_solver(3000)
        s.add(*pc)
        # quick syntactic ones
        while ctx:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time budget of the symbolic execution exceeded')
            s.push()
            s.add(z3.Not(z3.And(*[v for _, v in ctx])) if len(ctx) > 1 else z3.Not(ctx[0][1]))
            r = s.check()
            if r == z3.unsat:
                s.pop()
                break
            if r == z3.sat:
                m = s.model()
                keep = [(c, v) for c, v in ctx if not z3.is_false(m.eval(v, model_completion=True))]
                s.pop()
                if len(keep) == len(ctx):
                    # model undecided on some: test one by one
                    return self.one_by_one(pc, ctx)
                ctx = keep
                continue
            s.pop()
            return self.one_by_one(pc, ctx)
        return [c for c, _ in ctx]

    def one_by_one(self, pc, ctx):
        out = []
        for c, v in ctx:
            st_, _, _, secs = valid(pc, v, 2000, fallback=False)
            if st_ == 'unknown' and self.split:
                t = time.time()
                st_ = self.by_cases(pc, v) or st_
                secs += time.time() - t
            if st_ == 'unknown' and self.candms > 2000:
                st_, _, _, secs = valid(pc, v, self.candms, fallback=False)
            if st_ == 'proved':
                out.append(c)
            if DEBUG and secs > 1:
                print('   candidate', st_, '%.1f' % secs, str(v)[:300].replace('\n', ' '), flush=True)
        return out

    def by_cases(self, pc, v):
        """an arbitrary counter is the place looked at, or it is not"""
        hs, todo, seen = [], [v], set()
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.sort() == I and e.decl().name().startswith('h!'):
                hs.append(e)
            todo += e.children()
        for h in hs[:4]:
            for j in self.split:
                if valid(pc + [h != j], v, 2000, fallback=False)[0] != 'proved':
                    continue
                sub = lambda x: z3.simplify(z3.substitute(x, (h, j)))
                if valid([sub(x) for x in pc], sub(v), 8000, fallback=False)[0] == 'proved':
                    return 'proved'
        return None


class FQ(F):
    """num/den with integer num and positive integer constant den"""
    __slots__ = ('num', 'den')

    def __init__(self, fin, v, num, den):
        F.__init__(self, fin, v, None)
        self.num, self.den = num, den


class Kont:
    __slots__ = ('next', 'brk', 'cont', 'ret', 'labels', 'depth_goto')

    def __init__(self, next=None, brk=None, cont=None, ret=None, labels=None, depth_goto=0):
        self.next, self.brk, self.cont, self.ret, self.labels, self.depth_goto = next, brk, cont, ret, labels or {}, depth_goto

    def copy(self):
        return Kont(self.next, self.brk, self.cont, self.ret, self.labels, self.depth_goto)

    def with_next(self, f):
        k = self.copy()
        k.next = f
        return k


def K(n, b, c, r):
    return Kont(n, b, c, r)


# ---------------------------------------------------------------- contracts
class A:
    """arguments of the function under verification, by parameter name and position, as given by the precondition"""


def verify(unit, rep, fname, pre, post, families=(), contracts=None, overflow=True, budget=600, note='', setup=None, wrap=False, effort=None, onload=None, candms=2000):
    """Check the body of fname against (pre, post).
    pre(st, ex) -> list of argument values (it may add facts to st.pc, ghost terms to st.ghost)
    post(st, ret, ex): called at every return; issues obligations through ex.oblige"""
    if fname not in unit.fns:
        rep.errors.append('function %s not found in %s' % (fname, unit.path))
        rep.add(Obl('%s: function under contract exists' % fname, 'error'))
        return
    ex = Exec(unit, rep, contracts, overflow, fname, families)
    ex.deadline = time.time() + budget
    ex.wrap, ex.effort, ex.onload, ex.candms = wrap, effort, onload, candms
    st = State()
    rep.functions[fname] = note
    rets = []
    try:
        args = pre(st, ex)
        base = list(st.pc)
        if not feasible(base):
            rep.add(Obl('%s: precondition satisfiable' % fname, 'error', detail='contradictory precondition'))
            return

        def ret(s, v):
            rets.append(1)
            rep.reached[fname] = rep.reached.get(fname, 0) + (1 if feasible(s.pc) else 0)
            post(s, v, ex)
        n0 = len(rep.obls)
        ex.inline(st, fname, args, ret)
        for f in ex.fns_seen:
            if f != fname:
                rep.functions.setdefault('%s (inlined in %s)' % (f, fname), '')
        if not rets or not rep.reached.get(fname):
            rep.add(Obl('%s: a return is reachable' % fname, 'error', detail='no feasible path reaches a return'))
        if len(rep.obls) == n0:
            rep.add(Obl('%s: generates obligations' % fname, 'error', detail='zero obligations'))
    except Unsupported as e:
        rep.add(Obl('%s: within the reach of the verifier' % fname, 'unknown', detail='unsupported: %s' % e))
    except (KeyError, AttributeError, TypeError, IndexError, z3.Z3Exception, RecursionError) as e:
        import traceback
        rep.add(Obl('%s: within the reach of the verifier' % fname, 'unknown', detail='engine: ' + traceback.format_exc()[-1500:]))
    return ex
