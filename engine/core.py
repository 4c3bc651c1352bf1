"""Shared by both verification-condition generators: solver access, obligation records, report."""
import time, os, sys, z3, subprocess, tempfile

# back ends that discharged obligations, in the order tried
TIMEOUT_MS = int(os.environ.get('VP_Z3_TIMEOUT_MS', '20000'))
CVC5 = '/usr/bin/cvc5' if os.path.exists('/usr/bin/cvc5') else None


class Obl:
    __slots__ = ('name', 'status', 'backend', 'secs', 'model', 'detail', 'pc')

    def __init__(self, name, status, backend='', secs=0., model=None, detail=''):
        self.name, self.status, self.backend, self.secs, self.model, self.detail = name, status, backend, secs, model, detail


class Report:
    """All obligations of one run.  status: proved | failed (counter-model) | unknown | error"""

    def __init__(self, stop_on_fail=False):
        self.obls = []
        self.functions = {}      # function -> note
        self.assumptions = []
        self.reached = {}        # reachability (cover) checks
        self.errors = []
        self.stop = stop_on_fail
        self.solver_secs = 0.
        self.cache = {}

    def assume_note(self, txt):
        if txt not in self.assumptions:
            self.assumptions.append(txt)

    def add(self, o):
        self.obls.append(o)
        self.solver_secs += o.secs

    def failed(self):
        return [o for o in self.obls if o.status != 'proved']

    def names(self):
        out = {}
        for o in self.obls:
            d = out.setdefault(o.name, dict(n=0, proved=0))
            d['n'] += 1
            d['proved'] += o.status == 'proved'
        return out


def mk_solver(timeout=None):
    s = z3.Solver()
    s.set('timeout', timeout or TIMEOUT_MS)
    return s


def run_cvc5(smt2, secs):
    import shutil
    exe = shutil.which('cvc5')
    if not exe:
        return 'unknown'
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + smt2)
        fn = f.name
    try:
        r = subprocess.run([exe, '--tlimit=%d' % int(secs * 1000), fn], capture_output=True, text=True, timeout=secs + 5)
        out = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
    except Exception:
        out = 'unknown'
    finally:
        os.unlink(fn)
    return out


UF = {}


def uf(nm, *sorts):
    k = (nm,) + tuple(str(x) for x in sorts)
    if k not in UF:
        UF[k] = z3.Function('uf_' + '_'.join(k), *sorts)
    return UF[k]


def abstract(exprs):
    """products and quotients of non-constants as uninterpreted functions; None if there are none.
    What is entailed for every such function is entailed for the arithmetic ones."""
    memo, hit, comm = {}, [False], []

    def go(root):
        stack = [root]
        while stack:
            e = stack[-1]
            if e.get_id() in memo:
                stack.pop()
                continue
            if not z3.is_app(e):
                memo[e.get_id()] = (e, e)
                stack.pop()
                continue
            todo = [c for c in e.children() if c.get_id() not in memo]
            if todo:
                stack += todo
                continue
            stack.pop()
            ch = [memo[c.get_id()][1] for c in e.children()]
            k = e.decl().kind()
            r = e
            if k == z3.Z3_OP_MUL:
                num = [c for c in ch if z3.is_rational_value(c) or z3.is_int_value(c)]
                oth = [c for c in ch if not (z3.is_rational_value(c) or z3.is_int_value(c))]
                if len(oth) > 1:
                    hit[0] = True
                    f = uf('mul', e.sort(), e.sort(), e.sort())
                    r = oth[0]
                    for c in oth[1:]:
                        comm.append(f(r, c) == f(c, r))
                        r = f(r, c)
                    for c in num:
                        r = c * r
                elif any(a is not b for a, b in zip(ch, e.children())):
                    r = e.decl()(*ch)
            elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM) and not (z3.is_rational_value(ch[1]) or z3.is_int_value(ch[1])):
                hit[0] = True
                r = uf({z3.Z3_OP_DIV: 'div', z3.Z3_OP_IDIV: 'idiv', z3.Z3_OP_MOD: 'mod', z3.Z3_OP_REM: 'rem'}[k], e.sort(), e.sort(), e.sort())(*ch)
            elif k == z3.Z3_OP_POWER:
                hit[0] = True
                r = uf('pow', ch[0].sort(), ch[1].sort(), e.sort())(*ch)
            elif any(not a.eq(b) for a, b in zip(ch, e.children())):
                r = e.decl()(*ch)
            memo[e.get_id()] = (e, r)
        return memo[root.get_id()][1]
    out = [go(e) for e in exprs]
    return comm + out if hit[0] else None


def valid(pc, goal, timeout=None, fallback=True):
    """Is goal entailed by pc?  returns (status, backend, model, secs)"""
    t = time.time()
    g = z3.simplify(goal)
    if z3.is_true(g):
        return 'proved', 'simplifier', None, 0.
    # briefly as it is, then with products and quotients as uninterpreted functions, then as it is again
    full = timeout or TIMEOUT_MS
    s = mk_solver(min(full, 1500))
    s.add(*pc)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat:
        return 'proved', 'z3', None, time.time() - t
    if r == z3.sat:
        return 'failed', 'z3', s.model(), time.time() - t
    a = abstract(list(pc) + [goal])
    if a is not None:
        s = mk_solver(min(full, 5000))
        s.add(*a[:-1])
        s.add(z3.Not(a[-1]))
        if s.check() == z3.unsat:
            return 'proved', 'z3 (products uninterpreted)', None, time.time() - t
    s = mk_solver(timeout)
    s.add(*pc)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat:
        return 'proved', 'z3', None, time.time() - t
    if r == z3.sat:
        return 'failed', 'z3', s.model(), time.time() - t
    if not fallback:
        return 'unknown', 'z3', None, time.time() - t
    # second opinion
    out = run_cvc5(s.to_smt2(), (timeout or TIMEOUT_MS) / 1000.)
    if out == 'unsat':
        return 'proved', 'cvc5', None, time.time() - t
    # other z3 strategy
    try:
        s2 = z3.Then('simplify', 'solve-eqs', 'smt').solver()
        s2.set('timeout', timeout or TIMEOUT_MS)
        s2.add(*pc)
        s2.add(z3.Not(goal))
        if s2.check() == z3.unsat:
            return 'proved', 'z3/solve-eqs', None, time.time() - t
    except z3.Z3Exception:
        pass
    return ('failed' if out == 'sat' else 'unknown'), 'cvc5' if out == 'sat' else 'z3+cvc5', None, time.time() - t


def feasible(pc, timeout=4000, effort=None):
    s = mk_solver(timeout)
    if effort:
        s.set('rlimit', effort)         # deterministic; a path that is not refuted within it is explored
    s.add(*pc)
    return s.check() != z3.unsat
