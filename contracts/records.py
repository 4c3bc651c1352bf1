"""V19: contracts of the byte order conversions (formats/opendap.c)."""
import os
import re
import z3
from core import *
from cv import *
from tools import inr

B31 = 2**31
LETTERS = {1: 'unsigned char', 4: 'unsigned int', 8: 'unsigned long long'}
DECODE = {'str2int8': 1, 'str2int32': 4, 'str2int64': 8, 'str2float32': 4, 'str2float64': 8}
ENCODE = {'int8toStr': 1, 'int32toStr': 4, 'int64toStr': 8, 'float32toStr': 4, 'float64toStr': 8}


def check_codec(u, rep, fname, w, decode):
    """element J of the array is, seen as an unsigned number of w bytes, the bytes of the string from w*J on, most significant first"""
    n, J = z3.Ints('n J')

    def pre(st, ex):
        st.pc += [n >= 0, n * w < B31, J >= 0, J < n]
        S = ex.new_base(st, 'string', 'unsigned char' if decode else 'char', n * w)
        X = ex.new_base(st, 'array', LETTERS[w], n)
        st.ghost['readonly'] = ('string',) if decode else ('array',)
        st.ghost['elem'] = {}
        for m in range(w) if decode else ():
            b = z3.Select(st.mem['string'], w * J + m)
            st.pc.append(z3.And(b >= 0, b < 256))
        x = z3.Select(st.mem['array'], J)
        st.pc.append(z3.And(x >= 0, x < 256 ** w))
        return [S, X, n] if decode else [X, S, n]

    def spec(s):
        a, x = s.mem['string'], z3.Select(s.mem['array'], J)
        byte = lambda m: z3.Select(a, w * J + m)
        if decode:
            return [x == z3.Sum([byte(m) * 256 ** (w - 1 - m) for m in range(w)])]
        return [byte(m) == modular(x / 256 ** (w - 1 - m), 'char') for m in range(w)]

    def fam(ex, lp):
        out = []
        ints = [i for i in ex.intvars(lp.entry) if i in lp.mod]
        for i in ints:
            for c in range(1 if decode else w):
                out.append(lambda s, i=i, c=c: z3.Implies(s.env[i] > J, spec(s)[c]))
            for j in lp.mod:
                if j == i:
                    continue
                if isinstance(lp.entry.env.get(j), Ptr):
                    out += [lambda s, i=i, j=j, k=k: s.env[j].off == k * s.env[i] for k in {1, w}]
                elif j in ints:
                    out.append(lambda s, i=i, j=j: s.env[j] == w * s.env[i])
        # loops that run over the remaining or processed bytes
        for i in ints:
            for c in range(1 if decode else w):
                out.append(lambda s, i=i, c=c: z3.Implies(s.env[i] > w * J + w - 1, spec(s)[c]))
                out.append(lambda s, i=i, c=c: z3.Implies(s.env[i] < J, spec(s)[c]))
        return out

    def post(st, ret, ex):
        for c, g in enumerate(spec(st)):
            ex.oblige(st, 'post: the element is the number its bytes stand for, most significant first' if decode else 'post: byte %d of the element' % c, g)
        ex.oblige(st, 'post: success is reported', ret == 0 if ret is not None else z3.BoolVal(True))
    verify(u, rep, fname, pre, post, [fam], {}, budget=300, note='for all lengths (below 2^31 bytes) and contents', wrap=True)


def roundtrip(rep):
    """the two specifications are inverse to each other, one byte at a time: t is what the bytes before stand for, q what the bytes
    up to this one stand for, r what the remaining ones do"""
    x, q, r, t, b, c = z3.Ints('x q r t b c')

    def L(name, pc, g):
        s, be, mo, tm = valid(pc, g, 60000)
        rep.add(Obl('lemma ' + name, s, be, tm, mo))
    for k in range(8):
        K = 256 ** k
        L('a number is its leading bytes times 256^%d plus the rest, which is smaller (step)' % (k + 1), [r >= 0, r < K, b >= 0, b < 256], z3.And(b * K + r >= 0, b * K + r < 256 * K))
        L('leading bytes are found by division by 256^%d' % k, [r >= 0, r < K, x == q * K + r], x / K == q)
        L('shifting by %d bytes is shifting by one byte more often' % (k + 1), [x >= 0], (x / K) / 256 == x / (K * 256))
    L('the last of the leading bytes is found modulo 256', [b >= 0, b < 256, q == 256 * t + b], q % 256 == b)
    L('a number is 256 times its leading bytes plus the last one', [x >= 0, b == x % 256], x == 256 * (x / 256) + b)
    L('the bits of a byte do not depend on the sign of the char', [b >= 0, b < 256, c == modular(b, 'char')], z3.And(c >= -128, c < 128, c % 256 == b))


# ---------------------------------------------------------------- GRIB: the sections of a record
POW = z3.Function('pow', R, R, R)


def c_pow(ex, st, vals, k):
    x, y = [v if isinstance(v, F) else F(BT, z3.ToReal(v)) for v in vals]
    r = F(z3.And(x.fin, y.fin), POW(x.v, y.v))
    st.pc.append(z3.Implies(x.v > 0, POW(x.v, y.v) > 0))
    return k(st, r)


BT = z3.BoolVal(True)
QUIET = dict(fprintf=lambda ex, st, vals, k: k(st, iv(0)), printf=lambda ex, st, vals, k: k(st, iv(0)), pow=c_pow)


def be(st, base, field, lo=0, hi=None):
    """the big-endian number in bytes lo..hi of an array member"""
    a = st.mem['%s.%s' % (base, field)]
    n = st.size['%s.%s' % (base, field)].as_long() if hi is None else hi
    return z3.Sum([z3.Select(a, m) * 256 ** (n - 1 - m) for m in range(lo, n)]) if n - lo > 1 else z3.Select(a, lo)


def signed(st, base, field):
    """a number whose first bit is its sign and whose other bits are its size"""
    n = st.size['%s.%s' % (base, field)].as_long()
    u, b = be(st, base, field), 2 ** (8 * n - 1)
    return z3.If(u >= b, -(u - b), u)


def ibm(b, s):
    """the number GRIB means by four bytes: sign, exponent of 16 and a fraction of 24 bits"""
    sgn = z3.If(b[0] >= 128, z3.RealVal(-1), z3.RealVal(1))
    e = z3.If(b[0] >= 128, b[0] - 128, b[0]) - 64
    return sgn * z3.ToReal(b[1] * 65536 + b[2] * 256 + b[3]) * POW(z3.RealVal(16), z3.ToReal(e)) * s


TWO24 = POW(z3.RealVal(2), z3.RealVal(-24))


def check_float(u, rep):
    def pre(st, ex):
        X = ex.new_base(st, 'x', 'unsigned char', iv(4))
        st.ghost['readonly'] = ('x',)
        st.pc += [z3.And(z3.Select(st.mem['x'], k) >= 0, z3.Select(st.mem['x'], k) < 256) for k in range(4)]
        st.ghost['b'] = [z3.Select(st.mem['x'], k) for k in range(4)]
        st.ghost['statics'] = {}
        st.pc.append(TWO24 > 0)

        def static(ex, st, d):
            # a value kept between calls: nothing yet, or what an earlier call stored (which is obliged to be 2^-24)
            v = F(BT, z3.Real('kept_' + d['name']))
            st.pc.append(z3.Or(v.v == 0, v.v == TWO24))
            st.ghost['statics'] = dict(st.ghost['statics'], **{d['name']: d['id']})
            return v
        st.ghost['static'] = static
        return [X]

    def post(st, ret, ex):
        for nm, i in st.ghost['statics'].items():
            ex.oblige(st, 'kept value of %s' % nm, z3.And(st.env[i].fin, z3.Or(st.env[i].v == 0, st.env[i].v == TWO24)))
        ex.oblige(st, 'post: a finite number', ret.fin)
        ex.oblige(st, 'post: sign, exponent and fraction', ret.v == ibm(st.ghost['b'], TWO24))
    verify(u, rep, 'decode_float', pre, post, [], QUIET, budget=200, note='for all bytes; powers uninterpreted, rounding to float not modelled', wrap=True)


def section(u, rep, fname, raw, out, spec, codes=None, contracts=None, ok=None):
    """every field of the section is the number its bytes stand for"""
    def pre(st, ex):
        a, b = ex.record_base(st, 'raw', raw), ex.record_base(st, 'out', out)
        st.ghost['readonly'] = tuple(x for x in st.mem if x.startswith('raw'))
        for x in st.ghost['readonly']:
            if x != 'raw':
                st.pc += [z3.And(z3.Select(st.mem[x], k) >= 0, z3.Select(st.mem[x], k) < 256) for k in range(st.size[x].as_long())]
        st.ghost['globals'] = {'stderr': NULL}
        st.ghost['bytes'] = st.copy()
        return [a, b]

    def post(st, ret, ex):
        r = st.ghost['bytes']
        want = spec(r)
        for m, w in want.items():
            v = st.mem['out'][m]
            if isinstance(w, F):
                ex.oblige(st, 'post: field %s' % m, z3.And(z3.Select(v[0], 0), z3.Select(v[1], 0) == w.v))
            else:
                ex.oblige(st, 'post: field %s' % m, z3.Select(v, 0) == w)
        if ok is not None:
            ex.oblige(st, 'post: accepted exactly when it can be decoded', (ret == 0) == ok(r))
    C = dict(QUIET)
    C.update(contracts or {})
    verify(u, rep, fname, pre, post, [], C, budget=200, note='for all contents', wrap=True)


def check_sections(u, rep, which):
    one = lambda r, *fs: {f: be(r, 'raw', f) for f in fs}
    if which == 'decode_IS':
        # edition is asserted to be 1
        def spec(r):
            return one(r, 'length', 'edition')
        return section(u, rep, which, 'IS_raw', 'IS', spec, contracts=dict(__assert_fail=lambda ex, st, vals, k: None))
    if which == 'decode_PDS':
        def spec(r):
            d = one(r, 'table_version', 'center_id', 'process_id', 'grid_id', 'gds_bms_flag', 'param', 'level_type', 'level', 'year', 'month', 'day', 'hour', 'minute',
                    'forecast_time_unit', 'p1', 'p2', 'time_range', 'num_in_avg', 'num_missing_avg', 'century', 'subcenter_id')
            n = be(r, 'raw', 'length')
            d['length'] = z3.If(n == 0, 28, n)
            d['scale_factor'] = signed(r, 'raw', 'scale_factor')
            return d
        return section(u, rep, which, 'PDS_raw', 'PDS', spec, ok=lambda r: (be(r, 'raw', 'gds_bms_flag') / 64) % 2 == 0)
    if which == 'decode_GDS':
        def spec(r):
            d = one(r, 'length', 'nv', 'pv_pl', 'grid_type', 'ni', 'nj', 'res_flags', 'scan_flag')
            d.update({f: signed(r, 'raw', f) for f in ('la1', 'lo1', 'la2', 'lo2')})
            return d
        t = lambda r: be(r, 'raw', 'grid_type')
        return section(u, rep, which, 'GDS_raw', 'GDS', spec, ok=lambda r: z3.Or(t(r) == 0, t(r) == 4))
    if which == 'decode_BDS':
        def spec(r):
            flag = be(r, 'raw', 'flag')
            d = one(r, 'length', 'nbits')
            d.update(flag=flag / 16, unused_bits=flag % 16, e=signed(r, 'raw', 'e'))
            d['r'] = F(BT, ibm([z3.Select(r.mem['raw.r'], k) for k in range(4)], TWO24))
            return d

        def c_float(ex, st, vals, k):
            p = vals[0]
            b = [z3.Select(st.mem[p.base], z3.simplify(p.off + m)) for m in range(4)]
            ex.oblige(st, 'four bytes are there', z3.And(p.off >= 0, p.off + 4 <= st.size[p.base]))
            return k(st, F(BT, ibm(b, TWO24)))
        return section(u, rep, which, 'BDS_raw', 'BDS', spec, contracts=dict(decode_float=c_float), ok=lambda r: be(r, 'raw', 'flag') / 16 == 0)


def check_offset(u, rep):
    def pre(st, ex):
        X = ex.new_base(st, 'o', 'unsigned char', iv(8))
        st.ghost['readonly'] = ('o',)
        b = [z3.Select(st.mem['o'], k) for k in range(8)]
        st.pc += [z3.And(x >= 0, x < 256) for x in b]
        st.ghost['b'] = b
        return [X]

    def post(st, ret, ex):
        ex.oblige(st, 'post: the offset its bytes stand for', ret == z3.Sum([b * 256 ** (7 - m) for m, b in enumerate(st.ghost['b'])]) - z3.If(st.ghost['b'][0] >= 128, 2 ** 64, 0))
    verify(u, rep, 'decode_offset', pre, post, [], QUIET, budget=200, note='for all offsets (negative: no record); signed shifts wrap around, as gcc defines them', wrap=True)


# ---------------------------------------------------------------- GRIB: one record of a file
SIZES = {'IS': 4, 'PDS': 28, 'GDS': 32, 'BDS': 11}


def check_read_data(u, rep):
    """element J of the result is (reference + J-th packed number * 2^e) * 10^-s for the record the index points to"""
    B, HEAD = z3.Function('file', I, I), z3.Function('after_head', I, I)
    v, t, z, J, NV, NTZ = z3.Ints('v t z J nvars records')

    def pre(st, ex):
        G = st.ghost
        ex.split = [J]
        G['globals'] = {'stderr': NULL}
        G['file'] = (z3.Int('pos'), BT)                       # position, and whether everything asked for was there
        ix = ex.new_base(st, 'index', (('nvars', 'int'),), iv(1))
        ex.new_base(st, 'var', (('nt', 'int'), ('nz', 'int'), ('gds.ni', 'unsigned short'), ('gds.nj', 'unsigned short')), NV)
        col = lambda m: z3.Select(st.mem['var'][m], v)
        st.pc += [inr(v, 0, NV), inr(t, 0, col('nt')), inr(z, 0, col('nz')), col('nt') < 256, col('nz') < 256]
        size = col('gds.ni') * col('gds.nj')
        st.pc += [col('gds.ni') >= 0, col('gds.nj') >= 0, col('gds.ni') < 65536, col('gds.nj') < 65536, size >= 0, size < B31, inr(J, 0, size)]
        st.pc += [NTZ == col('nt') * col('nz'), t * col('nz') + z >= 0, t * col('nz') + z < NTZ]      # (a position in a table, see the lemma)
        ex.new_base(st, 'offset', 'long long', NTZ)
        G['members'] = {('index', 'var'): lambda off: Ptr('var', iv(0)), ('var', 'offset'): lambda off: Ptr('offset', iv(0), (col('nz'), 1))}
        out = ex.new_base(st, 'out', 'double', size)
        G['readonly'] = ('index', 'var', 'offset')
        G['o'] = z3.Select(st.mem['offset'], t * col('nz') + z)
        st.pc += [G['o'] >= -2**62, G['o'] < 2**62, HEAD(G['o']) >= 0, HEAD(G['o']) < 2**62]
        P0 = HEAD(G['o'])
        num = lambda p, n: z3.Sum([B(p + m) * 256 ** (n - 1 - m) for m in range(n)]) if n > 1 else B(p)
        sgn = lambda p, n: z3.If(num(p, n) >= 2 ** (8 * n - 1), 2 ** (8 * n - 1) - num(p, n), num(p, n))
        plen = num(P0 + 4, 3)
        P1 = P0 + 4 + z3.If(plen > 28, plen, 28)
        D0 = P1 + 32 + 4 * B(P1 + 3)                          # the data section follows the vertical coordinates
        ln, nb = num(D0, 3), B(D0 + 10)
        byte = lambda q: z3.If(q < ln - 11, B(D0 + 11 + q), 0)
        st.pc += [z3.And(B(q) >= 0, B(q) < 256) for q in [P0 + 4 + m for m in range(28)] + [P1 + m for m in range(32)] + [D0 + m for m in range(11)]]
        G['par'] = (num, sgn, P0, P1, D0, ln, nb)
        m_ = J * nb
        st.pc.append(z3.Implies(z3.And(J >= 0, J < B31, nb >= 0, nb < 256), z3.And(m_ >= 0, m_ < 2**47)))
        N5 = z3.Sum([byte(m_ / 8 + k) * 256 ** (4 - k) for k in range(5)])
        d = (N5 / P2(40 - nb - m_ % 8)) % P2(nb)
        R10 = POW(z3.RealVal(10), z3.ToReal(-sgn(P0 + 4 + 26, 2)))
        val = (ibm([B(D0 + 6 + k) for k in range(4)], TWO24) + z3.ToReal(d) * POW(z3.RealVal(2), z3.ToReal(sgn(D0 + 4, 2)))) * R10
        G['spec'] = lambda s: z3.Implies(s.ghost['file'][1], z3.And(z3.Select(s.mem['out'][0], J), z3.Select(s.mem['out'][1], J) == val))
        G['byte'] = byte
        return [Ptr('FILE', iv(0)), ix, v, t, z, out]

    def seek(ex, st, vals, k):
        pos, ok = st.ghost['file']
        if not z3.is_int_value(vals[2]):
            raise Unsupported('seek')
        w = vals[2].as_long()
        if w not in (0, 1):
            raise Unsupported('seek')
        st.ghost = dict(st.ghost, file=(z3.simplify(vals[1] if w == 0 else pos + vals[1]), ok))
        return k(st, iv(0))

    def read_head(ex, st, vals, k):
        pos, ok = st.ghost['file']
        st.ghost = dict(st.ghost, file=(HEAD(pos), ok))
        return k(st, st.fresh('found'))

    def section_reader(kind):
        def f(ex, st, vals, k):
            p = vals[1]
            pos, ok = st.ghost['file']
            r = State()
            r.mem, r.size = {}, {}
            o = 0
            for m, ft in u.records[kind + '_raw']:
                n = int(re.fullmatch(r'.*\[(\d+)\]', u.ctype(ft)).group(1))
                a = z3.K(I, iv(0))
                for c in range(n):
                    a = z3.Store(a, c, B(pos + o + c))
                r.mem['raw.' + m], r.size['raw.' + m] = a, iv(n)
                o += n
            ex.oblige(st, 'the section %s has the size the format says' % kind, z3.BoolVal(o == SIZES[kind]))
            one = lambda *fs: {x: z3.simplify(be(r, 'raw', x)) for x in fs}
            sg = lambda *fs: {x: z3.simplify(signed(r, 'raw', x)) for x in fs}
            if kind == 'PDS':
                n = be(r, 'raw', 'length')
                d = dict(one('gds_bms_flag'), **sg('scale_factor'))
                d['length'] = z3.simplify(z3.If(n == 0, 28, n))
            elif kind == 'GDS':
                d = one('length', 'nv', 'ni', 'nj')
            elif kind == 'BDS':
                d = dict(one('length', 'nbits'), **sg('e'))
                d['r'] = F(BT, ibm([B(pos + 6 + c) for c in range(4)], TWO24))
            else:
                d = one('length', 'edition')
            got = st.fresh('read_' + kind, z3.BoolSort())
            mem = dict(st.mem[p.base])
            for x, val in d.items():
                if isinstance(val, F):
                    a, b = mem[x]
                    mem[x] = (z3.Store(a, 0, z3.If(got, BT, z3.Select(a, 0))), z3.Store(b, 0, z3.If(got, val.v, z3.Select(b, 0))))
                else:
                    mem[x] = z3.Store(mem[x], 0, z3.If(got, val, z3.Select(mem[x], 0)))
            for x, ft in u.records[kind]:
                if x not in d and x in mem:
                    mem[x] = st.fresh(x, mem[x].sort()) if not isinstance(mem[x], tuple) else tuple(st.fresh(x, y.sort()) for y in mem[x])
            st.mem[p.base] = mem
            st.written.add(p.base)
            st.ghost = dict(st.ghost, file=(z3.simplify(pos + o), z3.And(ok, got)))
            return k(st, st.fresh('status'))
        return f

    def fread(ex, st, vals, k):
        p, w, n, _ = vals
        pos, ok = st.ghost['file']
        if not (z3.is_int_value(w) and w.as_long() == 1):
            raise Unsupported('fread of larger items')
        if isinstance(p, Ptr) and p.base and st.types.get(p.base) == 'bytes':
            ex.type_heap(st, p, 'unsigned char')
        ex.oblige(st, 'fread: the bytes fit', z3.And(n >= 0, p.off == 0, n <= st.size[p.base]))
        m = st.fresh('nread')
        st.pc.append(z3.And(m >= 0, m <= n))
        st.ghost = dict(st.ghost, file=(z3.simplify(pos + n), z3.And(ok, m == n)), elem=dict(st.ghost.get('elem', {}), **{p.base: lambda off, val, p0=pos, m=m: z3.Implies(z3.And(off >= 0, off < m), val == B(p0 + off))}))
        st.written.add(p.base)
        return k(st, m)

    def fam(ex, lp):
        e = lp.entry
        G = e.ghost
        ints = ex.intvars(e)
        mods = [i for i in ints if i in lp.mod]
        byte = G['byte']
        out = []
        num, sgn, P0, P1, D0, ln, nb = G['par']

        def part(n, q):
            r = iv(0)
            for c in range(5, 0, -1):
                r = z3.If(n == c, z3.Sum([byte(q + m) * 256 ** (c - 1 - m) for m in range(c)]) if c > 1 else byte(q), r)
            return r

        def cap(n):
            r = iv(1)
            for c in range(5, 0, -1):
                r = z3.If(n == c, 256 ** c, r)
            return r
        for i in mods:
            out.append(lambda s, i=i: z3.Implies(s.env[i] > J, G['spec'](s)))
            out.append(lambda s, i=i: s.env[i] <= 5)
            for d in mods:
                if d == i:
                    continue
                out.append(lambda s, i=i, d=d: z3.And(s.env[d] >= 0, s.env[d] < cap(s.env[i])))
                for q in ints:
                    if q not in mods:
                        out.append(lambda s, i=i, d=d, q=q: z3.Implies(z3.And(s.ghost['file'][1], q_ok(s.env[q])), s.env[d] == part(s.env[i], s.env[q])))
        return out

    def q_ok(q):
        return q >= 0

    def post(st, ret, ex):
        num, sgn, P0, P1, D0, ln, nb = st.ghost['par']
        good = z3.And(st.ghost['o'] >= 0, ln >= 11, nb <= 32)
        ex.oblige(st, 'post: a complete record gives its values', z3.Implies(z3.And(good, st.ghost['file'][1]), z3.And(ret == 0, st.ghost['spec'](st))))
        ex.oblige(st, 'post: a missing record is reported', z3.Implies(st.ghost['o'] < 0, ret != 0))
        ex.oblige(st, 'post: all that was allocated is freed', BT if not [b for b, n in st.alloc.items() if n is not False] else z3.BoolVal(False))
    C = dict(QUIET, fseeko=seek, fseek=seek, fread=fread, read_head=read_head, read_EOR=lambda ex, st, vals, k: k(st, st.fresh('status')))
    C.update({'read_' + s: section_reader(s) for s in SIZES})
    rep.assume_note('stdio: fseeko moves, fread delivers the bytes at the position and moves past them, or reports a shorter count; malloc succeeds')
    verify(u, rep, 'read_data', pre, post, [fam], C, budget=600, note='for every index, file content, number of bits and size below 2^31; powers uninterpreted', wrap=True, candms=30000)


def counters(u, fname):
    """the variables compared with the parameters in the conditions of the loops: parameter position -> variable"""
    d = u.fns[fname]
    par = [c['id'] for c in d['inner'] if c['kind'] == 'ParmVarDecl']
    out = {}

    def refs(e, r):
        if e.get('kind') == 'DeclRefExpr':
            r.append(e['referencedDecl']['id'])
        for c in e.get('inner', ()):
            refs(c, r)
        return r

    def walk(e):
        c = e['inner'][2] if e.get('kind') == 'ForStmt' else e['inner'][0] if e.get('kind') == 'WhileStmt' else None
        if c and 'kind' in c:
            r = refs(c, [])
            p = [x for x in r if x in par]
            o = [x for x in r if x not in par]
            if len(p) == 1 and len(o) == 1:
                out[par.index(p[0])] = o[0]
        for x in e.get('inner', ()):
            walk(x)
    walk(d)
    return out


def check_read_loop(u, rep):
    """the result holds, in the order of the requested times, levels, rows and columns, the points of the records of these times and levels"""
    VAL = z3.Function('record', I, I, I, R)               # time, level, place in the record
    VFN = z3.Function('record_fin', I, I, I, z3.BoolSort())
    FAIL = z3.Function('no_record', I, I, z3.BoolSort())
    v, nt, nz, ny, nx, NV, T, Z, Y, X, nrec = z3.Ints('v nt nz ny nx nvars T Z Y X records')
    TN, RC = z3.Function('first_record', I, I), z3.Function('record_start', I, I)       # ti*nz, k*recsize
    loops = counters(u, 'read_data_loop')
    if not all(k in loops for k in (3, 5, 7, 9)):
        raise Unsupported('the loops over times, levels, rows and columns are not recognised')
    TI, ZI, YI, XI = (loops[k] for k in (3, 5, 7, 9))

    def pre(st, ex):
        G = st.ghost
        ex.new_base(st, 'index', (('nvars', 'int'),), iv(1))
        ex.new_base(st, 'var', (('nt', 'int'), ('nz', 'int'), ('gds.ni', 'unsigned short'), ('gds.nj', 'unsigned short')), NV)
        col = lambda m: z3.Select(st.mem['var'][m], v)
        ni, nj = col('gds.ni'), col('gds.nj')
        st.pc += [inr(v, 0, NV), ni >= 0, nj >= 0, ni < 65536, nj < 65536, ni * nj >= 0, ni * nj * 8 < B31]
        for n, c in ((nt, T), (nz, Z), (ny, Y), (nx, X)):
            st.pc += [n >= 0, n < 65536, inr(c, 0, n)]
        G['members'] = {('index', 'var'): lambda off: Ptr('var', iv(0))}
        rs = nx * ny
        st.pc += [rs >= 0, rs < B31, TN(0) == 0, RC(0) == 0, RC(nrec) < B31, nrec == TN(nt), nrec >= 0, nrec < B31, nx * ny == ny * nx]
        arr = {}
        for nm, n, cap in (('t', nt, col('nt')), ('z', nz, col('nz')), ('y', ny, nj), ('x', nx, ni)):
            arr[nm] = ex.new_base(st, nm, 'int', n)
        caps = {'t': col('nt'), 'z': col('nz'), 'y': nj, 'x': ni}
        # what is requested exists (an obligation of the caller)
        G['elem'] = {nm: (lambda off, val, c=c: z3.And(val >= 0, val < c)) for nm, c in caps.items()}
        for nm, g in (('t', T), ('z', Z), ('y', Y), ('x', X)):
            st.pc.append(inr(z3.Select(st.mem[nm], g), 0, caps[nm]))
        out = ex.new_base(st, 'out', 'double', RC(nrec))
        G['readonly'] = ('index', 'var', 't', 'z', 'y', 'x')
        val = lambda nm, k: z3.Select(st.mem[nm], k)
        want = (val('t', T), val('z', Z), val('y', Y) * ni + val('x', X))
        AD = RC(TN(T) + Z) + Y * nx + X

        def times(k):
            return z3.And(z3.Implies(inr(k, 0, nt), z3.And(TN(k + 1) == TN(k) + nz, TN(k) >= 0, TN(k) + nz <= nrec)),
                          z3.Implies(z3.And(0 <= k, k < T), TN(k) + nz <= TN(T)), z3.Implies(z3.And(T < k, k <= nt), TN(T) + nz <= TN(k)))

        def recs(k):
            K0 = TN(T) + Z
            return z3.And(z3.Implies(inr(k, 0, nrec), z3.And(RC(k + 1) == RC(k) + rs, RC(k) >= 0, RC(k) + rs <= RC(nrec))),
                          z3.Implies(z3.And(0 <= k, k < K0), RC(k) + rs <= RC(K0)), z3.Implies(z3.And(K0 < k, k <= nrec), RC(K0) + rs <= RC(k)))

        def rows(k):
            # a row of the (reduced) record, and a row of a record; instances of the lemmas on products
            f = lambda n, w, k: z3.Implies(z3.And(0 <= k, k < n, w >= 0), z3.And(k * w >= 0, k * w + w <= n * w))
            return z3.And(f(ny, nx, k), z3.Implies(z3.And(0 <= k, k < Y), k * nx + nx <= Y * nx), z3.Implies(z3.And(Y < k), Y * nx + nx <= k * nx))
        st.pc += [times(T), times(iv(0)), recs(TN(T) + Z), rows(Y)]
        G['rowfact'] = lambda q: z3.Implies(inr(q, 0, nj), z3.And(q * ni >= 0, q * ni + ni <= ni * nj))
        st.pc.append(G['rowfact'](val('y', Y)))
        old = G['elem']['y']
        G['elem']['y'] = lambda off, q: z3.And(old(off, q), G['rowfact'](q))

        def facts(s, vs):
            e = s.env
            for i, f in ((TI, times), (YI, rows)):
                if isinstance(e.get(i), z3.ArithRef):
                    s.pc.append(f(e[i]))
            if isinstance(e.get(TI), z3.ArithRef):
                s.pc.append(recs(TN(e[TI])))
                if isinstance(e.get(ZI), z3.ArithRef):
                    s.pc.append(recs(TN(e[TI]) + e[ZI]))
        G['onhavoc'] = facts
        G['AD'] = AD
        G['spec'] = lambda s: z3.And(z3.Select(s.mem['out'][0], AD) == VFN(*want), z3.Implies(VFN(*want), z3.Select(s.mem['out'][1], AD) == VAL(*want)))
        return [Ptr('FILE', iv(0)), Ptr('index', iv(0)), v, nt, arr['t'], nz, arr['z'], ny, arr['y'], nx, arr['x'], out]

    def c_read_data(ex, st, vals, k):
        f, ix, vv, t, z, out = vals
        col = lambda m: z3.Select(st.mem['var'][m], v)
        ex.oblige(st, 'read_data: a time and level of this variable', z3.And(vv == v, inr(t, 0, col('nt')), inr(z, 0, col('nz'))))
        n = col('gds.ni') * col('gds.nj')
        ex.oblige(st, 'read_data: room for a record', z3.And(out.off == 0, n <= st.size[out.base]))
        st.mem[out.base] = tuple(st.fresh(out.base + 'rec', a.sort()) for a in st.mem[out.base])
        st.written.add(out.base)
        a = st.mem[out.base]
        st.ghost = dict(st.ghost, rec=(out.base, a[0], a[1], t, z))
        r = st.fresh('status')
        st.pc.append((r != 0) == FAIL(t, z))
        return k(st, r)

    def fam(ex, lp):
        e = lp.entry
        G = e.ghost
        out = []
        rec = G.get('rec')
        chain = [(TI, T), (ZI, Z), (YI, Y), (XI, X)]
        have = [c for c in chain if isinstance(e.env.get(c[0]), z3.ArithRef)]
        eq = lambda s, cs: z3.And(*[s.env[i] == g for i, g in cs]) if cs else BT
        for n, (i, g) in enumerate(have):
            out.append(lambda s, n=n, i=i, g=g: z3.Implies(z3.And(eq(s, have[:n]), s.env[i] > g), G['spec'](s)))
        for p in [i for i in e.env if isinstance(e.env.get(i), Ptr) and e.env[i].base == 'out']:
            out.append(lambda s, p=p: s.env[p].off == RC(TN(s.env[TI])))
            out.append(lambda s, p=p: s.env[p].off == RC(TN(s.env[TI]) + s.env[ZI]))
        out.append(lambda s: z3.Implies(s.env[TI] > T, G['spec'](s)))
        out.append(lambda s: z3.Implies(z3.Or(s.env[TI] > T, z3.And(s.env[TI] == T, s.env[ZI] > Z)), G['spec'](s)))
        out.append(lambda s: z3.Implies(z3.And(s.env[TI] == T, s.env[ZI] == Z, z3.Or(s.env[YI] > Y, z3.And(s.env[YI] == Y, s.env[XI] > X))), G['spec'](s)))
        return out

    def load_record(st, base, off):
        rec = st.ghost.get('rec')
        if rec is None or rec[0] != base:
            return
        m = st.mem[base]
        if m[0].eq(rec[1]) and m[1].eq(rec[2]):
            st.pc.append(z3.Implies(z3.Not(FAIL(rec[3], rec[4])), z3.And(z3.Select(m[0], off) == VFN(rec[3], rec[4], off), z3.Select(m[1], off) == VAL(rec[3], rec[4], off))))

    def post(st, ret, ex):
        ex.oblige(st, 'post: unless an error is reported, an element is the requested point of the requested record', z3.Implies(ret == 0, st.ghost['spec'](st)))
        ex.oblige(st, 'post: all that was allocated is freed', BT if not [b for b, n in st.alloc.items() if n is not False] else z3.BoolVal(False))
    C = dict(QUIET, read_data=c_read_data)
    verify(u, rep, 'read_data_loop', pre, post, [fam], C, budget=600, note='for every request and size below 2^31', onload=load_record, effort=200000)


def bit_lemma(rep):
    """the number taken out of five bytes is made of the bits of the stream, in order"""
    N, n, L, m = (z3.BitVec(x, 64) for x in ('five', 'nbits', 'left', 'm'))
    s = z3.Solver()
    d = z3.LShR(N, 40 - n - L) & ((1 << n) - 1)
    s.add(z3.ULT(N, 1 << 40), z3.ULE(n, 32), z3.ULT(L, 8), z3.ULT(m, n), (z3.LShR(d, n - 1 - m) & 1) != (z3.LShR(N, 39 - L - m) & 1))
    t = __import__('time').time()
    s.set('timeout', 120000)
    r = s.check()
    rep.add(Obl('lemma: bit m of the packed number is bit m after the start of its field', 'proved' if r == z3.unsat else 'unknown', 'z3 (bit vectors)', __import__('time').time() - t, None))
    t, z, nz, nt, q = z3.Ints('t z nz nt q')
    s_, be_, mo, tm = valid([0 <= t, z >= 0, z < nz, nt == t + 1 + q, q >= 0, q * nz >= 0, t * nz >= 0], z3.And(t * nz + z >= 0, t * nz + z < t * nz + nz + q * nz), 60000)
    rep.add(Obl('lemma: a position in a table', s_, be_, tm, mo))


def tasks(prop, tier='quick'):
    if prop != 'V19':
        return []
    unit = lambda repo: load_c(os.path.join(repo, 'pygeode', 'formats', 'opendap.c'))
    out = []
    for tab, d in ((DECODE, True), (ENCODE, False)):
        for f, w in tab.items():
            out.append((f, lambda repo, rep, f=f, w=w, d=d: check_codec(unit(repo), rep, f, w, d)))
    grib = lambda repo: load_c(os.path.join(repo, 'pygeode', 'formats', 'grib.c'))
    out.append(('decode_float', lambda repo, rep: check_float(grib(repo), rep)))
    out.append(('decode_offset', lambda repo, rep: check_offset(grib(repo), rep)))
    for f in ('decode_IS', 'decode_PDS', 'decode_GDS', 'decode_BDS'):
        out.append((f, lambda repo, rep, f=f: check_sections(grib(repo), rep, f)))
    out.append(('read_data_loop', lambda repo, rep: check_read_loop(grib(repo), rep)))
    out += [('read_data', lambda repo, rep: check_read_data(grib(repo), rep)), ('packed bits', lambda repo, rep: bit_lemma(rep))]
    return out + [('round trip', lambda repo, rep: roundtrip(rep))]
