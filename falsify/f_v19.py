"""V19: GRIB records decode to reference plus scaled integers; arrays and byte strings in network order convert bit for bit."""
import os, struct, shutil, tempfile, contextlib, io, random
import numpy as np
from base import fail, check, same, Skip
import gen

KINDS = {'int8': 'i1', 'int32': '>i4', 'int64': '>i8', 'float32': '>f4', 'float64': '>f8'}


def cases(tier, rng):
    for k in KINDS:
        for n in (0, 1, 2, 3, 17):
            for how in range(5):
                yield 'dap', dict(kind=k, n=n, how=how, seed=n + 10 * how)
        yield 'dap', dict(kind=k, n=70000, how=0, seed=1)
    for nbits in range(33):
        for D in (0, -2, 3):
            yield 'grib', dict(nvar=1, nt=2, nz=1 + nbits % 3, ni=3 + nbits % 4, nj=3, nbits=nbits, seed=nbits, sel=nbits + 1, D=D, ltype=100)
    for ltype in (1, 100, 102, 103, 105, 107, 109, 111, 112, 200):
        yield 'grib', dict(nvar=2, nt=2, nz=3, ni=4, nj=2, nbits=12, seed=7, sel=3, D=1, ltype=ltype)
    for _ in range(700 if tier == 'quick' else 12000):
        yield 'grib', dict(nvar=rng.choice([1, 1, 2, 3]), nt=rng.randrange(1, 5), nz=rng.randrange(1, 5), ni=rng.randrange(2, 9), nj=rng.randrange(2, 6),
                           nbits=rng.choice([0, 1, 8, 12, 16, 24, 32, rng.randrange(33)]), seed=rng.randrange(10 ** 6), sel=rng.randrange(10 ** 6), D=rng.choice([0, 1, -1, 2, rng.randrange(-6, 7)]),
                           ltype=rng.choice([1, 100, 100, 105, 107, 109, 112]), gtype=rng.choice([0, 0, 4]), nv=rng.choice([0, 0, 1, 2]), drop=rng.random() < .1, junk=rng.randrange(3), ext=rng.choice([0, 0, 12]))
    for _ in range(250 if tier == 'quick' else 4000):
        yield 'dap', dict(kind=rng.choice(list(KINDS)), n=rng.randrange(40), how=rng.randrange(5), seed=rng.randrange(10 ** 6))


def c_dap(kind, n, how, seed):
    from pygeode.formats import opendapcore as lib
    rng = np.random.RandomState(seed)
    dt = np.dtype(KINDS[kind])
    raw = rng.randint(0, 256, n * dt.itemsize).astype('u1').tobytes()
    if seed % 3 == 0 and n:
        # special patterns
        pats = [b'\0' * dt.itemsize, b'\xff' * dt.itemsize, b'\x80' + b'\0' * (dt.itemsize - 1), b'\x7f' + b'\xff' * (dt.itemsize - 1), (b'\x7f\x80' + b'\0' * 8)[:dt.itemsize]]
        raw = b''.join(pats[rng.randint(len(pats))] for _ in range(n))
    x = getattr(lib, 'str2' + kind)(raw)
    check(isinstance(x, np.ndarray) and x.dtype == dt.newbyteorder('=') and x.shape == (n,), 'str2%s: wrong type or length' % kind, got=(x.dtype, x.shape))
    check(x.astype(dt).tobytes() == raw if kind[0] == 'i' else x.byteswap().tobytes() == raw, 'str2%s: bytes decoded wrongly' % kind, raw=raw[:64], got=x[:8])
    # other trailing bytes than a whole number of values are left alone
    if kind != 'float64' and dt.itemsize > 1:
        y = getattr(lib, 'str2' + kind)(raw + b'\1')
        check(y.tobytes() == x.tobytes(), 'str2%s: trailing byte' % kind)
    v = np.frombuffer(raw, dt).astype(dt.newbyteorder('='))
    if kind[0] == 'f':
        v = np.frombuffer(raw, dt).byteswap().view(dt.newbyteorder('='))   # NaN payloads are kept
    keep = v.copy()
    a = v
    want = raw
    if how == 1 and n and n % 2 == 0:
        a = v.reshape(2, -1)
    elif how == 2:
        w = np.zeros((n, 2), v.dtype)
        w[:, 0] = v
        a = w[:, 0]                       # not contiguous
    elif how == 3 and n and n % 2 == 0:
        a = v.reshape(2, -1, order='F')     # written out in index order
        want = a.ravel().byteswap().tobytes()
    elif how == 4 and kind[0] == 'i' and kind != 'int8':
        a = np.frombuffer(raw, dt)        # big endian already
    s = getattr(lib, kind + 'toStr')(a)
    check(isinstance(s, bytes), '%stoStr returned %s' % (kind, type(s)))
    check(s == want, '%stoStr: bytes encoded wrongly' % kind, got=s[:64], want=want[:64])
    check(v.tobytes() == keep.tobytes(), '%stoStr changed its argument' % kind)


# ---------------------------------------------------------------- a GRIB 1 writer, from the definition of the format
def b3(n):
    return bytes([(n >> 16) & 255, (n >> 8) & 255, n & 255])


def s3(n):
    return b3(n if n >= 0 else (-n) | 0x800000)


def s2(n):
    n = n if n >= 0 else (-n) | 0x8000
    return bytes([n >> 8, n & 255])


def record(param, ltype, level, t, ni, nj, corners, D, E, R, nbits, ints, gtype, pv, ext, junk):
    y, m, d, H, M = t
    pds = b3(28 + len(ext)) + bytes([128, 98, 0, 255, 128, param, ltype]) + level + bytes([(y - 1) % 100 + 1, m, d, H, M, 1, 0, 0, 0, 0, 0, 0, (y - 1) // 100 + 1, 0]) + s2(D) + ext
    la1, lo1, la2, lo2 = corners
    gds = bytes([len(pv), 33 if pv else 255, gtype]) + struct.pack('>HH', ni, nj) + s3(la1) + s3(lo1) + bytes([128]) + s3(la2) + s3(lo2) + struct.pack('>HH', 0, 0) + b'\0' + bytes(4) + b''.join(pv)
    gds = b3(len(gds) + 3) + gds
    bits = ''.join(format(v, '0%db' % nbits) for v in ints) if nbits else ''
    unused = (-len(bits)) % 8
    bits += '0' * unused
    data = bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))
    if len(data) % 2 == 0:                  # sections have an even number of bytes
        data += b'\0'
        unused += 8
    bds = b3(11 + len(data)) + bytes([unused]) + s2(E) + R + bytes([nbits]) + data
    body = pds + gds + bds + b'7777'
    return junk + b'GRIB' + b3(8 + len(body)) + b'\1' + body


def ibm(x):
    return (-1. if x[0] & 128 else 1.) * ((x[1] << 16) + (x[2] << 8) + x[3]) * 16. ** ((x[0] & 127) - 64) * 2. ** -24


POINT = (100, 103, 105, 107, 109, 111)


def c_grib(nvar, nt, nz, ni, nj, nbits, seed, sel, D, ltype, gtype=0, nv=0, drop=False, junk=0, ext=0):
    from pygeode.formats import grib
    R = random.Random(seed)
    if gtype == 4 and nj % 2:
        nj += 1
    params = R.sample([130, 131, 132, 133, 134, 157], nvar)
    times = sorted(R.sample(range(40 * 8), nt))
    times = [(R.choice([1901, 1979, 2000, 2001]), 1 + k // 8 % 12, 1 + k // 8 % 28, k % 8 * 3, R.choice([0, 30])) for k in times]
    times = list(dict.fromkeys(times))
    nt = len(times)
    point = ltype in POINT
    surface = not point and ltype != 112
    if surface:
        nz = 1
    if ltype == 109 and nz == 1:
        nz = 2
    if nv == 2 and point:
        nv = nz + 1
    if nv == 1:
        nv = nz + 3
    top = 1100 if point and ltype != 107 else 255
    levels = R.sample(range(1, top), nz) if not surface else [0]
    pv = [bytes([R.choice([0, 128]) + R.randrange(60, 69), R.randrange(16, 256), R.randrange(256), R.randrange(256)]) for _ in range(2 * nv)]
    south = R.random() < .5
    la1, la2 = (-60000, 60000) if south else (88500, -1250)
    lo1, lo2 = R.choice([(0, 270000), (-90000, 80000), (10500, 350000), (0, -500), (-120000, -1000), (5000, -90000)])
    if gtype == 4:
        la1, la2 = sorted([la1, la2], reverse=not south)
    combos = [(p, t, z) for p in range(nvar) for t in range(nt) for z in range(nz)]
    if R.random() < .5:
        R.shuffle(combos)
    missing = set()
    if drop and nt > 1 and nz > 1:
        missing = {R.choice(combos)}
    truth, data, torder, zorder, porder = {}, b'', {}, {}, []
    for p, t, z in combos:
        if (p, t, z) in missing:
            continue
        ints = [R.choice([0, 2 ** nbits - 1, R.randrange(2 ** nbits), R.randrange(2 ** nbits)]) for _ in range(ni * nj)]
        E = R.randrange(-12, 13)
        ref = bytes([R.choice([0, 128]) + R.randrange(50, 78), R.randrange(256), R.randrange(256), R.randrange(256)])
        lv = struct.pack('>H', levels[z]) if ltype != 112 else bytes([levels[z] // 2, levels[z]])
        jk = [b'', b'head GRI', bytes(R.randrange(65, 91) for _ in range(5)).replace(b'GRIB', b'xxxx')][junk]
        data += record(params[p], ltype, lv, times[t], ni, nj, (la1, lo1, la2, lo2), D, E, ref, nbits, ints, gtype, pv, bytes(R.randrange(256) for _ in range(ext)), jk)
        truth[p, t, z] = ((ibm(ref) + np.array(ints, 'd') * 2. ** E) * 10. ** -D).reshape(nj, ni)
        if p not in porder:
            porder.append(p)
        torder.setdefault(p, [])
        if t not in torder[p]:
            torder[p].append(t)
    tmp = tempfile.mkdtemp(prefix='vpg-')
    old = os.getcwd()
    try:
        os.chdir(tmp)
        fn = os.path.join(tmp, 'x.grib')
        with open(fn, 'wb') as f:
            f.write(data)
        for again in (0, 1):
            # the second time round the index is read back from disk
            with contextlib.redirect_stdout(io.StringIO()):
                ds = grib.open(fn, cfmeta=False)
            check(len(ds.vars) == nvar, 'number of variables', got=len(ds.vars), want=nvar)
            for v, p in zip(ds.vars, porder):
                check(v.atts['var_id'] == params[p] and v.atts['level_type'] == ltype and v.atts['center_id'] == 98 and v.atts['table_id'] == 128, 'variable code', got=v.atts)
                ti = torder[p]
                axes = list(v.axes)
                tv = axes[0].val_as_date()
                got = [tuple(int(np.atleast_1d(tv[k])[i]) for k in ('year', 'month', 'day', 'hour', 'minute')) for i in range(len(axes[0]))]
                check(got == [times[t] for t in ti], 'times', got=got, want=[times[t] for t in ti])
                if not surface:
                    zl = sorted({levels[z] for (q, t, z) in truth if q == p})
                    check([int(x) for x in axes[1].values] == zl, 'levels', got=axes[1].values, want=zl)
                    zi = [levels.index(l) for l in zl]
                    if nv and nz == nv - 1:
                        A = [ibm(x) for x in pv[:nv]]
                        B = [ibm(x) for x in pv[nv:]]
                        same(axes[1].auxarrays['A'], A[1:], 'hybrid coefficients A', 1e-6)
                        same(axes[1].auxarrays['B'], B[1:], 'hybrid coefficients B', 1e-6)
                else:
                    zi = [0]
                check(len(axes) == (3 if surface else 4), 'number of axes')
                lat, lon = axes[-2], axes[-1]
                check(lat.__class__.__name__ == 'Lat' and len(lat) == nj and lon.__class__.__name__ == 'Lon' and len(lon) == ni, 'horizontal axes')
                a1, a2 = (x / 1000. + (360 if x < 0 else 0) for x in (lo1, lo2))
                same(lon.values, np.linspace(a1, a2, ni), 'longitudes', 1e-6)
                if gtype == 0:
                    same(lat.values, np.linspace(la1 / 1000., la2 / 1000., nj), 'latitudes', 1e-6)
                else:
                    g = np.degrees(np.arcsin(np.polynomial.legendre.leggauss(nj)[0]))
                    same(lat.values, g if south else g[::-1], 'gaussian latitudes', 1e-5)
                full = [[truth.get((p, t, z)) for z in zi] for t in ti]
                if any(x is None for r in full for x in r):
                    # the record of one time and level is not in the file
                    for i, r in enumerate(full):
                        for j, x in enumerate(r):
                            if x is None:
                                try:
                                    y = v.slice[i, j].get()
                                except Exception:
                                    continue
                                fail('data were returned for a record that is not in the file', got=y.ravel()[:4])
                            else:
                                same(v.slice[i, j].get().squeeze(), x.squeeze(), 'record', 1e-13)
                    continue
                want = np.array(full)
                if surface:
                    want = want[:, 0]
                same(v.get(), want, 'decoded values', 1e-13, nbits=nbits, D=D)
                rng = random.Random(sel)
                for _ in range(3):
                    ss = [gen.rsel(rng, m) for m in want.shape]
                    same(v.slice[tuple(gen.pysel(s) for s in ss)].get(), gen.take(want, ss), 'decoded values, selection', 1e-13, selection=ss)
    finally:
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)
