"""Independent calendar oracle (plain integers; no shared code with pygeode)."""
ML = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
FLD = ('year', 'month', 'day', 'hour', 'minute', 'second')
CLS = {'std': 'StandardTime', '365': 'ModelTime365', '360': 'ModelTime360', 'yearless': 'Yearless'}


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def ylen(kind, y):
    return {'365': 365, '360': 360}.get(kind) or (366 if leap(y) else 365)


def mlen(kind, y, m):
    if kind == '360':
        return 30
    return 29 if (kind == 'std' and m == 2 and leap(y)) else ML[m - 1]


C400 = sum(366 if leap(y) else 365 for y in range(400))
_cum = [0]
for _y in range(400):
    _cum.append(_cum[-1] + (366 if leap(_y) else 365))


def year_start(kind, y):
    if kind == '365':
        return 365 * y
    if kind == '360':
        return 360 * y
    q, r = divmod(y, 400)
    return q * C400 + _cum[r]


def secs(kind, t):
    """seconds from the start of year 0 to the date t (month may exceed 12: the following years' months)"""
    y, m, d, H, M, S = t
    if kind == 'yearless':
        return d * 86400 + H * 3600 + M * 60 + S
    q, r = divmod(m - 1, 12)
    y, m = y + q, r + 1
    n = year_start(kind, y)
    for k in range(1, m):
        n += mlen(kind, y, k)
    return (n + d - 1) * 86400 + H * 3600 + M * 60 + S


def date(kind, s):
    """inverse of secs"""
    d, s = divmod(s, 86400)
    tod = (s // 3600, s % 3600 // 60, s % 60)
    if kind == 'yearless':
        return (0, 1, d) + tod
    y = d // 366 if kind == 'std' else d // ylen(kind, 0)
    while year_start(kind, y + 1) <= d:
        y = y + max(1, (d - year_start(kind, y)) // 366)
    while year_start(kind, y) > d:
        y -= 1
    d -= year_start(kind, y)
    m = 1
    while d >= mlen(kind, y, m):
        d -= mlen(kind, y, m)
        m += 1
    return (y, m, d + 1) + tod


def rand_date(rng, kind, near=None):
    if kind == 'yearless':
        return [0, 1, rng.choice([0, 1, 1, 2, rng.randint(-400, 4000)]), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)]
    c = rng.random()
    if near is not None and c < .5:
        y = near + rng.randint(-5, 5)
    elif c < .7:
        y = rng.choice([1900, 2000, 2004, 1600, 1896, 2100, 400, 1, 0, 4, 100, -1, -4, -100, 1999, 2001, 2011]) + rng.choice([-1, 0, 0, 1])
    else:
        y = rng.choice([rng.randint(-50, 50), rng.randint(1, 4000), rng.randint(1850, 2100), rng.randint(-4000, 12000)])
    m = rng.choice([1, 2, 2, 3, 12, rng.randint(1, 12)])
    L = mlen(kind, y, m)
    d = rng.choice([1, L, L, rng.randint(1, L)])
    H, M, S = rng.choice([(0, 0, 0), (23, 59, 59), (rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))])
    return [y, m, d, H, M, S]
