"""Drifter voyages and reference versions of the tracking checks"""
import datetime
import math

import Extended_IMMA as ex
from mc import sphere
from mc.marine import report

EPOCH = datetime.datetime(2003, 12, 28, 0)


class Ambiguous(Exception):
    pass


def le(a, b, near=1e-6):
    if abs(a - b) < near * max(1., abs(a), abs(b)):
        raise Ambiguous()
    return a <= b


def wrap(lon):
    return (lon + 180.0) % 360.0 - 180.0 if lon > 180.0 or lon < -180.0 else lon


def voyage(pos, hrs, pt=7, epoch=EPOCH, order=None, east=False, **kw):
    """pos: list of (lat, continuous longitude); hrs: hours since the epoch; order: the order in which reports are added"""
    v = ex.Voyage()
    idx = range(len(pos)) if order is None else order
    for i in idx:
        t = epoch + datetime.timedelta(hours=hrs[i])
        ext = {k[4:]: x[i] for k, x in kw.items() if k.startswith('ext_')}
        var = {k: x[i] for k, x in kw.items() if not k.startswith('ext_')}
        v.add_report(report(YR=t.year, MO=t.month, DY=t.day, HR=t.hour + t.minute / 60.0 + t.second / 3600.0, LAT=pos[i][0], LON=wrap(pos[i][1]) % 360.0 if east else wrap(pos[i][1]),
                            PT=pt, ID='BUOY1    ', UID='U%03d' % i, ext=ext, **var))
    return v


def smooth(pos, hrs, win):
    n = len(pos) - win + 1
    h = win // 2
    med = lambda a: sorted(a)[h]
    return ([(med([p[0] for p in pos[i:i + win]]), med([p[1] for p in pos[i:i + win]])) for i in range(n)], [hrs[i + h] for i in range(n)], h)


TOL = sphere.dist(0, 0, 0.01, 0.01)


def still(p, q):
    return le(sphere.dist(p[0], p[1], q[0], q[1]), TOL)


def aground_new(pos, hrs, win, days):
    """first index aground, or None: the last report stays near every earlier one (smoothed) back to that index"""
    if len(pos) <= win:
        return [0] * len(pos)
    p, h, half = smooth(pos, hrs, win)
    cand = [i for i in range(len(p)) if h[-1] - h[i] >= days * 24.0]
    first = None
    for i in reversed(cand):
        if not still(p[i], p[-1]):
            break
        first = i
    return flags(len(pos), first, half)


def flags(n, first, half):
    if first is None:
        return [0] * n
    if first > 0:
        first += half
    return [0] * first + [1] * (n - first)


def aground_old(pos, hrs, win, days, maxdays):
    if len(pos) <= win:
        return [0] * len(pos)
    p, h, half = smooth(pos, hrs, win)
    first = None
    for i in reversed(range(len(p))):
        if h[-1] - h[i] < days * 24.0:
            continue
        j = max(k for k in range(len(p)) if h[k] <= h[i] + maxdays * 24.0)
        if h[j] - h[i] < days * 24.0:
            continue
        if not still(p[i], p[j]):
            break
        first = i
    return flags(len(pos), first, half)


def ms(p, q, hours):
    return sphere.dist(p[0], p[1], q[0], q[1]) * 1000.0 / 3600.0 / hours


def speed_old(pos, hrs, limit, lo, hi):
    n = len(pos)
    out = [0] * n
    if n < 2:
        return out
    for i in range(n):
        if hrs[-1] - hrs[i] < lo * 24.0 - 1e-9:
            continue
        j = max(k for k in range(n) if hrs[k] <= hrs[i] + hi * 24.0 + 1e-9)
        if hrs[j] - hrs[i] < lo * 24.0 - 1e-9:
            continue
        if not le(ms(pos[i], pos[j], hrs[j] - hrs[i]), limit):
            for k in range(i, j + 1):
                out[k] = 1
    return out


def iquam_ship(pos, hrs, P):
    """flags of the pairwise check treating the drifter as a ship"""
    n, win = len(pos), P['number_of_neighbours']
    pairs = set()
    for a in range(n):
        for b in range(a + 1, min(n, a + win + 1)):
            s = max(sphere.dist(pos[a][0], pos[a][1], pos[b][0], pos[b][1]) - P['delta_d'], 0.0) / (abs(hrs[b] - hrs[a]) + P['delta_t'])
            if not le(s, P['ship_speed_limit']):
                pairs.add((a, b))
    flags = [0] * n
    while pairs:
        c = [sum(1 for p in pairs if i in p) for i in range(n)]
        k = c.index(max(c))
        flags[k] = 1
        pairs = set(p for p in pairs if k not in p)
    return flags


def speed_new(pos, hrs, iq, limit, lo):
    n = len(pos)
    out = [0] * n
    if n < 2:
        return out
    bad = iquam_ship(pos, hrs, iq)
    for i in range(n):
        if bad[i]:
            continue
        later = [k for k in range(n) if not bad[k] and hrs[k] >= hrs[i] + lo * 24.0 - 1e-9]
        if not later:
            continue
        j = later[0]
        if not le(ms(pos[i], pos[j], hrs[j] - hrs[i]), limit):
            for k in range(i, j + 1):
                out[k] = 1
    return out


# ------------------------------------------------------------------------------------ SST against a background

KIND = {  # anomaly, background error variance (None: by position), ice, background present ('var': only its error is), daytime
    'g': (0.125, None, 0.0, True, False), 'h': (-0.25, None, None, True, False), 'b': (2.0, None, 0.0, True, False), 'n': (-4.0, None, 0.0, True, False),
    'd': (20.0, None, 0.0, True, True), 'i': (-15.0, None, 0.25, True, False), 'l': (0.0, None, 0.0, False, False), 'u': (3.0, 0.5, 0.0, True, False),
    'e': (5.0, None, 0.15, True, False), 'm': (0.0, 0.75, 0.0, True, True), 'c': (1.25, None, 0.0, True, False), 'v': (-1.25, None, 0.0, True, False)}
BGV = [0.01, 0.09, 0.16]


LETTERS = {}


def letter(anom, var, ice=0.0, land=True, day=False):
    """a further kind of report"""
    what = (anom, var, ice, land, day)
    if what not in LETTERS:
        LETTERS[what] = chr(0x4e00 + len(LETTERS))
        KIND[LETTERS[what]] = what
    return LETTERS[what]


MIX = [(0.01,), (0.0,), (0.16,), (0.29,), (0.01, 0.16), (0.16, 0.01, 0.09), (0.25, 0.0, 0.0)]


def spots(day, k):
    """reports one a day around the terminator: (hour, latitude, longitude) and whether the sun is up, or None when too close to call"""
    from mc.sunref import sun
    out = []
    for i in range(k):
        lat, lon = 5.0 + i / 16.0, day[1] + i / 16.0
        h = 24.0 * i + day[0]
        t = EPOCH + datetime.timedelta(hours=h)
        e = sun(t.year, t.month, t.day, t.hour + t.minute / 60.0, lat, wrap(lon))[0]
        if abs(e + 2.5) < 0.06:
            return None
        out.append(((h, lat, lon), e > -2.5))
    return out


def sst_voyage(seq, lon=0.0, pt=7, times=None, order=None):
    """one report a day, at local midnight or, for daytime ones, local noon; or at the given (hour, latitude, longitude)"""
    night = 0 if abs(lon) < 90 else 12
    hrs, pos, sst, ost, ice, bgv = [], [], [], [], [], []
    for i, k in enumerate(seq):
        a, b, c, land, day = KIND[k]
        hrs.append(24.0 * i + (night + 12) % 24 if day else 24.0 * i + night)
        pos.append((5.0 + i / 16.0, lon + i / 16.0))
        if times:
            hrs[-1], pos[-1] = times[i][0], times[i][1:]
        sst.append(15.0 + a)
        ost.append(15.0 if land is True else None)
        ice.append(c)
        bgv.append((BGV[i % 3] if b is None else b) if land else None)
    return voyage(pos, hrs, pt, order=order, SST=sst, ext_OSTIA=ost, ext_ICE=ice, ext_BGVAR=bgv)


def usable(seq):
    """index, anomaly and variance of the reports that can be compared with the background"""
    out = []
    for i, k in enumerate(seq):
        a, b, c, land, day = KIND[k[0]]
        j = k[1] if isinstance(k, tuple) else i    # a report out of a longer record keeps the error of its place there
        if land is True and not day and (c or 0.0) <= 0.15:
            out.append((i, a, BGV[j % 3] if b is None else b))
    return out


def gt(a, b):
    return not le(a, b)


def robust(vals, trim):
    v = sorted(vals)
    if trim:
        k = len(v) // trim
        v = v[k:len(v) - k]
    m = math.fsum(v) / len(v)
    return m, math.sqrt(math.fsum((x - m) ** 2 for x in v) / len(v))


def leading(n, ok, bad):
    """number of leading windows that are bad, stopping at the first unreliable or good one"""
    k = 0
    while k < n and ok(k) and bad(k):
        k += 1
    return k


def tails(seq, P):
    n = len(seq)
    u = usable(seq)
    if not u:
        return [0] * n, [0] * n
    m = len(u)
    L, S = P['long_win_len'], P['short_win_len']
    lim = P['background_err_lim']

    def long_bad(w):
        mean, sd = robust([a for _, a, _ in w], 100)
        be = [math.sqrt(b) for _, _, b in w]
        bm = math.fsum(be) / len(be)
        bv = math.fsum(x * x for x in be) / len(be)
        return gt(abs(mean), P['long_err_std_n'] * math.sqrt(P['drift_inter'] ** 2 + bm ** 2)) or gt(sd, math.sqrt(P['drif_intra'] ** 2 + bv))

    def short_bad(w):
        return sum(gt(abs(a), P['short_err_std_n'] * math.sqrt(b + P['drift_inter'] ** 2 + P['drif_intra'] ** 2)) for _, a, b in w) >= P['short_win_n_bad']

    def run(rec, win, bad):
        return leading(len(rec) - win + 1, lambda k: not any(gt(b, lim) for _, _, b in rec[k:k + win]), lambda k: bad(rec[k:k + win]))

    lo, hi = 0, m  # reports lo..hi-1 are not in a tail
    if m >= L:
        k = run(u, L, long_bad)
        if k:
            lo = k + L // 2
        k = run(u[::-1], L, long_bad)
        if k:
            hi = m - k - L // 2
    if lo < hi and hi - lo >= S:
        rec = u[lo:hi]
        W = len(rec) - S + 1
        a = run(rec, S, short_bad)
        b = run(rec[::-1], S, short_bad)
        lo += len(rec) if a == W else a
        hi -= len(rec) if b == W else b
    t1, t2 = [0] * n, [0] * n
    if lo < hi:
        if lo:
            t1 = [int(i <= u[lo - 1][0]) for i in range(n)]
        if hi < m:
            t2 = [int(i >= u[hi][0]) for i in range(n)]
    return t1, t2


def bias_noise(seq, P):
    """bias, noise and short-record verdicts for the whole record"""
    u = [x for x in usable(seq) if le(x[2], P['background_err_lim'])]
    masked = any((KIND[k[0]][1] or 0.0) > P['background_err_lim'] for k in seq if KIND[k[0]][3])
    if not u:
        return 0, 0, 0
    if len(u) >= P['n_eval']:
        mean, sd = robust([a for _, a, _ in u], 0)
        bv = math.fsum(b for _, _, b in u) / len(u)
        return int(gt(abs(mean), P['bias_lim'])), int(gt(sd, math.sqrt(P['drif_intra'] ** 2 + bv))), 0
    if masked:
        return 0, 0, 0
    bad = sum(gt(abs(a), P['err_std_n'] * math.sqrt(b + P['drif_inter'] ** 2 + P['drif_intra'] ** 2)) for _, a, b in u)
    return 0, 0, int(bad >= P['n_bad'])
