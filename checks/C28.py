"""Humidity variables follow from dew point, temperature and pressure"""
import itertools
import math

import CalcHums as ch
import Extended_IMMA as ex
from mc.engine import Sub
from mc.marine import report

PROPERTY = 'C28'
LEVEL = 'exploration'
RULE = ('product of dew points x temperatures x pressures, rounded and not, compared with the formulas of Buck (1981) and Jensen (1990) written anew; the inverse '
        'functions are applied to the results; every combination of present and missing dew point, temperature and pressure normal on a report; distinct by inputs; '
        'wet bulbs within 1e-9 of freezing and values within 1e-6 of a rounding border are not judged')
BOUNDS = {'quick': 'dew points -60..45 by 0.1 x 24 temperatures x 7 pressures', 'thorough': 'dew points by 0.1 x 250 temperatures x 7 pressures'}


def ew(t, p):
    return 6.1121 * (1.0007 + 3.46e-6 * p) * math.exp((18.729 - t / 227.3) * t / (257.87 + t))


def ei(t, p):
    return 6.1115 * (1.0003 + 4.18e-6 * p) * math.exp((23.036 - t / 333.7) * t / (279.82 + t))


def wetbulb(e, td, t, p):
    a = 0.000066 * p
    b = 409.8 * e / (td + 237.3) ** 2
    return (a * t + b * td) / (a + b)


def reference(td, t, p):
    """vapour pressure, specific and relative humidity, wet bulb, depression; None when the phase cannot be told"""
    e = ew(td, p)
    w = wetbulb(e, td, t, p)
    ws = t
    if abs(w) < 1e-9 and td != t or abs(ws) < 1e-9 and ws != 0:
        return None
    if w <= 0:
        e = ei(td, p)
    es = ei(t, p) if ws <= 0 else ew(t, p)
    return e, 1000 * 0.622 * e / (p - 0.378 * e), 100 * e / es, wetbulb(e, td, t, p), t - td


def rounded(x):
    y = abs(x) * 10
    if abs(y - math.floor(y) - 0.5) < 1e-6:
        return None
    return math.copysign(math.floor(y + 0.5) / 10, x)


DT = {'quick': [-3.0, -1.0, -0.1, 0.0, 0.1, 0.2, 0.3, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 5.0, 6.0, 7.5, 8.0, 10.0, 12.5, 15.0, 20.0, 30.0, 40.0]}
DT['thorough'] = [x / 10.0 for x in range(-50, 200)]
PP = [870.0, 920.0, 985.5, 1000.0, 1013.0, 1040.0, 1074.6]


def gen_formula(tier):
    for td10 in sorted(range(-600, 451), key=abs):
        yield [tier, td10]


NAMES = ['vapour pressure', 'specific humidity', 'relative humidity', 'wet bulb temperature', 'dew point depression']


def run_formula(case, R):
    tier, td10 = case
    td = td10 / 10.0
    for dt, p in itertools.product(DT[tier], PP):
        t = (td10 + round(dt * 10)) / 10.0
        want = reference(td, t, p)
        if want is None:
            R.outcome('phase not judged')
            continue
        got = [ch.vap(td, t, p, roundit=False), ch.sh(td, t, p, roundit=False), ch.rh(td, t, p, roundit=False), ch.wb(td, t, p, roundit=False), ch.dpd(td, t, roundit=False)]
        gotr = [ch.vap(td, t, p), ch.sh(td, t, p), ch.rh(td, t, p), ch.wb(td, t, p), ch.dpd(td, t)]
        for n, g, gr, w in zip(NAMES, got, gotr, want):
            key = '%s %r %r %r' % (n, td, t, p)
            R.eq(key, g, w, n)
            r = rounded(w)
            if r is not None:
                R.eq(key + ' rounded', gr, r, n + ' to a tenth')
        e, q = want[0], want[1]
        R.eq('e(q) %r %r %r' % (td, t, p), ch.vap_from_sh(q, p, roundit=False), e, 'vapour pressure from specific humidity gives it back')
        R.eq('q(e) %r %r %r' % (td, t, p), ch.sh_from_vap(e, p, roundit=False), q, 'specific humidity from vapour pressure gives it back')
        for f, a, w, n in ((ch.vap_from_sh, (q, p), e, 'e(q)'), (ch.sh_from_vap, (e, p), q, 'q(e)')):
            r = rounded(w)
            if r is not None:
                R.eq('%s %r rounded' % (n, a), f(*a), r, n + ' to a tenth')
        # dew point from vapour pressure: the phase is told from the water dew point first
        try:
            tdw = inverse(e, p, 1.0007 + 3.46e-6 * p, 6.1121, 18.729, 227.3, 257.87)
        except ValueError:
            R.outcome('no dew point')
            continue
        w1 = wetbulb(e, tdw, t, p)
        w0 = wetbulb(ew(td, p), td, t, p)
        if abs(w1) < 1e-6 or (w1 <= 0) != (w0 <= 0):
            R.outcome('phase not judged')
            continue
        R.eq('td(e) %r %r %r' % (td, t, p), ch.td_from_vap(e, p, t, roundit=False), td, 'dew point from vapour pressure gives it back', tol=1e-5)
        r = rounded(td)
        R.eq('td(e) %r %r %r rounded' % (td, t, p), ch.td_from_vap(e, p, t), r, 'dew point to a tenth', tol=1e-5)
        R.outcome('ice' if w0 <= 0 else 'water')
        R.state((td, t, p))


def inverse(e, p, f, c0, c1, c2, c3):
    b = c2 * math.log(e / (c0 * f)) - c1 * c2
    c = c3 * c2 * math.log(e / (c0 * f))
    return (-b - math.sqrt(b * b - 4 * c)) / 2


# ------------------------------------------------------------------------------------ reports
VARS = ['SHU', 'VAP', 'CRH', 'CWB', 'DPD']
TD = [None, -99.9, -20.0, 0.0, 9.9, 15.0, 60.0]
T = [None, -90.0, -5.0, 0.0, 9.5, 15.0, 25.0]
CLIM = ['absent', None, 1013.0, 950.0]


def gen_report(tier):
    for i in range(len(TD)):
        for j in range(len(T)):
            for k in range(1, len(CLIM)):
                for old in (False, True):
                    yield [i, j, k, old]


def run_report(case, R):
    i, j, k, old = case
    td, t, p = TD[i], T[j], CLIM[k]
    kw = {'DPT': td, 'AT': t}
    if old:
        kw.update({v: 33.3 for v in VARS})
    r = report(**kw)
    r.add_climate_variable('SLP', p)
    r.calculate_humidity_variables(list(VARS))
    key = '%r %r %r %r' % (td, t, p, old)
    if p is None or td is None or t is None:
        want = [None] * 5
    else:
        x = reference(td, t, p)
        if x is None:
            return
        if x[2] < 0 or (rounded(x[2]) or x[2]) > 150:
            want = [None] * 5
        else:
            want = [rounded(x[n]) for n in (1, 0, 2, 3, 4)]
    R.eq('report ' + key, [r.getvar(v) for v in VARS], want, 'humidity variables of a report (None when something is missing or silly)')
    R.eq('inputs ' + key, [r.getvar('DPT'), r.getvar('AT')], [td, t], 'dew point and temperature kept')
    R.state(('r', key))
    R.outcome('report with' if want[0] is not None else 'report without')


SUBS = [Sub('formula', gen_formula, run_formula), Sub('report', gen_report, run_report)]
