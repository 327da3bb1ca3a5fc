"""Base QC of one report: every flag is the decision of its own test on the report's own values"""
import calendar
import functools
import itertools

import qc
from mc.engine import Sub, attempt, Raised
from mc.marine import qcreport, params
from mc.sunref import sun
from checks import C09

PROPERTY = 'C11'
LEVEL = 'exploration'
RULE = ('full product of value alphabets straddling every limit within each variable group (value x normal x deviation), of date, hour and '
        'position alphabets, and of platform classes, each on a clean and on an empty background report; every known flag is compared')
BOUNDS = {'quick': 'one parameter set and one shifted set', 'thorough': 'also pairs of groups varied together'}

ALLFLAGS = {'POS': ['isbuoy', 'isdrifter', 'isship', 'is780', 'pos', 'date', 'time', 'blklst', 'day'],
            'SST': ['noval', 'freez', 'clim', 'nonorm', 'hardlimit'], 'AT': ['noval', 'clim', 'nonorm', 'hardlimit', 'mat_blacklist'],
            'AT2': ['clim', 'noval', 'nonorm', 'hardlimit'], 'DPT': ['clim', 'noval', 'nonorm', 'ssat', 'hum_blacklist', 'hardlimit'],
            'SLP': ['noval', 'clim', 'nonorm'], 'W': ['noval', 'hardlimit', 'consistency', 'wind_blacklist']}
SPARE = [('SST', 'bud'), ('AT', 'rep'), ('POS', 'trk'), ('W', 'rep')]


def out(v, lims):
    return int(v is None or not (lims[0] <= v <= lims[1]))


def badclim(v, n, lim):
    return int(v is None or n is None or abs(v - n) > lim)


def badstd(v, n, s, mm, k):
    return int(v is None or n is None or s is None or abs(v - n) > k * min(max(s, mm[0]), mm[1]))


def expected(variant, d, nm, sd, P):
    """flag -> value for one of the five QC entry points; None = do not judge (sun too close to the horizon)"""
    g = d.get
    hr = g('HR')
    if g('DCK') == 701 and g('YR') < 1860 and hr is None:
        hr = 0.0
    F = {}
    pt, dk = g('PT'), g('DCK')
    F['POS', 'isbuoy'] = int(pt in (6, 7))
    F['POS', 'isdrifter'] = int(pt == 7)
    F['POS', 'isship'] = int(pt in (0, 1, 2, 3, 4, 5, 10, 11, 12, 17))
    lat, lon = g('LAT'), g('LON')
    wl = C09.west(lon)
    F['POS', 'pos'] = int(not -90 <= lat <= 90 or not -180 <= lon <= 360)
    y, m, dy = g('YR'), g('MO'), g('DY')
    F['POS', 'date'] = int(not (1850 <= y <= 2024 and 1 <= m <= 12 and dy is not None and 1 <= dy <= calendar.monthrange(y, m)[1]))
    F['POS', 'time'] = int(hr is None or not 0 <= hr < 24)
    F['POS', 'blklst'] = int((lat == 0 and wl == 0) or pt == 13 or dk == 874 or (dk == 732 and C09.in732(y, lat, lon)))
    if variant in ('base', 'slp', 'sst'):
        F['POS', 'is780'] = int(dk == 780)
        if F['POS', 'pos'] or F['POS', 'date'] or F['POS', 'time']:
            F['POS', 'day'] = 1
        else:
            back = P['base']['time_since_sun_above_horizon']
            h, dd = hr - back, (y, m, dy)
            if h < 0:
                import datetime
                x = datetime.date(y, m, dy) - datetime.timedelta(1)
                h, dd = h + 24, (x.year, x.month, x.day)
            e = sun(dd[0], dd[1], dd[2], h, lat, wl)[0]
            F['POS', 'day'] = None if abs(e) < 1 else int(e > 0)
    if variant in ('base', 'sst'):
        v, n = g('SST'), nm.get('SST')
        p = P['SST']
        F['SST', 'noval'] = int(v is None)
        F['SST', 'freez'] = int(v is not None and v < p['freezing_point'])
        F['SST', 'clim'] = badclim(v, n, p['maximum_anomaly'])
        F['SST', 'nonorm'] = int(n is None)
        F['SST', 'hardlimit'] = out(v, p['hard_limits'])
    if variant in ('base', 'slp'):
        v, n, s, p = g('SLP'), nm.get('SLP'), sd.get('SLP'), P['SLP']
        F['SLP', 'noval'] = int(v is None)
        F['SLP', 'nonorm'] = int(n is None)
        F['SLP', 'clim'] = int(v is None or n is None or s is None or
                               (abs(v - n) > p['maximum_standardised_anomaly'] * s and abs(v - n) > p['lowbar']))
    if variant in ('base', 'wind'):
        v, w = g('W'), g('D')
        F['W', 'noval'] = int(v is None)
        F['W', 'hardlimit'] = out(v, P['W']['hard_limits'])
        F['W', 'consistency'] = int((w == 361 and v != 0) or (w == 362 and v is not None and v > P['W']['variable_limit']))
        F['W', 'wind_blacklist'] = int(dk in (708, 780))
    if variant == 'base':
        v, n, p = g('AT'), nm.get('AT'), P['AT']
        F['AT', 'noval'] = int(v is None)
        F['AT', 'clim'] = badclim(v, n, p['maximum_anomaly'])
        F['AT', 'nonorm'] = int(n is None)
        F['AT', 'hardlimit'] = out(v, p['hard_limits'])
        F['AT', 'mat_blacklist'] = int((pt == 5 and dk == 780) or C09.mat(dk, y, lat, lon))
        v, n, s = g('AT2'), nm.get('AT2'), sd.get('AT2')
        F['AT2', 'noval'] = int(v is None)
        F['AT2', 'clim'] = badstd(v, n, s, p['minmax_standard_deviation'], p['maximum_standardised_anomaly'])
        F['AT2', 'nonorm'] = int(n is None)
        F['AT2', 'hardlimit'] = out(v, p['hard_limits']) if g('AT') == v else None     # the second copy is a copy
        v, n, s, p = g('DPT'), nm.get('DPT'), sd.get('DPT'), P['DPT']
        F['DPT', 'noval'] = int(v is None)
        F['DPT', 'clim'] = badstd(v, n, s, p['minmax_standard_deviation'], p['maximum_standardised_anomaly'])
        F['DPT', 'nonorm'] = int(n is None)
        F['DPT', 'ssat'] = int(v is None or g('AT2') is None or v > g('AT2'))
        F['DPT', 'hum_blacklist'] = int(pt not in (0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 15))
        F['DPT', 'hardlimit'] = int(any(out(g(a), P[b]['hard_limits']) for a, b in (('AT', 'AT'), ('DPT', 'DPT'), ('SHU', 'SHU'), ('CRH', 'RH'))))
    return F


GOOD = ({'YR': 2003, 'MO': 7, 'DY': 5, 'HR': 12.0, 'LAT': 10.0, 'LON': 20.0, 'SST': 15.0, 'AT': 14.0, 'AT2': 14.0, 'DPT': 10.0, 'SHU': 9.0, 'CRH': 80.0,
         'SLP': 1013.0, 'W': 5.0, 'D': 90.0, 'DCK': 926, 'PT': 5},
        {'SST': 16.0, 'AT': 15.0, 'AT2': 15.0, 'DPT': 11.0, 'SLP': 1010.0}, {'AT2': 2.0, 'DPT': 2.0, 'SLP': 8.0})
EMPTY = ({'YR': 1950, 'MO': 1, 'DY': 31, 'HR': None, 'LAT': -10.0, 'LON': 200.0, 'SST': None, 'AT': None, 'AT2': None, 'DPT': None, 'SHU': None, 'CRH': None,
          'SLP': None, 'W': None, 'D': None, 'DCK': 732, 'PT': None}, {}, {})


@functools.lru_cache(None)
def alphabets():
    """group -> list of changes (variables, normals, deviations)"""
    g = {}
    x = lambda n, vals, norms, sds=(None,): [({n: v}, {n: c}, {n: s}) for v in vals for c in norms for s in sds]
    g['SST'] = x('SST', [None, -6.0, -5.0, -3.0, -1.875, -1.75, 0.0, 8.0, 15.0, 24.0, 45.0, 45.5], [None, -2.0, 0.0, 16.0, 37.0])
    g['AT'] = [({'AT': v, 'AT2': v}, {'AT': c, 'AT2': c2}, {'AT2': s}) for v in [None, -81.0, -80.0, 0.0, 14.0, 25.5, 65.0, 66.0]
               for c in (None, 0.0, 15.0, 55.0) for c2 in (None, 14.0, 3.0) for s in (None, 0.5, 2.0, 8.0)]
    g['DPT'] = [({'DPT': v, 'AT': a, 'AT2': a, 'SHU': q, 'CRH': h}, {'DPT': c}, {'DPT': s}) for v in [None, -81.0, -20.0, 10.0, 14.5, 66.0] for a in (None, 14.0, 10.0, 70.0)
               for q in (None, -1.0, 9.0, 66.0) for h in (None, -1.0, 0.0, 150.0, 151.0) for c in (None, 11.0, 30.0) for s in (None, 2.0, 8.0)]
    # the second copy of the air temperature differs from the first
    g['DPT'] += [({'DPT': v, 'AT': a, 'AT2': b}, {}, {}) for v in (9.5, 14.0, 20.0) for a in (None, 10.0, 18.0, 66.0) for b in (None, 8.0, 16.0, 70.0)]
    g['AT'] += [({'AT': a, 'AT2': b}, {}, {}) for a in (None, -81.0, 5.0, 14.0, 30.0) for b in (None, -81.0, 5.0, 14.0, 30.0)]
    g['SLP'] = x('SLP', [None, 850.0, 900.0, 990.0, 1000.0, 1003.0, 1013.0, 1100.0], [None, 1010.0, 990.0], [None, 1.0, 3.0, 8.0, 40.0])
    g['W'] = [({'W': v, 'D': w}, {}, {}) for v in (None, -0.5, 0.0, 0.5, 3.0, 3.5, 50.0, 50.5) for w in (None, 0.0, 90.0, 360.0, 361.0, 362.0, 363.0)]
    g['time'] = [({'YR': y, 'MO': m, 'DY': d, 'HR': h, 'DCK': k}, {}, {}) for y in (1849, 1859, 1860, 1900, 2003, 2024, 2025) for m in (0, 1, 2, 6, 12, 13)
                 for d in (None, 1, 28, 29, 30, 31) for h in (None, 0.0, 0.5, 12.0, 23.5, 24.0, 25.0) for k in (701, 926)]
    g['pos'] = [({'LAT': la, 'LON': lo, 'MO': m, 'HR': h, 'DCK': k}, {}, {}) for la in (-91.0, -90.0, -45.0, 0.0, 45.0, 80.0, 90.0, 90.5)
                for lo in (-180.5, -180.0, -30.0, 0.0, 100.0, 180.0, 200.0, 330.0, 360.0, 360.5) for m in (1, 6) for h in (0.25, 6.0, 12.0, 18.0) for k in (732, 926, 193)]
    g['platform'] = [({'PT': p, 'DCK': k, 'YR': y, 'LAT': la, 'LON': lo}, {}, {}) for p in [None] + list(range(0, 21)) for k in (193, 701, 708, 732, 780, 874, 926)
                     for y in (1880, 1893, 1969) for la, lo in ((0.0, 0.0), (45.0, -30.0), (5.0, 20.0))]
    return g


VARIANTS = {'base': 'perform_base_qc', 'wind': 'perform_base_wind_qc', 'slp': 'perform_base_slp_qc', 'sst': 'perform_base_sst_qc'}
RELEVANT = {'DPT': ('base',), 'AT': ('base',), 'SST': ('base', 'sst'), 'SLP': ('base', 'slp'), 'W': ('base', 'wind')}
SHIFT = {'base': {'time_since_sun_above_horizon': 3.0}, 'SST': {'freezing_point': 0.5, 'maximum_anomaly': 3.0, 'hard_limits': [-2.0, 30.0]},
         'AT': {'maximum_anomaly': 4.0, 'hard_limits': [-10.0, 20.0], 'minmax_standard_deviation': [1.5, 3.0], 'maximum_standardised_anomaly': 2.0},
         'DPT': {'minmax_standard_deviation': [0.5, 2.5], 'maximum_standardised_anomaly': 3.0, 'hard_limits': [-30.0, 12.0]},
         'SHU': {'hard_limits': [8.0, 10.0]}, 'RH': {'hard_limits': [10.0, 100.0]},
         'SLP': {'maximum_anomaly': 1.0, 'maximum_standardised_anomaly': 2.0, 'lowbar': 5.0}, 'W': {'hard_limits': [0.25, 10.0], 'variable_limit': 0.25}}


def gen(tier):
    for name, cs in alphabets().items():
        for bg in (0, 1):
            for par in (0, 1):
                for k in range(0, len(cs), 40):
                    yield [name, bg, par, k, None]
    if tier == 'thorough':
        a = alphabets()
        for n1, n2 in itertools.combinations(sorted(a), 2):
            for i in range(0, len(a[n1]), 7):
                for k in range(0, len(a[n2]), 40 * 6):
                    yield [n2, 0, 0, k, [n1, i]]


def run(case, R):
    name, bg, par, k, pair = case
    cs = alphabets()
    P = params(**SHIFT) if par else params()
    for chg in cs[name][k:k + 40]:
        d, nm, sd = [dict(x) for x in (EMPTY if bg else GOOD)]
        for c in ([cs[pair[0]][pair[1]]] if pair else []) + [chg]:
            d.update(c[0])
            nm.update(c[1])
            sd.update(c[2])
        for variant, meth in VARIANTS.items():
            if pair is None and variant not in RELEVANT.get(name, VARIANTS):
                continue
            r = qcreport(**d)
            for v in set(nm) | set(sd):
                r.add_climate_variable(v, nm.get(v), sd.get(v))
            for f in SPARE:
                r.set_qc(f[0], f[1], 3)
            getattr(r, meth)(P)
            want = expected(variant, d, nm, sd, P)
            key = '%s %d %r %r %r' % (variant, par, [(a, d[a]) for a in sorted(d) if (EMPTY if bg else GOOD)[0].get(a, 0) != d[a]], sorted(nm.items(), key=repr) if nm != GOOD[1] else '',
                                      sorted(sd.items(), key=repr) if sd != GOOD[2] else '')
            bad = {}
            for f, w in want.items():
                got = r.get_qc(*f)
                if w is not None and got != w:
                    bad['%s %s' % f] = [got, w]
            for f in SPARE:
                if r.get_qc(*f) != 3:
                    bad['%s %s' % f] = [r.get_qc(*f), 3]
            for f in [(t, x) for t in ALLFLAGS for x in ALLFLAGS[t] if (t, x) not in want and variant in ('base',)]:
                if r.get_qc(*f) != 9:
                    bad['%s %s' % f] = [r.get_qc(*f), 9]
            # values are not altered (apart from the missing hour of the old deck)
            for v in d:
                w = 0.0 if v == 'HR' and d['HR'] is None and d['DCK'] == 701 and d['YR'] < 1860 else d[v]
                if r.getvar(v) != w:
                    bad['value ' + v] = [r.getvar(v), w]
            R.true('flags ' + key, not bad, 'base QC flags of a report', wrong=bad, background=bg)
            R.state((variant, bg, par, repr(chg), repr(pair)))
            R.outcome('%s %s' % (variant, ''.join(str(want[f]) for f in sorted(want))))


# ------------------------------------------------------------------------------------ the same report again, with other values

def gen_again(tier):
    for name, cs in alphabets().items():
        step = max(1, len(cs) // ((12 if name in RELEVANT else 40) * (1 if tier == 'quick' else 2)))
        for i in range(0, len(cs), step):
            yield [name, i, step]


def flags_of(r):
    return {'%s %s' % k: r.qc[k] for k in r.qc}


def prepare(r, chg):
    d, nm, sd = [dict(x) for x in GOOD]
    d.update(chg[0])
    nm.update(chg[1])
    sd.update(chg[2])
    for k in d:
        r.setvar(k, d[k])
    for v in set(nm) | set(sd):
        r.add_climate_variable(v, nm.get(v), sd.get(v))


def run_again(case, R):
    name, i, step = case
    cs = alphabets()[name]
    P = params()
    for variant, meth in VARIANTS.items():
        if variant not in RELEVANT.get(name, VARIANTS):
            continue
        for j in range(step // 2, len(cs), step):
            r, fresh = qcreport(**GOOD[0]), qcreport(**GOOD[0])
            prepare(r, cs[i])
            getattr(r, meth)(P)
            prepare(r, cs[j])
            getattr(r, meth)(P)
            prepare(fresh, cs[j])
            getattr(fresh, meth)(P)
            a, b = flags_of(r), flags_of(fresh)
            R.eq('again %s %s %r %r' % (name, variant, cs[i], cs[j]), {k: a[k] for k in a if a[k] != b.get(k)}, {k: b[k] for k in a if a[k] != b.get(k)},
                 'flags of a report do not depend on an earlier run')
            R.state((name, variant, i, j))
            R.trans(2)


# ------------------------------------------------------------------------------------ the function that does the same to any report

def gen_function(tier):
    for name in ('SST', 'AT', 'time', 'pos', 'platform'):
        for bg in (0, 1):
            for k in range(0, len(alphabets()[name]), 200):
                yield [name, bg, k]


def run_function(case, R):
    """base_qc_report: the flags of the report that perform_base_qc gives with the usual parameters, where both have them"""
    name, bg, k = case
    P = params(base={'time_since_sun_above_horizon': 1.0}, SST={'freezing_point': -1.8, 'maximum_anomaly': 8.0}, AT={'maximum_anomaly': 10.0})
    for chg in alphabets()[name][k:k + 200]:
        d, nm = [dict(x) for x in (EMPTY if bg else GOOD)[:2]]
        d.update(chg[0])
        nm.update(chg[1])
        if not 1 <= d['MO'] <= 12:
            continue
        if d['HR'] is None or not 0 <= d['HR'] < 24:
            d['HR'] = 6.0
        r = qcreport(**d)
        for v in nm:
            r.add_climate_variable(v, nm.get(v), None)
        for f in SPARE:
            r.set_qc(f[0], f[1], 3)
        got = attempt(qc.base_qc_report, r)
        want = {f: w for f, w in expected('base', d, nm, {}, P).items() if f[0] in ('POS', 'SST', 'AT') and f[1] not in ('isdrifter', 'time', 'hardlimit', 'mat_blacklist')}
        if d['YR'] != 1893:
            want['POS', 'mat_blacklist'] = expected('base', d, nm, {}, P)['AT', 'mat_blacklist']
        bad = {'%s %s' % f: [r.get_qc(*f), w] for f, w in list(want.items()) + [(f, 3) for f in SPARE] if w is not None and r.get_qc(*f) != w}
        bad.update(('value ' + v, [r.getvar(v), d[v]]) for v in d if r.getvar(v) != d[v])
        R.true('function %d %r %r' % (bg, chg[:2], nm), got is r and not bad, 'base QC flags of a report', wrong=bad, got=repr(got)[:80])
        R.state((name, bg, repr(chg)))
        R.outcome(''.join(str(want[f]) for f in sorted(want)))


SUBS = [Sub('base qc', gen, run), Sub('again', gen_again, run_again), Sub('function', gen_function, run_function)]
