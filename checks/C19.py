"""Buddy check: each report against the average of its neighbours, closest neighbourhood first"""
import itertools
import math

import Extended_IMMA as ex
from mc import buddy
from mc.engine import Sub, attempt, Raised
from mc.marine import params

PROPERTY = 'C19'
LEVEL = 'exploration'
RULE = ('every scenario (target anomaly x none, one or two neighbouring cells from an offset alphabet reaching one past every search radius x '
        'anomalies x counts around every threshold) at rows from pole to pole, across the date line and the new year, packed into decks and '
        'compared report by report with a sparse reference grid; the neighbour search is also swept over every latitude row')
BOUNDS = {'quick': '5 rows, up to 600 scenarios each, 3 deviation fields; every row for the neighbour search', 'thorough': '20 rows, all fields, second parameter set'}

OFFS = [(1, 0, 0), (-1, 0, 0), (2, 0, 0), (-3, 0, 0), (0, 1, 0), (0, -1, 0), (0, 2, 0), (0, -2, 0), (0, 3, 0), (0, 0, 1), (0, 0, -2), (0, 0, 3), (0, 0, -4), (0, 0, 5),
        (2, -2, 2), (1, 1, -4), (-2, 2, 4), (3, 1, 0)]
POLAR = [(150, 0, 0), (10, 1, 0), (180, 0, 0), (-114, 0, 0), (115, 0, 0), (-120, 1, 1), ('opp', 0, 0)]


def scenarios(row, quick=False):
    """list of (target anomaly, [(offset, anomaly, count)])"""
    polar = row in (0, 1, 178, 179)
    offs = OFFS + (POLAR if row in (0, 1, 178, 179) else [])
    out = []
    for a in (0.0, 2.125, 3.25, -6.0):
        out.append((a, []))
        for o in offs:
            out.append((a, [(o, 0.0, 1)]))
            out.append((a, [(o, 1.5, 1)]))
    for o, p in itertools.combinations(POLAR if polar and quick else offs, 2):
        out.append((3.25, [(o, 0.0, 1), (p, -4.0, 1)]))
        out.append((1.0, [(o, 4.0, 2), (p, -1.0, 1)]))
    for o in ((1, 0, 0), (0, 0, 3), (2, 0, 0)):
        for n in (1, 5, 6, 15, 16, 100, 101):
            for a in (2.25, 2.75, 3.25, 3.75, 4.25):
                out.append((a, [(o, 0.0, n)]))
    # large differences, as of pressure
    for n, a in ((1, 20.0), (1, 31.0), (1, -33.0), (6, 27.0), (6, 29.0), (16, -23.0), (16, 25.0), (1, -20.0)):
        out.append((a, [((0, 1, 0), 0.0, n)]))
    return out


PER = 6 * 12


def rows(tier):
    return [0, 30, 90, 150, 179] if tier == 'quick' else [0, 1, 2, 5, 10, 20, 30, 45, 60, 75, 88, 89, 90, 91, 110, 130, 150, 170, 178, 179]


def gen(tier):
    for row in rows(tier):
        n = len(scenarios(row, tier == 'quick'))
        fields = ['one', 'mixed', 'half'] if tier == 'quick' else ['one', 'mixed', 'half', 'missing', 'negative', 'wide']
        per = 6 if row in (0, 1, 178, 179) else PER
        if per == 6 and tier == 'quick':
            fields = ['one', 'mixed'][:1 if row != 0 else 2]
        for f in fields:
            for par in ((0,) if tier == 'quick' and f != 'one' else (0, 1, 2)):
                if per == 6 and par and tier == 'quick':
                    continue
                for k in range(0, n, per):
                    yield [row, f, par, k, per, tier == 'quick']
        if tier == 'quick':
            yield [row, 'wide', 0, n - per, per, True]
            yield [row, 'wide', 1, n - per, per, True]


def build(row, k, per, quick):
    """observations of the k-th block of scenarios"""
    obs = []
    for j, (a, nb) in enumerate(scenarios(row, quick)[k:k + per]):
        p0 = 12 * (j % 6) + (1 if row % 2 else 0)
        x0 = (30 * (j // 6) + 179) % 360
        obs.append((buddy.norm_cell(x0, row, p0), a, {}, dict(wide=j % 2 == 0, k=j % 5)))
        for i, (o, an, n) in enumerate(nb):
            if o[0] == 'opp':
                c = (x0, 179 - row, p0)
            else:
                if not 0 <= row + o[1] < 180:
                    continue
                c = buddy.norm_cell(x0 + o[0], row + o[1], p0 + o[2])
            for q in range(n):
                obs.append((c, an, {}, dict(dlat=0.75, dlon=0.5, wide=q % 2 == 1, k=(q + i) % 5)))
    return obs


def params_for(par):
    P = params()['mds_buddy_check']
    if par == 2:
        P = {'limits': [[1, 1, 1], [2, 1, 3], [2, 2, 4]], 'number_of_obs_thresholds': [[0, 5], [0, 2], [0, 15]], 'multipliers': [[4.0, 3.0], [3.5, 2.0], [2.0, 1.5]]}
    elif par:
        P = {'limits': [[2, 1, 1], [3, 2, 3]], 'number_of_obs_thresholds': [[0, 1, 5], [0, 100]], 'multipliers': [[5.0, 2.0, 1.0], [3.0, 1.5]]}
    return P


def expect(cells, cell, P, dev):
    for rad, lims, mult in zip(P['limits'], P['number_of_obs_thresholds'], P['multipliers']):
        nb = cells.neighbours(cell, rad)
        if nb:
            n = sum(c for _, c in nb)
            return sum(a for a, _ in nb) / len(nb), buddy.multiplier(n, lims, mult) * dev(cell)
    return 0.0, 500.0


def run(case, R):
    row, f, par, k, per, quick = case
    obs = build(row, k, per, quick)
    P = params_for(par)
    c, dev = buddy.field(f)
    cells = buddy.Cells()
    for cell, an, fl, opt in obs:
        cells.add(cell, an)
    memo = {}
    for cell in cells.c:
        memo[cell] = expect(cells, cell, P, dev)
    var = ['SST', 'AT', 'DPT', 'SLP'][(k // per + row) % 4]
    d = buddy.deck_of(obs, var)
    r = attempt(d.mds_buddy_check, var, c, P)
    if isinstance(r, Raised):
        R.fail('raised %r' % (case,), 'the buddy check raised', error=repr(r))
        return
    for i, (cell, an, fl, opt) in enumerate(obs):
        m, s = memo[cell]
        if abs(abs(an - m) - s) < 1e-6:
            R.outcome('exactly at the limit')
            continue
        w = int(abs(an - m) > s)
        R.eq('buddy %d %s %d %d cell %r anom %s' % (row, f, par, k, cell, an), d.reps[i].get_qc(var, 'bud'), w, 'buddy check flag', mean=m, limit=s)
        R.state((row, f, par, k, i))
        R.outcome('%s %s' % (w, 'alone' if s == 500. else 'mult'))
    R.true('untouched %r' % (case,), all(q.getvar(var) == 10.0 + o[1] and len(q.qc) == 2 and q.get_qc(var, 'bbud') == (1, 0, 7)[n % 3] for n, (q, o) in enumerate(zip(d.reps, obs))), 'the buddy check changed something else')


# ------------------------------------------------------------------------------------ neighbour search row by row

def gen_rows(tier):
    for y in range(180):
        yield [tier, y]


def run_rows(case, R):
    tier, y = case
    g = ex.Np_Super_Ob()
    x0, p0 = (7 * y) % 360, (5 * y) % 73
    xs = {r: int(r / math.cos(math.radians(89.5 - y))) for r in (1, 2, 3)}
    cand = set()
    for r in (1, 2, 3):
        for dx in (xs[r], xs[r] + 1, -xs[r], -xs[r] - 1, 179, 180):
            for dy in (0, 1, -2):
                cand.add(((x0 + dx) % 360, y + dy, p0))
    for dy in range(-3, 4):
        cand.add((x0, y + dy, p0))
    for dp in range(-5, 6):
        cand.add((x0, y, (p0 + dp) % 73))
    cand.add((x0, 179 - y, p0))
    cand = sorted(c for c in cand if 0 <= c[1] < 180)
    cells = buddy.Cells()
    for i, c in enumerate(cand):
        for q in range(1 + i % 2):
            lat, lon, m, d = buddy.place(c)
            g.add_rep(lat, lon, 2003, m, d, float(i) + q)
            cells.add(c, float(i) + q)
    g.take_average()
    for rad in ([1, 1, 2], [2, 2, 2], [1, 1, 4], [2, 2, 4], [3, 0, 0], [0, 3, 1]):
        got = attempt(g.get_neighbour_anomalies, rad, x0, y, p0)
        want = sorted(cells.neighbours((x0, y, p0), rad))
        if isinstance(got, Raised):
            R.fail('rows %d %r' % (y, rad), 'the neighbour search raised', error=repr(got))
            continue
        R.eq('rows %d %r' % (y, rad), sorted(zip([float(v) for v in got[0]], [int(v) for v in got[1]])), want, 'neighbouring cells')
        R.state(('rows', y, tuple(rad)))
        R.outcome('neighbours %d' % len(want))


# ------------------------------------------------------------------------------------ limits of a grid, the ones with parameters and the ones of old

OLD = {'limits': [[1, 1, 2], [2, 2, 2], [1, 1, 4], [2, 2, 4]], 'number_of_obs_thresholds': [[0, 5, 15, 100], [0], [0, 5, 15, 100], [0]],
       'multipliers': [[4.0, 3.5, 3.0, 2.5], [4.0], [4.0, 3.5, 3.0, 2.5], [4.0]]}


def gen_old(tier):
    for row in rows(tier):
        per = 6 if row in (0, 1, 178, 179) else PER
        n = len(scenarios(row, True))
        for k in range(0, n, per):
            if per == PER or tier == 'thorough' or k // per % 8 == 0:
                yield [row, ['mixed', 'missing', 'negative', 'half'][k // per % 4], k, per]


def run_old(case, R):
    row, f, k, per = case
    c, dev = buddy.field(f)
    for what in ('old', 0, 1):
        P = OLD if what == 'old' else params_for(what)
        if what != 'old' and per == 6:
            continue
        g, cells, places = ex.Np_Super_Ob(), buddy.Cells(), {}
        for cell, an, fl, opt in build(row, k, per, True):
            cells.add(cell, an)
            lat, lon, m, d = buddy.place(cell)
            places[cell] = lat, lon, m, d
            g.add_rep(lat, lon, 2003, m, d, an)
        g.take_average()
        if what == 'old':
            r = attempt(g.get_buddy_limits, c)
        else:
            r = attempt(g.get_buddy_limits_with_parameters, c, P['limits'], P['number_of_obs_thresholds'], P['multipliers'])
        if isinstance(r, Raised):
            R.fail('limits %r %s' % (case, what), 'the buddy limits raised', error=repr(r))
            continue
        for cell in sorted(cells.c):
            m, s = expect(cells, cell, P, dev)
            key = 'limits %r %s %r' % (case, what, cell)
            R.eq(key, attempt(g.get_buddy_mean, *places[cell]), m, 'average of the neighbours', tol=1e-9)
            R.eq(key + ' spread', attempt(g.get_buddy_stdev, *places[cell]), s, 'limit of the difference', tol=1e-9)
            R.state((what, row, k, cell))
        R.outcome('%s %s' % (what, f))


MANY = {'limits': [[1, 1, 1], [2, 2, 4]], 'number_of_obs_thresholds': [[0, 100, 300, 1000], [0, 250]], 'multipliers': [[4.0, 3.5, 2.0, 1.0], [3.0, 1.5]]}


def gen_many(tier):
    for n in (99, 100, 101, 249, 250, 251, 299, 300, 301, 999, 1000, 1001, 1500):
        for where in ([(1, 0, 0)], [(1, 0, 0), (0, 1, 0)], [(2, 0, 0)], [(0, 0, 1), (0, -1, -1), (-1, 1, 0)]):
            yield [n, where]


def run_many(case, R):
    """more neighbours than there usually are, with thresholds as high"""
    n, where = case
    g, cells = ex.Np_Super_Ob(), buddy.Cells()
    mid = (200, 60, 30)
    obs = [(mid, 0.5)] * (1 + n % 3) + [((200 + where[i % len(where)][0], 60 + where[i % len(where)][1], 30 + where[i % len(where)][2]), (i % 5) * 0.25) for i in range(n)]
    for cell, an in obs:
        cells.add(cell, an)
        lat, lon, m, d = buddy.place(cell)
        g.add_rep(lat, lon, 2003, m, d, an)
    g.take_average()
    c, dev = buddy.field('one')
    for P, what in ((MANY, 'many'), (OLD, 'old')):
        r = attempt(g.get_buddy_limits, c) if what == 'old' else attempt(g.get_buddy_limits_with_parameters, c, P['limits'], P['number_of_obs_thresholds'], P['multipliers'])
        if isinstance(r, Raised):
            R.fail('many %r' % (case,), 'the buddy limits raised', error=repr(r))
            continue
        for cell in sorted(cells.c):
            m, s = expect(cells, cell, P, dev)
            lat, lon, mo, d = buddy.place(cell)
            R.eq('many %r %s %r' % (case, what, cell), attempt(g.get_buddy_mean, lat, lon, mo, d), m, 'average of the neighbours', tol=1e-9)
            R.eq('many %r %s %r spread' % (case, what, cell), attempt(g.get_buddy_stdev, lat, lon, mo, d), s, 'limit of the difference', tol=1e-9)
            R.state(('many', what, n, cell))


# ------------------------------------------------------------------------------------ who takes part

def gen_filt(tier):
    for flags in itertools.product((0, 1), repeat=5):
        yield list(flags)


def run_filt(flags, R):
    # five reports in neighbouring cells; those flagged neither count nor are judged
    an = [0.0, 0.5, 9.0, -9.0, 4.0]
    P = params()['mds_buddy_check']
    c, dev = buddy.field('one')
    for var in ('SST', 'SLP'):
        obs = [((200 + i, 60, 30), a, {('POS', 'trk'): fl, (var, 'bud'): 1}, {}) for i, (a, fl) in enumerate(zip(an, flags))]
        d = buddy.deck_of(obs, var, [('POS', 'trk', 0)])
        r = attempt(d.mds_buddy_check, var, c, P)
        cells = buddy.Cells()
        for o, fl in zip(obs, flags):
            if not fl:
                cells.add(o[0], o[1])
        for i, o in enumerate(obs):
            if flags[i]:
                w = 0
            else:
                m, s = expect(cells, o[0], P, dev)
                if abs(abs(o[1] - m) - s) < 1e-6:
                    continue
                w = int(abs(o[1] - m) > s)
            R.eq('filter %s %r %d' % (var, flags, i), r if isinstance(r, Raised) else d.reps[i].get_qc(var, 'bud'), w, 'only reports that pass the filter take part')
            R.state((var, tuple(flags), i))
    g = ex.get_threshold_multiplier
    if not any(flags):
        for n in list(range(0, 120)) + [199, 200, 201, 500, 1000, 100000]:
            for lims, mult in (([0, 5, 15, 100], [4.0, 3.5, 3.0, 2.5]), ([0], [4.0]), ([0, 1, 2, 3], [1., 2., 3., 5.]),
                               ([0, 1, 2, 4, 6, 9, 20, 50], [9., 8., 7., 6., 5., 4., 3., 2.]), ([0, 5, 15, 100], [1.0, 2.5, 2.0, 3.0])):
                w = buddy.multiplier(n, lims, mult) if n else 4.0
                R.eq('mult %d %r' % (n, lims), attempt(g, n, lims, mult), w, 'multiplier for a number of neighbours')
        for bad in ((1, [0, 5], [1.]), (1, [1, 5], [1., 2.]), (1, [0, 5, 5], [3., 2., 1.]), (1, [0, 5], [1., -1.]), (1, [0, 5, 3], [3., 2., 1.]), (1, [0, 1, 2, 3, 4, 5, 6, 7, 6], [9., 8., 7., 6., 5., 4., 3., 2., 1.])):
            R.true('mult %r' % (bad,), isinstance(attempt(g, *bad), Raised), 'bad thresholds accepted')


SUBS = [Sub('neighbour search', gen_rows, run_rows), Sub('scenarios', gen, run), Sub('limits', gen_old, run_old), Sub('many', gen_many, run_many), Sub('filter', gen_filt, run_filt)]
