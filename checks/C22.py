"""Picked-up (speed) checks of drifting buoys (both versions)"""
import itertools

import trackqc
from mc import drift, sphere
from mc.engine import Sub, attempt, Raised
from mc.marine import params

PROPERTY = 'C22'
LEVEL = 'model_checking'
RULE = ('every sequence of displacements (rest, slow, fast, positional error) of a drifter from several places x timing x period and limit parameters, both versions of '
        'the check run on the real voyage and compared with a reference pass over all pairs; speeds and gaps just inside and outside every limit; longitudes from -180 or from 0; a state is the displacement sequence with the flag vector')
BOUNDS = {'quick': 'records of up to 5 reports, 4 displacements, 4 places, 4 timings, 5 parameter sets; 6 reports in one mode', 'thorough': 'records of up to 7 reports'}
ASSUMPTIONS = ['records with a speed within 1e-6 of a limit are not judged']

STEP = [(0.0, 0.0), (0.3, 0.2), (-0.9, 2.5), (9.0, 0.0)]
PLACES = [(0.0, 0.0), (45.0, 178.5), (-60.0, -179.0), (70.0, 100.0)]
GAPS = {'3-hourly': [3.0] * 9, 'half': [12.0] * 9, 'uneven': [6.0, 2.0, 0.0, 18.0, 7.0, 24.0, 3.0, 11.0, 24.0], 'gap': [6.0, 6.0, 60.0, 6.0, 6.0, 6.0, 30.0, 6.0, 6.0]}
# speed limit, min period, max period, neighbours
PAR = [(2.5, 0.75, 1.0, 5), (3.0, 0.375, 0.5, 5), (1.0, 0.5, 0.5, 1), (4.0, 0.25, 2.0, 2), (0.0, 1.0, 2.0, 5)]


def compare(R, key, pos, hrs, par, **kw):
    limit, lo, hi, win = par
    iq = dict(params()['IQUAM_track_check'], number_of_neighbours=win)
    for name in ('new', 'old'):
        try:
            want = drift.speed_new(pos, hrs, iq, limit, lo) if name == 'new' else drift.speed_old(pos, hrs, limit, lo, hi)
        except drift.Ambiguous:
            R.outcome('ambiguous')
            continue
        v = drift.voyage(pos, hrs, **kw)
        for i, r in enumerate(v.reps):
            r.set_qc('POS', 'drf_spd', (7, 1, 0)[(i + len(pos)) % 3])
            r.set_qc('POS', 'iquam_track', (i + len(pos)) % 2)
        if name == 'new':
            r = attempt(v.new_buoy_speed_check, iq, {'speed_limit': limit, 'min_win_period': lo})
        else:
            r = attempt(v.buoy_speed_check, {'speed_limit': limit, 'min_win_period': lo, 'max_win_period': hi})
        got = r if isinstance(r, Raised) else [q.get_qc('POS', 'drf_spd') for q in v.reps]
        R.eq('%s %s' % (name, key), got, want, 'picked-up flags (%s check)' % name, positions=pos, hours=hrs)
        R.true('%s %s untouched' % (name, key), [q.get_qc('POS', 'iquam_track') for q in v.reps] == [(i + len(pos)) % 2 for i in range(len(pos))] and
               all(q.getvar('PT') == 7 for q in v.reps), 'the speed check changed other flags or the reports')
        R.trace()
        R.trans(len(pos))
        R.state((name, key, tuple(want)))
        R.outcome('%s: %s' % (name, 'none' if not any(want) else 'all' if all(want) else 'some'))


def gen(tier):
    for n in range(0, (6 if tier == 'quick' else 7) + 1):
        for pl in range(4):
            for g in GAPS:
                if tier == 'quick' and (n == 6 and (pl, g) not in ((1, 'uneven'),) or n == 5 and (pl + len(g)) % 2):
                    continue
                for pre in itertools.product(range(4), repeat=max(0, n - 3)):
                    yield [n, pl, g, list(pre)]


def run(case, R):
    n, pl, g, pre = case
    la, lo = PLACES[pl]
    hrs = [sum(GAPS[g][:i]) for i in range(n)]
    for rest in itertools.product(range(4), repeat=n - len(pre)):
        seq = list(pre) + list(rest)
        pos, a, b = [], la, lo
        for k in seq:
            if k == 3:  # a single wrong position
                pos.append((a + STEP[3][0], b + STEP[3][1]))
            else:
                a, b = a + STEP[k][0], b + STEP[k][1]
                pos.append((a, b))
        for i, par in enumerate(PAR):
            if n > 4 and (i + sum(seq)) % 3:
                continue
            compare(R, '%d %s %s %d' % (pl, g, ''.join(map(str, seq)), i), pos, hrs, par)


SPOTS = [(0.0, 0.0), (0.0, 179.9), (45.5, -0.25), (-60.25, -179.75), (80.0, 100.0), (-33.0, 359.5)]


def gen_lim(tier):
    for sp in range(len(SPOTS)):
        for head in (0, 45, 90, 180, 200, 270) if tier == 'quick' else range(0, 360, 15):
            yield [sp, head]


def run_lim(case, R):
    """mean speeds just within and just outside the limit, and stretches just shorter and just longer than the periods"""
    a = SPOTS[case[0]]
    for limit, lo, hi in ((2.5, 0.8, 1.0), (3.0, 0.375, 0.5), (1.5, 0.5, 0.5), (6.0, 1.0, 2.0)):
        for step in sorted({lo * 24.0, hi * 24.0, lo * 12.0, hi * 12.0, (lo + hi) * 6.0}):
            for f in (0.98, 0.996, 1.004, 1.02):
                for off in (-0.25, 0.0, 0.25):
                    for legs in ((1, 1, 1), (0, 1, 1), (1, 1, 0), (0, 1, 0), (1, 0, 0), (0, 0, 1)) if f in (0.996, 1.004) else ((1, 1, 1), (0, 1, 0)):
                        hrs, pos = [0.0], [a]
                        for i, g in enumerate(legs):
                            h = round((step + off * (i == 1)) * 64) / 64.0
                            la, lo2 = sphere.destination(pos[-1][0], pos[-1][1], case[1], g * limit * f * 3.6 * h)
                            pos.append((la, pos[-1][1] + (lo2 - pos[-1][1] + 180.0) % 360.0 - 180.0))
                            hrs.append(hrs[-1] + h)
                        for east in (bool((sum(legs) + (off < 0) + int(f > 1) + case[1] // 45) % 2),):
                            compare(R, 'limit %r %s %s %s %s %r %d' % (case, limit, step, f, off, legs, east), pos, hrs, (limit, lo, hi, 5), east=east)


def gen_misc(tier):
    yield ['platforms']
    yield ['order']
    yield ['refuse']
    yield ['defaults']


def run_misc(case, R):
    iq = params()['IQUAM_track_check']
    pos = [(10.0, 20.0), (10.0, 21.0), (10.0, 22.0), (10.0, 23.0), (10.0, 23.0), (10.0, 23.0)]
    hrs = [6.0 * i for i in range(6)]
    pa = {'speed_limit': 2.0, 'min_win_period': 0.25, 'max_win_period': 0.25}
    calls = [('new', lambda v, p, s=True: v.new_buoy_speed_check(iq, p, s)), ('old', lambda v, p, s=True: v.buoy_speed_check(p, s))]
    want = [1, 1, 1, 1, 0, 0]
    if case[0] == 'platforms':
        for pt in (None, 0, 1, 5, 6, 7, 8, 13):
            for name, f in calls:
                v = drift.voyage(pos, hrs, pt)
                f(v, pa)
                R.eq('pt %s %s' % (pt, name), [q.get_qc('POS', 'drf_spd') for q in v.reps], want if pt == 7 else [9] * 6, 'only drifters are checked')
                R.state(('pt', pt, name))
    elif case[0] == 'order':
        for order in itertools.permutations(range(5)):
            for name, f in calls:
                v = drift.voyage(pos, hrs, order=list(order) + [5])
                r = attempt(f, v, pa)
                got = r if isinstance(r, Raised) else {q.getvar('UID'): q.get_qc('POS', 'drf_spd') for q in v.reps}
                R.eq('order %r %s' % (order, name), got, {'U%03d' % i: want[i] for i in range(6)}, 'reports given out of order')
                R.state(('order', order, name))
    elif case[0] == 'refuse':
        for name, f in calls:
            for b in [{'speed_limit': -1.0}, {'min_win_period': -0.5}] + ([{'max_win_period': -0.5}, {'max_win_period': 0.125}] if name == 'old' else []):
                r = attempt(f, drift.voyage(pos, hrs), dict(pa, **b))
                R.true('refuse %s %r' % (name, b), isinstance(r, Raised) and r.kind == 'AssertionError', 'invalid parameters accepted')
            for k in ('LAT', 'LON', 'HR'):
                for i in range(6):
                    v = drift.voyage(pos, hrs)
                    v.reps[i].setvar(k, None)
                    if k == 'HR':
                        if i == 0:
                            continue
                        v.reps[i].setext('time_diff', None)
                    R.true('missing %s %s %d' % (name, k, i), isinstance(attempt(f, v, pa, False), Raised), 'a report with missing %s is accepted' % k)
                    R.state(('missing', name, k, i))
    else:
        # speeds straddling the default limits over the default periods
        for hours in (3.0, 8.75, 9.0, 9.25, 19.0, 19.25, 24.0, 24.25):
            for speed in (0.5, 2.4, 2.6, 2.9, 3.1, 8.0):
                for n in (2, 3):
                    d = speed * 3.6 * hours / 111.1949
                    pos = [(0.0, 179.9 + d * i) for i in range(n)]
                    hrs = [hours * i for i in range(n)]
                    v = drift.voyage(pos, hrs)
                    attempt(trackqc.new_speed_check, v.reps, iq)
                    R.eq('default new %s %s %d' % (hours, speed, n), [q.get_qc('POS', 'drf_spd') for q in v.reps], drift.speed_new(pos, hrs, iq, 3.0, 0.375), 'default limits of the new check')
                    v = drift.voyage(pos, hrs)
                    attempt(trackqc.speed_check, v.reps)
                    R.eq('default old %s %s %d' % (hours, speed, n), [q.get_qc('POS', 'drf_spd') for q in v.reps], drift.speed_old(pos, hrs, 2.5, 0.8, 1.0), 'default limits of the old check')
                    R.state(('default', hours, speed, n))


SUBS = [Sub('records', gen, run), Sub('limits', gen_lim, run_lim), Sub('scope', gen_misc, run_misc)]
