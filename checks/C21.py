"""Aground checks of drifting buoys (both versions)"""
import itertools

import trackqc
from mc import drift, sphere
from mc.engine import Sub, attempt, Raised

PROPERTY = 'C21'
LEVEL = 'model_checking'
RULE = ('every sequence of steps (stay, jitter below and above the tolerance, move) of a drifter from several places including the date line x timing x window and '
        'period parameters, both versions of the check run on the real voyage and compared with a reference pass; long records are built of every combination of '
        'drifting and resting stretches with the default parameters; drifters circling a pole; displacements and rests just inside and outside the tolerance and the periods; a state is the position sequence with the flag vector')
BOUNDS = {'quick': 'records of up to 6 reports from 4 offsets, 4 places, 4 timings, 6 parameter sets; records of up to 70 reports with defaults',
          'thorough': 'records of up to 8 reports, up to 120 with defaults'}
ASSUMPTIONS = ['records in which a displacement is within 1e-6 of the tolerance are not judged']

OFF = [(0.0, 0.0), (0.004, 0.006), (-0.003, 0.02), (0.25, 0.125)]
PLACES = [(0.0, 0.0), (45.0, 179.9975), (-60.0, -179.995), (75.0, 100.0)]
GAPS = {'daily': [24.0] * 9, 'half': [12.0] * 9, 'uneven': [12.0, 36.0, 0.0, 48.0, 6.0, 24.0, 30.0, 18.0, 24.0], 'gap': [24.0, 24.0, 96.0, 24.0, 24.0, 24.0, 120.0, 24.0, 24.0]}
PAR = [(1, 1, 1), (1, 2, 3), (3, 1, 2), (3, 2, 2), (5, 1, 4), (1, 3, 5)]


def compare(R, key, pos, hrs, win, lo, hi, pt=7, sort=True, order=None, east=False):
    for name in ('new', 'old'):
        try:
            want = drift.aground_new(pos, hrs, win, lo) if name == 'new' else drift.aground_old(pos, hrs, win, lo, hi)
        except drift.Ambiguous:
            R.outcome('ambiguous')
            continue
        v = drift.voyage(pos, hrs, pt, order=order, east=east)
        for i, r in enumerate(v.reps):
            r.set_qc('POS', 'drf_agr', (7, 1, 0)[(i + len(pos)) % 3])
        if name == 'new':
            r = attempt(v.new_buoy_aground_check, {'smooth_win': win, 'min_win_period': lo}, sort)
        else:
            r = attempt(v.buoy_aground_check, {'smooth_win': win, 'min_win_period': lo, 'max_win_period': hi}, sort)
        got = r if isinstance(r, Raised) else [q.get_qc('POS', 'drf_agr') for q in v.reps]
        R.eq('%s %s' % (name, key), got, want, 'aground flags (%s check)' % name, positions=pos if len(pos) < 12 else pos[:12], hours=hrs[:12])
        R.trace()
        R.trans(len(pos))
        R.state((name, key, tuple(want)))
        R.outcome('%s: %s' % (name, 'none' if not any(want) else 'all' if all(want) else 'some'))


def gen(tier):
    for n in range(0, (6 if tier == 'quick' else 8) + 1):
        for pl in range(4):
            for g in GAPS:
                if tier == 'quick' and n == 6 and (pl, g) not in ((1, 'half'),):
                    continue
                for pre in itertools.product(range(4), repeat=max(0, n - 3)):
                    yield [n, pl, g, list(pre)]


def run(case, R):
    n, pl, g, pre = case
    la, lo = PLACES[pl]
    hrs = [sum(GAPS[g][:i]) for i in range(n)]
    for rest in itertools.product(range(4), repeat=n - len(pre)):
        seq = list(pre) + list(rest)
        pos = [(la + OFF[k][0], lo + OFF[k][1]) for k in seq]
        for i, (win, a, b) in enumerate(PAR):
            if n > 3 and (i + sum(seq)) % (2 if n < 5 else 3):
                continue
            if n == 0 and i:
                continue
            compare(R, '%d %s %s %d %d %d' % (pl, g, ''.join(map(str, seq)), win, a, b), pos, hrs, win, a, b)


# ------------------------------------------------------------------------------------ long records, default parameters

def gen_long(tier):
    lens = [0, 3, 12, 22] if tier == 'quick' else [0, 3, 12, 22, 40]
    for pl in range(4):
        for a, b, c, d in itertools.product(lens, repeat=4):
            if 0 < a + b + c + d <= (70 if tier == 'quick' else 120):
                yield [pl, a, b, c, d]
    for n in (40, 41, 42, 43):
        yield [0, n, 0, 0, 0]
        yield [0, 0, n, 0, 0]


def run_long(case, R):
    pl, a, b, c, d = case
    la, lo = PLACES[pl]
    pos, x = [], -0.3
    for length, moving in ((a, 1), (b, 0), (c, 1), (d, 0)):
        for i in range(length):
            x += 0.06 * moving
            j = (0.0, 0.002, -0.002)[len(pos) % 3]
            pos.append((la + j, lo + x + j))
    hrs = [12.0 * i for i in range(len(pos))]
    compare(R, 'long %d %d %d %d %d' % (pl, a, b, c, d), pos, hrs, 41, 8, 10)
    compare(R, 'long5 %d %d %d %d %d' % (pl, a, b, c, d), pos, hrs, 5, 8, 10)
    if pl == 0:
        # the defaults of the functions themselves
        for name, f in (('old', trackqc.aground_check), ('new', trackqc.new_aground_check)):
            try:
                want = drift.aground_new(pos, hrs, 41, 8) if name == 'new' else drift.aground_old(pos, hrs, 41, 8, 10)
            except drift.Ambiguous:
                continue
            v = drift.voyage(pos, hrs)
            r = attempt(f, v.reps)
            got = r if isinstance(r, Raised) else [q.get_qc('POS', 'drf_agr') for q in v.reps]
            R.eq('default %s %r' % (name, case), got, want, 'aground flags with default parameters')


# ------------------------------------------------------------------------------------ limits

SPOTS = [(0.0, 0.0), (0.0, 179.999), (45.5, -0.004), (-60.25, -179.998), (80.0, 100.0), (-33.0, 359.996)]


def gen_lim(tier):
    for sp in range(len(SPOTS)):
        for head in (0, 45, 90, 180, 200, 270) if tier == 'quick' else range(0, 360, 15):
            yield [sp, head]


def run_lim(case, R):
    """displacements just within and just outside the tolerance, and rests just shorter and just longer than the periods"""
    a = SPOTS[case[0]]
    for f in (0.98, 0.9995, 1.0005, 1.02):
        la, lo = sphere.destination(a[0], a[1], case[1], drift.TOL * f)
        b = (la, a[1] + (lo - a[1] + 180.0) % 360.0 - 180.0)
        far = (a[0] + 0.5, a[1] + 0.5)
        for n, seq in enumerate(('abbbb', 'babbb', 'aabbb', 'aaabb', 'aaaab', 'ababa', 'xabaa', 'xaaab', 'xxabb', 'axbaa')):
            pos = [{'a': a, 'b': b, 'x': far}[k] for k in seq]
            for off in (-0.25, 0.0, 0.25):
                for at in (1, 2, 3, 4):
                    hrs = [24.0 * i + (off if i >= at else 0.0) for i in range(5)]
                    for k, (win, p, q) in enumerate(((1, 2, 3), (1, 1, 1), (3, 1, 2))):
                        if f in (0.98, 1.02) and (n + at + k) % 3:
                            continue
                        east = bool((n + at + k + case[1] // 45) % 2)
                        compare(R, '%r %s %s %s %d %d/%d/%d %d' % (case, f, seq, off, at, win, p, q, east), pos, hrs, win, p, q, east=east)
                    if off == 0.0:
                        break


# ------------------------------------------------------------------------------------ near a pole

def gen_polar(tier):
    steps = (0.0, 2.0, 100.0, -100.0, 170.0, -170.0)
    n = 4 if tier == 'quick' else 5
    for la in (89.985, 89.9925, -89.9925, 89.5):
        for pre in itertools.product(steps, repeat=n - 2):
            yield [la, n, list(pre)]
    for la in (89.9925, -89.985, 89.75):
        for step in (90.0, -120.0, 120.0, 170.0, -170.0, 30.0):
            yield [la, 0, [step]]


def run_polar(case, R):
    """a drifter that circles a pole, any number of times round and in either direction"""
    la, n, pre = case
    if n == 0:
        for moving in (0, 5, 20):
            for rest in (0, 21, 45):
                lon = [0.25]
                for i in range(moving + rest):
                    lon.append(lon[-1] + (pre[0] if i < moving else 0.0))
                pos = [(la + (0.0, 0.001, -0.001)[i % 3], x) for i, x in enumerate(lon)]
                hrs = [12.0 * i for i in range(len(pos))]
                for win in (5, 21, 41):
                    compare(R, 'round %r %d %d %d' % (case, moving, rest, win), pos, hrs, win, 8, 10)
        return
    for rest in itertools.product((0.0, 2.0, 100.0, -100.0, 170.0, -170.0), repeat=2):
        lon = [100.0 if sum(rest) < 0 else -179.5]
        for s in pre + list(rest):
            lon.append(lon[-1] + s)
        pos = [(la + 0.001 * (i % 2), x) for i, x in enumerate(lon)]
        hrs = [24.0 * i for i in range(len(pos))]
        for win, a, b in ((1, 1, 2), (3, 1, 2), (3, 2, 2)):
            compare(R, 'polar %s %r %d %d %d' % (la, lon, win, a, b), pos, hrs, win, a, b)


# ------------------------------------------------------------------------------------ who is checked, and what is refused

def gen_misc(tier):
    yield ['platforms']
    yield ['order']
    yield ['refuse']


def run_misc(case, R):
    pos = [(10.0, 20.0)] * 5
    hrs = [0.0, 24.0, 48.0, 72.0, 96.0]
    pa = {'smooth_win': 1, 'min_win_period': 1, 'max_win_period': 2}
    calls = [('new', lambda v, p, s=True: v.new_buoy_aground_check(p, s)), ('old', lambda v, p, s=True: v.buoy_aground_check(p, s))]
    if case[0] == 'platforms':
        for pt in (None, 0, 1, 5, 6, 7, 8, 13):
            for name, f in calls:
                v = drift.voyage(pos, hrs, pt)
                f(v, pa)
                R.eq('pt %s %s' % (pt, name), [q.get_qc('POS', 'drf_agr') for q in v.reps], [1] * 5 if pt == 7 else [9] * 5, 'only drifters are checked')
                R.state(('pt', pt, name))
    elif case[0] == 'order':
        # given in any order, the check on a voyage works on the reports in time order
        pos = [(10.0, 20.0), (10.5, 20.0), (11.0, 20.0), (11.0, 20.0), (11.0, 20.0)]
        for order in itertools.permutations(range(5)):
            for name, f in calls:
                v = drift.voyage(pos, hrs, order=order)
                r = attempt(f, v, pa)
                got = r if isinstance(r, Raised) else {q.getvar('UID'): q.get_qc('POS', 'drf_agr') for q in v.reps}
                R.eq('order %r %s' % (order, name), got, {'U%03d' % i: int(i >= 2) for i in range(5)}, 'reports given out of order')
                R.state(('order', order, name))
                if order != tuple(range(5)):
                    v = drift.voyage(pos, hrs, order=order)
                    R.true('unsorted %r %s' % (order, name), isinstance(attempt(f, v, pa, False), Raised) or sorted(order) == list(order), 'unsorted times accepted as sorted')
    else:
        bad = [dict(pa, **b) for b in ({'smooth_win': 0}, {'smooth_win': 2}, {'smooth_win': -1}, {'min_win_period': 0}, {'min_win_period': -1})]
        for name, f in calls:
            for b in bad + ([dict(pa, max_win_period=0), dict(pa, min_win_period=3)] if name == 'old' else []):
                r = attempt(f, drift.voyage(pos, hrs), b)
                R.true('refuse %s %r' % (name, b), isinstance(r, Raised) and r.kind == 'AssertionError', 'invalid parameters accepted')
            for k in ('LAT', 'LON', 'HR'):
                for i in range(5):
                    v = drift.voyage(pos, hrs)
                    v.reps[i].setvar(k, None)
                    if k == 'HR':
                        if i == 0:
                            continue
                        v.reps[i].setext('time_diff', None)
                    r = attempt(f, v, pa, False)
                    R.true('missing %s %s %d' % (name, k, i), isinstance(r, Raised), 'a report with missing %s is accepted' % k)
                    R.state(('missing', name, k, i))


SUBS = [Sub('records', gen, run), Sub('long records', gen_long, run_long, 120), Sub('limits', gen_lim, run_lim), Sub('near a pole', gen_polar, run_polar), Sub('scope', gen_misc, run_misc)]
