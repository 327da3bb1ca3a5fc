"""iQuam-style track and spike checks: worst offender out first, until no violating pair is left"""
import itertools

from mc import sphere
from mc.engine import Sub, attempt, Raised
from mc.marine import params
from checks.C16 import voyage

PROPERTY = 'C17'
LEVEL = 'model_checking'
RULE = ('every assignment of displacements, times and values to the reports of a voyage x neighbour window x platform, on the real checks, '
        'compared with a pairwise reference elimination; a state is the elimination history; the graph invariants (no violating pair left among '
        'unflagged reports, every flagged report was in a violating pair) are checked separately on every execution; pairs of reports 0.2% outside and inside every limit, alone and among others')
BOUNDS = {'quick': 'voyages of 0..5 reports (positions), 0..4 reports x 6 values (spikes), windows 1, 2, 5; voyages of 30 and 60 with offenders at regular places; both limits at 28 places, headings and gaps of time x 5 parameter sets', 'thorough': '0..7 and 0..6'}
NEAR = 1e-6


class Ambiguous(Exception):
    pass


def gt(a, b):
    if abs(a - b) < NEAR * max(1., abs(a), abs(b)):
        raise Ambiguous()
    return a > b


def eliminate(n, pairs):
    pairs = set(frozenset(p) for p in pairs)
    flags, order = [0] * n, []
    while pairs:
        c = [sum(1 for p in pairs if i in p) for i in range(n)]
        k = c.index(max(c))
        flags[k] = 1
        order.append(k)
        pairs = set(p for p in pairs if k not in p)
    return flags, order


def dt(p, q):
    return 0.0 if p['t'] is None or q['t'] is None else abs(q['t'] - p['t'])


def dist(p, q):
    return sphere.dist(p['LAT'], p['LON'], q['LAT'], q['LON'])


GAPS = {'hourly': [1.0] * 8, 'uneven': [0.0, 6.0, 0.25, 24.0, 0.0, 1.0, 3.0, 1.0], 'no hour': [1.0] * 8}


def reports(disp, gaps, sst=None, step=0.125):
    out, t = [], 6.0
    for i, d in enumerate(disp):
        r = dict(LAT=round((20.0 + step * i + d[0]) * 64) / 64., LON=179.75 + step * i + d[1], YR=2004, MO=2, DY=28 + int(t // 24), HR=t % 24, t=t, UID='U%d' % i,
                 SST=None if sst is None else sst[i])
        if r['DY'] > 29:
            r['MO'], r['DY'] = 3, r['DY'] - 29
        if r['LON'] > 180:
            r['LON'] -= 360
        if gaps == 'no hour' and i % 3 == 1:
            r['HR'] = r['t'] = None
        out.append(r)
        t += GAPS[gaps][i]
    return out


DISP = [(0.0, 0.0), (0.5, 0.0), (-4.0, 1.0), (30.0, -60.0)]


def gen_iq(tier):
    for n in range(0, (5 if tier == 'quick' else 7) + 1):
        for gaps in GAPS:
            for pre in itertools.product(range(4), repeat=max(0, n - 3)):
                yield [n, gaps, list(pre)]


def run_iq(case, R):
    n, gaps, pre = case
    for rest in itertools.product(range(4), repeat=n - len(pre)):
        disp = list(pre) + list(rest)
        reps = reports([DISP[d] for d in disp], gaps)
        key = '%s %s' % (gaps, ''.join(map(str, disp)))
        for pt, win in ((5, 5), (7, 5), (6, 1), (5, 2), (7, 2)):
            if n > 5 and (pt, win) not in ((5, 5), (7, 2)):
                continue
            P = dict(params()['IQUAM_track_check'], number_of_neighbours=win)
            lim = P['buoy_speed_limit'] if pt in (6, 7) else P['ship_speed_limit']
            try:
                pairs = [(a, b) for a in range(n) for b in range(a + 1, min(n, a + win + 1))
                         if gt(max(dist(reps[a], reps[b]) - P['delta_d'], 0.0) / (dt(reps[a], reps[b]) + P['delta_t']), lim)]
            except Ambiguous:
                R.outcome('ambiguous')
                continue
            want, order = eliminate(n, pairs)
            v = voyage(reps, PT=pt)
            for i in range(n):
                v.set_qc(i, 'POS', 'iquam_track', i % 2)
            r = attempt(v.iquam_track_check, P)
            got = r if isinstance(r, Raised) else [v.get_qc(i, 'POS', 'iquam_track') for i in range(n)]
            R.eq('track %s %d %d' % (key, pt, win), got, want, 'iQuam track flags', pairs=pairs)
            if not isinstance(r, Raised):
                R.true('inv %s %d %d' % (key, pt, win), all(got[a] or got[b] for a, b in pairs) and all(any(i in p for p in pairs) for i in range(n) if got[i]),
                       'no violating pair is left, and only offenders are flagged', got=got, pairs=pairs)
            R.trace()
            R.trans(len(order))
            R.state(('iq', key, pt, win, tuple(order)))
            R.outcome('track %d of %d' % (sum(want), n))
    # a voyage is what its first report is
    if n in (2, 3, 4):
        for rest in itertools.product(range(4), repeat=n - len(pre)):
            disp = list(pre) + list(rest)
            reps = reports([DISP[d] for d in disp], gaps)
            for pts in itertools.product((5, 7), repeat=n):
                P = params()['IQUAM_track_check']
                lim = P['buoy_speed_limit'] if pts[0] == 7 else P['ship_speed_limit']
                try:
                    pairs = [(a, b) for a in range(n) for b in range(a + 1, min(n, a + P['number_of_neighbours'] + 1))
                             if gt(max(dist(reps[a], reps[b]) - P['delta_d'], 0.0) / (dt(reps[a], reps[b]) + P['delta_t']), lim)]
                except Ambiguous:
                    continue
                v = voyage([dict(r, PT=p) for r, p in zip(reps, pts)])
                r = attempt(v.iquam_track_check, P)
                got = r if isinstance(r, Raised) else [v.get_qc(i, 'POS', 'iquam_track') for i in range(n)]
                R.eq('kinds %s %s %r' % (gaps, ''.join(map(str, disp)), pts), got, eliminate(n, pairs)[0], 'iQuam track flags of a voyage of two platform types', pairs=pairs)
                R.trace()
    if n > 0 and not any(pre):
        for ident, yr in (('SHIP     ', 2004), (None, 2004), ('MASKSTID ', 2004)):
            disp = [0, 3, 0, 3, 0, 3, 0][:n]
            reps = reports([DISP[d] for d in disp], gaps)
            v = voyage(reps, PT=5, ID=ident, YR=yr)
            r = attempt(v.iquam_track_check, params()['IQUAM_track_check'])
            got = r if isinstance(r, Raised) else [v.get_qc(i, 'POS', 'iquam_track') for i in range(n)]
            R.eq('generic %r %s %d' % (ident, gaps, n), got, [0] * n, 'generic identifiers are exempt')


VAL = [None, 10.0, 11.75, 13.0, 9.0, 25.0]


def gen_sp(tier):
    for n in range(0, (4 if tier == 'quick' else 6) + 1):
        for gaps in GAPS:
            for pos in range(3):
                if tier == 'quick' and n == 4 and (gaps == 'no hour' or pos == 2):
                    continue
                for pre in itertools.product(range(6), repeat=max(0, n - 3)):
                    yield [n, gaps, pos, list(pre)]
    # longer voyages of few values
    for n in ((5, 6) if tier == 'quick' else (5, 6, 7)):
        for gaps in ('hourly', 'uneven'):
            for pre in itertools.product((1, 3, 5) if n < 7 else (1, 3), repeat=n - 3):
                yield [n, gaps, 3, list(pre)]


def run_sp(case, R):
    n, gaps, pos, pre = case
    disp = [[(0, 0)] * 7, [(0, 0), (.5, 0), (0, 0), (0, .5), (0, 0), (1, 0), (0, 0)], [(0, 0), (2, 0), (2, 2), (0, 0), (-1, 0), (0, 0), (0, 0)], [(0, 0)] * 7][pos][:n]
    few = n > 4 and set(pre) <= {1, 3, 5}
    for rest in itertools.product((1, 3, 5) if few else range(6), repeat=n - len(pre)):
        vals = [VAL[k] for k in list(pre) + list(rest)]
        reps = reports(disp, gaps, vals, 0.0 if pos == 3 else 0.125)
        key = '%s %d %r' % (gaps, pos, vals)
        for pt, win, typ in ((5, 5, 'SST'), (7, 5, 'SST'), (6, 1, 'SST'), (5, 2, 'AT')):
            if n > 4 and (win == 5 and pt == 7 or few and win == 1):
                continue
            P = dict(params()['IQUAM_spike_check'], number_of_neighbours=win)
            d0 = P['buoy_delta_t'] if pt in (6, 7) else P['ship_delta_t']
            try:
                pairs = [(a, b) for a in range(n) for b in range(a + 1, min(n, a + win + 1)) if vals[a] is not None and vals[b] is not None and
                         gt(abs(vals[a] - vals[b]), max(d0, dist(reps[a], reps[b]) * P['max_gradient_space'], dt(reps[a], reps[b]) * P['max_gradient_time']))]
            except Ambiguous:
                R.outcome('ambiguous')
                continue
            want, order = eliminate(n, pairs)
            if typ == 'AT':
                v = voyage([dict(r, AT=r['SST'], SST=12.0) for r in reps], PT=pt)
                r = attempt(v.spike_check, P, 'AT')
            else:
                v = voyage([dict(r, AT=12.0) for r in reps], PT=pt)
                r = attempt(v.spike_check, P)
            got = r if isinstance(r, Raised) else [v.get_qc(i, typ, 'spike') for i in range(n)]
            R.eq('spike %s %d %d %s' % (key, pt, win, typ), got, want, 'spike flags', pairs=pairs)
            R.trace()
            R.trans(len(order))
            R.state(('sp', key, pt, win, tuple(order)))
            R.outcome('spike %d of %d' % (sum(want), n))

    # a voyage is what its first report is
    if n in (2, 3) and pos < 3:
        for rest in itertools.product(range(6), repeat=n - len(pre)):
            vals = [VAL[k] for k in list(pre) + list(rest)]
            reps = reports(disp, gaps, vals, 0.125)
            for pts in itertools.product((5, 6), repeat=n):
                P = params()['IQUAM_spike_check']
                d0 = P['buoy_delta_t'] if pts[0] == 6 else P['ship_delta_t']
                try:
                    pairs = [(a, b) for a in range(n) for b in range(a + 1, min(n, a + P['number_of_neighbours'] + 1)) if vals[a] is not None and vals[b] is not None and
                             gt(abs(vals[a] - vals[b]), max(d0, dist(reps[a], reps[b]) * P['max_gradient_space'], dt(reps[a], reps[b]) * P['max_gradient_time']))]
                except Ambiguous:
                    continue
                v = voyage([dict(r, PT=p) for r, p in zip(reps, pts)])
                r = attempt(v.spike_check, P)
                got = r if isinstance(r, Raised) else [v.get_qc(i, 'SST', 'spike') for i in range(n)]
                R.eq('kinds %s %d %r %r' % (gaps, pos, vals, pts), got, eliminate(n, pairs)[0], 'spike flags of a voyage of two platform types', pairs=pairs)
                R.trace()


# ------------------------------------------------------------------------------------ limits

SPOTS = [(0.0, 0.0), (12.5, 179.75), (-55.0, -179.5), (70.0, 30.0)]


def gen_lim(tier):
    for sp in range(4):
        for head in ((0.0, 225.0), (60.0, 90.0))[sp % 2] if tier == 'quick' else (0.0, 60.0, 90.0, 225.0):
            for hours in (0.0, 0.25, 1.0, 6.0, 24.0, 47.5, 100.0) + (() if tier == 'quick' else (0.75, 3.0, 12.0, 30.0, 72.0)):
                yield [sp, head, hours]


def run_lim(case, R):
    """pairs of reports just within and just outside the limits, alone and among others"""
    sp, head, hours = case
    a = SPOTS[sp]

    def made(kms, times, vals=None):
        out = []
        for i, (km, t) in enumerate(zip(kms, times)):
            la, lo = sphere.destination(a[0], a[1], head, km)
            d = 6.0 + t
            out.append(dict(LAT=la, LON=lo, YR=2004, MO=3, DY=1 + int(d // 24), HR=d % 24, t=d, UID='U%d' % i, SST=None if vals is None else vals[i]))
        return out

    base = params()['IQUAM_track_check']
    for ch in ({}, {'delta_d': 0.0}, {'delta_t': 0.25}, {'delta_d': 50.0, 'delta_t': 2.0}, {'ship_speed_limit': 20.0, 'buoy_speed_limit': 40.0}):
        P = dict(base, **ch)
        for pt in (5, 7):
            lim = P['buoy_speed_limit'] if pt in (6, 7) else P['ship_speed_limit']
            for f in (0.998, 1.002):
                x = P['delta_d'] + f * lim * (hours + P['delta_t'])
                for kms, times in (((0, x), (0, hours)), ((0, 0, x), (0, 0, hours)), ((0, x, x), (0, hours, hours)), ((0, 0, x, 0), (0, 0, hours, hours)), ((0, x, 2 * x), (0, hours, 2 * hours))):
                    reps = made(kms, times)
                    n = len(reps)
                    pairs = [(i, j) for i in range(n) for j in range(i + 1, n) if gt(max(dist(reps[i], reps[j]) - P['delta_d'], 0.0) / (dt(reps[i], reps[j]) + P['delta_t']), lim)]
                    v = voyage(reps, PT=pt)
                    r = attempt(v.iquam_track_check, P)
                    got = r if isinstance(r, Raised) else [v.get_qc(i, 'POS', 'iquam_track') for i in range(n)]
                    R.eq('limit track %r %r %d %s %r' % (case, ch, pt, f, kms), got, eliminate(n, pairs)[0], 'iQuam track flags next to the limit', pairs=pairs)
                    R.state(('limit', tuple(case), str(ch), pt, f, kms))
                    R.trace()
    base = params()['IQUAM_spike_check']
    for ch in ({}, {'max_gradient_space': 0.02}, {'max_gradient_space': 0.002}, {'max_gradient_time': 0.5}, {'ship_delta_t': 0.25, 'buoy_delta_t': 0.5}):
        P = dict(base, **ch)
        for pt in (5, 6):
            d0 = P['buoy_delta_t'] if pt in (6, 7) else P['ship_delta_t']
            for km in (0.0, 1.5, 6.0, 40.0, 200.0, 1800.0, 8000.0):
                for f in (0.998, 1.002):
                    for sign in (1, -1):
                        x = f * sign * max(d0, km * P['max_gradient_space'], hours * P['max_gradient_time'])
                        for kms, times, vals in (((0, km), (0, hours), (10.0, 10.0 + x)), ((0, km, km), (0, hours, hours), (10.0, 10.0 + x, 10.0 + x)), ((0, 0, km), (0, 0, hours), (10.0, 10.0, 10.0 + x)),
                                                 ((0, km, km * 2), (0, hours, 2 * hours), (10.0, 10.0 + x, 10.0))):
                            reps = made(kms, times, vals)
                            n = len(reps)
                            try:
                                pairs = [(i, j) for i in range(n) for j in range(i + 1, n) if
                                         gt(abs(vals[i] - vals[j]), max(d0, dist(reps[i], reps[j]) * P['max_gradient_space'], dt(reps[i], reps[j]) * P['max_gradient_time']))]
                            except Ambiguous:
                                continue
                            v = voyage(reps, PT=pt)
                            r = attempt(v.spike_check, P)
                            got = r if isinstance(r, Raised) else [v.get_qc(i, 'SST', 'spike') for i in range(n)]
                            R.eq('limit spike %r %r %d %s %s %r' % (case, ch, pt, km, f * sign, vals), got, eliminate(n, pairs)[0], 'spike flags next to the limit', pairs=pairs)
                            R.state(('limit sp', tuple(case), str(ch), pt, km, f * sign, n, kms))
                            R.trace()


# ------------------------------------------------------------------------------------ long voyages

def gen_long(tier):
    for n in (30, 60) if tier == 'quick' else (30, 60, 120):
        for every in (1, 2, 3, 4, 7, 11, 29):
            for what in ('track', 'spike'):
                yield [n, every, what]


def run_long(case, R):
    """offenders at regular places of a long voyage: every start"""
    n, every, what = case
    for start in range(every):
        for run in (1, 2):
            bad = [(i - start) % every < run and i >= start for i in range(n)]
            disp = [DISP[2] if b and what == 'track' else (0, 0) for b in bad]
            reps, t, step = [], 0.0, 1 / 16. if what == 'track' else 1 / 128.
            for i in range(n):
                reps.append(dict(LAT=10.0 + step * i + disp[i][0], LON=20.0 + step / 2 * i + disp[i][1], YR=2004, MO=3, DY=1 + int(t // 24), HR=t % 24, t=t, UID='U%d' % i,
                                 SST=13.0 if bad[i] and what == 'spike' else 10.0))
                t += [1.0, 0.5, 2.0][i % 3] / (1 if what == 'track' else 4)
            for pt, win in ((5, 5), (7, 2), (5, 9)):
                name = 'IQUAM_track_check' if what == 'track' else 'IQUAM_spike_check'
                P = dict(params()[name], number_of_neighbours=win)
                try:
                    if what == 'track':
                        lim = P['buoy_speed_limit'] if pt == 7 else P['ship_speed_limit']
                        pairs = [(a, b) for a in range(n) for b in range(a + 1, min(n, a + win + 1))
                                 if gt(max(dist(reps[a], reps[b]) - P['delta_d'], 0.0) / (dt(reps[a], reps[b]) + P['delta_t']), lim)]
                    else:
                        d0 = P['buoy_delta_t'] if pt == 7 else P['ship_delta_t']
                        pairs = [(a, b) for a in range(n) for b in range(a + 1, min(n, a + win + 1)) if
                                 gt(abs(reps[a]['SST'] - reps[b]['SST']), max(d0, dist(reps[a], reps[b]) * P['max_gradient_space'], dt(reps[a], reps[b]) * P['max_gradient_time']))]
                except Ambiguous:
                    R.outcome('ambiguous')
                    continue
                v = voyage(reps, PT=pt)
                r = attempt(v.iquam_track_check if what == 'track' else v.spike_check, P)
                got = r if isinstance(r, Raised) else [v.get_qc(i, *(('POS', 'iquam_track') if what == 'track' else ('SST', 'spike'))) for i in range(n)]
                want, order = eliminate(n, pairs)
                R.eq('long %r %d %d %d %d' % (case, start, run, pt, win), got, want, 'flags of a long voyage')
                R.trace()
                R.trans(len(order))
                R.state(('long', tuple(case), start, run, pt, win, tuple(order)))
                R.outcome('long %s %d' % (what, min(20, sum(want)) // 5 * 5))


SUBS = [Sub('track', gen_iq, run_iq), Sub('spike', gen_sp, run_sp), Sub('long', gen_long, run_long), Sub('limits', gen_lim, run_lim)]
