"""The three programs in a row: from input files to the tracking flags of every drifter"""
import datetime
import itertools
import os
import shutil

from checks import C25, C33, C34
from mc import drift, judge, program as pg
from mc.engine import Sub, Raised
from mc.sunref import sun

PROPERTY = 'C36'
LEVEL = 'model_checking'
RULE = ('the main program on input files of a period, the submission program on what it wrote, in every run mode and with several gaps, and the tracking program with the '
        'arguments of every job submitted: every pattern of months in which two buoys (and a third whose identifier also belongs to a ship) report, with records of '
        'every kind of SST against the background.  Every report of a drifter has to come out of exactly the jobs it belongs to, once, with its values, basic flags and the tracking flags '
        'that reference versions of all checks give its chunk; a state is a chunk with the flags of its reports')
BOUNDS = {'quick': '2^5 patterns x 2 programs x 4 modes x 3 gaps; 24 long records with the usual parameters; every ID of 12', 'thorough': '2^6 patterns, all combinations; 96 long records'}
ASSUMPTIONS = C34.ASSUMPTIONS + ['sbatch and squeue are stand-ins; the jobs they are given are run one after another',
                                 'reports with a background but without its error do not occur']

SMALL = {k: v for k, v in C33.PAR.items() if k.startswith(('new_', 'buoy_'))}
OTHER = {k: v for k, v in C33.PAR2.items() if k.startswith(('new_', 'buoy_'))}
USUAL = {'new_buoy_aground_check': {'smooth_win': 41, 'min_win_period': 8}, 'new_buoy_speed_check': {'speed_limit': 3.0, 'min_win_period': 0.375},
         'buoy_tail_check': dict(long_win_len=121, long_err_std_n=3.0, short_win_len=30, short_err_std_n=3.0, short_win_n_bad=2, drift_inter=0.29, drif_intra=1.0, background_err_lim=0.3),
         'buoy_bias_noise_check': dict(n_eval=30, bias_lim=1.1, drif_intra=1.0, drif_inter=0.29, err_std_n=3.0, n_bad=2, background_err_lim=0.3)}
OVER = dict(C34.OVER, bayesian_buddy_check={'prior_probability_of_gross_error': 0.0005})
KIND = {'g': (0.1, False), 'h': (-0.3, False), 'b': (2.1, False), 'n': (-4.2, False), 'c': (1.4, False), 'v': (-1.4, False), 'd': (0.2, True), 'x': (12.0, False)}
MOVE = {'s': (0.0, 0.0), 'm': (0.06, 0.12), 'j': (0.5, 3.0), 'b': (-0.06, 0.18), 'f': (0.25, 0.5)}


# ------------------------------------------------------------------------------------------ reports

class Buoy(object):
    def __init__(self, ident, lat, lon):
        self.ident, self.lat, self.lon = ident, lat, lon

    def report(self, date, kind, move, pt=7, hour=None):
        """the next report: where it has got to, and so far from the background"""
        dy, dx = MOVE[move]
        self.lat, self.lon = round(self.lat + dy, 2), round(self.lon + dx, 2)
        lon = drift.wrap(self.lon)
        anom, noon = KIND[kind]
        o = pg.new(int(lon + 180), int(90 - self.lat), None, {'AT': None, 'DPT': None, 'SLP': None}, year=date.year, day=(date.month, date.day), noon=noon, ID=self.ident, PT=pt)
        o['LAT'], o['LON'] = self.lat, round(lon % 360, 2)
        if hour is not None:
            o['HR'] = hour
        b = pg.ostia_sst(date - datetime.timedelta(1), int((self.lat + 90) / 0.05)) - 273.15
        o['SST'] = round(b + anom, 1)
        return o


def sound(o):
    """no report with a background but without its error, and none on the edge of a cell"""
    r = pg.Rep(o, 'track', pg.params())
    pg.backgrounds([r], {datetime.date(o['YR'], o['MO'], o['DY']) - datetime.timedelta(1)})
    edge = any(abs(x * 20 - round(x * 20)) < 1e-3 for x in (o['LAT'], o['LON']))
    return not edge and not (r.ext['OSTIA'] is not None and r.ext['BGVAR'] is None)


# ------------------------------------------------------------------------------------------ the reference

def flag(r, block, name):
    v = r.get(block, name)
    if v is None:
        raise drift.Ambiguous()
    return v


def letter(r):
    o = r.o
    e = sun(o['YR'], o['MO'], o['DY'], r.hr, o['LAT'], r.lon)[0]
    if abs(e + 2.5) < 0.06:
        raise drift.Ambiguous()
    land = True if r.ext['OSTIA'] is not None else 'var' if r.ext['BGVAR'] is not None else False
    return drift.letter(o['SST'] - r.ext['OSTIA'] if land is True else 0.0, r.ext['BGVAR'], r.ext['ICE'], land, e > -2.5)


def tracked(reps, P):
    """reports of a chunk in the order of time -> the tracking flags of each"""
    drift.LETTERS.clear()
    out = {r.o['UID']: dict.fromkeys(C33.TRK, 9) for r in reps}
    one = [r for r in reps if flag(r, 'POS', 'isbuoy') == 1 and all(flag(r, 'POS', f) == 0 for f in ('date', 'time', 'pos', 'blklst'))]
    pos, x = [], None
    for r in one:
        x = r.lon if x is None else x + (r.lon - x + 180.0) % 360.0 - 180.0
        pos.append((r.o['LAT'], x))
    hrs = [r.t for r in one]
    a = drift.aground_new(pos, hrs, P['new_buoy_aground_check']['smooth_win'], P['new_buoy_aground_check']['min_win_period'])
    s = drift.speed_new(pos, hrs, P['IQUAM_track_check'], P['new_buoy_speed_check']['speed_limit'], P['new_buoy_speed_check']['min_win_period'])
    for r, i, j in zip(one, a, s):
        out[r.o['UID']][C33.TRK[0]], out[r.o['UID']][C33.TRK[1]] = i, j
    three = [r for r, i, j in zip(one, a, s) if i == j == 0 and all(flag(r, 'SST', f) == 0 for f in ('clim', 'nonorm', 'freez', 'noval', 'rep', 'hardlimit')) and flag(r, 'SST', 'bbud') < 4]
    seq = [letter(r) for r in three]
    t1, t2 = drift.tails(seq, P['buoy_tail_check'])
    four = []
    for r, k, i, j in zip(three, seq, t1, t2):
        out[r.o['UID']][C33.TRK[2]], out[r.o['UID']][C33.TRK[3]] = i, j
        if i == j == 0:
            four.append((r, k))
    if four:
        b = drift.bias_noise([k for _, k in four], P['buoy_bias_noise_check'])
        for r, _ in four:
            for f, v in zip(C33.TRK[4:], b):
                out[r.o['UID']][f] = v
    return out


NAMES = C33.HEAD[:10] + ['POS ' + x for x in C33.POS] + ['SST ' + x for x in C33.SST] + C33.TRK + C33.HEAD[-4:]


def compare(R, key, rows, reps, want):
    if not R.true(key + ' lines', rows[:1] == [C33.HEAD] and [x[0] for x in rows[1:]] == [r.o['UID'] for r in reps], 'reports of a drifter in the output of a job, in the order of time',
                  got=[x[0] for x in rows], expected=[r.o['UID'] for r in reps]):
        return
    for row, r in zip(rows[1:], reps):
        d = dict(zip(NAMES, row))
        o = r.o
        w = {k: o[k] for k in ('YR', 'MO', 'DY', 'LAT', 'SST')}
        w.update(r.ext, HR=r.hr, ID=o['ID'].ljust(9))
        for b, names in (('POS', C33.POS), ('SST', C33.SST)):
            for f in names:
                if r.get(b, f) is not None:
                    w['%s %s' % (b, f)] = r.get(b, f)
        w.update(want[o['UID']])
        bad = {str(k): [d.get(k), v] for k, v in w.items() if not judge.fits(d.get(k, ''), v)}
        lon = C33.num(d.get('LON', ''))
        if lon is None or abs((lon - o['LON'] + 180) % 360 - 180) > 1e-6:
            bad['LON'] = [d.get('LON'), o['LON']]
        R.true('%s %s' % (key, o['UID']), not bad and len(row) == len(C33.HEAD), 'output for a report of a drifter', wrong=bad, report=o)


# ------------------------------------------------------------------------------------------ the programs in a row

def submit(env, first, last, gap, mode):
    """the options of the jobs that are submitted"""
    e = C25.Env.__new__(C25.Env)
    e.base, e.out, e.track = env.base, env.out, env.base + '/track'
    argv = ['-config', env.base + '/configuration.txt', '-gap', str(gap), '-yr1', str(first[0]), '-mn1', str(first[1]), '-yr2', str(last[0]), '-mn2', str(last[1]), '-edge', mode]
    return [C25.parse(text) for _, text in e.run(argv)]


def track(env, o):
    t = C33.Env.__new__(C33.Env)
    t.base = env.base
    return t.run(o['id'][0], [(int(o['yr1'][0]), int(o['mn1'][0])), (int(o['yr2'][0]), int(o['mn2'][0]))], o['edge'], o['runmonthid'][0])


def outputs(env):
    found = {}
    top = env.base + '/track'
    for p, d, ff in os.walk(top):
        for f in ff:
            if f.endswith('.csv'):
                found[os.path.relpath(os.path.join(p, f), top)] = C33.csv.reader(open(os.path.join(p, f), newline=''))
    return {k: list(v) for k, v in found.items()}


def go(R, key, prog, files, first, last, plans, par=SMALL, split=False, dates=None, runid='run1'):
    """files: month -> reports; plans: (gap, mode) to submit; split: the main program is run for each month by itself"""
    pg.HIRES[0] = False
    pg.CALM[0] = True
    C34.numbered(files)
    env = pg.Env(OVER, runid=runid, extra=par)
    os.makedirs(env.base + '/track')
    period = list(pg.months(first, last))
    if dates is None:
        dates = sorted(set(datetime.date(o['YR'], o['MO'], o['DY']) - datetime.timedelta(1) for m in period for o in files.get(m, ())))
    for m, obs in files.items():
        env.icoads(m, [pg.encode(o) for o in obs])
    for d in dates:
        env.background(d)
    for a, b in [(m, m) for m in period] if split else [(first, last)]:
        got = env.run(prog, a, b, True)
        if isinstance(got, Raised):
            return R.fail(key, 'the main program failed', got=got)
    of = {}
    try:
        for m in period:
            obs = [o for k in (-1, 0, 1) for o in files.get(pg.next_month(m, k), ())]
            reps = pg.chain(obs, prog, env.P)
            pg.backgrounds(reps, set(dates))
            for r in reps:
                if (r.o['YR'], r.o['MO']) == m and r.get('POS', 'isdrifter') == 1 and r.o['ID'] is not None:
                    of.setdefault(r.o['ID'], {}).setdefault(m, []).append(r)
    except pg.Ambiguous:
        return R.outcome('ambiguous')
    memo = {}
    for gap, mode in plans:
        shutil.rmtree(env.base + '/track')
        os.makedirs(env.base + '/track')
        k2 = '%s %d %s' % (key, gap, mode)
        want = {}
        for ident, by in of.items():
            pat = tuple(int(m in by) for m in period)
            for c in C25.chunks(pat, gap):
                kinds = C25.kinds(c, len(period), gap)
                if C25.submitted(mode, kinds):
                    ms = period[c[0]:c[1] + 1]
                    runmonth = '%d%02d-%d%02d' % (first + last)
                    for n in C33.names(ident.ljust(9), ms[-1], kinds, runid, runmonth):
                        want[n] = (ident, ms[0], ms[-1])
        jobs = submit(env, first, last, gap, mode)
        R.trans(len(jobs))
        ran = []
        for o in jobs:
            if not R.true(k2 + ' job', o is not None and len(o.get('id', ())) == 1, 'a job that cannot be read', got=o):
                return
            ran.append(track(env, o))
        if not R.true(k2 + ' ran', not any(isinstance(x, Raised) for x in ran), 'the tracking program failed', got=[str(x) for x in ran if isinstance(x, Raised)]):
            continue
        found = outputs(env)
        if not R.true(k2 + ' files', sorted(found) == sorted(want), 'output of the jobs', got=sorted(found), expected=sorted(want)):
            continue
        for n, (ident, a, b) in want.items():
            reps = sorted([r for m in pg.months(a, b) for r in of[ident].get(m, ())], key=lambda r: r.t)
            w = (ident, a, b)
            if w not in memo:
                try:
                    memo[w] = tracked(reps, env.P)
                except drift.Ambiguous:
                    memo[w] = None
            if memo[w] is None:
                R.outcome('ambiguous')
                continue
            compare(R, '%s %s' % (k2, n), found[n], reps, memo[w])
            R.trace()
            R.state((key, w, tuple(tuple(sorted(x.items())) for x in memo[w].values())))
            R.outcome(','.join(sorted(set(k[1] for x in memo[w].values() for k in x if x[k] == 1))) or 'none flagged')


# ------------------------------------------------------------------------------------------ which months have reports

MODES = ['all', 'standard', 'new', 'noend']
KINDS = ['ggbhg', 'bbghg', 'gcgcg', 'hgnbn', 'gdghb', 'bbbbb', 'gxghd']
MOVES = ['mmmmm', 'fmbfm', 'mssss', 'mjmmb', 'ffmmf']
START = (2003, 11)


def month_of(b, m, kinds, moves, days=(3, 4, 5, 7, 8), pt='77777'):
    out = []
    for d, k, v, p in zip(days, kinds, moves, pt):
        o = b.report(datetime.date(m[0], m[1], d), k, v, int(p))
        for i in range(60):
            if sound(o):
                break
            b.lon = round(b.lon + 0.03, 2)
            b.lat = round(b.lat + (0.01 if i % 2 else 0.02), 2)
            o = b.report(datetime.date(m[0], m[1], d), k, 's', int(p))
        out.append(o)
    return out


def ships(m, k):
    return [C34.on(m, 4 + i, 40 + 50 * i + k, 80 + i, {'SST': 0.5 * i}, ID='SHIP%d' % i) for i in range(3)]


def gen_months(tier):
    n = 5 if tier == 'quick' else 6
    for prog in ('full', 'track'):
        for p in range(2 ** n):
            yield [prog, n, p]


def run_months(case, R):
    prog, n, p = case
    period = list(pg.months(START, pg.next_month(START, n - 1)))
    a, b, c = Buoy('51514', 20.13, -1.37), Buoy('D/BU*', -33.13, 178.62), Buoy('A B 1', 2.62, 100.13)
    files = {}
    for k in range(-1, n + 1):
        m = pg.next_month(START, k)
        obs = ships(m, k + 1)
        bit = p >> (k % n) & 1
        if bit:
            obs += month_of(a, m, KINDS[(p + k) % 7], MOVES[(p + 2 * k) % 5])
        if not p >> ((n - 1 - k) % n) & 1:
            obs += month_of(b, m, KINDS[(2 * p + k + 3) % 7], MOVES[(p + k) % 5], days=(1, 2, 15, 27, 28))
        pt = ['77777', '57775', '66677', '55555', '77766'][(p + k) % 5]
        obs += month_of(c, m, KINDS[(p + 5 * k + 1) % 7], MOVES[(3 * p + k) % 5], pt=pt)
        files[m] = C34.ordered(obs)
    modes = [(1 + (p + i) % 3, MODES[i]) for i in range(4)] + [(1 + (p + 1) % 3, 'all'), (1 + (p + 2) % 3, MODES[p % 4])]
    go(R, 'months %s %d' % (prog, p), prog, files, period[0], period[-1], modes, [SMALL, OTHER][p // 3 % 2], split=bool(p // 2 % 2), runid=['run1', 'v2.1-test'][p // 5 % 2])


# ------------------------------------------------------------------------------------------ identifiers

IDENTS = ['51514', 'D/BU*', 'A B 1', 'X', '123456789', "O'K", ' 12', '//', '*', '0000', 'GTS', '9a;b&c']


def gen_ids(tier):
    for prog in ('full', 'track') if tier == 'thorough' else ('track',):
        for i in range(len(IDENTS)):
            for gap in (1, 2):
                yield [prog, i, gap]


def run_ids(case, R):
    """two buoys whose identifiers are as odd as they come, in one period"""
    prog, i, gap = case
    a, b = Buoy(IDENTS[i], 20.13, -1.37), Buoy(IDENTS[(i + gap) % len(IDENTS)], -33.13, 178.62)
    period = list(pg.months(START, pg.next_month(START, 3)))
    files = {}
    for k in range(-1, 4):
        m = pg.next_month(START, k)
        obs = ships(m, k + 1)
        if k != gap:
            obs += month_of(a, m, KINDS[(k + i) % 7], MOVES[k % 5])
        if k % 2 == 0:
            obs += month_of(b, m, KINDS[(k + i + 2) % 7], MOVES[(k + 1) % 5])
        files[m] = C34.ordered(obs)
    go(R, 'ids %s %d %d' % tuple(case), prog, files, period[0], period[-1], [(gap, 'all')])


# ------------------------------------------------------------------------------------------ backgrounds

def gen_dates(tier):
    for prog in ('full', 'track') if tier == 'thorough' else ('track',):
        for m in ((1984, 12), (1985, 1), (2004, 2)):
            for sub in range(2 ** 5):
                yield [prog, list(m), sub]


def run_dates(case, R):
    """every set of days of a month whose background is there; and the month before there are any"""
    prog, m, sub = case
    m = tuple(m)
    n = pg.next_month(m)
    a = Buoy('51514', 20.13, -1.37)
    files = {m: month_of(a, m, KINDS[sub % 7], MOVES[sub % 5], days=(1, 2, 3, 5, 28))}
    files[n] = month_of(a, n, 'bbg', 'mmm', days=(1, 2, 15))
    day = lambda o: datetime.date(o['YR'], o['MO'], o['DY']) - datetime.timedelta(1)
    dates = [day(o) for i, o in enumerate(files[m]) if sub >> i & 1] + [day(o) for o in files[n]]
    go(R, 'dates %s' % (case,), prog, files, m, n, [(1, 'all')], dates=sorted(dates))


# ------------------------------------------------------------------------------------------ long records, the usual parameters

STRETCH = {'g': ('g', 'm'), 'b': ('b', 'm'), 'n': ('bn', 'm'), 's': ('gh', 's'), 'p': ('g', 'f'), 'q': ('hg', 'j'), 'c': ('cgvg', 'm')}


def gen_long(tier):
    for ks in itertools.product('gbc', 'gn', 'gspq' if tier == 'quick' else 'gspqbnc'):
        yield [''.join(ks)]
    if tier == 'thorough':
        for ks in itertools.product('gbs', 'gcq', 'bnp', 'gs'):
            yield [''.join(ks)]


def run_long(case, R):
    """two reports a day for five months: good, biased and noisy stretches, resting and picked up ones"""
    ks, = case
    a = Buoy('51514', 10.13, -60.37)
    first = datetime.date(2003, 11, 1)
    last = (first + datetime.timedelta(150))
    days = (last - first).days
    files = {}
    for d in range(days):
        date = first + datetime.timedelta(d)
        kinds, move = STRETCH[ks[d * len(ks) // days]]
        for h in (0, 1):
            i = 2 * d + h
            o = a.report(date, kinds[i % len(kinds)], move)
            o['HR'] = (1.0, 5.0)[h]
            for _ in range(60):
                if sound(o):
                    break
                a.lon, a.lat = round(a.lon + 0.06, 2), round(a.lat + 0.01, 2)
                o = a.report(date, kinds[i % len(kinds)], 's')
                o['HR'] = (1.0, 5.0)[h]
            files.setdefault((date.year, date.month), []).append(o)
        if move in 'jf' and d % 9 == 8:
            a.lon = round(a.lon - MOVE[move][1] * 18, 2)
            a.lat = round(a.lat - MOVE[move][0] * 18, 2)
    period = sorted(files)
    go(R, 'long %s' % ks, 'track', files, period[0], period[-1], [(1, 'all')], par=USUAL)


SUBS = [Sub('ids', gen_ids, run_ids, 120), Sub('backgrounds', gen_dates, run_dates, 120), Sub('months', gen_months, run_months, 120), Sub('long records', gen_long, run_long, 300)]
