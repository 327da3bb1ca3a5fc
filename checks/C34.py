"""The main program: reports of a month with everything that decides their flags, from input files to output files"""
import calendar
import datetime
import itertools

from mc import program as pg
from mc.engine import Sub
from mc.judge import go, number

PROPERTY = 'C34'
LEVEL = 'model_checking'
RULE = ('the real program on real input files, run for every enumerated set of files; everything it writes is compared with a reference of the whole chain of checks: base '
        'checks, voyage checks on what passed, buddy checks on what is fit, over three months.  islands: each kind of thing that can be the matter with a report, as the '
        'report judged (with four anomalies), as its only neighbour and in every pair of neighbours; months: every subset of the files of a period; lines: every kind of '
        'unreadable line at every place; orders: every interleaving of the reports of three IDs; tracking: sequences of days with every availability of backgrounds; '
        'drifters: places on the globe; params: every parameter changed.  A state is a report with its flags')
BOUNDS = {'quick': '47 kinds of report, all pairs; 4 periods x all subsets of files; 7 x 7 kinds of lines x places; 90 orders; 125 sequences of days, 8 availabilities x 4 months; 52 parameters',
          'thorough': 'three unreadable lines; 210 orders; all months for the sequences of days; parameters on all sets of reports; second folder for all subsets'}
ASSUMPTIONS = ['climatologies are fields held in memory behind the Dataset class, and gzip hands out text (the programs are Python 2)',
               'reports within 1e-6 of a limit are not judged; normals of impossible positions are not judged; every report has a unique identifier']

OVER = {'slp_buddy_check': {'limits': [[1, 1, 1], [2, 2, 2], [1, 1, 3], [2, 2, 5]], 'multipliers': [[2.0, 1.5, 1.0, 0.5], [2.5], [2.0, 1.5, 1.0, 0.5], [3.0]]}}


# ------------------------------------------------------------------------------------------ what can be the matter with a report

def near(c, want, blocked=()):
    """a cell next to c (within one row, one column and two pentads) where the field is missing, or, for None, where no field is"""
    x, y, p = c
    for dp, dy, dx in itertools.product((0, 1, -1, 2, -2), (0, 1, -1), (1, -1, 0)):
        n = ((x + dx) % 360, y + dy, p + dp)
        if n == c or n in blocked:
            continue
        miss = [k for k in pg.SALT if k[0] in ('mean', 'stdev') and pg.value(k, n) is None]
        if pg.HIRES[0]:
            miss = [('mean', 'SST')] if pg.hires_value(n[2], int((n[1] + 1 - .32) / pg.HI), int((n[0] + .32) / pg.HI))[1] else []
        if miss == ([want] if want else []):
            return n
    return None


def ship(c, a, **kw):
    return [pg.new(c[0], c[1], c[2], a, **kw)]


def tracked(c, a, **kw):
    """a ship whose second report is far from where it can have been: fails the track check"""
    x, y, p = c
    far = pg.new(x, y, p, a, k=2, ID=kw.pop('ID', 'T%03d%03d' % (x, y)), **kw)
    m, d = pg.month_pentad(p, 2)
    out = []
    for h, dx in ((0.0, 6.1), (12.0, 7.3), (18.0, 7.9), (23.0, 8.4)):
        o = pg.new(x + int(dx), y, p, {}, day=(m, d), dlon=round(dx % 1, 2), ID=far['ID'])
        o['HR'] = h
        out.append(o)
    far['HR'] = 6.0
    out.insert(1, far)
    for o in out:
        o['AT'] = None if o is not far else o['AT']
    return out


def hasty(c, a, **kw):
    """a ship with two reports too far apart: fails the pairwise track check only"""
    x, y, p = c
    one = pg.new(x, y, p, a, ID='H%03d%03d' % (x, y), **kw)
    two = pg.new(x + 7, y, p, {}, ID=one['ID'])
    two['HR'] = one['HR'] = 12.0
    one['HR'] = 11.0
    return [one, two]


def masked(var, stat='mean'):
    def f(c, a, **kw):
        n = near(c, (stat, var))
        return None if n is None else ship(n, a, **kw)
    return f


def setting(**what):
    def f(c, a, **kw):
        o = pg.new(c[0], c[1], c[2], a, **kw)
        o.update(what)
        return [o]
    return f


def anomaly(**what):
    def f(c, a, **kw):
        return ship(c, dict(a, **what), **kw)
    return f


def noon(c, a, **kw):
    return ship(c, a, noon=True, **kw)


def supersaturated(c, a, **kw):
    o, = ship(c, a, **kw)
    o['AT'] = o['DPT'] - 0.5
    return [o]


def saturated(c, a, **kw):
    o, = ship(c, a, **kw)
    o['AT'] = o['DPT']
    return [o]


def freezing(c, a, **kw):
    o, = ship(c, a, **kw)
    o['SST'] = -1.9
    return [o]


MODS = {'good': ship, 'no hour': setting(HR=None), 'no day': setting(DY=None), 'day 31': setting(DY=31), 'lat 91': setting(LAT=91.0), 'lon -181': setting(LON=-181.0), 'lat -91': setting(LAT=-91.0), 'lon 361': setting(LON=361.0), 'lon 541': setting(LON=541.5),
        'deck 874': setting(DCK=874), 'type 13': setting(PT=13), 'deck 780': setting(DCK=780), 'type 6': setting(PT=6), 'type 7': setting(PT=7), 'type 9': setting(PT=9),
        'type 14': setting(PT=14), 'no type': setting(PT=None), 'noon': noon, 'no SST': anomaly(SST=None), 'no AT': anomaly(AT=None), 'no DPT': anomaly(DPT=None),
        'no SLP': anomaly(SLP=None), 'bare': anomaly(SST=None, AT=None, DPT=None, SLP=None), 'SST far': anomaly(SST=8.6), 'AT far': anomaly(AT=10.7), 'DPT far': anomaly(DPT=-14.1),
        'SLP far': anomaly(SLP=-40.0), 'freezing': freezing, 'AT hot': setting(AT=66.0), 'dry': setting(DPT=-81.0), 'supersaturated': supersaturated, 'saturated': saturated,
        'W 51': setting(W=51.0), 'calm 5': setting(D=361.0), 'variable': setting(D=362.0), 'no W': setting(W=None, D=None), 'deck 708': setting(DCK=708),
        'SST no normal': masked('SST'), 'AT no normal': masked('AT'), 'DPT no normal': masked('DPT'), 'SLP no normal': masked('SLP'), 'AT2 no normal': masked('AT2'),
        'DPT no deviation': masked('DPT', 'stdev'), 'SLP no deviation': masked('SLP', 'stdev'), 'track': tracked, 'hasty': hasty, 'generic': setting(ID='SHIP'),
        'no ID': setting(ID=None), 'zeros': setting(SST=0.0, AT=0.0, DPT=0.0, W=0.0), 'type 0': setting(PT=0), 'deck 780 type 0': setting(DCK=780, PT=0), 'deck 874 type 0': setting(DCK=874, PT=0)}
ANOMS = [3.1, -2.3, 5.6, -7.2]


def target_anom(a):
    return {'SST': a, 'AT': a, 'DPT': a, 'SLP': 2 * a}


def neighbours(c, i, mod, a):
    """the i-th neighbour of a target, with something the matter"""
    x, y, p = c
    place = [(x + 1, y, p), (x, y - 1, p + 1), (x - 1, y + 1, p - 1)][i]
    return MODS[mod](place, {'SST': a, 'AT': a, 'DPT': a, 'SLP': a})


MONTH = (2003, 9)               # no 31st
P0 = pg.pentad_of(9, 13)


def slots():
    for j, y in enumerate((90, 64, 116, 78, 103, 48, 131)):
        for i in range(12):
            yield (30 * i + 4 * j) % 360, y, P0


def islands(items):
    """items -> observations: each (target mod, anomaly, [neighbour mods]) in an area of its own"""
    obs = []
    for (x, y, p), (t, a, nb) in zip(slots(), items):
        c = near((x, y, p), None)
        got = MODS[t](c, target_anom(a))
        if got is None:
            continue
        obs += got
        for i, m in enumerate(nb):
            got = neighbours(c, i, m, [0.4, -0.9, 0.2][i])
            obs += got or []
    return obs


def ordered(obs):
    """in the order of time, those without a time at their place"""
    return [o for _, o in sorted(enumerate(obs), key=lambda t: (t[1]['DY'] or 0, t[1]['HR'] or 0.0, t[0]))]


def drifting(obs, prog):
    """the program for tracks only has output for drifters only: all but the first report of an ID are made drifters"""
    seen = set()
    for o in obs:
        if prog == 'track' and o['PT'] == 5 and (o['ID'] in seen or o['ID'] is None or o['ID'][0] not in 'TL'):
            o['PT'] = 7
        seen.add(o['ID'])
    return obs


def run_once(R, key, obs, prog='full', over=None, month=MONTH, **kw):
    obs = drifting(ordered(obs), prog)
    number(obs)
    go(R, key, prog, {month: obs}, month, over=OVER if over is None else over, **kw)


NB = 84


def all_islands(tier):
    names = list(MODS)
    out = []
    for m in names:
        for a in ANOMS:
            out.append((m, a, ['good', 'good']))
    for m1 in names:
        for a in ANOMS:
            out.append(('good', a, [m1]))
    for m1, m2 in itertools.combinations(names, 2):
        out.append(('good', ANOMS[len(out) % 4], [m1, m2] if len(out) % 2 else [m2, m1]))
    return out


def gen_islands(tier):
    n = len(all_islands(tier))
    for k in range(0, n, NB):
        yield [tier, k]


def run_islands(case, R, prog='full'):
    tier, k = case
    run_once(R, 'islands %d' % k, islands(all_islands(tier)[k:k + NB]), prog, tracking=prog == 'track')



# ------------------------------------------------------------------------------------------ months

PERIODS = [((2003, 7), (2003, 7)), ((2003, 12), (2004, 1)), ((2004, 2), (2004, 3)), ((1984, 12), (1985, 1))]


def last_day(m):
    return calendar.monthrange(*m)[1]


def on(m, d, x, y, a, hour=None, **kw):
    """a report of a day of a month"""
    o = pg.new(x, y, None, a, year=m[0], day=(m[1], d or 15), **kw)
    o['DY'] = d
    if hour is not None:
        o['HR'] = hour
    return o


def across(m, place=0):
    """reports of a month that matter to the months around it, and for which those matter"""
    x, y = 20 * place, 70 + 7 * place
    e = last_day(m)
    n = 'A%d' % place
    out = [on(m, 1, x + 3, y, target_anom(4.6), PT=7, ID=n + 'A'), on(m, 2, x + 3, y + 12, target_anom(-6.6), ID=n + 'B'), on(m, 15, x + 3, y + 24, target_anom(7.2), PT=7, ID=n + 'C'),
           on(m, e, x + 3, y, target_anom(-0.8), PT=7, ID=n + 'A'), on(m, e - 1, x + 3, y + 12, target_anom(5.6), ID=n + 'B'), on(m, e - 1, x + 4, y + 12, target_anom(1.2), PT=6, ID=n + 'D'),
           on(m, e, x + 4, y, target_anom(0.4), ID=n + 'E'), on(m, 1, x + 2, y + 12, target_anom(-0.4), PT=14, ID=n + 'F')]
    # a ship that steams through the months, at one moment far from where it can have been
    sh = [on(m, 1, 200, 60, {}, 0.0, ID=n + 'S'), on(m, 1, 206, 60, {}, 6.0, ID=n + 'S'), on(m, e, 200, 60, {}, 12.0, ID=n + 'S'), on(m, e, 201, 60, {}, 18.0, ID=n + 'S')]
    if m[1] % 2:
        sh[1]['LON'] -= 5.0
        sh[3]['LON'] += 8.0
    # and what has no business in the file of the month
    out.append(on(m, 15, x + 12, y + 12, target_anom(4.6), PT=7, ID=n + 'G'))   # alone, but for those
    odd = [on(pg.next_month(m, 12), 15, x + 13, y + 12, target_anom(-0.4)), on(pg.next_month(m, -12), 15, x + 12, y + 11, target_anom(-0.4)), on(pg.next_month(m, 12), 3, x + 3, y, target_anom(0.4)), on(pg.next_month(m, 1), 3, x + 3, y + 12, target_anom(0.4)), on(pg.next_month(m, -1), 3, x + 3, y, target_anom(0.4))]
    return ordered(out + sh) + odd


def numbered(files):
    k = 0
    for m in sorted(files):
        for o in files[m]:
            if not isinstance(o, str):
                o['UID'] = 'U%05d' % k
                k += 1
    return files


def gen_months(tier):
    for i, (a, b) in enumerate(PERIODS):
        n = len(list(pg.months(pg.next_month(a, -1), pg.next_month(b))))
        for sub in range(2 ** n):
            yield [i, sub, 0]
        for sub in ([2 ** n - 1, 2 ** n - 3] if tier == 'quick' else range(1, 2 ** n)):
            for k in (1, 2):
                yield [i, sub, k]


def run_months(case, R, prog='full'):
    """k 0: files in the first folder only; 1: some in the second only; 2: in both, and the second has others"""
    i, sub, k = case
    a, b = PERIODS[i]
    ms = [m for j, m in enumerate(pg.months(pg.next_month(a, -1), pg.next_month(b))) if sub >> j & 1]
    files = {m: drifting(across(m), prog) for m in ms}
    second = {}
    if k == 1:
        second = {m: files.pop(m) for m in ms[::2]}
    if k == 2:
        second = {m: across(m, 3) for m in ms}
    numbered({**second, **files} if k != 2 else files)
    if k == 2:
        for m in ms:
            for o in second[m]:
                o['UID'] = 'WRONG '
    go(R, 'months %s' % (case,), prog, files, a, b, second=second, over=OVER, tracking=prog == 'track')


# ------------------------------------------------------------------------------------------ lines that are no reports, IDs left out

JUNK = {'blank': '', 'short': '2003', 'words': 'this is not a report of a ship', 'letter': None, 'cut': None, 'attm': None}


def junk(kind, o):
    line = pg.encode(o)
    if kind == 'letter':                        # no year
        return '20X3' + line[4:]
    if kind == 'cut':                           # ends inside an attachment, in a number
        return line[:20] + 'x1' + line[22:40]
    if kind == 'attm':                          # unknown attachment
        return line[:108] + '77' + line[110:]
    return JUNK[kind]


def few(m=MONTH):
    return ordered([on(m, 5, 23, 85, target_anom(4.1), ID='ONE'), on(m, 6, 23, 85, target_anom(0.2), ID='TWO'), on(m, 7, 24, 85, target_anom(0.9), ID='ONE')])


def gen_lines(tier):
    n = 2 if tier == 'quick' else 3
    kinds = [None] + list(JUNK)
    for k in kinds[1:]:
        for pos in range(4):
            yield [[k], [pos]]
    for ks in itertools.product(kinds[1:], repeat=2):
        for pos in [(0, 0), (1, 1), (1, 2)] + ([(3, 3), (0, 1), (0, 3)] if tier == 'thorough' else []):
            yield [list(ks), list(pos)]
    if n == 3:
        for ks in itertools.product(kinds[1:], repeat=3):
            for pos in itertools.combinations_with_replacement(range(4), 3):
                yield [list(ks), list(pos)]


def run_lines(case, R, prog='full'):
    kinds, pos = case
    obs = drifting(few(), prog)
    number(obs)
    lines = []
    for i in range(4):
        lines += [junk(k, obs[min(i, 2)]) for k, p in zip(kinds, pos) if p == i]
        lines += obs[i:i + 1]
    go(R, 'lines %s' % (case,), prog, {MONTH: lines}, MONTH, over=OVER, tracking=prog == 'track')


EXCL = ['ONE', 'TWO', 'ABCDEFGHI', 'A B', '']


def gen_excluded(tier):
    for r in range(len(EXCL) + 1):
        for s in itertools.combinations(range(len(EXCL)), r):
            for form in range(3) if tier == 'thorough' else [sum(s) % 3]:
                yield [list(s), form]


def run_excluded(case, R, prog='full'):
    s, form = case
    ids = ['ONE', 'TWO', 'ABCDEFGHI', 'A B', None, 'ONE TWO', 'ABCDEFGH', 'one', ' ONE', ' TWO', '  A B', 'AB', 'TWO', 'A B', 'ONE', None]
    obs = [on(MONTH, 3 + i, 23 + i % 2, 85, target_anom(0.4 * (i % 8)), ID=x, PT=5 + 2 * (i > 11)) for i, x in enumerate(ids)]
    number(obs)
    bad = [EXCL[i] + ('', ' ', '      ')[form] for i in s]
    go(R, 'excluded %s' % (case,), prog, {MONTH: drifting(obs, prog)}, MONTH, bad=bad, over=OVER, tracking=prog == 'track')


# ------------------------------------------------------------------------------------------ order of the lines of different ships

def gen_orders(tier):
    shape = (2, 2, 2) if tier == 'quick' else (3, 2, 2)
    n = sum(shape)
    for p in sorted(set(itertools.permutations([i for i, k in enumerate(shape) for _ in range(k)]))):
        yield [list(p)]


def run_orders(case, R, prog='full'):
    p, = case
    m = MONTH
    ships = [[on(m, 4, 20, 80, target_anom(4.1), 0.0, ID='ONE'), on(m, 4, 24, 80, target_anom(0.5), 3.0, ID='ONE'), on(m, 4, 21, 80, {}, 6.0, ID='ONE')],
             [on(m, 3, 20, 80, target_anom(-0.5), 12.0, ID='TWO', PT=7), on(m, 9, 20, 80, target_anom(-5.2), 18.0, ID='TWO', PT=7)],
             [on(m, 2, 24, 81, target_anom(1.5), 21.0, ID='SHIP'), on(m, 6, 20, 81, target_anom(0.7), 23.0, ID='SHIP')]]
    obs = []
    for i in p:
        obs.append(ships[i].pop(0))
    number(obs)
    go(R, 'orders %s' % (case,), prog, {m: drifting(obs, prog)}, m, over=OVER, tracking=True)


# ------------------------------------------------------------------------------------------ tracking: backgrounds and a set of files for each drifter

DAYS = [1, 2, 15, None, 31]
TMONTHS = [(2003, 6), (1985, 1), (2003, 9), (2004, 3)]


def bgdays(m):
    """the days before those of DAYS in the month and the months around it"""
    out = []
    for k in (-1, 0, 1):
        r = pg.next_month(m, k)
        for d in DAYS:
            if d and d <= last_day(r):
                out.append(datetime.date(r[0], r[1], d) - datetime.timedelta(1))
    return sorted(set(out))


def gen_tracking(tier):
    for i in range(len(TMONTHS) if tier == 'thorough' else 1):
        for prev in [[], [1], [2], [15], [None]]:
            for cur in itertools.product(range(len(DAYS)), repeat=2):
                yield [i, prev, list(cur), 'all']
    for i in range(len(TMONTHS)):
        for b in range(2 ** 3):
            yield [i, [15], [0, 1, 2], b]


def run_tracking(case, R, prog='full'):
    i, prev, cur, bg = case
    m = TMONTHS[i]
    before = pg.next_month(m, -1)
    days = bgdays(m)
    if bg != 'all':
        here = [datetime.date(m[0], m[1], d) - datetime.timedelta(1) for d in (1, 2, 15)]
        days = [d for d in days if d not in here or bg >> here.index(d) & 1]
    mk = lambda mm, k, d, **kw: on(mm, d, 31 + 20 * k, 70 + k, target_anom(0.5 * k), **dict({'PT': 7}, **kw))
    files = {before: [mk(before, 0, d, ID='PREV') for d in prev],
             m: [mk(m, k, DAYS[d], ID=['D%d' % k, 'A*/ %d' % k][k % 2]) for k, d in enumerate(cur)] +
             [mk(m, 7, 1, ID='D0'), mk(m, 8, 2, ID='D0', PT=6), mk(m, 3, 2, ID=None), mk(m, 5, 15, ID='S', PT=5)],
             pg.next_month(m): [mk(pg.next_month(m), 6, 1, ID='NEXT')]}
    numbered(files)
    go(R, 'tracking %s' % (case,), prog, files, m, tracking=True, dates=days, over=OVER)


def gen_drifters(tier):
    for i in range(2):
        for r in range(2 if tier == 'quick' else 4):
            for place in range(12):
                yield [i, r, place]


def run_drifters(case, R, prog='full'):
    """where on the globe: sides of the date line and of Greenwich, poles, positions outside it"""
    i, r, place = case
    m = TMONTHS[i]
    lats = [-89.98, -60.03, -0.02, 0.02, 45.22, 89.98, 91.0, -90.5]
    lons = [-179.98, -20.02, -0.02, 0.03, 95.07, 179.97, 180.03, 359.98, 200.02, 361.0, -181.0, 540.5]
    obs = []
    for k, la in enumerate(lats):
        o = on(m, 1 + (k + r) % 3, 31, 70, target_anom(0.5), PT=7, ID='D%d' % (k // 2))
        o['LAT'], o['LON'] = la, lons[place]
        obs.append(o)
    number(obs)
    go(R, 'drifters %s' % (case,), prog, {m: drifting(obs, prog)}, m, tracking=True, dates=bgdays(m), over=OVER)


def gen_borders(tier):
    for k in range(6):
        yield [k]


def run_borders(case, R, prog='full'):
    """reports right on the borders of cells, with company in the cells around: places are often whole degrees"""
    k, = case
    m = MONTH
    obs = []
    for n, la in enumerate((-90.0, -89.0, -45.0, -1.0, 0.0, 1.0, 30.0, 89.0, 90.0)):
        for j, lo in enumerate(((-180.0, -100.0, 0.0), (-179.0, -1.0, 100.0), (180.0, 1.0, 45.0), (179.0, 359.0, 260.0), (360.0, 181.0, 46.0), (0.5, -180.0, -0.5))[k]):
            for q, (dy, dx) in enumerate(((0, 0), (0.5, 0), (0, 0.5), (-0.5, 0), (0, -0.5))):
                if not (-90 <= la + dy <= 90 and -180 <= lo + dx <= 360):
                    continue
                o = on(m, 5 + (n + q) % 5 * (q % 2), 31, 70, target_anom([4.1, -0.6, 0.4, -0.2, 0.3][q]), 12.0, ID='Q%d%d%d' % (n, q, j), PT=7 if prog == 'track' else 5)
                o['LAT'], o['LON'] = la + dy, lo + dx
                for v, b in (('SST', 0.0), ('AT', 0.0), ('DPT', -2.0), ('SLP', 1000.0)):
                    if not (v == 'SST' and pg.HIRES[0]):
                        o[v] = b + [4.0, 0.5, -0.5, 0.0, 1.0][q]
                obs.append(o)
    number(obs)
    go(R, 'borders %d' % k, prog, {m: ordered(obs)}, m, over=OVER, tracking=prog == 'track', dates=[])


def gen_seasons(tier):
    for y in ([2003] if tier == 'quick' else [2003, 2004]):
        for k in range(1, 13):
            yield [y, k]
    for k in (11, 12):
        yield [1984, k]


def run_seasons(case, R, prog='full'):
    """every month of the year, and the last ones before there are backgrounds: the variance of the season of each report"""
    m = tuple(case)
    mk = lambda mm, k, d, **kw: on(mm, d, 31 + 20 * k, 70 + k, target_anom(0.5 * k), **dict({'PT': 7}, **kw))
    b, n = pg.next_month(m, -1), pg.next_month(m)
    files = {b: [mk(b, 0, 15, ID='D0'), mk(b, 1, last_day(b), ID='D1')],
             m: [mk(m, 2 + k, d, ID='D%d' % k) for k, d in enumerate((1, 2, 15))],
             n: [mk(n, 5, 1, ID='D0')]}
    numbered(files)
    days = bgdays(m) + [datetime.date(b[0], b[1], last_day(b)) - datetime.timedelta(1)]
    go(R, 'seasons %s' % (case,), prog, files, m, n, tracking=True, dates=sorted(set(days + bgdays(n))), over=OVER)


# ------------------------------------------------------------------------------------------ run again into the same folders

def gen_again(tier):
    for i in range(1, len(TMONTHS)):
        for what in ('same', 'long', 'short', 'swapped', 'other', 'twice'):
            for track in (True, False):
                if track or tier == 'thorough' or i == 2:
                    yield [i, what, track]


def run_again(case, R, prog='full'):
    """what an earlier run on other reports of the same ships and buoys wrote is gone"""
    i, what, track = case
    if prog == 'track' and not track:
        return
    m = TMONTHS[i]
    n = pg.next_month(m)
    mk = lambda mm, k, d, **kw: on(mm, d, 31 + 20 * k, 70 + k, target_anom(0.5 * k), **dict({'PT': 7}, **kw))
    base = lambda: {mm: [mk(mm, k, 2 + k, ID='D%d' % (k % 3), PT=7 if k % 3 or prog == 'track' else 5) for k in range(6)] for mm in (m, n)}
    files = base()
    a = base()
    for mm in a:
        if what == 'long':
            a[mm] = [mk(mm, k % 5, 1 + k, ID='D%d' % (k % 3), PT=7 if k % 3 or prog == 'track' else 5) for k in range(12)]
        elif what == 'short':
            a[mm] = a[mm][1:2]
        elif what == 'swapped':
            for o in a[mm]:
                o['ID'] = {'D1': 'D2', 'D2': 'D1'}.get(o['ID'], o['ID'])
        elif what in ('other', 'twice'):
            for o in a[mm]:
                o['SST'], o['HR'], o['W'] = o['SST'] + 12.0, None, 60.0
    numbered(files)
    numbered(a)
    for mm in a:
        for o in a[mm]:
            o['UID'] = 'X' + o['UID'][1:]
    go(R, 'again %s' % (case,), prog, files, m, n, tracking=track, dates=sorted(set(bgdays(m) + bgdays(n))), over=OVER, earlier=[a, base()] if what == 'twice' else [a])


# ------------------------------------------------------------------------------------------ parameters

def leaves():
    from mc.marine import PARAMS
    for s in sorted(PARAMS):
        for k in sorted(PARAMS[s]):
            yield s, k


def other(v):
    if isinstance(v, list):
        return [other(x) for x in v]
    return max(1, v - 1) if isinstance(v, int) else v * 0.5 + 0.01


def gen_params(tier):
    n = len(all_islands('quick'))
    for s, k in leaves():
        for b in ([0] if tier == 'quick' else range(0, n, NB)):
            yield [s, k, b]


def run_params(case, R, prog='full'):
    s, k, b = case
    from mc.marine import PARAMS
    over = {x: dict(y) for x, y in OVER.items()}
    v = over.get(s, {}).get(k, PARAMS[s][k])
    if k == 'number_of_obs_thresholds':
        new = [[0, 1, 2, 3], [0], [0, 1, 2, 3], [0]]
    elif k == 'hard_limits':
        new = [v[0] + 2.0, v[1] - 20.0]
    else:
        new = other(v)
    over.setdefault(s, {})[k] = new
    its = all_islands('quick')
    its = its[b:b + NB] if b else its[::9][:NB]
    obs = islands(its)
    # long voyages for the checks of runs: one with as many repeats as lie between the two thresholds, one with nothing but repeats and with company
    for j in range(26):
        obs.append(on(MONTH, 3 + j, 331 + j // 6, 40, {}, 12.0, ID='LONG', SST=15.0 if j % 8 < 5 else 15.5, AT=(8.0 if j % 8 < 5 else 9.0), DPT=8.0, SLP=1010.0 + j % 3))
        obs.append(on(MONTH, 3 + j, 331 + j // 6, 44, {}, 12.0, ID='LONH', SST=20.0 if pg.HIRES[0] else 4.0))
        if j % 4 == 0:
            obs.append(on(MONTH, 3 + j, 332 + j // 6, 44, target_anom(-0.4), 13.0, ID='LN%02d' % j))
    run_once(R, 'params %s' % (case,), obs, prog, over=over, tracking=prog == 'track')


SUBS = [Sub('lines', gen_lines, run_lines), Sub('excluded', gen_excluded, run_excluded), Sub('orders', gen_orders, run_orders), Sub('months', gen_months, run_months),
        Sub('tracking', gen_tracking, run_tracking), Sub('drifters', gen_drifters, run_drifters), Sub('borders', gen_borders, run_borders), Sub('again', gen_again, run_again), Sub('seasons', gen_seasons, run_seasons), Sub('params', gen_params, run_params), Sub('islands', gen_islands, run_islands)]
