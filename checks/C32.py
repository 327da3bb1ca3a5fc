"""Output files hold exactly the reports of the month with their values and flags"""
import calendar
import csv
import datetime
import io
import itertools
import os
import shutil

import Extended_IMMA as ex
from mc.engine import Sub, Raised, attempt
from mc.marine import report, qcreport

PROPERTY = 'C32'
LEVEL = 'exploration'
RULE = ('every report over an alphabet of values, missing values, dates and IDs printed as a line and read back with a standard CSV reader; every deck and voyage '
        'of up to n reports over kinds of reports (this month, months around it, the same month of another year, missing date parts, two IDs) written by every '
        'output routine, the folder read back and compared file by file, line by line; a case is distinct by the reports written')
BOUNDS = {'quick': 'decks of up to 4 reports out of 7 kinds, voyages of up to 4 out of 6 with 9 IDs; two and three variables varied at a time on single lines',
          'thorough': 'decks and voyages of up to 5 reports'}
ASSUMPTIONS = ['UIDs are given and hold no comma; two IDs that differ only in the characters replaced in file names do not occur together']

MISS = '\\N'


def number(s):
    return None if s == MISS else float(s)


def rows(text):
    return list(csv.reader(io.StringIO(text, newline='')))


def iso(y, m, d):
    try:
        return datetime.date(y, m, d).isoformat()
    except (TypeError, ValueError):
        return '0000-00-00'


def pentad(y, m, d):
    """five-day period of the year, 29 February with 1 March; 0 for no such day"""
    if m is None or d is None or not 1 <= m <= 12 or not 1 <= d <= calendar.monthrange(2004, m)[1]:
        return 0
    if (m, d) == (2, 29):
        m, d = 3, 1
    return (datetime.date(2003, m, d).timetuple().tm_yday - 1) // 5 + 1


# ----------------------------------------------------------------------------- single lines
VALS = {'SST': [15.0, None, -1.75, 0.0, 27.3, 12.3456789], 'AT': [14.0, None, -22.6], 'DPT': [10.0, None, 0.1], 'SLP': [1013.2, None, 987.65],
        'LAT': [10.0, None, -89.95, 45.12345678], 'LON': [20.0, None, -0.01, 359.99, -120.0000001], 'HR': [12.0, None, 0.0, 23.98, 7.01666667], 'W': [None, 0.0, 12.5], 'D': [None, 361.0, 90.0],
        'ID': ['SHIPA    ', None, 'A,B', 'D/BU*', ' 12 ', 'X"Y', "O'K", ''], 'OSTIA': [None, 18.25, -1.8, 14.56712345], 'ICE': [None, 0.0, 0.35, 0.0000123], 'BGVAR': [None, 0.04, 0.012345678],
        'norm SST': ['none', None, 12.5, 11.12345678, 15.0, 0.0], 'norm AT': ['none', None, 15.5], 'YR': [2003, 1850, None], 'MO': [7, 2, None, 12], 'DY': [5, None, 31, 29]}
LINE = [['ID'], ['YR'], ['MO'], ['DY'], ['HR'], ['LAT'], ['LON'], ['AT'], ['AT', 'anom'], ['SST'], ['SST', 'anom'], ['DPT'], ['SLP'],
        ['OSTIA'], ['ICE'], ['BGVAR'], ['W'], ['D'], ['NOSUCH']]


def make(kw, cls=None):
    kw = dict(kw)
    ext = {k: kw.pop(k) for k in ('OSTIA', 'ICE', 'BGVAR') if k in kw}
    norms = {k[5:]: kw.pop(k) for k in list(kw) if k.startswith('norm ')}
    r = report(cls or ex.MarineReport, ext=ext, **kw)
    for k, v in norms.items():
        if v != 'none':
            r.add_climate_variable(k, v)
    return r


def anom(kw, var, base):
    v, n = kw.get(var, base[var]), kw.get('norm ' + var, 'none')
    return None if v is None or n in (None, 'none') else v - n


BASE = {'ID': 'SHIPA    ', 'YR': 2003, 'MO': 7, 'DY': 5, 'HR': 12.0, 'LAT': 10.0, 'LON': 20.0, 'AT': 14.0, 'SST': 15.0, 'DPT': 10.0, 'SLP': 1013.0}


def field(kw, var):
    if len(var) > 1:
        return anom(kw, var[0], BASE)
    return kw.get(var[0], BASE.get(var[0]))


def same(s, v):
    """text of a field against the value"""
    if v is None:
        return s == MISS
    if isinstance(v, str):
        return s == v
    try:
        return abs(float(s) - v) <= 1e-9 * max(1, abs(v))
    except ValueError:
        return False


def gen_lines(tier):
    names = list(VALS)
    for a, b in itertools.combinations(names, 2):
        yield [a, b]
    for t in (('YR', 'MO', 'DY'), ('SST', 'norm SST', 'ID'), ('AT', 'norm AT', 'norm SST'), ('ID', 'MO', 'DY')):
        yield list(t)


def run_lines(case, R):
    for vals in itertools.product(*[VALS[n] for n in case]):
        kw = dict(zip(case, vals))
        r = make(kw)
        for uid in (True, False):
            got = rows(r.print_variable_block(LINE, header=False, printuid=uid))
            key = 'line %r %r' % (kw, uid)
            if not R.true(key, len(got) == 1, 'not one line', got=got):
                continue
            got = got[0]
            y, m, d = [kw.get(k, BASE[k]) for k in ('YR', 'MO', 'DY')]
            want = (['AAAAAA', iso(y, m, d), pentad(y, m, d)] if uid else []) + [field(kw, v) for v in LINE]
            R.true(key, len(got) == len(want) and all(same(a, b) for a, b in zip(got, want)), 'fields of a line', got=got, expected=want)
            if kw.get('SST') is None:
                got = rows(r.print_variable_block(LINE * 5, header=False, printuid=uid))
                R.true(key + ' wide', len(got) == 1 and len(got[0]) == 5 * len(LINE) + 3 * uid and all(same(a, b) for a, b in zip(got[0], want + want[3 * uid:] * 4)), 'fields of a wide line', got=got)
            head = r.print_variable_block(LINE, header=True, printuid=uid)
            R.eq('head %r' % uid, head, ('UID,DATE,PENTAD,' if uid else '') + ','.join('_'.join(v) for v in LINE) + '\n', 'header line')
        R.state(tuple(sorted(kw.items(), key=repr)))
    R.outcome('%d at once' % len(case))


FLAGS = ['bud', 'clim', 'noval', 'bbud']


def gen_flags(tier):
    for block in ('POS', 'SST', 'AT', 'DPT', 'SLP', 'W', 'D', 'AT2'):
        yield [block]


def run_flags(case, R):
    block, = case
    other = 'SST' if block != 'SST' else 'AT'
    for vals in itertools.product([None, 0, 1, 7], repeat=len(FLAGS)):
        r = report()
        for f, v in zip(FLAGS, vals):
            if v is not None:
                r.set_qc(block, f, v)
        r.set_qc(other, 'bud', 3)
        want = ['%d' % (9 if v is None else v) for v in vals]
        for n in range(1, len(FLAGS) + 1):
            R.eq('flags %s %r %d' % (block, vals, n), r.print_qc_block(block, FLAGS[:n]), ','.join(['AAAAAA'] + want[:n]) + '\n', 'line of flags')
            R.eq('flags %s %r %d no UID' % (block, vals, n), r.print_qc_block(block, FLAGS[:n], printuid=False), ','.join(want[:n]) + '\n', 'line of flags without UID')
            R.eq('head', r.print_qc_block(block, FLAGS[:n], header=True), ','.join(['UID'] + FLAGS[:n]) + '\n', 'header of flags')
            R.eq('head no UID', r.print_qc_block(block, FLAGS[:n], header=True, printuid=False), ','.join(FLAGS[:n]) + '\n', 'header of flags without UID')
        R.state((block, vals))
    R.outcome(block)


# ----------------------------------------------------------------------------- decks
YEAR, MONTH = 2003, 7
KINDS = [dict(), dict(DY=31, HR=23.5, SST=None, ID='SHIPB    '), dict(MO=6, DY=30), dict(MO=8, DY=1), dict(YR=2002), dict(DY=None), dict(LAT=-60.2, LON=359.5, ID=None, AT=-3.2)]
DECKVARS = [['ID'], ['YR'], ['MO'], ['DY'], ['HR'], ['LAT'], ['LON'], ['AT'], ['AT', 'anom'], ['SST'], ['SST', 'anom'], ['DPT'], ['DPT', 'anom']]
FULL = DECKVARS + [['SLP'], ['SLP', 'anom'], ['OSTIA'], ['W'], ['D']]
QC = {'full': {'POS': ['day', 'isship', 'trk', 'date', 'time', 'pos', 'blklst', 'isbuoy', 'iquam_track'],
               'SST': ['bud', 'clim', 'nonorm', 'freez', 'noval', 'nbud', 'bbud', 'rep', 'spike', 'hardlimit'],
               'AT': ['bud', 'clim', 'nonorm', 'freez', 'noval', 'mat_blacklist', 'bbud', 'rep', 'hardlimit'],
               'DPT': ['bud', 'clim', 'nonorm', 'freez', 'noval', 'hum_blacklist', 'bbud', 'rep', 'ssat', 'repsat', 'round', 'hardlimit'],
               'SLP': ['bud', 'clim', 'nonorm', 'noval', 'rep'],
               'W': ['noval', 'hardlimit', 'consistency', 'wind_blacklist']},
      'min': {'POS': ['day', 'isship', 'trk', 'date', 'time', 'pos', 'blklst', 'isbuoy'],
              'SST': ['bud', 'clim', 'nonorm', 'freez', 'noval', 'nbud', 'bbud', 'rep'],
              'AT': ['bud', 'clim', 'nonorm', 'freez', 'noval', 'mat_blacklist', 'bbud', 'rep'],
              'DPT': ['bud', 'clim', 'nonorm', 'freez', 'noval', 'hum_blacklist', 'bbud', 'rep', 'ssat', 'repsat', 'round']}}
VOYQC = {'POS': ['day', 'isship', 'trk', 'date', 'time', 'pos', 'blklst', 'isbuoy', 'iquam_track', 'isdrifter'], 'SST': QC['full']['SST']}
VOYVARS = DECKVARS + [['SLP'], ['SLP', 'anom'], ['OSTIA'], ['ICE'], ['BGVAR']]
TRACKQC = {'POS': ['drf_agr', 'drf_spd'], 'SST': ['drf_tail1', 'drf_tail2', 'drf_bias', 'drf_noise', 'drf_short']}


def flagval(uid, block, flag):
    """the flag value a report is given: different for neighbours, blocks and flags, sometimes none"""
    n = sum(ord(c) * (i + 3) for i, c in enumerate(uid + block + flag))
    v = n % 11
    return None if v == 10 else v


def build(seq, names, kinds, ids=None):
    reps, model = [], []
    for i, k in enumerate(seq):
        kw = dict(kinds[k], UID='U%05d' % (i * 37 + 1))
        if ids is not None:
            kw['ID'] = ids
        if i % 2:
            kw.update({'norm SST': 13.25, 'norm AT': None, 'norm SLP': 1000.5, 'norm DPT': 2.5})
        kw.setdefault('SLP', 990.5 + i)
        r = make(kw)
        for block in names:
            for f in names[block]:
                v = flagval(kw['UID'], block, f)
                if v is not None:
                    r.set_qc(block, f, v)
        reps.append(r)
        model.append(kw)
    return reps, model


def variables(kw, names):
    y, m, d = [kw.get(k, BASE[k]) for k in ('YR', 'MO', 'DY')]
    return [kw['UID'], iso(y, m, d), pentad(y, m, d)] + [field(kw, v) for v in names]


def flags(kw, block, names):
    out = []
    for f in names:
        v = flagval(kw['UID'], block, f)
        out.append(9.0 if v is None else v)
    return out


def folder():
    d = os.path.join(os.environ['MC_SCRATCH'], 'out')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def compare(R, key, d, expected):
    """expected: file name -> (header, rows)"""
    have = sorted(os.listdir(d))
    R.true(key + ' files', have == sorted(expected), 'files written', got=have, expected=sorted(expected))
    for f in sorted(expected):
        if f not in have:
            continue
        head, want = expected[f]
        with open(os.path.join(d, f), newline='') as g:
            got = rows(g.read())
        R.true('%s %s head' % (key, f[:12]), got[:1] == [head], 'header', got=got[:1], expected=head)
        ok = len(got) == len(want) + 1 and all(len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)) for a, b in zip(got[1:], want))
        R.true('%s %s rows' % (key, f[:12]), ok, 'lines of the reports of the month, in their order', got=got[1:4], expected=want[:3])


def gen_deck(tier):
    n = 4 if tier == 'quick' else 5
    for k in range(1, n + 1):
        for pre in itertools.product(range(len(KINDS)), repeat=min(k, 2)):
            yield [k, list(pre)]


def run_deck(case, R):
    k, pre = case
    for rest in itertools.product(range(len(KINDS)), repeat=k - len(pre)):
        seq = list(pre) + list(rest)
        for kind in ('full', 'min'):
            if kind == 'min' and k > 3:
                continue
            for test in ((False, True) if k < 3 else (False,)):
                reps, model = build(seq, QC[kind], KINDS)
                deck = ex.Deck()
                for r in reps:
                    deck.append(r)
                d = folder()
                (deck.write_output if kind == 'full' else deck.write_min_output)('run1', d, YEAR, MONTH, test=test)
                month = [m for m in model if m.get('YR', BASE['YR']) == YEAR and m.get('MO', BASE['MO']) == MONTH]
                pre2 = 'Test_' if test else ''
                names = FULL if kind == 'full' else DECKVARS
                exp = {pre2 + 'Variables_200307_run1.csv': (['UID', 'DATE', 'PENTAD'] + ['_'.join(v) for v in names], [variables(m, names) for m in month])}
                for b, fs in QC[kind].items():
                    exp[pre2 + '%s_qc_200307_run1.csv' % b] = (['UID'] + fs, [[m['UID']] + flags(m, b, fs) for m in month])
                compare(R, 'deck %s %r %r' % (kind, seq, test), d, exp)
                R.eq('deck kept %r' % (seq,), [r.getvar('UID') for r in deck.reps], [m['UID'] for m in model], 'the deck was changed by writing it')
                R.outcome('%d of %d lines' % (len(month), k))
        R.state(tuple(seq))


# ----------------------------------------------------------------------------- voyages
IDS = ['51514    ', '4401', 'D/BU*', 'A B      ', '///', "O'K", 'X"Y', 'A,B', '*12345678']
VKINDS = [dict(OSTIA=14.5, ICE=0.0, BGVAR=0.04), dict(DY=6, HR=0.0, OSTIA=None, ICE=None, BGVAR=None, SST=None), dict(MO=6, DY=30), dict(MO=8, DY=1, OSTIA=9.5),
          dict(YR=2004), dict(HR=None, LAT=-0.5, OSTIA=-1.8, ICE=0.25, BGVAR=0.5)]


def safe(x):
    return x.replace('/', '_').replace('*', '_')


def gen_voyage(tier):
    n = 4 if tier == 'quick' else 5
    for i in range(len(IDS)):
        for k in range(1, (n if i == 0 else 2) + 1):
            for pre in itertools.product(range(len(VKINDS)), repeat=1):
                yield [i, k, list(pre)]


def run_voyage(case, R):
    i, k, pre = case
    for rest in itertools.product(range(len(VKINDS)), repeat=k - len(pre)):
        seq = list(pre) + list(rest)
        every = {'POS': VOYQC['POS'] + TRACKQC['POS'], 'SST': VOYQC['SST'] + TRACKQC['SST']}
        reps, model = build(seq, every, VKINDS, IDS[i])
        v = ex.Voyage()
        for r in reps:
            v.add_report(r)
        key = 'voyage %r %r' % (IDS[i], seq)
        d = folder()
        order = model                              # as added
        month = [m for m in order if m.get('YR', BASE['YR']) == YEAR and m.get('MO', BASE['MO']) == MONTH]
        v.write_output('run1', d, YEAR, MONTH)
        exp = {'Variables_200307_%s_run1.csv' % safe(IDS[i]): (['UID', 'DATE', 'PENTAD'] + ['_'.join(x) for x in VOYVARS], [variables(m, VOYVARS) for m in month])}
        for b, fs in VOYQC.items():
            exp['%s_qc_200307_%s_run1.csv' % (b, safe(IDS[i]))] = (['UID'] + fs, [[m['UID']] + flags(m, b, fs) for m in month])
        compare(R, key, d, exp)
        d = folder()
        v.write_tracking_output('run1', d, YEAR, MONTH)
        v1, v2 = [['ID'], ['LON'], ['LAT'], ['YR'], ['MO'], ['DY'], ['HR']], [['SST'], ['OSTIA'], ['BGVAR'], ['ICE']]
        head = ['UID', 'DATE', 'PENTAD'] + [x[0] for x in v1] + VOYQC['POS'] + VOYQC['SST'] + TRACKQC['POS'] + TRACKQC['SST'] + [x[0] for x in v2]
        lines = [variables(m, v1) + flags(m, 'POS', VOYQC['POS']) + flags(m, 'SST', VOYQC['SST']) + flags(m, 'POS', TRACKQC['POS']) +
                 flags(m, 'SST', TRACKQC['SST']) + [field(m, x) for x in v2] for m in order]
        compare(R, key + ' tracking', d, {'Tracking_200307_%s_run1.csv' % safe(IDS[i]): (head, lines)})
        R.state((i, tuple(seq)))
        R.outcome('%d of %d lines' % (len(month), k))


def gen_empty(tier):
    yield []


def run_empty(case, R):
    """a period without reports is no failure and writes no lines of reports"""
    d = folder()
    for kind in ('write_output', 'write_min_output'):
        R.ev()
        got = attempt(getattr(ex.Deck(), kind), 'run1', d, YEAR, MONTH)
        R.true('empty %s' % kind, not isinstance(got, Raised), 'writing an empty deck failed', got=got)
        for f in os.listdir(d):
            with open(os.path.join(d, f)) as g:
                R.true('empty lines', len(g.readlines()) < 2, 'lines of reports although there are none')
    R.state('empty')


# ----------------------------------------------------------------------------- fixed width
FIX = {'SST': [15.0, None, -1.7], 'AT': [14.3, None], 'HR': [12.25, None, 5.0, 14.3], 'DY': [5, None], 'LON': [20.12, 359.98, -179.5], 'LAT': [10.0, -0.25, -89.99],
       'DS': [None, 0, 7], 'VS': [None, 3, 0], 'PT': [5, None, 7], 'ID': ['SHIPA    ', None, 'LONGERTHANNINE', 'X'], 'norm SST': ['none', 12.5, None],
       'norm AT': ['none', 20.3], 'SLP': [1013.2, None], 'DPT': [10.0, None], 'norm DPT': ['none', 7.25], 'CWB': [None, 11.5], 'DPD': [None, 3.1], 'VAP': [None, 12.3], 'SHU': [None, 8.2],
       'CRH': [None, 81.0]}
SHORT = [['POS'] * 8, ['day', 'land', 'trk', 'date', 'time', 'pos', 'blklst', 'dup']]


def gen_fixed(tier):
    names = list(FIX)
    for a, b in itertools.combinations(names, 2):
        yield [a, b]


def scaled(v, n):
    return -32768 if v is None else int(round(v * n))


def run_fixed(case, R):
    for vals in itertools.product(*[FIX[n] for n in case]):
        kw = dict(zip(case, vals))
        r = make(kw)
        for b, f, v in (('POS', 'day', 1), ('POS', 'pos', 2), ('SST', 'bud', 3), ('SST', 'noval', 0), ('AT', 'bbud', 4), ('AT', 'rep', 5), ('DPT', 'repsat', 6), ('POS', 'few', 7)):
            r.set_qc(b, f, v)
        g = lambda n: kw.get(n, dict(BASE, DCK=926, PT=5).get(n))
        an = lambda n: anom(kw, n, dict(BASE))
        lon = g('LON') - 360 if g('LON') > 180 else g('LON')
        i = '         ' if g('ID') is None else g('ID')
        front = '%-9.9s %-8.8s' % (i, 'AAAAAA') + ''.join('%8d' % x for x in (scaled(g('LAT'), 100), int(round(lon * 100)), g('YR'), g('MO'),
                                                                          scaled(g('DY'), 1), scaled(g('HR'), 100)))
        core = [scaled(g('AT'), 10), scaled(an('AT'), 100), scaled(g('SST'), 10), scaled(an('SST'), 100)]
        ds = 9999 if g('DS') is None or g('VS') is None else g('DS') * 100 + g('VS')
        end = ''.join('%8d' % x for x in (ds, 926, -32768 if g('PT') is None else g('PT')))
        short = front + ''.join('%8d' % x for x in core) + end + ' 19999299 39990999 99999945 99999999 79999999\n'
        got = r.print_report()
        R.true('report %r' % (kw,), norm(got) == norm(short), 'fixed-width line', got=got, expected=short)
        hum = []
        for n in ('DPT', 'SHU', 'VAP', 'CRH', 'CWB', 'DPD'):
            hum += [scaled(g(n), 10), scaled(an(n) if n == 'DPT' else None, 100)]
        long = front + ''.join('%8d' % x for x in core + [scaled(g('SLP'), 10)] + hum) + end + ' 19999299 39990999 99999945 999999996 79999999\n'
        got = r.print_longform_report()
        R.true('long report %r' % (kw,), norm(got) == norm(long), 'long fixed-width line', got=got, expected=long)
        R.state(tuple(sorted(kw.items(), key=repr)))
        for n in case:
            if kw[n] is None or isinstance(kw[n], float):
                for mdi in (-32768, -1):
                    for scale in (10, 100):
                        if kw[n] is not None and abs(abs(kw[n] * scale) % 1 - 0.5) < 1e-6:
                            continue
                        R.eq('scaled %s %r %d %d' % (n, kw[n], mdi, scale), ex.pvar(kw[n], mdi, scale), mdi if kw[n] is None else round(kw[n] * scale), 'a value scaled and rounded')
    R.outcome('fixed width')


def norm(s):
    return s


SUBS = [Sub('lines', gen_lines, run_lines), Sub('flags', gen_flags, run_flags), Sub('empty', gen_empty, run_empty), Sub('fixed', gen_fixed, run_fixed),
        Sub('decks', gen_deck, run_deck), Sub('voyages', gen_voyage, run_voyage)]
