"""Runs of the programs over whole months: what the output files have to contain"""
from mc import program as pg
from mc.engine import Raised

VARS = ['ID', 'YR', 'MO', 'DY', 'HR', 'LAT', 'LON', 'AT', 'AT_anom', 'SST', 'SST_anom', 'DPT', 'DPT_anom', 'SLP', 'SLP_anom', 'OSTIA', 'W', 'D']
TVARS = VARS[:-3] + ['OSTIA', 'ICE', 'BGVAR']
BLOCKS = {'POS': ['day', 'isship', 'trk', 'date', 'time', 'pos', 'blklst', 'isbuoy', 'iquam_track'],
          'SST': ['bud', 'clim', 'nonorm', 'freez', 'noval', 'nbud', 'bbud', 'rep', 'spike', 'hardlimit'],
          'AT': ['bud', 'clim', 'nonorm', 'freez', 'noval', 'mat_blacklist', 'bbud', 'rep', 'hardlimit'],
          'DPT': ['bud', 'clim', 'nonorm', 'freez', 'noval', 'hum_blacklist', 'bbud', 'rep', 'ssat', 'repsat', 'round', 'hardlimit'],
          'SLP': ['bud', 'clim', 'nonorm', 'noval', 'rep'], 'W': ['noval', 'hardlimit', 'consistency', 'wind_blacklist']}
DECK = {'full': dict(BLOCKS), 'hires': {'SST': BLOCKS['SST']}, 'track': {}}
DRIFTER = {'POS': BLOCKS['POS'] + ['isdrifter'], 'SST': BLOCKS['SST']}


def fits(s, v):
    if v is None:
        return s == '\\N'
    if isinstance(v, str):
        return s == v
    try:
        x = float(s)
    except ValueError:
        return False
    return abs(x - v) < 1e-6 * max(1, abs(v))


def compare(R, key, rows, head, reps, values):
    """one file: the header, a line for every report in order, its values"""
    if not R.true(key + ' lines', [r[0] for r in rows[1:]] == [r.o['UID'] for r in reps] and rows[:1] == [head], 'header and reports of a file',
                  got=[r[0] for r in rows], head=rows[:1], expected=[r.o['UID'] for r in reps]):
        return
    for row, r in zip(rows[1:], reps):
        want = values(r)
        d = dict(zip(head, row))
        bad = {k: [d.get(k), w[0]] for k, w in want.items() if k in head and w and not fits(d.get(k), w[0])}
        R.true('%s %s' % (key, r.o['UID']), not bad and len(row) == len(head), 'output for a report', wrong=bad, report={k: v for k, v in r.o.items()})


def flagvals(block, names):
    def f(r):
        out = {}
        for x in names:
            w = r.get(block, x)
            out[x] = None if w is None else [w]
        return out
    return f


def variables(r):
    o = r.o
    w = {k: [o[k]] for k in ('YR', 'MO', 'DY', 'LAT', 'LON', 'AT', 'SST', 'DPT', 'SLP')}
    w['HR'] = [r.hr]
    w['ID'] = [None if o['ID'] is None else o['ID'].ljust(9)]
    for v in ('AT', 'SST', 'DPT', 'SLP'):
        w[v + '_anom'] = [r.anom(v)] if r.inside() else None
    for v in r.ext:
        w[v] = [r.ext[v]]
    return w


def deckvariables(r):
    w = variables(r)
    w['W'], w['D'] = [r.o['W']], [r.o['D']]
    return w


def safe(x):
    return ''.join('_' if c in '/*' else c for c in x)


def judge(R, key, prog, found, month, reps, tracking=False, runid='run1'):
    """files of a month against the reports read for it"""
    mine = [r for r in reps if (r.o['YR'], r.o['MO']) == month]
    d = found.get('%d/%02d' % month)
    R.trace()
    R.trans(len(mine))
    ym = '%d%02d_' % month
    rid = ('hires_' if prog == 'hires' else '') + runid
    files = {}
    if reps:
        if prog == 'full':
            files['Variables_%s%s.csv' % (ym, rid)] = (VARS, mine, deckvariables)
        for b, names in DECK[prog].items():
            files['%s_qc_%s%s.csv' % (b, ym, rid)] = (names, mine, flagvals(b, names))
    ids = []
    if tracking:
        by = {}
        for r in mine:
            if r.get('POS', 'isdrifter') == 1 and r.o['ID'] is not None:
                by.setdefault(r.o['ID'].ljust(9), []).append(r)
        for i, v in by.items():
            ids.append(i + ',' + safe(i))
            if prog != 'hires':
                files['Variables_%s%s_%s.csv' % (ym, safe(i), rid)] = (TVARS, v, variables)
            for b, names in DRIFTER.items():
                if b == 'SST' or prog != 'hires':
                    n = BLOCKS[b] if prog == 'hires' else names
                    files['%s_qc_%s%s_%s.csv' % (b, ym, safe(i), rid)] = (n, v, flagvals(b, n))
    want = sorted(list(files) + (['ID_file.txt'] if tracking else []))
    if not R.true(key + ' files', sorted(d or []) == want, 'files of the month', got=sorted(d or []), expected=want):
        return
    if tracking:
        R.eq(key + ' drifters', sorted(d['ID_file.txt'].split('\n')[:-1]), sorted(ids), 'drifters of the month')
    for n, (names, v, values) in files.items():
        head = ['UID'] + (['DATE', 'PENTAD'] if n.startswith('Variables') else []) + names
        compare(R, key + ' ' + n, d[n], head, v, values)
    for r in mine:
        R.state((key, r.o['UID']))
        R.outcome(''.join(str(r.get(b, f)) for b, f in (('POS', 'trk'), ('SST', 'bud'), ('AT', 'bud'), ('DPT', 'bud'), ('SLP', 'bud'))))


def number(obs):
    for i, o in enumerate(obs):
        o['UID'] = 'U%05d' % i


def go(R, key, prog, files, first, last=None, second=None, bad=(), tracking=False, dates=(), over=None, runid='run1', earlier=()):
    """run a program on files {month: [reports, or lines that are no reports]} and judge each month of the period; earlier: files on which the program has been run before, to the same folders"""
    last = last or first
    env = pg.Env(over, bad=''.join(x + '\n' for x in bad), runid=runid)
    for e in earlier:
        for d in dates:
            env.background(d)
        for m, lines in e.items():
            env.icoads(m, [pg.encode(x) for x in lines])
        got = env.run(prog, first, last, tracking)
        if isinstance(got, Raised):
            return R.fail(key, 'the program failed', got=got)
        for m in e:
            env.remove(m)
    for which in (files, second or {}):
        for m, lines in which.items():
            env.icoads(m, [x if isinstance(x, str) else pg.encode(x) for x in lines], which is not files)
    for d in dates:
        env.background(d)
    got = env.run(prog, first, last, tracking)
    if isinstance(got, Raised):
        return R.fail(key, 'the program failed', got=got)
    found = env.written()
    R.eq(key + ' folders', sorted(found), sorted('%d/%02d' % m for m in pg.months(first, last) if found.get('%d/%02d' % m)), 'folders of output')
    out = [x.rstrip().ljust(9) for x in bad if x.strip()]
    for m in pg.months(first, last):
        obs = []
        for k in (-1, 0, 1):
            r = pg.next_month(m, k)
            lines = files[r] if r in files else (second or {}).get(r, [])
            obs += [x for x in lines if not isinstance(x, str) and (x['YR'], x['MO']) == r and (x['ID'] or '').ljust(9) not in out]
        try:
            reps = pg.chain(obs, prog, env.P)
            if tracking and prog != 'hires':
                pg.backgrounds(reps, set(dates))
        except pg.Ambiguous:
            R.outcome('ambiguous')
            continue
        judge(R, '%s %d-%02d' % ((key,) + m), prog, found, m, reps, tracking, runid)
