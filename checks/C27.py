"""The simple report formats are read column by column into reports"""
import itertools

import NRT
import SimpleIMMA
import TestIMMA
import Extended_IMMA as ex
from mc.engine import Sub

PROPERTY = 'C27'
LEVEL = 'exploration'
RULE = ('every field of each of the three formats takes every value of its alphabet (limits, negative, blank, unreadable) on two backgrounds, lines are cut at every '
        'column, every ordered pair of lines goes through one reader, and the record is made into a report; compared value by value with a frozen layout; distinct by line')
BOUNDS = {'quick': 'all field values, all cuts, all ordered pairs of 12 lines per format', 'thorough': 'plus all pairs of field values'}

# name, first, last+1, scale (None: text, 0: integer)
SIMPLE = [('YR', 0, 4, 0), ('MO', 4, 6, 0), ('DY', 6, 8, 0), ('HR', 8, 12, 0.01), ('LAT', 12, 17, 0.01), ('LON', 17, 23, 0.01), ('DS', 23, 24, 0), ('VS', 24, 25, 0),
          ('ID', 25, 34, None), ('AT', 34, 38, 0.1), ('SST', 38, 42, 0.1), ('DPT', 42, 46, 0.1), ('DCK', 46, 49, 0), ('SID', 49, 52, 0), ('PT', 52, 54, 0), ('UID', 54, 60, None)]
FULL = {'YR': '2003', 'MO': '12', 'DY': '31', 'HR': '1250', 'LAT': '-5500', 'LON': '-12345', 'DS': '8', 'VS': '9', 'ID': 'SHIP12345', 'AT': '-123', 'SST': ' 305', 'DPT': '-020',
        'DCK': '926', 'SID': '103', 'PT': '13', 'UID': 'ABC123'}


def reference(line, name, a, b, scale):
    text = line.rstrip('\n')[a:b]
    if scale is None:
        return text
    t = text.strip()
    sign = 1
    if t[:1] in ('+', '-'):
        sign, t = (-1 if t[0] == '-' else 1), t[1:]
    if t.isdigit():
        return sign * int(t) * (scale or 1)
    if scale and t.count('.') == 1 and t.replace('.', '').isdigit():
        return sign * float(t) * scale
    return None


def texts(w, scale):
    if scale is None:
        return ['X' * w, ' ' * w, 'A' + ' ' * (w - 1), ' ' * (w - 1) + 'Z', '7' * w]
    out = ['9' * w, '0' * w, ' ' * w, ' ' * (w - 1) + '7', '1' + ' ' * (w - 1), 'x' * w, '1' * (w - 1) + 'a']
    if w > 1:
        out += ['-' + '5' * (w - 1), '+' + '4' * (w - 1), ' ' * (w - 2) + '-3', '0' * (w - 1) + '8', '*' + '1' * (w - 1)]
    if w > 2:
        out += ['1 ' + '2' * (w - 2), '2' * (w - 2) + '.5']
    return out


def build(values):
    return ''.join(values[n].ljust(b - a)[:b - a] if n in values else ' ' * (b - a) for n, a, b, s in SIMPLE)


def judge(R, key, line, rec):
    for n, a, b, s in SIMPLE:
        R.eq('%s %s' % (key, n), rec.data.get(n, 'absent'), reference(line, n, a, b, s), 'field of a simple record', line=line)
    R.state(line)


def gen_simple(tier):
    for i in range(len(SIMPLE)):
        yield ['field', i]
    for bg in (0, 1):
        for cut in range(61):
            yield ['cut', bg, cut]
    for i in range(12):
        yield ['pair', i]
    if tier == 'thorough':
        for i, j in itertools.combinations(range(len(SIMPLE)), 2):
            yield ['two', i, j]


def lines12():
    out = [build(FULL), build({}), '', '\n', build(FULL)[:20], build(FULL)[:54] + '\n']
    for n in ('YR', 'LAT', 'ID', 'SST', 'PT', 'UID'):
        v = dict(FULL)
        v[n] = ''
        out.append(build(v) + '\n')
    return out


def run_simple(case, R):
    kind = case[0]
    if kind == 'cut':
        line = build(FULL if case[1] else {k: '1' for k in FULL})[:case[2]]
        for end in ('', '\n'):
            r = SimpleIMMA.IMMA()
            r.readstr(line + end)
            judge(R, 'cut %d %d %r' % (case[1], case[2], end), line + end, r)
        R.outcome('cut')
        return
    if kind == 'pair':
        ls = lines12()
        for j, second in enumerate(ls):
            r = SimpleIMMA.IMMA()
            r.readstr(ls[case[1]])
            r.readstr(second)
            judge(R, 'pair %d %d' % (case[1], j), second, r)
        R.outcome('pair')
        return
    fields = case[1:]
    for bg in (FULL, {}):
        for vals in itertools.product(*[texts(SIMPLE[i][2] - SIMPLE[i][1], SIMPLE[i][3]) for i in fields]):
            v = dict(bg)
            for i, x in zip(fields, vals):
                v[SIMPLE[i][0]] = x
            for end in ('', '\n'):
                line = build(v) + end
                r = SimpleIMMA.IMMA()
                r.readstr(line)
                judge(R, 'line %r' % line, line, r)
            if all(SIMPLE[i][0] not in ('DS', 'VS', 'YR', 'MO', 'DY', 'HR', 'LAT', 'LON', 'ID', 'UID') for i in fields):
                m = ex.MarineReport(r)
                for i in fields:
                    n, a, b, s = SIMPLE[i]
                    R.eq('report %r %s' % (line, n), m.getvar(n), reference(line, n, a, b, s), 'field of the report made of a simple record')
    R.outcome('fields')


# ------------------------------------------------------------------------------------ split lines of test data
TCOL = [('ID', 0, str), ('UID', 1, str), ('LAT', 2, float), ('LON', 3, float), ('YR', 4, int), ('MO', 5, int), ('DY', 6, int), ('HR', 7, float), ('SST', 11, float)]
TBASE = ['SHIP1    ', 'U1', '10.5', '-20.25', '2003', '7', '5', '12.5', 'x', '', '-1', '15.5', '99']
TVAL = {str: ['', 'A B', '123'], int: ['1', '12.0', '0', '-3', '1999.0'], float: ['0', '-0.5', '-32768', '-32768.0', '-32767', '359.99', '1e2', ' 7 ']}


def gen_test(tier):
    for i in range(len(TCOL)):
        yield ['field', i]
    for i in range(13):
        yield ['other', i]
    yield ['reuse', 0]


def run_test(case, R):
    kind, i = case

    def want(tok):
        w = {n: (int(float(tok[k])) if t is int else t(tok[k])) for n, k, t in TCOL}
        for n in ('HR', 'SST'):
            if w[n] == -32768.0:
                w[n] = None
        w['DCK'] = 999
        return w

    def read(r, tok, key):
        r.readstr(tok)
        R.eq('test ' + key, {n: r.data.get(n, 'absent') for n in want(tok)}, want(tok), 'record of test data')
        R.state(tuple(tok))
    if kind == 'field':
        n, k, t = TCOL[i]
        for x in TVAL[t]:
            tok = list(TBASE)
            tok[k] = x
            read(TestIMMA.IMMA(), tok, '%s %r' % (n, x))
    elif kind == 'other':
        if i in [k for n, k, t in TCOL]:
            return
        tok = list(TBASE)
        for x in ('junk', '-32768', ''):
            tok[i] = x
            read(TestIMMA.IMMA(), tok, 'other %d %r' % (i, x))
    else:
        r = TestIMMA.IMMA()
        for sst in ('15.5', '-32768', '3', '-32768', '4'):
            for hr in ('1', '-32768', '2'):
                tok = list(TBASE)
                tok[11], tok[7] = sst, hr
                read(r, tok, 'reuse %s %s' % (sst, hr))
    R.outcome('test ' + kind)


# ------------------------------------------------------------------------------------ near real time lines
DATES = [('2015-01-01T00:00:00Z', (2015, 1, 1, 0.0)), ('2016-02-29T23:59:00Z', (2016, 2, 29, 23 + 59 / 60.0)), ('2014-12-31T06:30:59Z', (2014, 12, 31, 6.5)),
         ('2015-11-02 12:45:00', (2015, 11, 2, 12.75)), ('20150203T0400', (2015, 2, 3, 4.0)), ('2015-06-07', (2015, 6, 7, 0.0))]
LATS = [('-90.0', -90.0), ('0', 0.0), ('89.99', 89.99), ('200.0', 200.0), ('200.5', 200.0), ('9999', 200.0), ('-999', -999.0)]
LONS = [('-180.0', -180.0), ('0.0', 0.0), ('359.5', 359.5), ('400', 400.0), ('400.25', 400.0), ('99999.0', 400.0), ('-999', -999.0)]
SSTS = [('nan', None), ('0', 0.0), ('-1.8', -1.8), ('35.25', 35.25)]
IDS = ['51514', 'A B', '']
CONST = {'AT': None, 'DCK': 9999, 'PT': 7, 'SID': 9999, 'DS': None, 'VS': None, 'DPT': None, 'C1': None, 'SI': None, 'SIM': None}


def gen_nrt(tier):
    for i in range(len(DATES)):
        for j in range(len(LATS)):
            yield [i, j]


def run_nrt(case, R):
    iso, (y, m, d, h) = DATES[case[0]]
    lat, wlat = LATS[case[1]]
    one = NRT.NRT()
    for (lon, wlon), (sst, wsst), i, end in itertools.product(LONS, SSTS, IDS, ('', '\n')):
        line = ','.join([i, 'dud', iso, lat, lon, sst]) + end
        want = dict(CONST, UID='NRT' + i + iso, ID=i, YR=y, MO=m, DY=d, HR=h, LAT=wlat, LON=wlon, SST=wsst)
        fresh = NRT.NRT()
        for r, n in ((fresh, 'fresh'), (one, 'used')):
            r.readstr(line)
            R.eq('nrt %r %s' % (line, n), {k: r.data.get(k, 'absent') for k in want}, want, 'near real time record')
            R.eq('nrt item %r %s' % (line, n), r['SST'], wsst, 'record item')
        rep = ex.MarineReport(fresh)
        got = [rep.getvar(k) for k in ('ID', 'UID', 'YR', 'MO', 'DY', 'HR', 'LAT', 'SST', 'PT', 'DCK', 'AT')]
        R.eq('nrt report %r' % line, got, [i, want['UID'], y, m, d, h, wlat, wsst, 7, 9999, None], 'report made of a near real time record')
        R.state(line)
    one.readstr('')
    R.eq('nrt end %r' % iso, one.data.get('YR'), y, 'an empty line at the end of the file changes nothing')
    R.outcome('nrt')


SUBS = [Sub('simple', gen_simple, run_simple), Sub('test', gen_test, run_test), Sub('nrt', gen_nrt, run_nrt)]
