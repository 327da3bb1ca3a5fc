"""A marine report as a store of values: retrieval, instant, units, longitudes, anomalies, ordering"""
import datetime
import itertools
import math

import Extended_IMMA as ex
from mc.engine import Sub, attempt, Raised
from mc.marine import report, RecData

PROPERTY = 'C12'
LEVEL = 'model_checking'
RULE = ('every sequence of operations (set a variable, set an extra, reset the extras, attach a normal) up to the bound, replayed from a '
        'fresh report, with the whole observable state compared with a dictionary model after every step; a state is the full model state')
BOUNDS = {'quick': 'sequences of up to 3 operations out of 38', 'thorough': 'sequences of up to 4 operations'}

VL = ['YR', 'MO', 'DY', 'HR', 'LAT', 'LON', 'DS', 'VS', 'SLP', 'AT', 'AT2', 'SST', 'DCK', 'PT', 'SID', 'DPT', 'SHU', 'VAP', 'CRH', 'CWB', 'DPD', 'W', 'WI', 'D', 'DI', 'WW']
INTS = ['YR', 'MO', 'DY', 'DS', 'VS', 'DCK', 'PT', 'SID']


class Model(object):
    def __init__(self, d):
        self.v = {k: d.get(k) for k in VL}
        self.id, self.uid = d.get('ID'), d.get('UID')
        self.ext, self.cv = {}, {}
        self.units()

    def units(self):
        self.ext['dsi'] = None if self.v['DS'] is None else [0, 45, 90, 135, 180, 225, 270, 315, 360, None][self.v['DS']]
        vs = self.v['VS']
        if vs is None:
            self.ext['vsi'] = None
        elif vs == 0:
            self.ext['vsi'] = 0.0
        else:
            self.ext['vsi'] = vs * 5.0 - 2.0 if self.v['YR'] is not None and self.v['YR'] >= 1968 else vs * 3.0 - 1.0

    def dt(self):
        y, m, d, h = [self.v[k] for k in ('YR', 'MO', 'DY', 'HR')]
        if None in (y, m, d, h) or not 0 <= h < 24:
            return None
        try:
            return datetime.datetime(y, m, d) + datetime.timedelta(seconds=round(h * 3600))
        except ValueError:
            return None

    def obs(self):
        o = {'id': self.id, 'uid': self.uid, 'dt': self.dt()}
        for k in VL:
            o[k] = self.v[k]
        for k in self.ext:
            o['ext ' + k] = self.ext[k]
        o['lat'] = self.v['LAT']
        lo = self.v['LON']
        o['lon'] = lo - 360 if lo is not None and lo > 180 else lo
        for k in ('SST', 'AT', 'DPT', 'ZZZ'):
            c, s = self.cv.get(k, (None, None))
            val = self.v.get(k)
            o['norm ' + k] = c
            o['stdev ' + k] = s
            o['anom ' + k] = None if c is None or val is None else val - c
            o['nanom ' + k] = None if c is None or val is None or s is None else (val - c) / s
        o['sat'] = self.v['AT'] is not None and self.v['AT'] == self.v['DPT']
        o['unknown'] = self.ext.get('NEW')
        return o


def observe(r, m):
    o = {'id': r.getvar('ID'), 'uid': r.getvar('UID'), 'dt': r.dt and (r.dt + datetime.timedelta(milliseconds=500)).replace(microsecond=0)}
    for k in VL:
        o[k] = r.getvar(k)
        if k in INTS and o[k] is not None and not isinstance(o[k], int):
            o[k] = 'not an integer %r' % o[k]
    for k in m.ext:
        o['ext ' + k] = r.getext(k)
    o['lat'], o['lon'] = r.lat(), r.lon()
    for k in ('SST', 'AT', 'DPT', 'ZZZ'):
        o['norm ' + k], o['stdev ' + k] = r.getnorm(k), r.getnorm(k, 'stdev')
        o['anom ' + k], o['nanom ' + k] = r.getanom(k), r.get_normalised_anom(k)
    o['sat'] = bool(r.saturated())
    o['unknown'] = r.getvar('NEW')
    return o


START = [{'ID': 'AAAAAAAAA', 'UID': 'X1', 'YR': 2003, 'MO': 12, 'DY': 31, 'HR': 12.5, 'LAT': 10.0, 'LON': 200.0, 'SST': 15.0, 'AT': 14.0, 'DPT': 12.0, 'DS': 3, 'VS': 2,
          'DCK': 926, 'PT': 5, 'SID': 1, 'XX': 99,
          'SLP': 1013.25, 'W': 5.5, 'WI': 3, 'D': 92.5, 'DI': 1, 'WW': 62.5},
         {'ID': None, 'YR': 1960, 'MO': 2, 'DY': None, 'HR': None, 'LAT': -10.0, 'LON': -20.0, 'SST': None, 'VS': 9}]
OPS = ([('set', 'YR', v) for v in (1662, 1900, 1967, 1968, 2004, None)] + [('set', 'MO', v) for v in (1, 2, 11, 13, None)] +
       [('set', 'DY', v) for v in (1, 29, 31, None)] + [('set', 'HR', v) for v in (0.0, 12.01, 23.75, 24.0, None)] +
       [('set', 'LON', v) for v in (180.0, 180.5, 359.0)] + [('set', 'LAT', -5.5)] + [('set', 'SST', None), ('set', 'SST', -1.5), ('set', 'AT', 12.0)] +
       [('set', 'VS', 0), ('set', 'DS', 9)] + [('set', 'ID', 'BBBBBBBBB')] + [('ext', 'NEW', 7.5), ('ext', 'dsi', -1)] + [('reset', '', 0)] +
       [('clim', 'SST', (10.0, None)), ('clim', 'SST', (12.5, 2.0)), ('clim', 'SST', (11.0, 0.25)), ('clim', 'AT', (None, None)), ('clim', 'DPT', (11.0, 0.5)), ('clim', 'AT', (13.5, 0.00390625))])


def gen(tier):
    n = 3 if tier == 'quick' else 4
    yield [0, [], 0]
    yield [1, [], 0]
    for s in (0, 1):
        for i in range(len(OPS)):
            for j in range(len(OPS)):
                yield [s, [i, j], n]


def step(r, m, op):
    k, a, v = op
    if k == 'set':
        r.setvar(a, v)
        if a == 'ID':
            m.id = v
        else:
            m.v[a] = v
    elif k == 'ext':
        r.setext(a, v)
        m.ext[a] = v
    elif k == 'reset':
        r.reset_ext()
        m.ext = {}
        m.units()
    else:
        r.add_climate_variable(a, v[0], v[1])
        m.cv[a] = v


def same(a, b):
    return [(k, a.get(k, 'absent'), b[k]) for k in b if a.get(k, 'absent') != b[k] and not (
        isinstance(a.get(k), float) and isinstance(b[k], float) and abs(a[k] - b[k]) < 1e-9)]


def run(case, R):
    s, pre, n = case
    for rest in ([()] if not pre else itertools.product(range(len(OPS)), repeat=n - 2)):
        seq = list(pre) + list(rest)
        r, m = ex.MarineReport(RecData(dict(START[s]))), Model(START[s])
        R.trace()
        done = []
        if not seq:
            R.true('fresh %d' % s, not same(observe(r, m), m.obs()), 'a fresh report', differs=same(observe(r, m), m.obs()))
            R.true('unknown extra', isinstance(attempt(r.getext, 'NOTSET'), Raised), 'an unknown extra was answered')
        for q, i in enumerate(seq):
            step(r, m, OPS[i])
            done.append(OPS[i])
            R.trans()
            if q == len(seq) - 1 or (q == 0 and not any(rest)) or (q == 1 and not any(rest)):
                o = m.obs()
                bad = same(observe(r, m), o)
                R.true('ops %d %r' % (s, done), not bad, 'the report after a sequence of operations', differs=bad)
                R.state((s, repr(sorted(o.items(), key=lambda x: x[0]))))
                R.outcome('dt' if o['dt'] is not None else 'no dt')


# ------------------------------------------------------------------------------------ ordering

def gen_cmp(tier):
    yield 0


def run_cmp(case, R):
    al = [(i, d, h) for i in (None, 'AAA      ', 'AAB      ', 'B        ') for d in (1, 2) for h in (0.0, 12.0, 12.01)]
    reps = [report(ID=i, DY=d, HR=h, UID='U%d' % k) for k, (i, d, h) in enumerate(al)]
    key = lambda k: ((al[k][0] is not None, al[k][0] or ''), al[k][1], al[k][2])
    for a in range(len(al)):
        for b in range(len(al)):
            x, y = key(a), key(b)
            got = [bool(f) for f in (reps[a] == reps[b], reps[a] > reps[b], reps[a] >= reps[b], reps[a] <= reps[b])]
            R.eq('compare %r %r' % (al[a], al[b]), got, [x == y, x > y, x >= y, x <= y], 'reports are ordered by identifier, then time')
            R.state((al[a], al[b]))
    for perm in itertools.permutations(range(6)):
        sel = [(7 * p) % len(al) for p in perm]
        v, d = ex.Voyage(), ex.Deck()
        for k in sel:
            d.append(reps[k])
        d.sort()
        R.eq('deck sort %r' % (sel,), [r.getvar('UID') for r in d.reps], ['U%d' % k for k in sorted(sel, key=key)], 'a sorted deck is in identifier-then-time order')
        R.trace()
        R.trans()


# ------------------------------------------------------------------------------------ the store of climatologies

LIB = [(v, s, k) for v in ('SST', 'AT') for s in ('mean', 'stdev') for k in (1, 2)]
CVOPS = [(v, t) for v in (0, 1.5, -2, '3.25') for t in ('clim', 'stdev', None)]


def gen_lib(tier):
    for first in range(len(LIB)):
        yield ['library', first, 4 if tier == 'quick' else 5]
    for first in range(len(CVOPS)):
        yield ['variable', first, 3 if tier == 'quick' else 4]


def run_lib(case, R):
    what, first, n = case
    if what == 'library':
        for rest in itertools.product(range(len(LIB)), repeat=n - 1):
            lib, ref = ex.ClimatologyLibrary(), {}
            seq = (first,) + rest
            for q, i in enumerate(seq):
                v, s, k = LIB[i]
                f = object()
                lib.add_field(v, s, f)
                ref[(v, s)] = f
                R.trans()
            R.trace()
            for v in ('SST', 'AT'):
                for s in ('mean', 'stdev'):
                    g = attempt(lib.get_field, v, s)
                    w = ref.get((v, s))
                    R.true('library %r %s %s' % (seq, v, s), g is w if w is not None else isinstance(g, Raised), 'field last stored for a variable and statistic', got=g)
            R.state(('library', tuple(sorted(ref))))
        return
    for start in ((None, None), (1.25, None), (2, 0.5), (0, 0)):
        for rest in itertools.product(range(len(CVOPS)), repeat=n - 1):
            cv, ref = ex.ClimVariable(*start), dict(zip(('clim', 'stdev'), [None if x is None else float(x) for x in start]))
            seq = (first,) + rest
            for i in seq:
                v, t = CVOPS[i]
                cv.setclim(v) if t is None else cv.setclim(v, t)
                ref[t or 'clim'] = float(v)
                R.trans()
            R.trace()
            got = [cv.getclim(), cv.getclim('clim'), cv.getclim('stdev')]
            R.eq('variable %r %r' % (start, seq), got, [ref['clim'], ref['clim'], ref['stdev']], 'normal and deviation last stored')
            R.state(('variable', tuple(ref.items())))
    R.true('unknown part', isinstance(attempt(ex.ClimVariable(1.0).getclim, 'other'), Raised) and isinstance(attempt(ex.ClimVariable(1.0).setclim, 1.0, 'other'), Raised),
           'an unknown part was accepted')


SUBS = [Sub('library', gen_lib, run_lib), Sub('operations', gen, run), Sub('ordering', gen_cmp, run_cmp)]
