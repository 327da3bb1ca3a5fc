"""The tracking program: what it reads, what it checks and what it writes"""
import csv
import datetime
import itertools
import json
import os
import shutil
import sys

import Extended_IMMA as ex
import tracking_qc
from mc import drift
from mc.engine import Sub, Raised, attempt
from mc.marine import report

PROPERTY = 'C33'
LEVEL = 'model_checking'
RULE = ('the real program on real files: every state of the three files of a month (complete, absent, empty, header only, a line short, a wrong UID) for up to two '
        'months; every flag that excludes a report, on every pair of reports, for several records; every record of moves and kinds of SST; every way to lay a record in up to four months; every order of the '
        'reports; every set of case kinds.  What is written is compared with a reference that filters and runs reference versions of the four checks in turn; '
        'a state is the record with the flags written')
BOUNDS = {'quick': '216 states of a month x 4 of the next; 20 exclusions x pairs of 6 reports x 5 records; 1024 records of 5 moves x 3 kinds of SST; all orders of 4 reports',
          'thorough': '216 x 216 states of two months; records of 6 moves; all orders of 5 reports'}
ASSUMPTIONS = ['the files are written by the harness in the documented layout; records within 1e-6 of a limit are not judged']

YEAR, MONTH = 2003, 12
START = datetime.datetime(2003, 12, 28)
VARS = ['UID', 'DATE', 'PENTAD', 'ID', 'YR', 'MO', 'DY', 'HR', 'LAT', 'LON', 'AT', 'AT_anom', 'SST', 'SST_anom', 'DPT', 'DPT_anom', 'SLP', 'SLP_anom', 'OSTIA', 'ICE', 'BGVAR']
POS = ['day', 'isship', 'trk', 'date', 'time', 'pos', 'blklst', 'isbuoy', 'iquam_track', 'isdrifter']
SST = ['bud', 'clim', 'nonorm', 'freez', 'noval', 'nbud', 'bbud', 'rep', 'spike', 'hardlimit']
TRK = [('POS', 'drf_agr'), ('POS', 'drf_spd'), ('SST', 'drf_tail1'), ('SST', 'drf_tail2'), ('SST', 'drf_bias'), ('SST', 'drf_noise'), ('SST', 'drf_short')]
PAR = {'runid': 'run1',
       'new_buoy_aground_check': {'smooth_win': 1, 'min_win_period': 2},
       'new_buoy_speed_check': {'speed_limit': 2.5, 'min_win_period': 0.5},
       'IQUAM_track_check': {'buoy_speed_limit': 15.0, 'ship_speed_limit': 60.0, 'delta_d': 1.11, 'delta_t': 0.01, 'number_of_neighbours': 5},
       'buoy_tail_check': dict(long_win_len=3, long_err_std_n=3.0, short_win_len=2, short_err_std_n=3.0, short_win_n_bad=2, drift_inter=0.29, drif_intra=1.0, background_err_lim=0.3),
       'buoy_bias_noise_check': dict(n_eval=3, bias_lim=1.1, drif_intra=1.0, drif_inter=0.29, err_std_n=3.0, n_bad=2, background_err_lim=0.3)}
PAR2 = dict(PAR, runid='R-2.b', new_buoy_aground_check={'smooth_win': 3, 'min_win_period': 1}, new_buoy_speed_check={'speed_limit': 4.5, 'min_win_period': 1.5},
            buoy_tail_check=dict(PAR['buoy_tail_check'], short_win_n_bad=1, long_win_len=5),
            buoy_bias_noise_check=dict(PAR['buoy_bias_noise_check'], n_eval=5, bias_lim=0.5, n_bad=1))
MOVE = {'s': (0.0, 0.0), 'm': (0.25, 0.5), 'j': (0.0, 3.0), 'b': (-0.25, -0.5)}


class Report(object):
    """a report of a record: place in it, position, kind of SST, flags"""

    def __init__(self, i, pos, kind, hrs):
        self.i, self.pos, self.kind, self.hrs = i, pos, kind, hrs
        self.uid = 'U%05d' % (37 * i + 1)
        self.time = START + datetime.timedelta(hours=hrs)
        a, b, c, land, day = drift.KIND[kind]
        self.sst = 15.0 + a
        self.ostia = 15.0 if land else None
        self.ice = c
        self.bgv = (drift.BGV[i % 3] if b is None else b) if land else None
        self.flags = {('POS', f): 0 for f in POS}
        self.flags.update({('SST', f): 0 for f in SST})
        self.flags[('POS', 'isbuoy')] = self.flags[('POS', 'isdrifter')] = 1
        self.hidden = {}                      # values that are missing in the file

    @property
    def month(self):
        return self.time.year, self.time.month


def record(moves, kinds, flags=()):
    lat, lon, out = 5.0, -0.5, []
    for i, (m, k) in enumerate(zip(moves, kinds)):
        lat, lon = lat + MOVE[m][0], lon + MOVE[m][1]
        day = drift.KIND[k][4]
        out.append(Report(i, (lat, lon), k, 24.0 * i + (12 if day else 0)))
    for i, block, f, v in flags:
        out[i].flags[(block, f)] = v
    return out


# ------------------------------------------------------------------------------------------ the reference

def passed(r, extra=()):
    return r.flags[('POS', 'isbuoy')] == 1 and all(r.flags[('POS', f)] == 0 for f in ('date', 'time', 'pos', 'blklst'))


def expected(recs, P):
    """flags of every report, or Ambiguous"""
    recs = sorted(recs, key=lambda r: r.hrs)
    out = {r.uid: dict.fromkeys(TRK, 9) for r in recs}
    one = [r for r in recs if passed(r)]
    pos, hrs = [r.pos for r in one], [r.hrs for r in one]
    a = drift.aground_new(pos, hrs, P['new_buoy_aground_check']['smooth_win'], P['new_buoy_aground_check']['min_win_period'])
    s = drift.speed_new(pos, hrs, P['IQUAM_track_check'], P['new_buoy_speed_check']['speed_limit'], P['new_buoy_speed_check']['min_win_period'])
    for r, x, y in zip(one, a, s):
        out[r.uid][TRK[0]], out[r.uid][TRK[1]] = x, y
    three = [r for r, x, y in zip(one, a, s) if x == y == 0 and r.flags[('SST', 'bbud')] < 4 and
             all(r.flags[('SST', f)] == 0 for f in ('clim', 'nonorm', 'freez', 'noval', 'rep', 'hardlimit'))]
    t1, t2 = drift.tails([(r.kind, r.i) for r in three], P['buoy_tail_check'])
    four = []
    for r, x, y in zip(three, t1, t2):
        out[r.uid][TRK[2]], out[r.uid][TRK[3]] = x, y
        if x == y == 0:
            four.append(r)
    if four:
        b = drift.bias_noise([(r.kind, r.i) for r in four], P['buoy_bias_noise_check'])
        for r in four:
            for f, x in zip(TRK[4:], b):
                out[r.uid][f] = x
    return recs, out


# ------------------------------------------------------------------------------------------ files

class Env(object):
    def __init__(self, P=PAR):
        base = os.path.join(os.environ['MC_SCRATCH'], 'c33')
        shutil.rmtree(base, ignore_errors=True)
        self.base, self.out, self.track = base, base + '/out', base + '/track'
        os.makedirs(self.out)
        os.makedirs(self.track)
        with open(base + '/parameters.json', 'w') as f:
            json.dump(P, f)
        with open(base + '/configuration.txt', 'w') as f:
            f.write('[Directories]\nout_dir = %s\ntrack_out_dir = %s\n[Files]\nparameter_file = %s/parameters.json\n' % (self.out, self.track, base))

    def run(self, ident, months, edge, runmonth='200301-200412'):
        argv = ['-config', self.base + '/configuration.txt', '-id', ident, '-yr1', str(months[0][0]), '-mn1', str(months[0][1]),
                '-yr2', str(months[-1][0]), '-mn2', str(months[-1][1]), '-edge'] + list(edge) + ['-runmonthid', runmonth]
        keep = sys.argv
        sys.argv = ['tracking_qc.py'] + argv
        try:
            return attempt(tracking_qc.main, argv)
        finally:
            sys.argv = keep

    def written(self):
        found = {}
        for p, d, ff in os.walk(self.track):
            for f in ff:
                with open(os.path.join(p, f), newline='') as g:
                    found[os.path.relpath(os.path.join(p, f), self.track)] = list(csv.reader(g))
        return found


def txt(v):
    return '\\N' if v is None else str(v)


def lines(recs, ident, which):
    if which == 'Variables':
        out = [','.join(VARS)]
        for r in recs:
            v = {'UID': r.uid, 'DATE': r.time.date().isoformat(), 'PENTAD': 1, 'ID': '"%s"' % ident, 'YR': r.time.year, 'MO': r.time.month, 'DY': r.time.day,
                 'HR': r.time.hour + r.time.minute / 60.0, 'LAT': r.pos[0], 'LON': drift.wrap(r.pos[1]), 'AT': None, 'AT_anom': None, 'SST': r.sst, 'SST_anom': 0.5, 'DPT': 3.5,
                 'DPT_anom': None, 'SLP': 1013.0, 'SLP_anom': None, 'OSTIA': r.ostia, 'ICE': r.ice, 'BGVAR': r.bgv}
            v.update(r.hidden)
            out.append(','.join(txt(v[n]) for n in VARS))
    else:
        names = POS if which == 'POS_qc' else SST
        out = [','.join(['UID'] + names)]
        for r in recs:
            out.append(','.join([r.uid] + ['%d' % r.flags[(which[:3], f)] for f in names]))
    return out


def put(env, recs, ident, month, runid='run1', state=('ok', 'ok', 'ok')):
    """the three files of a month, each in its state"""
    d = '%s/%d/%02d' % (env.out, month[0], month[1])
    os.makedirs(d, exist_ok=True)
    for which, st in zip(('Variables', 'POS_qc', 'SST_qc'), state):
        if st == 'absent':
            continue
        t = lines(recs, ident, which)
        if st == 'empty':
            t = []
        elif st == 'header':
            t = t[:1]
        elif st == 'short':
            t = t[:-1]
        elif st == 'uid':
            t[-1] = 'X' + t[-1][1:]
        name = '%s/%s_%d%02d_%s_%s.csv' % (d, which, month[0], month[1], ident.replace('/', '_').replace('*', '_'), runid)
        with open(name, 'w') as f:
            f.write(''.join(x + '\n' for x in t))


def names(ident, month, edge, runid='run1', runmonth='200301-200412'):
    f = 'Tracking_%d%02d_%s_%s.csv' % (month[0], month[1], ident.replace('/', '_').replace('*', '_'), runid)
    d = 'TrackingQC/%d/%02d' % month
    out = []
    if 'new' in edge or 'regular' in edge:
        out.append('%s/%s' % (d, f))
    for e in ('start_edge_case', 'end_edge_case'):
        if e in edge:
            out.append('%s/%s_%s/%s' % (d, e, runmonth, f))
    return sorted(out)


HEAD = ['UID', 'DATE', 'PENTAD', 'ID', 'LON', 'LAT', 'YR', 'MO', 'DY', 'HR'] + POS + SST + [f for _, f in TRK] + ['SST', 'OSTIA', 'BGVAR', 'ICE']


def judge(R, key, env, got, recs, ident, last, edge, P=PAR, ordered=True):
    R.trace()
    R.trans(len(recs))
    try:
        order, want = expected(recs, P)
    except drift.Ambiguous:
        R.outcome('ambiguous')
        return
    if isinstance(got, Raised):
        return R.fail(key, 'the tracking program failed', got=got)
    found = env.written()
    exp = names(ident, last, edge, P['runid'])
    if not R.true(key + ' files', sorted(found) == exp, 'files written', got=sorted(found), expected=exp):
        return
    for f, rows in found.items():
        R.true(key + ' head', rows[:1] == [HEAD], 'header of the output', got=rows[:1])
        body = {r[0]: r for r in rows[1:]}
        R.true(key + ' reports', sorted(r[0] for r in rows[1:]) == sorted(r.uid for r in order) and
               (not ordered or [r[0] for r in rows[1:]] == [r.uid for r in order]), 'reports written, in the order of time', got=[r[0] for r in rows[1:]], expected=[r.uid for r in order])
        for r in order:
            line = body.get(r.uid)
            if line is None or len(line) != len(HEAD):
                R.fail(key + ' line', 'line of a report', got=line)
                continue
            t = dict(zip(HEAD[:10] + ['POS ' + x for x in POS] + ['SST ' + x for x in SST] + TRK + HEAD[-4:], line))
            g = {k: t[k] for k in TRK}
            w = {k: '%d' % want[r.uid][k] for k in TRK}
            R.true(key + ' flags', g == w, 'tracking flags of report %d' % r.i, got={k[1]: v for k, v in g.items()}, expected={k[1]: v for k, v in w.items()})
            R.true(key + ' kept', all(t['%s %s' % k] == '%d' % v for k, v in r.flags.items()), 'basic flags of report %d' % r.i, got=line)
            vals = {'ID': ident.ljust(9), 'LAT': r.pos[0], 'LON': drift.wrap(r.pos[1]), 'YR': r.time.year, 'MO': r.time.month, 'DY': r.time.day, 'HR': r.time.hour + 0.0,
                    'SST': r.sst, 'OSTIA': r.ostia, 'BGVAR': r.bgv, 'ICE': r.ice}
            vals.update(r.hidden)
            R.true(key + ' values', all((t[k] == txt(v)) if v is None or isinstance(v, str) else num(t[k]) == v for k, v in vals.items()), 'values of report %d' % r.i, got=line)
    R.state((key.split(' ')[0], tuple(tuple(sorted(want[r.uid].values())) for r in order), tuple(r.kind for r in order)))
    bad = sorted(set(k[1] for r in order for k in TRK if want[r.uid][k] == 1))
    R.outcome(','.join(bad) or 'none flagged')


def num(s):
    try:
        return float(s)
    except ValueError:
        return None


def bymonth(recs):
    out = {}
    for r in recs:
        out.setdefault(r.month, []).append(r)
    return out


def full(R, key, recs, ident='51514    ', edge=('regular',), P=PAR, months=None, ordered=True):
    env = Env(P)
    b = bymonth(recs)
    for m in b:
        put(env, b[m], ident, m, P['runid'])
    months = months or [min(b), max(b)]
    judge(R, key, env, env.run(ident.rstrip(), months, edge), recs, ident, months[-1], edge, P, ordered)


# ------------------------------------------------------------------------------------------ file states
STATES = ['ok', 'absent', 'empty', 'header', 'short', 'uid']


def outcome(state):
    """'skip', 'bad', or the number of reports read of three"""
    if all(s == 'absent' for s in state):
        return 'skip'
    if any(s in ('absent', 'empty') for s in state):
        return 'bad'
    n = [{'ok': 4, 'uid': 4, 'header': 1, 'short': 3}[s] for s in state]
    if len(set(n)) > 1:
        return 'bad'
    if 'uid' in state and not state[0] == state[1] == state[2] == 'uid':
        return 'bad'
    return n[0] - 1


def gen_states(tier):
    second = [('ok',) * 3, ('absent',) * 3, ('header',) * 3, ('ok', 'ok', 'absent')] if tier == 'quick' else list(itertools.product(STATES, repeat=3))
    for s in itertools.product(STATES, repeat=3):
        for swap in (0, 1):
            yield [list(s), [list(x) for x in second], swap]


def run_states(case, R):
    first, seconds, swap = case
    for second in seconds:
        a, b = (first, second) if not swap else (second, first)
        recs = record('mmmmmm', 'gggggg')
        env = Env()
        months = [(2003, 12), (2004, 1)]
        for m, st, part in ((months[0], a, recs[:3]), (months[1], b, recs[3:])):
            put(env, part, '51514    ', m, state=st)
        for r in recs[3:]:
            r.time = START + datetime.timedelta(hours=24 * (r.i + 1))
        # the reports of the first month are those of 28, 29, 30 December, the others of January
        oa, ob = outcome(a), outcome(b)
        key = 'states %s %s' % ('/'.join(a), '/'.join(b))
        got = env.run('51514', months, ['regular'])
        R.trace()
        R.trans(6)
        good = oa != 'bad' and ob != 'bad' and sum(x for x in (oa, ob) if x != 'skip') > 0
        if not good:
            ok = isinstance(got, Raised) and got.kind == 'UserWarning'
            R.true(key, ok, 'no warning about the files', got=got)
            R.true(key + ' nothing', env.written() == {}, 'something was written although the files are not right', got=sorted(env.written()))
            R.outcome('warning')
        else:
            found = env.written()
            exp = names('51514    ', (2004, 1), ['regular'])
            R.true(key, not isinstance(got, Raised) and sorted(found) == exp, 'nothing written although the files are right', got=got if isinstance(got, Raised) else sorted(found))
            if sorted(found) == exp:
                want = []
                for st, part in ((a, recs[:3]), (b, recs[3:])):
                    u = [r.uid for r in part]
                    if st[0] == 'ok':
                        want += u
                    elif st[0] == 'short':
                        want += u[:-1]
                    elif st[0] == 'uid':
                        want += u[:-1] + ['X' + u[-1][1:]]
                R.true(key + ' reports', [r[0] for r in found[exp[0]][1:]] == want, 'reports written', got=[r[0] for r in found[exp[0]][1:]], expected=want)
            R.outcome('written')
        R.state(key)


UIDS = [lambda u, n: u + 'X', lambda u, n: u[:-1], lambda u, n: 'X' + u, lambda u, n: u.lower(), lambda u, n: n, lambda u, n: '', lambda u, n: u[:3] + u[4] + u[3] + u[5:]]


def gen_uids(tier):
    for which in range(3):
        for i in range(6):
            yield [which, i]


def run_uids(case, R):
    """one line of one of the three files has another identifier, in any way it can differ"""
    which, i = case
    for k, f in enumerate(UIDS):
        recs = record('mmmmmm', 'gggggg')
        u = f(recs[i].uid, recs[(i + 1) % 6].uid)
        if u == recs[i].uid:
            continue
        env = Env()
        b = bymonth(recs)
        for m in b:
            put(env, b[m], '51514    ', m)
            name = '%s/%d/%02d/%s_%d%02d_51514    _run1.csv' % (env.out, m[0], m[1], ('Variables', 'POS_qc', 'SST_qc')[which], m[0], m[1])
            t = open(name).read()
            with open(name, 'w') as g:
                g.write(t.replace('\n' + recs[i].uid + ',', '\n' + u + ','))
        got = env.run('51514', [(2003, 12), (2004, 1)], ['regular'])
        key = 'uids %d %d %d' % (which, i, k)
        R.trace()
        R.trans(6)
        R.state(key)
        R.true(key, isinstance(got, Raised) and got.kind == 'UserWarning', 'no warning about files that do not belong together', got=got)
        R.true(key + ' nothing', env.written() == {}, 'something was written although the files do not belong together', got=sorted(env.written()))


# ------------------------------------------------------------------------------------------ exclusions
BASES = [('mmssss', 'gggggg'), ('mjmmmm', 'gggggg'), ('mmmmmm', 'bbgggg'), ('mmmmmm', 'ccccch'), ('mmmmmm', 'gggbnb'), ('mmmmss', 'bgvgcu')]
EXCL = [('POS', 'isbuoy', 0), ('POS', 'isbuoy', 9)] + [('POS', f, 1) for f in ('date', 'time', 'pos', 'blklst')] + \
       [('SST', f, 1) for f in ('clim', 'nonorm', 'freez', 'noval', 'rep', 'hardlimit')] + [('SST', 'bbud', v) for v in (1, 3, 4, 9)] + \
       [('SST', 'noval', 9), ('POS', 'pos', 2), ('POS', 'trk', 1), ('POS', 'isship', 1), ('POS', 'iquam_track', 1), ('POS', 'isdrifter', 0), ('POS', 'day', 1), ('SST', 'bud', 1), ('SST', 'nbud', 1), ('SST', 'spike', 1)]


def gen_excl(tier):
    for b in range(len(BASES)):
        for e in range(len(EXCL)):
            yield [b, [e]]
    for b in (2, 5):
        for e in itertools.combinations(range(4, 15), 2):
            yield [b, list(e)]


def run_excl(case, R):
    b, es = case
    moves, kinds = BASES[b]
    n = len(moves)
    if len(es) == 1:
        subsets = [s for k in (0, 1, 2, n) for s in itertools.combinations(range(n), k)]
        plans = [[(i,) + EXCL[es[0]] for i in s] for s in subsets]
    else:
        plans = [[(i,) + EXCL[es[0]], (j,) + EXCL[es[1]]] for i in range(n) for j in range(n) if i != j and (i + j) % 2]
    for fl in plans:
        full(R, 'excluded %d %r' % (b, fl), record(moves, kinds, fl))


# ------------------------------------------------------------------------------------------ several months
GAP = [0, 31, 62, 120]


def gen_several(tier):
    for b in range(len(BASES)):
        for k in range(len(GAP)):
            yield [b, k]


def run_several(case, R):
    """every way to lay the reports of a record in up to four months, with months without reports between them"""
    b, k = case
    for rest in itertools.combinations_with_replacement(range(k, len(GAP)), 5):
        recs = record(*BASES[b])
        for r, g in zip(recs, (0 if k == 0 else k,) + rest):
            r.hrs += 24.0 * GAP[g]
            r.time += datetime.timedelta(days=GAP[g])
            r.flags[('SST', 'nbud')] = r.i % 2
            r.flags[('POS', 'trk')] = r.i // 2 % 2
        full(R, 'several %d %d %r' % (b, k, rest), recs)


# ------------------------------------------------------------------------------------------ records

def gen_records(tier):
    n = 5 if tier == 'quick' else 6
    for pre in itertools.product('smjb', repeat=2):
        for k in ('ggggggg', 'bgcgbgc', 'bbggdig'):
            for p in (0, 1):
                if tier == 'thorough' or p == 0 or k == 'bgcgbgc':
                    yield [''.join(pre), n, k, p]
    for pre in itertools.product('gbcu', repeat=2):
        for p in (0, 1):
            yield ['kinds' + ''.join(pre), n, 'mmmmmmm', p]


def run_records(case, R):
    pre, n, other, p = case
    P = [PAR, PAR2][p]
    if pre.startswith('kinds'):
        for rest in itertools.product('gbcu', repeat=n - 2):
            k = pre[5:] + ''.join(rest)
            full(R, 'kinds %s %d' % (k, p), record(other[:n], k), P=P)
        return
    for rest in itertools.product('smjb', repeat=n - len(pre)):
        m = pre + ''.join(rest)
        full(R, 'moves %s %s %d' % (m, other, p), record(m, other[:n]), P=P)


# ------------------------------------------------------------------------------------------ order, months, cases
def gen_order(tier):
    n = 4 if tier == 'quick' else 5
    for b in range(len(BASES)):
        for first in range(n):
            yield [n, b, first]


def run_order(case, R):
    n, b, first = case
    moves, kinds = BASES[b]
    for rest in itertools.permutations([i for i in range(n) if i != first]):
        recs = record(moves, kinds)
        # reports 0-3 are of December, the rest of January
        order = (first,) + rest
        env = Env()
        m = {}
        for i in list(order) + list(range(n, len(recs))):
            m.setdefault(recs[i].month, []).append(recs[i])
        for k in m:
            put(env, m[k], '51514    ', k)
        got = env.run('51514', [(2003, 12), (2004, 1)], ['regular'])
        judge(R, 'order %d %r' % (b, order), env, got, recs, '51514    ', (2004, 1), ['regular'])


EDGES = ['new', 'regular', 'start_edge_case', 'end_edge_case']


def gen_cases(tier):
    for k in range(1, 5):
        for e in itertools.combinations(EDGES, k):
            for ident in ('51514', '4401', 'D/BU*', 'A B'):
                yield [list(e), ident]
        for e in itertools.permutations(EDGES, k):
            if list(e) != sorted(e, key=EDGES.index) and k < 3:
                yield [list(e), '51514']


def run_cases(case, R):
    edge, ident = case
    ident = ident.ljust(9)
    for months in ([(2003, 12), (2004, 1)], [(2003, 10), (2004, 3)], [(2003, 12), (2003, 12)]):
        recs = record('mmmmmm', 'gggggg')
        if months[-1] == (2003, 12):
            recs = recs[:4]
        b = bymonth(recs)
        env = Env()
        for m in b:
            put(env, b[m], ident, m)
        # files of another buoy, of another run and of a month outside the period are there too
        other = record('jjjjjj', 'bbbbbb')
        for m, part in bymonth(other).items():
            put(env, part, '99999    ', m)
            put(env, part, ident, m, 'other')
        put(env, other[:2], ident, (2003, 9))
        put(env, other[:2], ident, (2004, 4))
        for again in (1, 2):
            got = env.run(ident.rstrip(), months, edge)
            judge(R, 'case %s %s %r %d' % (','.join(edge), ident, months, again), env, got, recs, ident, months[-1], edge)


MISSING = [{'DY': None}, {'HR': None}, {'SST': None}, {'OSTIA': None, 'ICE': None, 'BGVAR': None}]


def gen_missing(tier):
    for i in range(len(MISSING)):
        for j in range(6):
            yield [i, j]


def run_missing(case, R):
    """a report with something missing is set aside by its basic flags and does not stop the others"""
    i, j = case
    for b in (0, 2):
        recs = record(*BASES[b])
        r = recs[j]
        r.hidden = MISSING[i]
        if 'DY' in r.hidden or 'HR' in r.hidden:
            r.flags[('POS', 'date' if 'DY' in r.hidden else 'time')] = 1
        elif 'SST' in r.hidden:
            r.flags[('SST', 'noval')] = 1
        else:
            r.kind = 'l'
            r.ostia = r.ice = r.bgv = None
        full(R, 'missing %r %d %d' % (MISSING[i], j, b), recs, ordered=not set(r.hidden) & {'DY', 'HR'})


FINE = [(0.13, None, c) for c in (0.04, 0.12, 0.149, 0.151, 0.19, 0.26, 0.5, 1.0)] + [(0.13, v, 0.0) for v in (0.0012, 0.0123, 0.087, 0.299, 0.301, 0.3049)] + \
       [(a, None, 0.0) for a in (-1.07, 1.049, 2.951, 0.004)]


def gen_fine(tier):
    for i in range(len(FINE)):
        for n in (1, 2, 3, 6):
            yield [i, n]


def run_fine(case, R):
    """values with more decimals than one, in part of a record or all of it"""
    i, n = case
    k = drift.letter(*FINE[i])
    for moves, kinds in BASES[:4]:
        for at in range(len(kinds) - n + 1):
            full(R, 'fine %r %s %s %d' % (FINE[i], moves, kinds, at), record(moves, kinds[:at] + k * n + kinds[at + n:]))


def gen_round(tier):
    for b in range(len(BASES)):
        for ident in ('51514    ', 'D/BU*    '):
            yield [b, ident]


def run_round(case, R):
    """what the main program writes for an ID is what this program reads"""
    b, ident = case
    for i in range(6):
        recs = record(*BASES[b])
        env = Env()
        v = ex.Voyage()
        recs[i].flags[('SST', 'clim')] = 1
        for r in recs:
            q = report(YR=r.time.year, MO=r.time.month, DY=r.time.day, HR=r.time.hour + 0.0, LAT=r.pos[0], LON=r.pos[1], SST=r.sst, ID=ident, UID=r.uid, PT=7,
                       ext={'OSTIA': r.ostia, 'ICE': r.ice, 'BGVAR': r.bgv})
            for (x, y), f in r.flags.items():
                q.set_qc(x, y, f)
            v.add_report(q)
        for m in ((2003, 12), (2004, 1)):
            d = '%s/%d/%02d' % (env.out, m[0], m[1])
            os.makedirs(d)
            v.write_output('run1', d, m[0], m[1])
        got = env.run(ident.rstrip(), [(2003, 12), (2004, 1)], ['new'])
        judge(R, 'round %d %s %d' % (b, ident, i), env, got, recs, ident, (2004, 1), ['new'])


SUBS = [Sub('states', gen_states, run_states), Sub('cases', gen_cases, run_cases), Sub('missing', gen_missing, run_missing), Sub('fine', gen_fine, run_fine), Sub('round', gen_round, run_round),
        Sub('uids', gen_uids, run_uids), Sub('several', gen_several, run_several), Sub('order', gen_order, run_order), Sub('excluded', gen_excl, run_excl), Sub('records', gen_records, run_records)]
