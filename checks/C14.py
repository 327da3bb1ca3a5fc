"""Voyages: order, and the speeds, courses, distances and times derived from neighbouring reports"""
import itertools
import datetime
import math

import Extended_IMMA as ex
from mc import sphere
from mc.engine import Sub, attempt
from mc.marine import report

PROPERTY = 'C14'
LEVEL = 'model_checking'
RULE = ('every sequence of additions and sorts over a pool of reports up to the bound, on the real voyage, compared after every step with a '
        'list model whose derived quantities come from vector geometry and ordinal dates; a state is the ordered list and the sort history')
BOUNDS = {'quick': 'three pools of 6 reports, sequences of up to 5 additions with a sort at any one place; walks of 7 to 130 reports added from any report on, either way', 'thorough': 'also every pair of sorts'}

POOL = [
    # two ships side by side in time: year end, leap day, midnight
    [dict(YR=2003, MO=12, DY=31, HR=23.5, LAT=10.0, LON=179.5), dict(YR=2004, MO=1, DY=1, HR=0.0, LAT=10.5, LON=-179.5),
     dict(YR=2004, MO=1, DY=1, HR=0.0, LAT=10.5, LON=-179.0), dict(YR=2004, MO=2, DY=28, HR=12.0, LAT=11.0, LON=181.0),
     dict(YR=2004, MO=3, DY=1, HR=12.0, LAT=-11.0, LON=359.5), dict(YR=2004, MO=2, DY=28, HR=12.25, LAT=11.0, LON=181.0)],
    [dict(YR=1900, MO=2, DY=28, HR=18.0, LAT=60.0, LON=0.0), dict(YR=1900, MO=3, DY=1, HR=6.0, LAT=60.0, LON=1.0),
     dict(YR=1900, MO=3, DY=1, HR=6.5, LAT=61.0, LON=1.0), dict(YR=1900, MO=3, DY=2, HR=None, LAT=62.0, LON=1.0),
     dict(YR=1899, MO=12, DY=31, HR=6.0, LAT=89.5, LON=100.0), dict(YR=1900, MO=3, DY=1, HR=6.5, LAT=-30.0, LON=-1.0)],
    # a few hundredths of an hour apart, over midnight too
    [dict(YR=2004, MO=2, DY=29, HR=12.0, LAT=10.0, LON=20.0), dict(YR=2004, MO=2, DY=29, HR=12.0025, LAT=10.0, LON=20.015625),
     dict(YR=2004, MO=2, DY=29, HR=12.03, LAT=10.015625, LON=20.015625), dict(YR=2004, MO=2, DY=29, HR=23.99, LAT=11.0, LON=21.0),
     dict(YR=2004, MO=3, DY=1, HR=0.0, LAT=11.0, LON=21.0), dict(YR=2004, MO=3, DY=1, HR=0.01, LAT=11.015625, LON=21.0)]]


def secs(p):
    return None if p['HR'] is None else datetime.date(p['YR'], p['MO'], p['DY']).toordinal() * 24.0 + p['HR']


def derive(p, q):
    """speed, distance, course, time difference from p to q"""
    d = sphere.dist(p['LAT'], p['LON'], q['LAT'], q['LON'])
    a, b = secs(p), secs(q)
    t = 0.0 if a is None or b is None else b - a
    c = 0.0 if d == 0 else sphere.course(p['LAT'], p['LON'], q['LAT'], q['LON'])
    return (d if t == 0 else d / t), d, c, t


def gen(tier):
    for pool in (0, 1, 2):
        for n in range(1, 6):
            for seq in itertools.permutations(range(6), n):
                if pool > 0 and n == 5 and seq[0] > 2:
                    continue
                yield [tier, pool, list(seq)]


def dcourse(a, b):
    return abs((a - b + 180) % 360 - 180)


def verify(R, key, v, model, alt=False):
    if len(v) != len(model):
        return R.true(key, False, 'length of the voyage', got=len(v), expected=len(model))
    bad = []
    for i, p in enumerate(model):
        if v.getvar(i, 'UID') != p['UID']:
            bad.append(('order', [v.getvar(k, 'UID') for k in range(len(v))], [x['UID'] for x in model]))
            break
        got = [v.getvar(i, k) for k in ('speed', 'distance', 'course', 'time_diff')]
        if i == 0:
            if got != [None] * 4:
                bad.append((0, got))
        else:
            w = derive(model[i - 1], p)
            if (None in got or abs(got[0] - w[0]) > 1e-5 * max(1, abs(w[0])) or abs(got[1] - w[1]) > 1e-5 * max(1, w[1]) or
                    (w[1] > 0.01 and dcourse(got[2], w[2]) > 1e-2) or abs(got[3] - w[3]) > 1e-6):
                bad.append((i, got, w))
        if alt:
            got = [v.getvar(i, k) for k in ('alt_speed', 'alt_distance', 'alt_course', 'alt_time_diff')]
            if 0 < i < len(model) - 1:
                w = derive(model[i - 1], model[i + 1])
                if (None in got or abs(got[0] - w[0]) > 1e-5 * max(1, abs(w[0])) or abs(got[1] - w[1]) > 1e-5 * max(1, w[1]) or abs(got[3] - w[3]) > 1e-6 or
                        (w[1] > 0.01 and dcourse(got[2], w[2]) > 1e-2)):
                    bad.append(('alt', i, got, w))
            elif got != [None] * 4:
                bad.append(('alt', i, got))
    sp = v.get_speed()
    if sp != [v.getvar(i, 'speed') for i in range(len(model))]:
        bad.append(('speeds', sp))
    ws = [derive(model[i - 1], model[i])[0] for i in range(1, len(model))]
    m = v.meansp()
    if (m is None) != (not ws) or (ws and abs(m - sum(ws) / len(ws)) > 1e-4 * max(1, abs(m))):
        bad.append(('mean speed', m, ws))
    return R.true(key, not bad, 'order and derived motion of a voyage', wrong=bad)


def okey(p):
    return secs(p)


def run(case, R):
    tier, pool, seq = case
    P = POOL[pool]
    n = len(seq)
    known = all(P[k]['HR'] is not None for k in seq)
    sorts = [()] + ([(k,) for k in range(1, n + 1)] if known else [])
    if tier == 'thorough' and known:
        sorts += list(itertools.combinations(range(1, n + 1), 2))
    for ss in sorts:
        v, model = ex.Voyage(), []
        for k, i in enumerate(seq):
            d = dict(P[i], UID='U%d' % i)
            v.add_report(report(**d))
            model.append(d)
            R.trans()
            if k + 1 in ss:
                v.sort()
                model.sort(key=okey)   # stable, as list.sort is
                R.trans()
                R.trace()
                if not verify(R, 'sorted %d %r %r after %d' % (pool, seq, ss, k + 1), v, model):
                    return
        R.trace()
        R.state((pool, tuple(x['UID'] for x in model), ss))
        R.outcome('length %d sorts %d' % (n, len(ss)))
        v.calc_alternate_speeds()
        if not verify(R, 'final %d %r %r' % (pool, seq, ss), v, model, alt=True):
            return
        R.eq('last %d %r %r' % (pool, seq, ss), v.last_rep().getvar('UID'), model[-1]['UID'], 'last report')
        R.eq('feed %d %r %r' % (pool, seq, ss), [r.getvar('UID') for r in v.rep_feed()], [x['UID'] for x in model], 'reports in order')
        if n == 1:
            R.eq('next one %d %r' % (pool, seq), v.predict_next_point(3.0), (model[0]['LAT'], report(**model[0]).lon()), 'prediction from a single report')
        else:
            sp, d, c, t = derive(model[-2], model[-1])
            for fwd in (0.0, 1.0, 12.0):
                g = attempt(v.predict_next_point, fwd)
                if abs(t) < 1e-5:
                    w = model[-1]['LAT'], model[-1]['LON']
                elif t < 0 or d < 0.01 or sp * (t + fwd) > 19000:
                    continue
                else:
                    w = sphere.destination(model[-2]['LAT'], model[-2]['LON'], c, sp * (t + fwd))
                ok = isinstance(g, tuple) and sphere.dist(g[0], g[1], w[0], w[1]) < 0.5
                R.true('next %d %r %r %s' % (pool, seq, ss, fwd), ok, 'prediction along the great circle of the last two reports', got=g, expected=w)
        picks = [range(0, n - 1), range(1, n), range(0, n - 2), range(0, n, 2), (0, n - 1), range(n - 1, -1, -1)]
        for z, pick in enumerate(picks):
            # some of the same reports as a voyage of their own
            pick = list(pick)
            if len(set(pick)) < max(1, len(pick)):
                continue
            w = ex.Voyage()
            for k in pick:
                w.add_report(v.reps[k])
            w.calc_alternate_speeds()
            R.trans(len(pick))
            if not verify(R, 'some of them %d %r %r %r' % (pool, seq, ss, pick), w, [model[k] for k in pick], alt=True):
                return


# ------------------------------------------------------------------------------------ long voyages

def gen_long(tier):
    for n in (7, 8, 12, 41, 65, 130, 520):
        for first in range(n) if n < 60 or tier != 'quick' else range(0, n, 9 if n < 200 else 173):
            for way in (1, -1):
                yield [n, first, way]


def run_long(case, R):
    """a long walk added from any report on, forwards or backwards, then sorted"""
    n, first, way = case
    walk, la, lo, t = [], 10.0, 175.0, 0.0
    for i in range(n):
        d = 20 + int(t // 24)
        walk.append(dict(YR=2003, MO=12, DY=d, HR=t % 24, LAT=la, LON=lo - 360 if lo > 180 else lo, UID='U%d' % i))
        if d > 31:
            walk[-1].update(YR=2004, MO=1 + (d > 62), DY=d - 31 - 31 * (d > 62))
        la, lo, t = la + [0.25, 0.5, -0.25][i % 3] * (-1 if i // 120 % 2 else 1), lo + [0.5, 0.125][i % 2], t + [1.0, 0.0, 3.0, 0.25, 6.0][i % 5]
    order = [(first + way * k) % n for k in range(n)]
    v, model = ex.Voyage(), []
    for i in order:
        v.add_report(report(**walk[i]))
        model.append(walk[i])
    R.trans(n)
    R.trace()
    v.calc_alternate_speeds()
    if not verify(R, 'long %r' % (case,), v, model, alt=True):
        return
    v.sort()
    model.sort(key=okey)
    v.calc_alternate_speeds()
    R.trans()
    verify(R, 'long sorted %r' % (case,), v, model, alt=True)
    R.eq('feed %r' % (case,), [r.getvar('UID') for r in v.rep_feed()], [x['UID'] for x in model], 'reports in order')
    R.state(tuple(case))
    R.outcome('length %d' % n)


SUBS = [Sub('voyage', gen, run), Sub('long', gen_long, run_long)]
