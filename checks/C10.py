"""QC flag store of reports, voyages and decks; quality filters and splitting"""
import itertools

import Extended_IMMA as ex
from mc.engine import Sub, attempt, Raised
from mc.marine import report, qcreport

PROPERTY = 'C10'
LEVEL = 'model_checking'
RULE = ('breadth-first over every sequence of flag operations up to the bound on a store of flags, each prefix replayed on the real '
        'report, voyage and deck and compared with a dictionary model after every step; every filter of up to three conditions on every '
        'assignment of flags to a deck; every flag of every variable is set alone and among all others; a state is the full flag assignment')
BOUNDS = {'quick': '5 flags x 4 values, sequences of 3; decks of up to 4 reports x 3 flag states each', 'thorough': 'sequences of 4; decks of 5'}
FLAGS = [('SST', 'bud'), ('SST', 'clim'), ('POS', 'bud'), ('AT2', 'noval'), ('AT', '2noval')]
VALUES = [0, 1, 5, 9]
BADV = [-1, 10, 'x', None]
BADT = ['DAT', 'XYZ', '']


def getall(r):
    return [r.get_qc(*f) for f in FLAGS]


def gen_store(tier):
    n = 3 if tier == 'quick' else 4
    ops = [('set', i, v) for i in range(len(FLAGS)) for v in VALUES]
    ops += [('badv', i, v) for i in range(2) for v in BADV] + [('badt', t, 0) for t in BADT]
    for first in ops:
        for second in ops:
            yield [n, list(first), list(second)]


def apply_op(r, op, model):
    k, a, v = op
    if k == 'set':
        r.set_qc(FLAGS[a][0], FLAGS[a][1], v)
        model[FLAGS[a]] = v
        return None
    if k == 'badv':
        return isinstance(attempt(r.set_qc, FLAGS[a][0], FLAGS[a][1], v), Raised)
    return isinstance(attempt(r.set_qc, a, 'noval', v), Raised)


def run_store(case, R):
    n, first, second = case
    ops = [('set', i, v) for i in range(len(FLAGS)) for v in VALUES] + [('badv', 0, 10), ('badt', 'DAT', 0)]
    for rest in itertools.product(ops, repeat=n - 2):
        seq = [tuple(first), tuple(second)] + list(rest)
        r, other = report(), report(ID='OTHER    ')
        v = ex.Voyage()
        v.add_report(other)
        v.add_report(r)
        model = {}
        R.trace()
        for op in seq:
            res = apply_op(r, op, model)
            R.trans()
            want = [model.get(f, 9) for f in FLAGS]
            R.true('refused %r' % (seq,), res in (None, True), 'a flag value outside 0-9 or an unknown variable was accepted', op=op)
            R.eq('flags %r' % (seq,), getall(r), want, 'flags after a sequence of operations')
            R.state(tuple(want))
            R.outcome('set' if res is None else 'refused')
        R.eq('voyage flags %r' % (seq,), [v.get_qc(1, *f) for f in FLAGS], want, 'flags seen through the voyage')
        R.eq('other flags %r' % (seq,), getall(other), [9] * len(FLAGS), 'flags of another report')


# ------------------------------------------------------------------------------------ voyages and decks

def gen_deck(tier):
    n = 3 if tier == 'quick' else 4
    ops = [('v', p, f, x) for p in range(3) for f in (0, 1) for x in (0, 1)] + [('d', 0, f, x) for f in (0, 1) for x in (0, 1)]
    for first in ops:
        yield [n, list(first)]


def run_deck(case, R):
    n, first = case
    ops = [('v', p, f, x) for p in range(3) for f in (0, 1) for x in (0, 1)] + [('d', 0, f, x) for f in (0, 1) for x in (0, 1)]
    for rest, flt in itertools.product(itertools.product(ops, repeat=n - 1), (None, 0, 1, 9)):
        reps = [report(UID='U%d' % i, HR=float(i)) for i in range(3)]
        v, d = ex.Voyage(), ex.Deck()
        for r in reps:
            v.add_report(r)
            d.append(r)
        if flt is not None:       # flags are set on every report of a deck, whatever its filter
            q = ex.QC_filter()
            q.add_qc_filter(FLAGS[0][0], FLAGS[0][1], flt)
            d.add_filter(q)
        model = [{}, {}, {}]
        R.trace()
        for k, p, f, x in [tuple(first)] + list(rest):
            R.trans()
            if k == 'v':
                v.set_qc(p, FLAGS[f][0], FLAGS[f][1], x)
                model[p][f] = x
            else:
                d.set_qc(FLAGS[f][0], FLAGS[f][1], x)
                for m in model:
                    m[f] = x
            want = [[m.get(i, 9) for i in (0, 1)] for m in model]
            got = [[r.get_qc(*FLAGS[i]) for i in (0, 1)] for r in reps]
            R.eq('deck flags %r %s' % ([tuple(first)] + list(rest), flt), got, want, 'flags set through a voyage and a deck')
            R.state(('d', repr(want)))


# ------------------------------------------------------------------------------------ filters
CONDS = [(f, v) for f in (0, 1, 2) for v in (0, 1, 9)]


def filters():
    out = [[]]
    for n in (1, 2, 3):
        out += [list(c) for c in itertools.combinations(CONDS, n)]
    return out


def gen_filter(tier):
    for i in range(len(filters())):
        yield [tier, i]


def passes(flt, fl):
    return all(fl.get(f, 9) == v for f, v in flt)


def mkrep(i, fl, same=False):
    r = report(UID='U%d' % i, HR=0.0 if same else float(i), ID='A' * 9 if same else 'AB'[i % 2] * 9)
    for f, v in fl.items():
        r.set_qc(FLAGS[f][0], FLAGS[f][1], v)
    return r


ASSIGN = [{}] + [{f: v} for f in (0, 1, 2) for v in (0, 1)] + [{0: a, 1: b} for a in (0, 1) for b in (0, 1)] + [
    {0: a, 1: b, 2: c} for a in (0, 1) for b in (0, 1) for c in (0, 1)]


def run_filter(case, R):
    tier, i = case
    flt = filters()[i]
    q = ex.QC_filter()
    for f, v in flt:
        q.add_qc_filter(FLAGS[f][0], FLAGS[f][1], v)
    for a in ASSIGN:
        w = passes(flt, a)
        R.eq('filter %r on %r' % (flt, a), attempt(q.test_report, mkrep(0, a)), 0 if w else 1, 'a report passes a filter exactly when every condition holds')
        R.state((i, repr(a)))
        R.outcome('pass' if w else 'fail')
    if len(flt) > 2:
        return
    n = 4 if tier == 'quick' else 5
    small = [{}, {0: 0, 1: 0}, {0: 0, 1: 1, 2: 9}]
    for k in range(n + 1):
        for combo, same in itertools.product(itertools.product(range(3), repeat=k), (False, True)):
            d = ex.Deck()
            for j, c in enumerate(combo):
                d.append(mkrep(j, small[c], same))
            d.add_filter(q)
            # deck iteration only returns passing reports
            got = []
            for voy in d.get_one_platform_at_a_time():
                ids = [r.getvar('ID') for r in voy.rep_feed()]
                R.true('one id %r %d' % (combo, same), len(set(ids)) <= 1, 'a voyage of one platform holds another identifier')
                got += [r.getvar('UID') for r in voy.rep_feed()]
            want = ['U%d' % j for j, c in enumerate(combo) if passes(flt, small[c])]
            R.eq('iterate %r %r %d' % (flt, combo, same), sorted(got), sorted(want), 'reports handed out by a filtered deck')
            p, f = q.split_reports(d)
            gp, gf = [[r.getvar('UID') for r in x.reps] for x in (p, f)]
            R.eq('split %r %r %d' % (flt, combo, same), [gp, gf], [want, ['U%d' % j for j in range(k) if 'U%d' % j not in want]],
                 'splitting keeps every report once, in order, on the right side')
            R.eq('split flags %r %r %d' % (flt, combo, same), [[r.get_qc(*FLAGS[z]) for z in (0, 1, 2)] for x in (p, f) for r in x.reps],
                 [[small[combo[int(u[1:])]].get(z, 9) for z in (0, 1, 2)] for u in gp + gf], 'splitting leaves flags alone')
            R.trace()
            R.trans(k)
            R.state((i, combo, same))


# ------------------------------------------------------------------------------------ no two flags share a place

TYPES = ['POS', 'SST', 'AT', 'AT2', 'DPT', 'SLP', 'W', 'WI', 'D', 'DI', 'SHU', 'CRH', 'DS', 'VS', 'WW', 'LAT', 'LON', 'HR']
NAMES = ['noval', 'clim', 'nonorm', 'hardlimit', 'bud', 'bbud', 'rep', 'round', 'spike', 'day', 'trk', 'few', 'time', 'date', 'pos', 'blklst', 'isship', 'isbuoy', 'iquam_track',
         'mat_blacklist', 'ssat', 'repsat', 'drf_agr', 'drf_spd', 'drf_tail1', 'drf_tail2', 'drf_bias', 'drf_noise', 'drf_short', 'Noval', '2noval', '']


def gen_places(tier):
    for t in TYPES:
        yield t


def run_places(t, R):
    everything = [(a, b) for a in TYPES for b in NAMES]
    for n in NAMES:
        r = report()
        r.set_qc(t, n, 1)
        bad = [f for f in everything if r.get_qc(*f) != (1 if f == (t, n) else 9)]
        R.true('alone %s %r' % (t, n), not bad, 'a flag set for one variable was found under another name', flags=bad[:5])
        for f in everything:
            r.set_qc(f[0], f[1], 5)
        r.set_qc(t, n, 0)
        bad = [f for f in everything if r.get_qc(*f) != (0 if f == (t, n) else 5)]
        R.true('among others %s %r' % (t, n), not bad, 'setting one flag changed another', flags=bad[:5])
        R.state((t, n))
        R.trans(2 + len(everything))


SUBS = [Sub('places', gen_places, run_places), Sub('store', gen_store, run_store), Sub('voyage and deck', gen_deck, run_deck), Sub('filters', gen_filter, run_filter)]
