"""A deck hands out every (passing) report once, by identifier, whatever was done to it before"""
import itertools

import Extended_IMMA as ex
from mc.engine import Sub
from mc.marine import report
from mc import sphere

PROPERTY = 'C15'
LEVEL = 'model_checking'
RULE = ('every sequence of deck operations (append one of four kinds of report, sort, re-index, pop first/second/last, set a filter, flag the '
        'newest report, give it another identifier, iterate) up to the bound, replayed on the real deck and compared with a list model; a state is the model list + filter')
BOUNDS = {'quick': 'all sequences of 5 operations out of 13; decks of up to 130 identifiers and 910 reports in 3 orders', 'thorough': 'all sequences of 7 operations'}

KINDS = [('AAA      ', 5, 6.0), ('AAA      ', 4, 18.0), ('B        ', 5, 6.0), (None, 3, 0.0)]
OPS = ['a0', 'a1', 'a2', 'a3', 'sort', 'index', 'p0', 'p1', 'pl', 'filter', 'flag', 'iterate', 'rename']


def gen(tier):
    n = 5 if tier == 'quick' else 7
    for k in range(0, 3):
        for pre in itertools.product(range(len(OPS)), repeat=k):
            if pre and pre[0] not in (0, 1, 2, 3):
                continue
            yield [k, list(pre)]
    for pre in itertools.product(range(len(OPS)), repeat=3):
        if pre[0] in (0, 1, 2, 3):
            yield [n, list(pre)]


def okey(m):
    return (m['kind'][0] is not None, m['kind'][0] or '', m['kind'][1], m['kind'][2])


def check(R, key, d, model, filt):
    got, ids, bad = {}, [], []
    for v in d.get_one_platform_at_a_time():
        x = [r.getvar('UID') for r in v.rep_feed()]
        w = set(r.getvar('ID') for r in v.rep_feed())
        if len(w) > 1:
            bad.append(('two identifiers in a voyage', sorted(map(str, w))))
        for i in w:
            if i in got:
                bad.append(('two voyages of one identifier', str(i)))
            got[i] = x
        if any(r.getext('distance') is None for r in list(v.rep_feed())[1:]):
            bad.append('derived motion missing')
    want = {}
    for m in model:
        if not filt or m['flag'] == 0:
            want.setdefault(m['kind'][0], []).append(m['uid'])
    if got != want:
        bad.append((sorted(got.items(), key=repr), sorted(want.items(), key=repr)))
    if len(d) != len(model) or [r.getvar('UID') for r in d.reps] != [m['uid'] for m in model]:
        bad.append(('deck', [r.getvar('UID') for r in d.reps], [m['uid'] for m in model]))
    return R.true(key, not bad, 'reports handed out by identifier', wrong=bad)


def run(case, R):
    n, pre = case
    for rest in itertools.product(range(len(OPS)), repeat=max(0, n - len(pre))):
        seq = list(pre) + list(rest)
        if seq.count(11) > 1 or (seq and seq[-1] in (9, 5)):     # the final check iterates anyway
            if n > 3:
                continue
        d, model, filt, k = ex.Deck(), [], False, 0
        feasible = True
        for i, o in enumerate(seq):
            op = OPS[o]
            if op[0] == 'a':
                kd = KINDS[int(op[1])]
                d.append(report(ID=kd[0], DY=kd[1], HR=kd[2], UID='U%d' % k, LAT=float(k)))
                d.reps[-1].set_qc('POS', 'trk', 0)
                model.append({'uid': 'U%d' % k, 'kind': kd, 'flag': 0})
                k += 1
            elif op == 'sort':
                d.sort()
                model.sort(key=okey)
            elif op == 'index':
                d.index_by_id()
            elif op[0] == 'p':
                pos = {'p0': 0, 'p1': 1, 'pl': len(model) - 1}[op]
                if pos >= len(model) or (op == 'pl' and pos < 2):
                    feasible = False
                    break
                r = d.pop(pos) if op != 'p0' else d.pop()
                m = model.pop(pos)
                R.eq('pop %r' % (seq[:i + 1],), r.getvar('UID'), m['uid'], 'report popped')
            elif op == 'filter':
                if filt:
                    feasible = False
                    break
                q = ex.QC_filter()
                q.add_qc_filter('POS', 'trk', 0)
                d.add_filter(q)
                filt = True
            elif op == 'flag':
                if not model or model[-1]['flag']:
                    feasible = False
                    break
                d.reps[-1].set_qc('POS', 'trk', 1)
                model[-1]['flag'] = 1
            elif op == 'rename':
                if not model or model[-1]['kind'][0] == KINDS[2][0]:
                    feasible = False
                    break
                d.reps[-1].setvar('ID', KINDS[2][0])
                model[-1]['kind'] = (KINDS[2][0],) + model[-1]['kind'][1:]
            else:
                check(R, 'deck %r' % (seq[:i + 1],), d, model, filt)
            R.trans()
        if not feasible:
            continue
        R.trace()
        check(R, 'deck %s' % ' '.join(OPS[o] for o in seq), d, model, filt)
        R.state((tuple((m['uid'], m['kind'], m['flag']) for m in model), filt))
        R.outcome('%d reports' % len(model))


# ------------------------------------------------------------------------------------ identifiers that look alike

ALIKE = ['AAA      ', 'aaa      ', ' AAA     ', 'AAA', 'AAA     B', 'AA A     ', '', '         ', None, '0', '00       ', '5151     ', '05151    ', '5151.0   ', 'NONE     ', 'None', 'PLAT     ']


def gen_alike(tier):
    for i in range(len(ALIKE)):
        for j in range(i + 1, len(ALIKE)):
            yield [i, j]


def run_alike(case, R):
    i, j = case
    for k in [None] + [x for x in range(len(ALIKE)) if x not in case]:
        for pattern in ('01', '011', '0101', '0012', '2010', '1202'):
            if k is None and '2' in pattern or k is not None and '2' not in pattern:
                continue
            d, model = ex.Deck(), []
            for n, c in enumerate(pattern):
                name = ALIKE[[i, j, k][int(c)]]
                d.append(report(ID=name, DY=3 + n, HR=6.0, UID='U%d' % n, LAT=float(n)))
                model.append({'uid': 'U%d' % n, 'kind': (name, 3 + n, 6.0), 'flag': 0})
            R.trace()
            R.trans(len(pattern))
            check(R, 'alike %d %d %s %s' % (i, j, k, pattern), d, model, False)
            d.sort()
            R.true('sorted %d %d %s %s' % (i, j, k, pattern), sorted(r.getvar('UID') for r in d.reps) == [m['uid'] for m in model], 'reports after sorting')
            model.sort(key=lambda m: [r.getvar('UID') for r in d.reps].index(m['uid']))
            check(R, 'alike sorted %d %d %s %s' % (i, j, k, pattern), d, model, False)
            R.state((i, j, k, pattern))


# ------------------------------------------------------------------------------------ many identifiers, many reports

def gen_many(tier):
    for ships in (1, 2, 7, 45, 130):
        for each in (1, 3, 50, 130) if ships < 8 else (1, 3):
            for order in ('by ship', 'round robin', 'backwards'):
                yield [ships, each, order]


def run_many(case, R):
    ships, each, order = case
    names = ['S%03d     ' % (7 * s % 1000) for s in range(ships)]
    todo = [(s, e) for s in range(ships) for e in range(each)]
    if order == 'round robin':
        todo.sort(key=lambda x: (x[1], x[0]))
    elif order == 'backwards':
        todo = todo[::-1]
    d, model = ex.Deck(), []
    for n, (s, e) in enumerate(todo):
        kd = (names[s], 1 + e // 12, float(2 * (e % 12)))
        d.append(report(ID=kd[0], DY=kd[1], HR=kd[2], UID='U%d' % n, LAT=float(s % 60)))
        d.reps[-1].set_qc('POS', 'trk', int(e % 4 == 3))
        model.append({'uid': 'U%d' % n, 'kind': kd, 'flag': int(e % 4 == 3)})
    for step in ('made', 'sorted', 'filtered'):
        if step == 'sorted':
            d.sort()
            model.sort(key=okey)
        elif step == 'filtered':
            q = ex.QC_filter()
            q.add_qc_filter('POS', 'trk', 0)
            d.add_filter(q)
        R.trans(len(model))
        R.trace()
        check(R, 'many %r %s' % (case, step), d, model, step == 'filtered')
        R.state((tuple(case), step))


SUBS = [Sub('deck', gen, run), Sub('alike', gen_alike, run_alike), Sub('many', gen_many, run_many)]
