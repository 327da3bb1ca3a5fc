"""Runs of saturated reports, rounded values and repeated values in a voyage"""
import itertools

from mc.engine import Sub, attempt, Raised
from mc.marine import report
import Extended_IMMA as ex

PROPERTY = 'C18'
LEVEL = 'exploration'
RULE = ('every saturation pattern (saturated / not / missing) of a voyage x spacing x run limits; every assignment of a small value alphabet '
        'with missing to a voyage x count limit x fraction, for every variable; each flag compared with its definition')
BOUNDS = {'quick': 'voyages of up to 8 (saturation) and 5 (values) reports; voyages of up to 70 with every number of two repeated values', 'thorough': 'up to 10 and 7'}


def gen_sat(tier):
    for n in range(0, (8 if tier == 'quick' else 10) + 1):
        for pre in itertools.product(range(3), repeat=max(0, n - 5)):
            yield [n, list(pre)]


def run_sat(case, R):
    n, pre = case
    for rest in itertools.product(range(3), repeat=n - len(pre)):
        pat = list(pre) + list(rest)
        if pat.count(2) > 2:
            continue
        for step, hole in ((24.0, None), (12.0, None), (11.875, None), (12.0, 2)):
            reps, v, t = [], ex.Voyage(), 0.0
            for i, s in enumerate(pat):
                at, dp = [(15.0, 12.5), (15.0, 15.0), (None, None if i % 2 else 15.0)][s]
                h = None if i == hole else t % 24
                r = report(YR=2003, MO=3, DY=20 + int(t // 24), HR=h, AT=at, DPT=dp, UID='U%d' % i)
                r.set_qc('DPT', 'repsat', 1)
                v.add_report(r)
                reps.append((s == 1, None if h is None else t))
                t += step
            for short, mint in ((1, 24.0), (2, 48.0), (4, 48.0), (3, 36.0)):
                want = [0] * n
                i = 0
                while i < n:
                    if not reps[i][0]:
                        i += 1
                        continue
                    j = i
                    while j + 1 < n and reps[j + 1][0]:
                        j += 1
                    a, b = reps[i][1], reps[j][1]
                    if j - i + 1 > short and a is not None and b is not None and b - a >= mint:
                        want[i:j + 1] = [1] * (j - i + 1)
                    i = j + 1
                r = attempt(v.find_saturated_runs, {'min_time_threshold': mint, 'shortest_run': short})
                got = r if isinstance(r, Raised) else [v.get_qc(k, 'DPT', 'repsat') for k in range(n)]
                R.eq('sat %r %s %s %d %s' % (pat, step, hole, short, mint), got, want, 'persistent saturation flags')
                R.state(('sat', tuple(pat), step, hole, short, mint))
                R.outcome('sat %d of %d' % (sum(want), n))


VALS = [[None, 10.0, 10.5, 11.0, -2.0], [None, 10.0, 10.0625, 10.03125, -0.03125], [None, 0.0, 0.5, 100.0, -0.5]]     # the second: close together


def gen_val(tier):
    for n in range(0, (5 if tier == 'quick' else 7) + 1):
        for pre in itertools.product(range(5), repeat=max(0, n - 3)):
            yield [n, list(pre), 0]
            if n <= 4 or tier != 'quick':
                yield [n, list(pre), 1]
                yield [n, list(pre), 2]


def run_val(case, R):
    n, pre, fine = case
    VAL = VALS[fine]
    for rest in itertools.product(range(5), repeat=n - len(pre)):
        vals = [VAL[k] for k in list(pre) + list(rest)]
        have = [x for x in vals if x is not None]
        v = ex.Voyage()
        names = ['SST', 'AT', 'AT2', 'DPT', 'SLP']
        for i in range(n):
            d = {'SST': 7.5, 'AT': 7.5, 'AT2': 7.5, 'DPT': 7.5, 'SLP': 7.5}
            v.reps.append(report(UID='U%d' % i, **d))
        for q, name in enumerate(names if n <= 3 else names[sum(list(pre)) % 5:][:1]):
            for i in range(n):
                v.setvar(i, name, vals[i])
            for minc in (0, 2, 3):
                for th in (0.0, 0.5, 0.7, 1.0):
                    v2 = [0] * n
                    if len(have) > minc:
                        v2 = [int(x is not None and have.count(x) / float(len(have)) > th) for x in vals]
                    for i in range(n):
                        v.set_qc(i, name, 'rep', 1)
                    r = attempt(v.find_repeated_values, {'min_count': minc, 'threshold': th}, name)
                    got = r if isinstance(r, Raised) else [v.get_qc(k, name, 'rep') for k in range(n)]
                    R.eq('rep %s %r %d %s' % (name, vals, minc, th), got, v2, 'repeated value flags')
                    R.state(('rep', name, tuple(vals), minc, th))
                    R.outcome('rep %d of %d' % (sum(v2), n))
                    if name == 'SLP':
                        continue
                    w = sum(1 for x in have if x == int(x))
                    if have and abs(w / float(len(have)) - th) < 1e-9:
                        R.outcome('exactly at the fraction')
                        continue
                    v2 = [0] * n
                    if len(have) > minc and w / float(len(have)) > th:
                        v2 = [int(x is not None and x == int(x)) for x in vals]
                    for i in range(n):
                        v.set_qc(i, name, 'round', 1)
                    if name == 'DPT':
                        r = attempt(v.find_multiple_rounded_values, {'min_count': minc, 'threshold': th})
                    else:
                        r = attempt(v.find_multiple_rounded_values, {'min_count': minc, 'threshold': th}, name)
                    got = r if isinstance(r, Raised) else [v.get_qc(k, name, 'round') for k in range(n)]
                    R.eq('round %s %r %d %s' % (name, vals, minc, th), got, v2, 'rounded value flags')
                    R.outcome('round %d of %d' % (sum(v2), n))
        if n:
            for name in ('LAT', 'W', 'XX'):
                R.true('bad type %s' % name, isinstance(attempt(v.find_repeated_values, {'min_count': 0, 'threshold': .5}, name), Raised), 'an unsupported variable was accepted')


# ------------------------------------------------------------------------------------ long voyages

def gen_long(tier):
    for n in (20, 21, 50, 70) if tier == 'quick' else (20, 21, 22, 50, 51, 70, 150):
        for a in range(0, n + 1, 1 if n < 40 or tier != 'quick' else 7):
            yield [n, a]


def run_long(case, R):
    """a reports of one kind, then some of a second, the rest all different; the kinds together, or spread over the voyage"""
    n, a = case
    for b in range(0, n - a + 1, 1 if n < 40 else 5):
        for spread in (1, 3, 7):
            kinds = [0] * a + [1] * b + list(range(2, n - a - b + 2))
            kinds = [kinds[(i * spread) % n] for i in range(n)] if n % spread else kinds
            v = ex.Voyage()
            vals = [15.0 if k == 0 else 12.5 if k == 1 else 0.25 + k / 8. for k in kinds]
            for i in range(n):
                v.add_report(report(YR=2003, MO=3, DY=1 + i // 4, HR=6.0 * (i % 4), AT=vals[i], DPT=vals[i] if kinds[i] < 2 else vals[i] - 1.0, UID='U%d' % i))
            key = 'long %r %d %d' % (case, b, spread)
            for minc, th in ((20, 0.7), (20, 0.5), (0, 0.3), (45, 0.5)):
                want = [int(n > minc and vals.count(x) / float(n) > th) for x in vals]
                r = attempt(v.find_repeated_values, {'min_count': minc, 'threshold': th}, 'AT')
                R.eq('%s rep %d %s' % (key, minc, th), r if isinstance(r, Raised) else [v.get_qc(k, 'AT', 'rep') for k in range(n)], want, 'repeated value flags')
                w = sum(1 for x in vals if x == int(x))
                if abs(w / float(n) - th) > 1e-9:
                    want = [int(n > minc and w / float(n) > th and x == int(x)) for x in vals]
                    r = attempt(v.find_multiple_rounded_values, {'min_count': minc, 'threshold': th}, 'AT')
                    R.eq('%s round %d %s' % (key, minc, th), r if isinstance(r, Raised) else [v.get_qc(k, 'AT', 'round') for k in range(n)], want, 'rounded value flags')
            for short, mint in ((4, 48.0), (1, 6.0), (20, 120.0)):
                want, i = [0] * n, 0
                while i < n:
                    j = i
                    while j + 1 < n and kinds[i] < 2 and kinds[j + 1] < 2:
                        j += 1
                    if kinds[i] < 2 and j - i + 1 > short and (j - i) * 6.0 >= mint:
                        want[i:j + 1] = [1] * (j - i + 1)
                    i = j + 1
                r = attempt(v.find_saturated_runs, {'min_time_threshold': mint, 'shortest_run': short})
                R.eq('%s sat %d' % (key, short), r if isinstance(r, Raised) else [v.get_qc(k, 'DPT', 'repsat') for k in range(n)], want, 'persistent saturation flags')
            R.state((tuple(case), b, spread))
            R.outcome('long')


SUBS = [Sub('saturation', gen_sat, run_sat), Sub('values', gen_val, run_val), Sub('long', gen_long, run_long)]
