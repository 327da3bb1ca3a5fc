"""Tail check of drifting buoys: bad SST at the start and at the end of a record"""
import itertools

import trackqc
from mc import drift
from mc.engine import Sub, attempt, Raised

PROPERTY = 'C23'
LEVEL = 'model_checking'
RULE = ('every record over an alphabet of kinds of report (good, biased, noisy, daytime, icy, no background, unreliable background ...) x window, limit and count '
        'parameters, on the real voyage, compared with a reference that scans windows inwards from either end; long records combine every sequence of stretches with '
        'the default windows; windows whose statistics lie 0.2% inside and outside every limit; tails of bad reports at every quarter of an hour around the day; the few reports left between two biased stretches; every combination of reasons not to use a report; a state is the record with the two flag vectors')
BOUNDS = {'quick': 'records of up to 6 reports of 5 kinds and up to 4 of 9 kinds, 5 parameter sets; records of up to 300 reports with defaults',
          'thorough': 'records of up to 7 of 5 kinds and 5 of 9 kinds; all combinations of five stretches with defaults'}
ASSUMPTIONS = ['records with a statistic within 1e-6 of a limit are not judged']

KEYS = ['long_win_len', 'long_err_std_n', 'short_win_len', 'short_err_std_n', 'short_win_n_bad', 'drift_inter', 'drif_intra', 'background_err_lim']
PAR = [dict(zip(KEYS, p)) for p in ((3, 3.0, 2, 3.0, 2, 0.29, 1.0, 0.3), (1, 3.0, 1, 1.0, 1, 0.29, 1.0, 0.3), (5, 3.0, 3, 1.0, 1, 0.29, 1.0, 0.6),
                                    (3, 1.0, 3, 1.5, 2, 0.5, 0.25, 0.3), (7, 3.0, 2, 1.0, 1, 0.29, 1.0, 0.3))]
DEFAULT = dict(zip(KEYS, (121, 3.0, 30, 3.0, 2, 0.29, 1.0, 0.3)))


def judge(R, key, seq, P, want, v, r):
    got = r if isinstance(r, Raised) else ([q.get_qc('SST', 'drf_tail1') for q in v.reps], [q.get_qc('SST', 'drf_tail2') for q in v.reps])
    R.eq(key, got, want, 'start and end tail flags', record=''.join(seq)[:60])
    R.trace()
    R.trans(len(seq))
    R.state((key, tuple(want[0]), tuple(want[1])))
    R.outcome('%s%s' % ('start ' if any(want[0]) else '', 'end' if any(want[1]) else '') or 'none')


def one(R, key, seq, P, lon):
    try:
        want = drift.tails(seq, P)
    except drift.Ambiguous:
        R.outcome('ambiguous')
        return
    v = drift.sst_voyage(seq, lon)
    for i, q in enumerate(v.reps):
        q.set_qc('SST', 'drf_tail1', (7, 1, 0)[i % 3])
        q.set_qc('SST', 'drf_tail2', (1, 7, 0)[i % 3])
    judge(R, key, seq, P, want, v, attempt(v.buoy_tail_check, P))
    if P is DEFAULT:
        for i, q in enumerate(v.reps):
            q.set_qc('SST', 'drf_tail1', (0, 7, 1)[i % 3])
            q.set_qc('SST', 'drf_tail2', (1, 7, 0)[i % 3])
        judge(R, 'default ' + key, seq, P, want, v, attempt(trackqc.sst_tail_check, v.reps))


def gen(tier):
    for letters, nmax in (('gbndu', 6 if tier == 'quick' else 7), ('gbndulihem', 4 if tier == 'quick' else 5)):
        for n in range(0, nmax + 1):
            for pre in itertools.product(letters, repeat=max(0, n - 2)):
                yield [letters, n, ''.join(pre)]


def run(case, R):
    letters, n, pre = case
    for rest in itertools.product(letters, repeat=n - len(pre)):
        seq = pre + ''.join(rest)
        if letters != 'gbndu' and not set(seq) - set('gbndu'):
            continue
        for k, P in enumerate(PAR):
            if n > 4 and (k + len(set(seq)) + seq.count('b')) % (2 if n == 5 else 5):
                continue
            one(R, '%s %d' % (seq, k), seq, P, (0.0, 179.75)[(k + n) % 2])


# ------------------------------------------------------------------------------------ long records

def gen_long(tier):
    kinds = {'g': 'g', 'b': 'b', 's': 'gn', 'x': 'nb', 'u': 'u', 'd': 'd', 'w': 'gcgv'}
    lens = [40, 130] if tier == 'quick' else [15, 40, 130]
    m = 3
    for ks in itertools.product('gbsw' if tier == 'quick' else 'gbsxw', repeat=m):
        if any(a == b for a, b in zip(ks, ks[1:])):
            continue
        for ls in itertools.product(lens, repeat=m):
            yield [[kinds[k] for k in ks], list(ls)]
    for k in ('u', 'd'):
        for ls in itertools.product((3, 40, 130), repeat=m):
            for a, b in (('b', 'g'), ('g', 'gn'), ('nb', 'b')):
                yield [[a, kinds[k], b], list(ls)]
                yield [[kinds[k], a, b], list(ls)]
    for n in (29, 30, 31, 119, 120, 121, 122):
        for k in ('b', 'nb', 'gn', 'g'):
            yield [[k], [n]]
            yield [['n', k], [1, n - 1]]


def run_long(case, R):
    ks, ls = case
    seq = ''.join((k * n)[:n] for k, n in zip(ks, ls))
    one(R, 'long %s %s' % ('-'.join(ks), ls), seq, DEFAULT, 0.0)
    if ls[0] < 100:
        return
    try:
        want = drift.tails(seq, DEFAULT)
    except drift.Ambiguous:
        return
    v = drift.sst_voyage(seq, 0.0)
    judge(R, 'default %s %s' % ('-'.join(ks), ls), seq, DEFAULT, want, v, attempt(trackqc.sst_tail_check, v.reps))


# ------------------------------------------------------------------------------------ limits

LIM = [PAR[0], PAR[3], DEFAULT, dict(zip(KEYS, (9, 2.0, 4, 2.5, 3, 0.0, 1.5, 0.3))), dict(zip(KEYS, (5, 2.5, 3, 2.0, 1, 0.75, 0.25, 0.3)))]


def gen_lim(tier):
    for p in range(len(LIM)):
        for m in range(len(drift.MIX)):
            for f in (0.998, 1.002) if tier == 'quick' else (0.95, 0.99, 0.998, 0.9995, 1.0005, 1.002, 1.01, 1.05):
                yield [p, m, f]


def run_lim(case, R):
    """windows whose mean, spread or count of anomalies lies just within or just outside the limits"""
    p, m, f = case
    P, mix = LIM[p], drift.MIX[m]
    var = lambda i: mix[i % len(mix)]
    L, S = P['long_win_len'], P['short_win_len']

    def both(key, anoms, Q=P, extra=()):
        seq = [drift.letter(a, var(i)) for i, a in enumerate(anoms)]
        for i, k in extra:
            seq[i] = k
        one(R, '%s %r' % (key, case), ''.join(seq), Q, 0.0)
        one(R, '%s %r back' % (key, case), ''.join(seq[::-1]), Q, 0.0)

    noshort = dict(P, short_win_len=10001)
    big = L > 50
    nolong = P if big else dict(P, long_win_len=10001)
    for n in (L, L + 1) if big else (L - 1, L, L + 1, L + 4):
        for tail in (0, 1, L // 2, L + 2):
            bm = sum(var(i) ** 0.5 for i in range(L)) / L
            lim = P['long_err_std_n'] * (P['drift_inter'] ** 2 + bm ** 2) ** 0.5
            for sign in (1, -1):
                both('mean %d %d %d' % (n, tail, sign), [sign * lim * f] * n + [0.0] * tail, noshort)
            lim = (P['drif_intra'] ** 2 + sum(var(i) for i in range(L)) / L) ** 0.5
            pat = [(-1) ** i * (1 + (i % 3) / 8.0) for i in range(n + tail)]
            mean, sd = drift.robust(pat[:L], 100)
            x = [(y - mean) * lim * f / sd for y in pat]
            both('spread %d %d' % (n, tail), x[:n] + [0.0] * tail, noshort)
    for n in (S, S + 3) if big else (S - 1, S, S + 1, S + 3):
        for k in range(max(0, P['short_win_n_bad'] - 1), P['short_win_n_bad'] + 2):
            for at in (0, 1, S - 1):
                for sign in (1, -1):
                    a = [0.0] * (n + S)
                    for i in range(at, min(at + k, len(a))):
                        a[i] = (sign if i % 2 else 1) * P['short_err_std_n'] * (var(i) + P['drift_inter'] ** 2 + P['drif_intra'] ** 2) ** 0.5 * f
                    both('short %d %d %d %d' % (n, k, at, sign), a, nolong)
    for n in (S, S + 2):
        for at in (0, 1, S - 1, S):
            for what in ((0.0, P['background_err_lim'] * f), (0.15 * f, 0.01)):
                both('edge %d %d %r' % (n, at, what), [9.0] * n + [0.0] * S, nolong, [(at, drift.letter(-9.0, what[1], what[0]))])
                if not big:
                    both('edge long %d %d %r' % (n, at, what), [9.0] * (L + n) + [0.0] * L, noshort, [(at, drift.letter(-9.0, what[1], what[0]))])
                    both('edge long2 %d %d %r' % (n, at, what), [9.0] * (L + n) + [0.0] * L, noshort, [(at + L // 2, drift.letter(20.0, what[1], what[0]))])


def gen_rest(tier):
    for a in range(0, 5):
        for b in range(0, 4 if tier == 'quick' else 6):
            for pre in itertools.product('gcvb', repeat=2):
                yield [a, b, ''.join(pre)]


def run_rest(case, R):
    """biased stretches at either end, and what the short windows make of the few reports left between them"""
    a, b, pre = case
    for rest in itertools.product('gcvb', repeat=3):
        seq = 'b' * a + pre + ''.join(rest) + 'n' * b
        for k in ((2, 1), (2, 2), (2, 3), (4, 1)):
            P = dict(PAR[k[0]], short_win_n_bad=k[1])
            if k[0] == 4:
                P['long_win_len'], P['short_win_len'] = 3, 2
            one(R, 'rest %s %r' % (seq, k), seq, P, 0.0)


def gen_day(tier):
    for lon in (0.0, 100.25, 179.75, -179.5, -60.5):
        for k in range(0, 96 if tier == 'quick' else 24 * 15):
            yield [k * 0.25 if tier == 'quick' else k / 15.0, lon]


def run_day(case, R):
    """which reports are daytime ones: bad reports, then good ones, at any hour of the day"""
    for bad, good in ((1, 3), (2, 3), (3, 4)):
        sp = drift.spots(case, bad + good)
        if sp is None:
            R.outcome('ambiguous')
            return
        up = [u for _, u in sp]
        seq = ''.join(drift.letter(9.0 if i < bad else 0.0, 0.01, 0.0, True, u) for i, u in enumerate(up))
        for P in (PAR[0], PAR[1], PAR[4]):
            want = drift.tails(seq, P)
            v = drift.sst_voyage(seq, times=[s for s, _ in sp])
            judge(R, 'day %r %d/%d %d' % (case, bad, good, PAR.index(P)), seq, P, want, v, attempt(v.buoy_tail_check, P))


# ------------------------------------------------------------------------------------ scope

def gen_misc(tier):
    yield ['platforms']
    yield ['order']
    yield ['refuse']
    yield ['missing']
    yield ['trim']


def run_misc(case, R):
    seq, P = 'bbbggggg', PAR[0]
    want = drift.tails(seq, P)
    flags = lambda v: ([q.get_qc('SST', 'drf_tail1') for q in v.reps], [q.get_qc('SST', 'drf_tail2') for q in v.reps])
    if case[0] == 'platforms':
        for pt in (None, 0, 5, 6, 7, 8):
            v = drift.sst_voyage(seq, pt=pt)
            v.buoy_tail_check(P)
            R.eq('pt %s' % pt, flags(v), want if pt == 7 else ([9] * 8, [9] * 8), 'only drifters are checked')
            R.state(('pt', pt))
    elif case[0] == 'order':
        for order in itertools.permutations(range(5)):
            v = drift.sst_voyage('nnggg', order=order)
            r = attempt(v.buoy_tail_check, dict(P, long_win_len=1, short_win_len=9))
            R.eq('order %r' % (order,), r if isinstance(r, Raised) else {q.getvar('UID'): q.get_qc('SST', 'drf_tail1') for q in v.reps}, {'U%03d' % i: int(i < 2) for i in range(5)}, 'reports out of order')
            R.state(('order', order))
    elif case[0] == 'refuse':
        for k, b in [(k, -1) for k in KEYS] + [('long_win_len', 0), ('long_win_len', 2), ('short_win_len', 0), ('short_win_n_bad', 0)]:
            r = attempt(drift.sst_voyage(seq).buoy_tail_check, dict(P, **{k: b}))
            R.true('refuse %s %r' % (k, b), isinstance(r, Raised) and r.kind == 'AssertionError', 'invalid parameters accepted')
            R.state(('refuse', k, b))
    elif case[0] == 'missing':
        for i in range(8):
            for name, bad in (('OSTIA', [-5.5, 45.5]), ('ICE', [-0.25, 1.25]), ('BGVAR', [-0.25, 10.5, None])):
                for b in bad:
                    v = drift.sst_voyage(seq)
                    v.reps[i].setext(name, b)
                    R.true('bad %s %r %d' % (name, b, i), isinstance(attempt(v.buoy_tail_check, P), Raised), 'impossible match accepted')
                    R.state((name, b, i))
    else:
        for n in range(1, 7):
            for vals in itertools.product((-2.0, 0.0, 0.5, 3.0), repeat=n):
                for trim in (0, 3, 4, 5, 10):
                    m, s = drift.robust(vals, trim)
                    R.eq('trim mean %r %d' % (vals, trim), attempt(trackqc.trim_mean, list(vals), trim), m, 'trimmed mean', tol=1e-9)
                    R.eq('trim std %r %d' % (vals, trim), attempt(trackqc.trim_std, list(vals), trim), s, 'trimmed standard deviation', tol=1e-9)
                R.state(('trim', vals))


# ------------------------------------------------------------------------------------ reasons not to use a report

REASONS = [drift.letter(20.0, v, c, land, day) for v in (None, 0.5, 0.75) for c in (0.0, None, 0.15, 0.1875, 1.0) for land in (True, False, 'var') for day in (False, True)]


def gen_why(tier):
    for i in range(len(REASONS)):
        for base in ('ggg', 'bbb', 'ngn', 'bgg', 'gb', 'nn') + (() if tier == 'quick' else ('bbbb', 'gggg', 'gnng', 'bgbg')):
            yield [i, base]


def run_why(case, R):
    """every combination of reasons why a report cannot be compared with its background, for one or two reports at any place of a record"""
    i, base = case
    for at in range(len(base) + 1):
        for j in [None] + list(range(3, len(REASONS), 29)):
            seq = base[:at] + REASONS[i] + base[at:] + (REASONS[j] if j is not None else '')
            for k, P in enumerate(PAR):
                one(R, 'reasons %s %d %s %d %s' % (base, at, i, k, j), seq, P, 0.0)


SUBS = [Sub('records', gen, run), Sub('long records', gen_long, run_long, 120), Sub('limits', gen_lim, run_lim), Sub('rest', gen_rest, run_rest), Sub('daylight', gen_day, run_day), Sub('scope', gen_misc, run_misc), Sub('reasons', gen_why, run_why)]
