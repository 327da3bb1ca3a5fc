"""Bias and noise check of drifting buoys: verdict on the record as a whole"""
import itertools

import trackqc
from mc import drift
from mc.engine import Sub, attempt, Raised

PROPERTY = 'C24'
LEVEL = 'model_checking'
RULE = ('every record over an alphabet of kinds of report (good, biased either way, noisy, daytime, icy, no background, unreliable background) x record-length, limit and '
        'count parameters, on the real voyage, compared with a reference verdict; records whose statistics lie 0.2% inside and outside every limit; biased reports at every quarter of an hour around the day; every combination of reasons not to use a report; a state is the record with its verdict')
BOUNDS = {'quick': 'records of up to 6 reports of 5 kinds and up to 4 of 10 kinds, 5 parameter sets; 28-40 reports with defaults', 'thorough': 'up to 7 and 5 reports'}
ASSUMPTIONS = ['records with a statistic within 1e-6 of a limit are not judged']

KEYS = ['n_eval', 'bias_lim', 'drif_intra', 'drif_inter', 'err_std_n', 'n_bad', 'background_err_lim']
PAR = [dict(zip(KEYS, p)) for p in ((3, 1.1, 1.0, 0.29, 3.0, 2, 0.3), (1, 0.5, 0.5, 0.29, 3.0, 2, 0.3), (4, 1.1, 1.0, 0.29, 1.0, 1, 0.6), (9, 1.1, 0.25, 0.5, 1.0, 3, 0.3),
                                    (9, 1.0, 1.0, 0.29, 3.0, 1, 0.3))]
DEFAULT = dict(zip(KEYS, (30, 1.10, 1.0, 0.29, 3.0, 2, 0.3)))
NAMES = ('drf_bias', 'drf_noise', 'drf_short')


def one(R, key, seq, P, lon=0.0, call=None):
    try:
        want = drift.bias_noise(seq, P)
    except drift.Ambiguous:
        R.outcome('ambiguous')
        return
    v = drift.sst_voyage(seq, lon)
    for i, q in enumerate(v.reps):
        for k, f in enumerate(NAMES):
            q.set_qc('SST', f, (7, 1, 0)[(i + k) % 3])
    r = attempt(v.buoy_bias_noise_check, P) if call is None else attempt(call, v.reps)
    got = r if isinstance(r, Raised) else [[q.get_qc('SST', f) for f in NAMES] for q in v.reps]
    R.eq(key, got, [list(want)] * len(seq), 'bias, noise and short-record flags', record=seq[:60])
    R.trace()
    R.trans(len(seq))
    R.state((key, want))
    R.outcome(want)


def gen(tier):
    for letters, nmax in (('gbnvu', 6 if tier == 'quick' else 7), ('gbnulihedm', 4 if tier == 'quick' else 5)):
        for n in range(0, nmax + 1):
            for pre in itertools.product(letters, repeat=max(0, n - 2)):
                yield [letters, n, ''.join(pre)]


def run(case, R):
    letters, n, pre = case
    for rest in itertools.product(letters, repeat=n - len(pre)):
        seq = pre + ''.join(rest)
        if letters != 'gbnvu' and not set(seq) - set('gbnu'):
            continue
        for k, P in enumerate(PAR):
            if n > 4 and (k + len(set(seq)) + seq.count('b')) % (2 if n == 5 else 5):
                continue
            one(R, '%s %d' % (seq, k), seq, P, (0.0, 179.75)[(k + n) % 2])


def gen_long(tier):
    for n in range(27, 41):
        for k in ('g', 'b', 'c', 'v', 'n', 'bg', 'nb', 'gn', 'cv', 'gggn', 'ggggggn'):
            yield [n, k, '']
            for x in 'ndiul':
                yield [n, k, x]


def run_long(case, R):
    n, k, x = case
    for where in (0, 13, n) if x else (0,):
        s = (k * n)[:n]
        seq = s[:where] + x + s[where:]
        one(R, 'long %d %s %s %d' % (n, k, x, where), seq, DEFAULT, call=trackqc.sst_biased_noisy_check)


def gen_lim(tier):
    for p in range(len(LIM)):
        for m in range(len(drift.MIX)):
            for f in (0.998, 1.002) if tier == 'quick' else (0.95, 0.99, 0.998, 0.9995, 1.0005, 1.002, 1.01, 1.05):
                yield [p, m, f]


LIM = [DEFAULT, PAR[0], PAR[1], PAR[3], dict(zip(KEYS, (6, 2.0, 1.5, 0.0, 2.0, 3, 0.3))), dict(zip(KEYS, (12, 0.3, 0.2, 0.75, 2.5, 1, 0.3)))]


def run_lim(case, R):
    """records whose bias, noise or anomalies lie just within or just outside the limits"""
    p, m, f = case
    P, mix = LIM[p], drift.MIX[m]
    var = lambda i: mix[i % len(mix)]
    make = lambda anoms: ''.join(drift.letter(a, var(i)) for i, a in enumerate(anoms))
    for n in range(P['n_eval'], P['n_eval'] + 4):
        for sign in (1, -1):
            for jit in (0.0, 0.03125):
                a = [sign * P['bias_lim'] * f + (jit if i % 2 else -jit) for i in range(n - n % 2)] + [sign * P['bias_lim'] * f] * (n % 2)
                one(R, 'bias %r %d %d %s' % (case, n, sign, jit), make(a), P)
        for off in (0.0, 0.25, -0.125):
            pat = [(-1) ** i * (1 + (i % 3) / 8.0) for i in range(n)]
            mean, sd = drift.robust(pat, 0)
            if sd == 0:
                continue
            lim = (P['drif_intra'] ** 2 + sum(var(i) for i in range(n)) / n) ** 0.5
            one(R, 'noise %r %d %s' % (case, n, off), make([off + (x - mean) * lim * f / sd for x in pat]), P)
    for n in range(1, min(P['n_eval'], 6)):
        for k in range(0, n + 1):
            for at in (0, n - k):
                for sign in (1, -1):
                    a = [0.0] * n
                    for i in range(at, at + k):
                        a[i] = (sign if i % 2 else 1) * P['err_std_n'] * (var(i) + P['drif_inter'] ** 2 + P['drif_intra'] ** 2) ** 0.5 * f
                    one(R, 'short %r %d %d %d %d' % (case, n, k, at, sign), make(a), P)
    for n in (P['n_eval'] - 1, P['n_eval'], P['n_eval'] + 1):
        for at in (0, n // 2, n - 1):
            # a report on the edge of the ice or of the background error that is accepted
            a = [P['bias_lim'] * 1.5 + 4.0] * n
            for what in ((0.0, P['background_err_lim'] * f), (0.15 * f, 0.01)):
                seq = list(make(a))
                if n > at >= 0:
                    seq[at] = drift.letter(-30.0, what[1], what[0])
                one(R, 'edge %r %d %d %r' % (case, n, at, what), ''.join(seq), P)


def gen_day(tier):
    for lon in (0.0, 100.25, 179.75, -179.5, -60.5):
        for k in range(0, 96 if tier == 'quick' else 24 * 15):
            yield [k * 0.25 if tier == 'quick' else k / 15.0, lon]


def run_day(case, R):
    """which reports are daytime ones: biased reports at any hour of the day"""
    for n in (3, 4, 5):
        sp = drift.spots(case, n)
        if sp is None:
            R.outcome('ambiguous')
            return
        seq = ''.join(drift.letter(2.0 + i / 4.0, 0.01, 0.0, True, up) for i, (_, up) in enumerate(sp))
        for P in (PAR[0], PAR[1], PAR[4]):
            want = drift.bias_noise(seq, P)
            v = drift.sst_voyage(seq, times=[s for s, _ in sp])
            r = attempt(v.buoy_bias_noise_check, P)
            got = r if isinstance(r, Raised) else [[q.get_qc('SST', f) for f in NAMES] for q in v.reps]
            R.eq('day %r %d %d' % (case, n, PAR.index(P)), got, [list(want)] * n, 'bias, noise and short-record flags', daytime=[u for _, u in sp])
            R.state(('day', tuple(case), n, PAR.index(P), want))


def gen_misc(tier):
    yield ['platforms']
    yield ['refuse']
    yield ['missing']
    yield ['order']


def run_misc(case, R):
    seq, P = 'bbbbb', PAR[0]
    if case[0] == 'platforms':
        for pt in (None, 0, 5, 6, 7, 8):
            v = drift.sst_voyage(seq, pt=pt)
            v.buoy_bias_noise_check(P)
            R.eq('pt %s' % pt, [[q.get_qc('SST', f) for f in NAMES] for q in v.reps], [[1, 0, 0] if pt == 7 else [9, 9, 9]] * 5, 'only drifters are checked')
            R.state(('pt', pt))
    elif case[0] == 'order':
        for order in itertools.permutations(range(4)):
            v = drift.sst_voyage('bdbb', order=order)
            r = attempt(v.buoy_bias_noise_check, P)
            R.eq('order %r' % (order,), r if isinstance(r, Raised) else [[q.get_qc('SST', f) for f in NAMES] for q in v.reps], [[1, 0, 0]] * 4, 'reports out of order')
            R.state(('order', order))
    elif case[0] == 'refuse':
        for k, b in [(k, -1) for k in KEYS] + [('n_eval', 0), ('n_bad', 0)]:
            r = attempt(drift.sst_voyage(seq).buoy_bias_noise_check, dict(P, **{k: b}))
            R.true('refuse %s %r' % (k, b), isinstance(r, Raised) and r.kind == 'AssertionError', 'invalid parameters accepted')
            R.state(('refuse', k, b))
    else:
        for i in range(5):
            for name, bad in (('OSTIA', [-5.5, 45.5]), ('ICE', [-0.25, 1.25]), ('BGVAR', [-0.25, None])):
                for b in bad:
                    v = drift.sst_voyage(seq)
                    v.reps[i].setext(name, b)
                    R.true('bad %s %r %d' % (name, b, i), isinstance(attempt(v.buoy_bias_noise_check, P), Raised), 'impossible match accepted')
                    R.state((name, b, i))


# ------------------------------------------------------------------------------------ reasons not to use a report

REASONS = [drift.letter(20.0, v, c, land, day) for v in (None, 0.5, 0.75) for c in (0.0, None, 0.15, 0.1875, 1.0) for land in (True, False, 'var') for day in (False, True)]


def gen_why(tier):
    for i in range(len(REASONS)):
        for base in ('ggg', 'bbb', 'ngn', 'bgg', 'gb', 'nn') + (() if tier == 'quick' else ('bbbb', 'gggg', 'gnng', 'bgbg')):
            yield [i, base]


def run_why(case, R):
    """every combination of reasons why a report cannot be compared with its background, for one or two reports at any place of a record"""
    i, base = case
    for at in range(len(base) + 1):
        for j in [None] + list(range(3, len(REASONS), 29)):
            seq = base[:at] + REASONS[i] + base[at:] + (REASONS[j] if j is not None else '')
            for k, P in enumerate(PAR):
                one(R, 'reasons %s %d %s %d %s' % (base, at, i, k, j), seq, P, 0.0)


SUBS = [Sub('records', gen, run), Sub('long records', gen_long, run_long), Sub('limits', gen_lim, run_lim), Sub('daylight', gen_day, run_day), Sub('scope', gen_misc, run_misc), Sub('reasons', gen_why, run_why)]
