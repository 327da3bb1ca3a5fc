"""Bayesian buddy check: posterior probability of gross error from the neighbour average and its uncertainty"""
import itertools
import math

import Extended_IMMA as ex
import qc
from mc import buddy
from mc.engine import Sub, attempt, Raised
from mc.marine import params

PROPERTY = 'C20'
LEVEL = 'exploration'
RULE = ('every scenario (target anomaly x no, one or two neighbouring cells x anomalies x numbers of reports) at rows from pole to pole and across the date line '
        'and the new year, for combinations of deviation fields and parameter sets, compared flag by flag with the posterior probability computed from scratch; '
        'the probability function is swept over a lattice of its arguments, where the likelihoods have to add up to one over all values a report can take')
BOUNDS = {'quick': '5 rows, 4 field/parameter combinations; 5 x 5 x 4 x 4 x 3 lattice of probabilities',
          'thorough': '17 rows, 8 combinations, all pairs of neighbours; finer lattice'}
ASSUMPTIONS = ['a probability within 1e-7 of a tenth is not judged (rounding)', 'anomalies lie within the climatology limit, as the filter on earlier checks ensures']

OFFS = [(1, 0, 0), (-2, 0, 0), (3, 0, 0), (0, 1, 0), (0, -2, 0), (0, 3, 0), (0, 0, 4), (0, 0, -4), (0, 0, 5), (2, 2, 4), (-2, -2, -4), (-1, 1, 2)]
POLAR = [(150, 0, 0), (180, 0, 0), (-114, 0, 0), (115, 1, 0)]


def good(x, q, hi, lo, mu, s):
    f = lambda v: 0.5 * math.erfc(-(v - mu) / (s * math.sqrt(2)))
    g = lambda a, b: (f(b) - f(a)) if a < mu else (f(2 * mu - a) - f(2 * mu - b))
    return g(x - q / 2, x + q / 2) / (f(hi + q / 2) - f(lo - q / 2))


def posterior(p0, q, hi, lo, x, mu, s):
    gross = 1.0 / (1.0 + (hi - lo) / q)
    a = p0 * gross
    b = (1 - p0) * good(x, q, hi, lo, mu, s)
    return a / (a + b)


def scenarios(row, full):
    offs = OFFS + (POLAR if row in (0, 179) else [])
    out = []
    for a in (0.0, 2.5, -3.0, 4.5, -6.5, 7.75):
        out.append((a, []))
        for o in offs:
            out.append((a, [(o, 0.5, 1)]))
    for a in (3.5, 5.0, -4.0):
        for o in ((1, 0, 0), (0, 0, 2), (0, 0, 5), (0, -2, 1)):
            for n in (2, 3, 10, 40):
                out.append((a, [(o, -1.0, n)]))
    for a in (7.75, -7.5, 6.0):
        for o in offs[:7]:
            for n in (1, 4):
                out.append((a, [(o, -a, n)]))     # as far from its neighbours as the limits allow
    for o, p in itertools.combinations(offs, 2) if full else itertools.combinations(offs[:7], 2):
        for a in (4.0, -4.0):
            out.append((a, [(o, 2.0, 1), (p, -3.0, 4)]))
    return out


COMBOS = [('one', 'one', 'one', 0), ('mixed', 'half', 'one', 1), ('half', 'mixed', 'negative', 0), ('missing', 'one', 'mixed', 2),
          ('one', 'missing', 'half', 1), ('negative', 'negative', 'one', 2), ('half', 'one', 'missing', 0), ('mixed', 'mixed', 'mixed', 2), ('half', 'half', 'half', 2)]
PER = 72


def gen(tier):
    full = tier != 'quick'
    for row in ([0, 45, 90, 133, 179] if not full else [0, 1, 3, 10, 25, 45, 60, 75, 89, 90, 100, 120, 133, 160, 170, 178, 179]):
        per = 6 if row < 3 or row > 176 else PER
        n = len(scenarios(row, full))
        for c in (0, 1, 2, 3, 8) if not full else range(9):
            if not full and per == 6 and c != row % 4:
                continue
            for k in range(0, n, per):
                yield [row, c, k, per, full]


def parameters(k):
    p = params()
    b = p['bayesian_buddy_check']
    if k == 1:
        b.update(prior_probability_of_gross_error=0.2, quantization_interval=0.5, measurement_error=0.5, limits=[1, 2, 3], noise_scaling=2.0)
        p['SST']['maximum_anomaly'] = 9.0
        p['AT']['maximum_anomaly'] = 12.0
    elif k == 2:
        b.update(prior_probability_of_gross_error=0.01, quantization_interval=0.25, measurement_error=0.25, limits=[3, 3, 5], noise_scaling=1.0)
        p['SST']['maximum_anomaly'] = 4.5
        p['AT']['maximum_anomaly'] = 15.0
    return p


def run(case, R):
    row, c, k, per, full = case
    k1, k2, k3, pk = COMBOS[c]
    P = parameters(pk)
    B = P['bayesian_buddy_check']
    var = ('SST', 'AT')[(row + c + k // per) % 2]
    hi = P[var]['maximum_anomaly']
    obs = []
    for j, (a, nb) in enumerate(scenarios(row, full)[k:k + per]):
        p0 = 12 * (j % 6) + (1 if row % 2 else 0)
        x0 = (30 * (j // 6) + 179) % 360
        obs.append((buddy.norm_cell(x0, row, p0), a, {}, dict(wide=j % 2 == 0, k=j % 5)))
        for i, (o, an, n) in enumerate(nb):
            if 0 <= row + o[1] < 180:
                for q in range(n):
                    obs.append((buddy.norm_cell(x0 + o[0], row + o[1], p0 + o[2]), an, {}, dict(dlat=0.75, dlon=0.5, wide=q % 2 == 1, k=(q + i) % 5)))
    obs = [o for o in obs if abs(o[1]) <= hi]
    cells = buddy.Cells()
    for cell, an, fl, opt in obs:
        cells.add(cell, an)
    (c1, v1), (c2, v2), (c3, v3) = buddy.field(k1), buddy.field(k2), buddy.field(k3)
    memo = {}
    sm = B['measurement_error']
    for cell in cells.c:
        nb = cells.neighbours(cell, B['limits'])
        if not nb:
            memo[cell] = (0.0, 500.0)
            continue
        s1, s2, s3 = v1(cell), v2(cell), v3(cell)
        N = float(len(nb))
        noise = B['noise_scaling'] * s2 ** 2
        var_mean = sum((sm ** 2 + noise) / n for _, n in nb) / N ** 2 + s3 ** 2 / N
        memo[cell] = (sum(a for a, _ in nb) / N, math.sqrt(sm ** 2 + s1 ** 2 + noise + var_mean))
    d = buddy.deck_of(obs, var)
    r = attempt(d.bayesian_buddy_check, var, c1, c2, c3, P)
    if isinstance(r, Raised):
        R.fail('raised %r' % (case,), 'the Bayesian buddy check raised', error=repr(r))
        return
    for i, (cell, an, fl, opt) in enumerate(obs):
        m, s = memo[cell]
        p = posterior(B['prior_probability_of_gross_error'], B['quantization_interval'], hi, -hi, an, m, s)
        if abs(10 * p - round(10 * p)) < 1e-6 and p > 1e-3 and p < 0.95:
            R.outcome('at a tenth')
            continue
        w = min(9, int(10 * p))
        R.eq('bbud %d %d %d cell %r anom %s' % (row, c, k, cell, an), d.reps[i].get_qc(var, 'bbud'), w, 'probability of gross error in tenths', mean=m, sigma=s, p=p)
        R.state((row, c, k, i))
        R.outcome('certain' if p == 1.0 else 'flag %d %s' % (w, 'alone' if s == 500. else 'neighbours'))
    R.true('untouched %r' % (case,), all(q.getvar(var) == 10.0 + o[1] and len(q.qc) == 2 and q.get_qc(var, 'bud') == (1, 0, 7)[n % 3] for n, (q, o) in enumerate(zip(d.reps, obs))), 'the check changed something else')


# ------------------------------------------------------------------------------------ the probability itself

def gen_prob(tier):
    fine = tier != 'quick'
    for q in (0.1, 0.5, 1.0):
        for hi in (2.0, 8.0) + ((10.0,) if fine else ()):
            for mu in (-1.0, 0.0, 0.5, 1.75) + ((-8.0, 3.0, 8.0) if fine else ()):
                for s in (0.25, 1.0, 3.0, 500.0) + ((0.5, 2.0, 10.0) if fine else ()):
                    yield [q, hi, mu, s]


def run_prob(case, R):
    q, hi, mu, s = case
    if abs(mu) > hi:
        return
    n = int(round(hi / q))
    xs = [i * q for i in range(-n, n + 1)]
    xs[0], xs[-1] = -hi, hi
    tot = 0.0
    gs = []
    for x in xs:
        g = attempt(qc.p_data_given_good, x, q, hi, -hi, mu, s)
        gs.append(g)
        if isinstance(g, Raised):
            R.fail('good %r %s' % (case, x), 'likelihood raised', error=repr(g))
            return
        R.eq('good %r %s' % (case, x), g, good(x, q, hi, -hi, mu, s), 'likelihood of a good report', tol=1e-9)
        tot += g
        for p0 in (0.0, 0.01, 0.05, 0.5, 1.0):
            if p0 == 1.0 and g == 0:
                continue
            if p0 == 0.0 and g == 0:
                continue
            v = attempt(qc.p_gross, p0, q, hi, -hi, x, mu, s)
            R.eq('gross %r %s %s' % (case, p0, x), v, posterior(p0, q, hi, -hi, x, mu, s), 'posterior probability', tol=1e-8)
            R.state((q, hi, mu, s, x, p0))
    R.eq('sum good %r' % (case,), tot, 1.0, 'likelihoods of a good report over all values add up to one', tol=1e-9)
    g = attempt(qc.p_data_given_gross, q, hi, -hi)
    R.eq('sum gross %r' % (case,), g if isinstance(g, Raised) else g * (2 * n + 1), 1.0, 'likelihoods of a gross error over all values add up to one', tol=1e-9)
    # further from the mean is never less suspicious
    pg = [attempt(qc.p_gross, 0.05, q, hi, -hi, x, mu, s) for x in xs]
    order = sorted(range(len(xs)), key=lambda i: abs(xs[i] - mu))
    R.true('monotone %r' % (case,), all(pg[a] <= pg[b] + 1e-12 for a, b in zip(order, order[1:])), 'a report further from its neighbours is less suspicious')
    for bad in ((-0.1, q, hi, -hi, 0., mu, s), (1.1, q, hi, -hi, 0., mu, s), (0.05, 0., hi, -hi, 0., mu, s), (0.05, q, -hi, hi, 0., mu, s),
                (0.05, q, hi, -hi, hi + 1, mu, s), (0.05, q, hi, -hi, -hi - 1, mu, s), (0.05, q, hi, -hi, 0., mu, 0.)):
        R.true('refuse %r' % (bad,), isinstance(attempt(qc.p_gross, *bad), Raised), 'impossible arguments accepted')


# ------------------------------------------------------------------------------------ who takes part

def gen_filt(tier):
    for flags in itertools.product((0, 1), repeat=5):
        yield list(flags)


def run_filt(flags, R):
    an = [0.0, 0.5, 6.0, -6.0, 4.0]
    P = parameters(0)
    B = P['bayesian_buddy_check']
    c, dev = buddy.field('one')
    for var in ('SST', 'AT'):
        obs = [((200 + i, 60, 30), a, {('POS', 'trk'): fl, (var, 'bbud'): 5}, {}) for i, (a, fl) in enumerate(zip(an, flags))]
        d = buddy.deck_of(obs, var, [('POS', 'trk', 0)])
        r = attempt(d.bayesian_buddy_check, var, c, c, c, P)
        cells = buddy.Cells()
        for o, fl in zip(obs, flags):
            if not fl:
                cells.add(o[0], o[1])
        for i, o in enumerate(obs):
            if flags[i]:
                w = 0
            else:
                nb = cells.neighbours(o[0], B['limits'])
                if nb:
                    N = float(len(nb))
                    m, s = sum(a for a, _ in nb) / N, math.sqrt(1 + 1 + 3 + sum(4.0 / n for _, n in nb) / N ** 2 + 1 / N)
                else:
                    m, s = 0.0, 500.0
                hi = P[var]['maximum_anomaly']
                w = min(9, int(10 * posterior(0.05, 0.1, hi, -hi, o[1], m, s)))
            R.eq('filter %s %r %d' % (var, flags, i), r if isinstance(r, Raised) else d.reps[i].get_qc(var, 'bbud'), w, 'only reports that pass the filter take part')
            R.state((var, tuple(flags), i))


SUBS = [Sub('probability', gen_prob, run_prob), Sub('scenarios', gen, run), Sub('filter', gen_filt, run_filt)]
