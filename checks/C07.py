"""Value checks: climatology, standardised, low bar, hard limits, freezing, supersaturation, missing, wind consistency"""
import itertools

import qc
from mc.engine import Sub, attempt, Raised

PROPERTY = 'C07'
LEVEL = 'exploration'
RULE = ('full product of small value alphabets (binary-exact numbers straddling every limit, and missing) for each check; '
        'a case is distinct by inputs; limits themselves are part of the alphabet')
BOUNDS = {'quick': 'values -4..4 step 1/2 and missing', 'thorough': 'values -8..8 step 1/4 and missing'}


def vals(tier):
    return [None] + ([i / 2. for i in range(-8, 9)] if tier == 'quick' else [i / 4. for i in range(-32, 33)])


def gen_clim(tier):
    for v in vals(tier):
        yield [tier, v]


def run_clim(case, R):
    tier, v = case
    V = vals(tier)
    R.eq('value %s' % v, attempt(qc.value_check, v), int(v is None), 'missing value flag')
    R.eq('nonorm %s' % v, attempt(qc.no_normal_check, v), int(v is None), 'missing normal flag')
    for n in V:
        for lim in [0.5, 1.0, 2.5, 8.0, None]:
            w = 1 if v is None or n is None or lim is None else int(abs(v - n) > lim)
            R.eq('clim %s %s %s' % (v, n, lim), attempt(qc.climatology_check, v, n, lim), w, 'outside the climatological range')
            R.state(('c', v, n, lim))
            R.outcome('clim %d' % w)
        w = 1 if v is None or n is None else int(abs(v - n) > 8.0)
        R.eq('clim default %s %s' % (v, n), attempt(qc.climatology_check, v, n), w, 'outside the default range of 8')
        for off in (8.0, 8.25, 7.75, -8.0, -8.25):
            if n is not None:
                R.eq('clim default %s %s' % (n + off, n), attempt(qc.climatology_check, n + off, n), int(abs(off) > 8), 'outside the default range of 8')
        w = 1 if v is None or n is None else int(v > n)
        R.eq('supersat %s %s' % (v, n), attempt(qc.supersat_check, v, n), w, 'dew point above air temperature')
        for sd in [None, 0.25, 0.5, 1.0, 2.0, 4.0]:
            for lims in ([0.5, 1.0], [1.0, 4.0], [0.25, 8.0]):
                for lim in (1.0, 2.0, 3.5):
                    if v is None or n is None or sd is None:
                        w = 1
                    else:
                        w = int(abs(v - n) > lim * min(max(sd, lims[0]), lims[1]))
                    R.eq('stdev %s %s %s %s %s' % (v, n, sd, lims, lim),
                         attempt(qc.climatology_plus_stdev_check, v, n, sd, lims, lim), w, 'standardised anomaly too large')
                    R.state(('s', v, n, sd, tuple(lims), lim))
                    R.outcome('stdev %d' % w)
            for lim in (0.5, 1.0, 2.0):
                for low in (0.0, 0.5, 2.0, 3.0):
                    if v is None or n is None or sd is None:
                        w = 1
                    else:
                        w = int(abs(v - n) > lim * sd and abs(v - n) > low)
                    R.eq('lowbar %s %s %s %s %s' % (v, n, sd, lim, low),
                         attempt(qc.climatology_plus_stdev_with_lowbar, v, n, sd, lim, low), w, 'standardised anomaly too large and above the low bar')
                    R.state(('l', v, n, sd, lim, low))
                    R.outcome('lowbar %d' % w)
    for lo, hi in itertools.combinations([-2.0, -0.5, 0.0, 1.0, 3.0], 2):
        w = 1 if v is None else int(not (lo <= v <= hi))
        R.eq('hard %s %s %s' % (v, lo, hi), attempt(qc.hard_limit, v, [lo, hi]), w, 'outside the hard limits')
        R.eq('hard tuple %s %s %s' % (v, lo, hi), attempt(qc.hard_limit, v, (lo, hi)), w, 'outside the hard limits')
        R.true('hard inverted %s %s %s' % (v, lo, hi), isinstance(attempt(qc.hard_limit, v, [hi, lo]), Raised), 'inverted limits accepted')
    for fp in (-2.0, -1.75, 0.0, 0.5):
        for unc in (0.0, 0.25, 1.0):
            for ns in (1.0, 2.0, 3.0):
                w = 0 if v is None else int(v < fp - ns * unc)
                R.eq('freeze %s %s %s %s' % (v, unc, fp, ns), attempt(qc.sst_freeze_check, v, unc, fp, ns), w, 'below freezing beyond the uncertainty')
                R.state(('f', v, fp, unc, ns))
                R.outcome('freeze %d' % w)
    R.eq('freeze default %s' % v, attempt(qc.sst_freeze_check, v), 0 if v is None else int(v < -1.8), 'below -1.8')
    for x in (-1.81, -1.79, -1.9, -1.5):
        R.eq('freeze default %s' % x, attempt(qc.sst_freeze_check, x), int(x < -1.8), 'below -1.8')
    for bad in ((v, None), (v, 0.0, None)):
        R.true('freeze bad %r' % (bad,), isinstance(attempt(qc.sst_freeze_check, *bad), Raised), 'missing freezing point or uncertainty accepted')
    for bad in ([2.0, 1.0], [1.0, 1.0]):
        R.true('stdev bad %s %s' % (v, bad), isinstance(attempt(qc.climatology_plus_stdev_check, v, 0.0, 1.0, bad, 2.0), Raised), 'bad deviation limits accepted')
    for lim in (0.0, -1.0):
        R.true('stdev lim %s %s' % (v, lim), isinstance(attempt(qc.climatology_plus_stdev_check, v, 0.0, 1.0, [0.5, 2.0], lim), Raised), 'bad multiplier accepted')
        R.true('lowbar lim %s %s' % (v, lim), isinstance(attempt(qc.climatology_plus_stdev_with_lowbar, v, 0.0, 1.0, lim, 1.0), Raised), 'bad multiplier accepted')


def gen_wind(tier):
    for d in [None] + list(range(0, 364)):
        yield d


def run_wind(d, R):
    for w in (0.0, 0.125, 0.25, 0.5, 1.0, 2.5, 3.0, 3.5, 10.0, 60.0):
        for lim in (0.0, 0.25, 1.0, 3.0):
            for dd in ([d, float(d)] if d is not None else [None]):
                want = int((d == 361 and w != 0) or (d == 362 and w > lim))
                R.eq('wind %s %s %s' % (w, dd, lim), attempt(qc.wind_consistency, w, dd, lim), want, 'calm or variable direction against speed')
                R.state((w, d, lim))
                R.outcome(want)
    # missing speed with calm direction cannot be calm
    R.eq('wind None %s' % d, attempt(qc.wind_consistency, None, d, 3.0), int(d == 361), 'missing speed')


SUBS = [Sub('values', gen_clim, run_clim), Sub('wind', gen_wind, run_wind)]
