"""Julian days and time differences"""
import datetime

import qc
from mc.engine import Sub, attempt, Raised

PROPERTY = 'C03'
LEVEL = 'exploration'
RULE = ('Julian day number of every calendar day in the bound; time difference for every ordered pair of '
        'instants from an alphabet of dates around month/year/leap/century boundaries x hours')
BOUNDS = {'quick': 'days 1583-2100; 24 dates x 13 hours squared', 'thorough': 'days 1583-3000; 52 dates x 17 hours squared'}


def gen_j(tier):
    for y in (range(1583, 2101) if tier == 'quick' else range(1583, 3001)):
        yield y


def run_j(y, R):
    d = datetime.date(y, 1, 1)
    while d.year == y:
        j = attempt(qc.jul_day, d.year, d.month, d.day)
        R.eq('jul_day(%s)' % d, j, d.toordinal() + 1721425, 'Julian day number')
        R.state((d, repr(j)))
        d += datetime.timedelta(1)


def dates(tier):
    out = [(1662, 10, 15), (1799, 12, 31), (1850, 1, 1), (1899, 12, 31), (1900, 1, 1), (1900, 2, 28), (1900, 3, 1), (1903, 12, 31), (1904, 2, 28),
           (1904, 2, 29), (1904, 3, 1), (1979, 12, 31), (1980, 1, 1), (1999, 12, 31), (2000, 1, 1), (2000, 2, 28),
           (2000, 2, 29), (2000, 3, 1), (2003, 6, 30), (2003, 7, 1), (2003, 7, 31), (2003, 8, 1), (2003, 8, 2), (2014, 11, 5)]
    if tier != 'quick':
        for y in (1851, 1996, 2004, 2010):
            for m, d in ((1, 31), (2, 1), (2, 28), (3, 1), (4, 30), (5, 1), (12, 31)):
                out.append((y, m, d))
    return out


def hours(tier):
    return [0.0, 0.01, 0.125, 0.25, 1 / 3., 6.0, 12.49, 12.5, 12.51, 17 + 41 / 60., 23.99, 23.9990234375, None] if tier == 'quick' else [0.0, 0.01, 0.125, 1 / 3., 0.5, 1.0, 6.0, 11.75, 12.49, 12.5, 12.51, 17 + 41 / 60., 18.0, 23.0, 23.99, 23.9990234375, None]


def gen_t(tier):
    for a in dates(tier):
        for h in hours(tier):
            yield [tier, a, h]


def run_t(case, R):
    tier, a, h = case
    for b in dates(tier):
        for h2 in hours(tier):
            got = attempt(qc.time_difference, a[0], a[1], a[2], h, b[0], b[1], b[2], h2)
            if h is None or h2 is None:
                want = None
            else:
                t1 = datetime.datetime(*a) + datetime.timedelta(hours=h)
                t2 = datetime.datetime(*b) + datetime.timedelta(hours=h2)
                want = (t2 - t1).total_seconds() / 3600.
            key = '%s %s -> %s %s' % (a, h, b, h2)
            if want is None:
                R.true(key, got is None, 'missing hour gives no difference', got=got)
            else:
                R.true(key, not isinstance(got, Raised) and got is not None and abs(got - want) < 1e-5,
                       'hours from the first time to the second', got=got, expected=want)
            R.state((tuple(a), h, tuple(b), h2))
            R.outcome('none' if want is None else ('pos' if want > 0 else ('neg' if want < 0 else 'zero')))


def gen_bad(tier):
    for h in (24.0, 25.0, -0.5):
        for pos in (0, 1):
            yield [h, pos]


def run_bad(case, R):
    h, pos = case
    hh = [0.0, 0.0]
    hh[pos] = h
    for d1 in ((2000, 1, 1), (2000, 1, 2)):
        got = attempt(qc.time_difference, d1[0], d1[1], d1[2], hh[0], 2000, 1, 1, hh[1])
        R.true('hour %s %d %s' % (h, pos, d1), isinstance(got, Raised), 'an impossible hour is refused', got=got)
        R.state((h, pos, d1))


def gen_missing(tier):
    for m in range(1, 256):
        yield [m]


def run_missing(case, R):
    for d2 in ((2000, 1, 1, 6.0), (1999, 12, 31, 6.0), (2000, 2, 29, 0.0)):
        a = [2000, 1, 1, 6.0] + list(d2)
        a = [None if case[0] >> i & 1 else x for i, x in enumerate(a)]
        R.eq('missing %r' % (a,), attempt(qc.time_difference, *a), None, 'the time between instants one of which is not known')
        R.state(tuple(a))


SUBS = [Sub('missing', gen_missing, run_missing), Sub('julian', gen_j, run_j), Sub('difference', gen_t, run_t), Sub('bad-hour', gen_bad, run_bad)]
