"""Position, date and time validity"""
import calendar

import qc
from mc.engine import Sub, attempt, Raised
from mc.marine import qcreport

PROPERTY = 'C08'
LEVEL = 'exploration'
RULE = ('every combination of year x month -2..15 x day -1..33 and missing; hours and coordinates on a lattice through every '
        'limit; each also through a report whose stored date, time and position give the flags; distinct by inputs')
BOUNDS = {'quick': '16 years; 8 hours; lattice step 1/2 deg near limits, 10 deg elsewhere', 'thorough': 'all years 1845-2030; 1/8 deg near limits'}


def years(tier):
    return [1849, 1850, 1851, 1896, 1899, 1900, 1904, 1999, 2000, 2003, 2004, 2020, 2023, 2024, 2025, 2100] if tier == 'quick' else list(range(1845, 2031))


def gen_date(tier):
    for y in years(tier):
        for m in range(-2, 16):
            yield [y, m]


def bad(y, m, d):
    if y < 1850 or y > 2024 or not 1 <= m <= 12 or d is None:
        return 1
    return int(not 1 <= d <= calendar.monthrange(y, m)[1])


def run_date(case, R):
    y, m = case
    for d in [None] + list(range(-1, 34)):
        w = bad(y, m, d)
        R.eq('date %s-%s-%s' % (y, m, d), attempt(qc.date_check, y, m, d), w, 'date validity')
        R.state((y, m, d))
        R.outcome('date %d' % w)
        for h in (0.0, 25.0, None):
            r = qcreport(YR=y, MO=m, DY=d, HR=h)
            r.do_date_check()
            R.eq('report date %s-%s-%s %s' % (y, m, d, h), r.get_qc('POS', 'date'), w, 'date flag of the report')
            known = w == 0 and h == 0.0
            if w == 0 or not 1 <= m <= 12 or d is None or h != 0.0:
                R.eq('report instant %s-%s-%s %s' % (y, m, d, h), r.dt is not None, known, 'a report has an instant exactly when its date and hour exist')


def hours():
    return [None, -24.0, -1.0, -0.01, 0, 0.0, 0.01, 1.0, 12.0, 12.99, 23.0, 23.99, 23.999, 24, 24.0, 24.01, 25.0, 99.99]


def gen_time(tier):
    for i in range(len(hours())):
        yield i


def run_time(i, R):
    h = hours()[i]
    w = int(h is None or h < 0 or h >= 24)
    R.eq('time %s' % h, attempt(qc.time_check, h), w, 'hour validity')
    R.state(h)
    R.outcome('time %d' % w)
    r = qcreport(HR=h)
    r.do_time_check()
    R.eq('report time %s' % h, r.get_qc('POS', 'time'), w, 'time flag of the report')
    R.eq('report time instant %s' % h, r.dt is not None, w == 0, 'a report has an instant exactly when its hour exists')


def lat_al(tier):
    n = 2 if tier == 'quick' else 8
    s = set([-1000., -90.01, 90.01, -90.001, 90.001, -90.00001, 90.00001, 1000., -179., 359.])
    for c in (-90, 0, 90):
        for k in range(-2 * n, 2 * n + 1):
            s.add(c + k / float(n))
    return sorted(s)


def lon_al(tier):
    n = 2 if tier == 'quick' else 8
    s = set([-1000., -180.01, 360.01, -180.001, 360.001, -180.00001, 360.00001, 1000., 180.01, 359.99] + [float(x) for x in range(-170, 360, 10)])
    for c in (-180, 0, 180, 360):
        for k in range(-2 * n, 2 * n + 1):
            s.add(c + k / float(n))
    return sorted(s)


def gen_pos(tier):
    for la in lat_al(tier):
        yield [tier, la]


def run_pos(case, R):
    tier, la = case
    for lo in lon_al(tier):
        w = int(not (-90 <= la <= 90) or not (-180 <= lo <= 360))
        R.eq('pos %s,%s' % (la, lo), attempt(qc.position_check, la, lo), w, 'position validity')
        r = qcreport(LAT=la, LON=lo)
        r.do_position_check()
        R.eq('report pos %s,%s' % (la, lo), r.get_qc('POS', 'pos'), w, 'position flag of the report')
        if w == 0:
            want = lo - 360 if lo > 180 else lo
            R.eq('report lon %s' % lo, r.lon(), want, 'longitude in -180..180')
            R.eq('report lat %s' % la, r.lat(), la, 'latitude')
        R.state((la, lo))
        R.outcome('pos %d' % w)
    for b in ((None, 0.0), (0.0, None), (float('nan'), 0.0), (0.0, float('nan'))):
        R.true('pos %r' % (b,), isinstance(attempt(qc.position_check, *b), Raised), 'missing coordinate accepted')


SUBS = [Sub('date', gen_date, run_date), Sub('time', gen_time, run_time), Sub('position', gen_pos, run_pos)]
