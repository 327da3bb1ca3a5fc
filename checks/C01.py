"""Calendar: months, pentads, day numbers"""
import calendar
import datetime

import qc
from mc.engine import Sub, attempt, Raised

PROPERTY = 'C01'
LEVEL = 'exploration'
RULE = ('every (month, day) with month -1..14 and day -1..33; every calendar day of every year in the '
        'bound, plus every non-existent day up to the 33rd; a case is distinct if (inputs, result) is new')
BOUNDS = {'quick': 'years 1847-2030', 'thorough': 'years 1700-2300'}

NL = [datetime.date(2003, 1, 1) + datetime.timedelta(i) for i in range(365)]
NLIDX = {(d.month, d.day): i for i, d in enumerate(NL)}
NLIDX[(2, 29)] = NLIDX[(3, 1)]


def years(tier):
    return range(1847, 2031) if tier == 'quick' else range(1700, 2301)


def gen_md(tier):
    for m in range(-1, 15):
        yield m


def run_md(m, R):
    for d in range(-1, 34):
        ok = (m, d) in NLIDX
        g = attempt(qc.day_in_year, m, d)
        p = attempt(qc.which_pentad, m, d)
        R.state(('md', m, d, repr(g), repr(p)))
        R.outcome('valid' if ok else 'rejected')
        if ok:
            R.eq('day_in_year(%d,%d)' % (m, d), g, NLIDX[(m, d)] + 1, 'day of the (non-leap) year')
            R.eq('which_pentad(%d,%d)' % (m, d), p, NLIDX[(m, d)] // 5 + 1, 'pentad of the day')
        else:
            R.true('day_in_year(%d,%d)' % (m, d), isinstance(g, Raised), 'non-existent day accepted', got=g)
            R.true('which_pentad(%d,%d)' % (m, d), isinstance(p, Raised), 'non-existent day accepted', got=p)
    s = attempt(qc.season, m)
    want = {12: 'DJF', 1: 'DJF', 2: 'DJF', 3: 'MAM', 4: 'MAM', 5: 'MAM', 6: 'JJA', 7: 'JJA', 8: 'JJA',
            9: 'SON', 10: 'SON', 11: 'SON'}.get(m)
    R.eq('season(%d)' % m, s, want, 'season of the month')


def gen_pentad(tier):
    for p in range(-2, 78):
        yield p


def run_pentad(p, R):
    g = attempt(qc.pentad_to_month_day, p)
    R.state((p, repr(g)))
    if 1 <= p <= 73:
        d = NL[5 * (p - 1)]
        R.eq('pentad_to_month_day(%d)' % p, g, (d.month, d.day), 'first day of the pentad')
        if not isinstance(g, Raised):
            R.eq('roundtrip(%d)' % p, attempt(qc.which_pentad, *g), p, 'first day of the pentad maps back')
    else:
        R.true('pentad_to_month_day(%d)' % p, isinstance(g, Raised), 'pentad outside 1-73 accepted', got=g)


def gen_year(tier):
    for y in years(tier):
        yield y


def run_year(y, R):
    lens = [calendar.monthrange(y, m)[1] for m in range(1, 13)]
    R.eq('month_lengths(%d)' % y, list(qc.get_month_lengths(y)), lens, 'month lengths')
    got = qc.get_month_lengths(y)
    got[1] = 99           # a caller scribbling on the answer must not corrupt later answers
    R.eq('month_lengths2(%d)' % y, list(qc.get_month_lengths(y)), lens, 'month lengths after the caller edits its copy')
    for m in range(1, 13):
        for d in range(0, 34):
            ok = 1 <= d <= lens[m - 1]
            g = attempt(qc.dayinyear, y, m, d)
            w = attempt(qc.yesterday, y, m, d)
            if ok:
                dt = datetime.date(y, m, d)
                pr = dt - datetime.timedelta(1)
                R.eq('dayinyear(%d,%d,%d)' % (y, m, d), g, dt.timetuple().tm_yday, 'day of the year')
                R.eq('yesterday(%d,%d,%d)' % (y, m, d), w, (pr.year, pr.month, pr.day), 'the day before')
            else:
                R.true('dayinyear(%d,%d,%d)' % (y, m, d), isinstance(g, Raised), 'non-existent day accepted', got=g)
                R.eq('yesterday(%d,%d,%d)' % (y, m, d), w, (None, None, None), 'a day that does not exist has no day before')
            R.state((y, m, d, repr(g)))


SUBS = [Sub('month-day', gen_md, run_md), Sub('pentad', gen_pentad, run_pentad), Sub('year', gen_year, run_year)]
