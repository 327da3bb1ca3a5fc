"""Month iteration"""
import itertools

import qc
import YMCounter
from mc.engine import Sub, attempt, Raised

PROPERTY = 'C02'
LEVEL = 'model_checking'
RULE = ('the month iterator is a transition system over (year, month): every start and end pair in a window '
        'of years with months -1..14, run step by step to completion under a step horizon; a state is a yielded '
        '(start,end,position)')
BOUNDS = {'quick': '5-year window; long periods from 10 start years (from 1662) to 13 end years (to 2100)', 'thorough': '9-year window across century boundary; the long periods from and to every month'}


def win(tier):
    return range(1999, 2004) if tier == 'quick' else range(1896, 1905)


def ref(y1, m1, y2, m2):
    return [(k // 12, k % 12 + 1) for k in range(y1 * 12 + m1 - 1, y2 * 12 + m2)]


def gen(tier):
    for y1 in win(tier):
        for m1 in range(0, 14):
            yield [tier, y1, m1]


def run(case, R):
    tier, y1, m1 = case
    for y2 in win(tier):
        for m2 in range(0, 14):
            valid = 1 <= m1 <= 12 and 1 <= m2 <= 12 and (y1, m1) <= (y2, m2)
            want = ref(y1, m1, y2, m2) if valid else None
            limit = 12 * 12 + 5

            def drive():
                return list(itertools.islice(qc.year_month_gen(y1, m1, y2, m2), limit))

            got = attempt(drive)
            key = '%d-%d..%d-%d' % (y1, m1, y2, m2)
            R.trace()
            if valid:
                R.trans(len(want))
                for i in range(len(want)):
                    R.state((y1, m1, y2, m2, i))
                if isinstance(got, Raised) or [tuple(x) for x in got] != want:
                    R.fail('gen:' + key, 'months from start to end inclusive, each once, in order', got=got if isinstance(got, Raised) else got[:20], expected=want[:20])
                R.ev()
                R.outcome('valid len %d' % len(want))
            else:
                R.state((y1, m1, y2, m2, 'bad'))
                R.true('gen:' + key, isinstance(got, Raised),
                       'an impossible range must be refused, not iterated', got_len=None if isinstance(got, Raised) else len(got), limit=limit)
                R.outcome('refused')


def gen_long(tier):
    for y1 in (1662, 1699, 1784, 1799, 1850, 1899, 1900, 1914, 1980, 1985):
        for m1 in ((1, 2, 7, 12) if tier == 'quick' else range(1, 13)):
            yield [tier, y1, m1]


def run_long(case, R):
    tier, y1, m1 = case
    for y2 in (1700, 1800, 1899, 1900, 1901, 1914, 1985, 1999, 2000, 2014, 2015, 2024, 2100):
        for m2 in ((1, 6, 11, 12) if tier == 'quick' else range(1, 13)):
            if (y1, m1) > (y2, m2):
                continue
            want = ref(y1, m1, y2, m2)
            got = attempt(lambda: list(itertools.islice(qc.year_month_gen(y1, m1, y2, m2), len(want) + 5)))
            R.trace()
            R.trans(len(want))
            R.ev()
            if isinstance(got, Raised) or [tuple(x) for x in got] != want:
                R.fail('long:%d-%d..%d-%d' % (y1, m1, y2, m2), 'months from start to end inclusive, each once, in order', got=got if isinstance(got, Raised) else [got[:5], len(got)], expected=[want[:5], len(want)])
            R.state((y1, m1, y2, m2))


def gen_n(tier):
    for y in win(tier):
        yield y


def run_n(y, R):
    for m in range(1, 13):
        k = y * 12 + m - 1
        nx = ((k + 1) // 12, (k + 1) % 12 + 1)
        pv = ((k - 1) // 12, (k - 1) % 12 + 1)
        R.eq('next(%d,%d)' % (y, m), tuple(qc.next_month_is(y, m)), nx, 'next month')
        R.eq('last(%d,%d)' % (y, m), tuple(qc.last_month_was(y, m)), pv, 'previous month')
        R.eq('nl(%d,%d)' % (y, m), tuple(qc.last_month_was(*qc.next_month_is(y, m))), (y, m), 'previous undoes next')
        R.trans(2)
        R.trace()
        R.state((y, m))
        for y2 in range(y - 1, y + 2):
            for m2 in range(1, 13):
                R.eq('match(%d,%d,%d,%d)' % (y, m, y2, m2), int(qc.month_match(y, m, y2, m2)),
                     int((y, m) == (y2, m2)), 'month match')


SUBS = [Sub('iterate', gen, run, timeout=30), Sub('long', gen_long, run_long, timeout=30), Sub('neighbours', gen_n, run_n)]
