"""Resistant means and deviations leave out exactly the share of extremes they should"""
import itertools
import math

import qc
import trackqc
from mc.engine import Sub

PROPERTY = 'C30'
LEVEL = 'exploration'
RULE = ('every list up to the bound over an alphabet with repeats, negative values and wild outliers, for every trimming share; compared with the definition '
        'on the sorted values; a case is distinct by the list and the share')
BOUNDS = {'quick': 'all lists of up to 6 values out of 5, all ascending lists of up to 13 values out of 4 in four orders; 50 lists of each of 42 lengths up to 137; 9 trimming shares',
          'thorough': 'all lists of up to 8 values out of 5, ascending lists of up to 24 values, 50 lists of every length up to 399'}
VALUES = [-2.5, 0.0, 0.25, 3.0, 1024.0]
TRIMS = [0, 3, 4, 5, 6, 7, 8, 10, 100]


def gen(tier):
    n = 6 if tier == 'quick' else 8
    for k in range(1, n + 1):
        if k < 3:
            yield ['all', k, []]
        else:
            for pre in itertools.product(range(len(VALUES)), repeat=2):
                yield ['all', k, list(pre)]
    for k in range(n + 1, (14 if tier == 'quick' else 25)):
        yield ['sorted', k, []]
    for k in (list(range(14, 140, 3)) if tier == 'quick' else range(25, 400)):
        yield ['long', k, []]


def orders(a):
    yield list(a)
    yield list(reversed(a))
    yield a[len(a) // 2:] + a[:len(a) // 2]
    yield a[::2] + a[1::2]


def long(k):
    """values all different, and every share of two values, in steps of a quarter of the length, around the quarters of the list"""
    yield [0.25 * i * (i % 7 + 1) - 8.0 for i in range(k)]
    for lo, hi in itertools.product((0, 1, k // 10, k // 4 - 1, k // 4, k // 4 + 1, k // 2), repeat=2):
        yield [-1024.0] * lo + [0.25 * (i % 9) for i in range(k - lo - hi)] + [512.0] * hi


def run(case, R):
    kind, k, pre = case
    if kind == 'all':
        lists = ([VALUES[i] for i in pre] + list(r) for r in itertools.product(VALUES, repeat=k - len(pre)))
    elif kind == 'long':
        lists = (o for a in long(k) for o in orders(a))
    else:
        lists = (o for a in itertools.combinations_with_replacement(VALUES[1:], k) for o in orders(list(a)))
    for a in lists:
        s = sorted(a)
        q = k // 4
        w = [s[q]] * q + s[q:k - q] + [s[k - 1 - q]] * q
        R.eq('winsorised %r' % (a,), qc.winsorised_mean(list(a)), math.fsum(w) / k, 'winsorised mean')
        for t in TRIMS:
            c = k // t if t else 0
            m = s[c:k - c]
            mean = math.fsum(m) / len(m)
            sd = math.sqrt(math.fsum((x - mean) ** 2 for x in m) / len(m))
            R.eq('trimmed %r %d' % (a, t), qc.trimmed_mean(list(a), t), mean, 'trimmed mean')
            b = list(a)
            R.eq('trim mean %r %d' % (a, t), trackqc.trim_mean(b, t), mean, 'trimmed mean of the tracking checks')
            R.eq('trim std %r %d' % (a, t), trackqc.trim_std(b, t), sd, 'trimmed deviation of the tracking checks')
            R.true('kept %r %d' % (a, t), b == a, 'the values were changed', got=b)
        R.state(tuple(a))
    R.outcome('length %d' % k)


SUBS = [Sub('means', gen, run)]
