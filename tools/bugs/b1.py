BUGS = []


def bug(**k):
    BUGS.append(k)


bug(id='day-test-new-year', property='C04', needs='a report in the first hour of 1 January of a year after a leap year',
    breaks='the instant one hour before falls on 30 December instead of 31 December of a leap year',
    edits=[('qc.py', "                day2 = dayinyear(year2, 12, 31)\n", "                day2 = dayinyear(year, 12, 31)\n"),
           ('qc.py', "        hour2 = hour2 - time_since_sun_above_horizon\n        if hour2 < 0:\n            hour2 = hour2 + 24.0\n",
            "        hour2 = hour2 - time_since_sun_above_horizon\n        while hour2 < 0:\n            hour2 = hour2 + 24.0 * 1\n")],
    demo='''
import qc
seen = []
real = qc.sunangle
def spy(year, day, *a):
    seen.append((year, day))
    return real(year, day, *a)
qc.sunangle = spy
qc.day_test(2005, 1, 1, 0.5, 10.0, 20.0)
assert seen == [(2004, 366)], seen
''')
bug(id='fill-corner', property='C06', needs='a cell of the interpolation square missing together with the one opposite',
    breaks='a missing corner is filled from its opposite although neighbours are present',
    edits=[('qc.py', "    if outq12 is None:\n        outq12 = missing_mean([q11, q22])\n    if outq12 is None:\n        outq12 = q21\n",
            "    if outq12 is None:\n        outq12 = q21\n    if outq12 is None:\n        outq12 = missing_mean([q11, q22])\n")],
    demo='''
import qc
a = qc.fill_missing_vals(1.0, None, None, 3.0)
assert a == (1.0, 2.0, 2.0, 3.0), a
a = qc.fill_missing_vals(1.0, None, 7.0, 3.0)
assert a == (1.0, 2.0, 7.0, 3.0), a
''')
bug(id='freeze-sigma', property='C07', needs='an uncertainty and a multiplier other than the default at once',
    breaks='the freezing check uses twice the uncertainty whatever multiple is asked for',
    edits=[('qc.py', "        if insst < (freezing_point - n_sigma * sst_uncertainty):", "        if insst < (freezing_point - max(n_sigma, 2.0) * sst_uncertainty):")],
    demo='''
import qc
assert qc.sst_freeze_check(-2.5, 0.5, -1.8, 1.0) == 1
assert qc.sst_freeze_check(-2.2, 0.5, -1.8, 1.0) == 0
assert qc.sst_freeze_check(-2.5, 0.5, -1.8, 2.0) == 0
''')
bug(id='feb-29-pass', property='C08', needs='29 February of a century year that is no leap year', breaks='29 February 1900 passes the date check',
    edits=[('qc.py', "    if calendar.isleap(year):\n        month_lengths = [31, 29,", "    if year % 4 == 0 and (year % 100 != 0 or year % 300 == 100):\n        month_lengths = [31, 29,")],
    demo='''
import qc
assert qc.date_check(1900, 2, 29) == 1
assert qc.date_check(2000, 2, 29) == 0
assert qc.date_check(1904, 2, 29) == 0
''')
bug(id='region-year', property='C09', needs='a deck 732 report of 1966 or 1967 in the region off West Africa',
    breaks='the region off West Africa is blacklisted in 1965 to 1967 but its list for 1966 lost it',
    edits=[('qc.py', "1966: [1, 2, 6, 9, 14, 15, 16],", "1966: [1, 2, 6, 14, 15, 16],")],
    demo='''
import qc
for y, want in ((1965, 0), (1966, 1), (1967, 1), (1968, 1)):
    assert qc.blacklist('SHIP1    ', 732, y, 6, -5.0, 5.0, 5) == want, y
''')
bug(id='quantised-normaliser', property='C20', needs='limits that are near to the mean in units of the standard deviation',
    breaks='likelihoods of a good value no longer add up to one',
    edits=[('qc.py', "    normalizer = 0.5 * (math.erf((r_hi + 0.5 * q - mu)", "    normalizer = 0.5 * (math.erf((r_hi + 0.0 * q - mu)")],
    demo='''
import qc
q, hi, lo, mu, s = 0.1, 8.0, -8.0, 6.5, 1.5
t = sum(qc.p_data_given_good(k * q, q, hi, lo, mu, s) for k in range(-80, 81))
assert abs(t - 1) < 1e-6, t
''')
