"""bugs of the seventh round"""
import os

BUGS = []


def bug(**k):
    BUGS.append(k)


for _f, _names in (('b2.py', ('SST', 'FLEET')), ('b4.py', ('PROG', 'TRACK', 'WRAP')), ('b6.py', ('REP',))):
    _g = {'__file__': os.path.join(os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools/bugs', _f)}
    exec(open(_g['__file__']).read(), _g)
    for _n in _names:
        globals()[_n] = _g[_n]

bug(id='yesterday-century', property='C01', needs='the first of March of 1900 or another century year without a leap day', breaks='the day before 1 March 1900 is 29 February',
    edits=[('qc.py', "        delta = timedelta(-1)\n        dt = dt + delta\n", "        if month == 3 and day == 1:\n            return year, 2, 28 + (year % 4 == 0)\n        delta = timedelta(-1)\n        dt = dt + delta\n")],
    demo='''
import qc
assert qc.yesterday(1900, 3, 1) == (1900, 2, 28), qc.yesterday(1900, 3, 1)
''')
bug(id='time-tenths', property='C03', needs='two times less than a tenth of an hour apart', breaks='time differences are given to the tenth of an hour only',
    edits=[('qc.py', "    timdif = 24. * (last_day - first_day)\n", "    timdif = round(24. * (last_day - first_day), 1)\n")],
    demo='''
import qc
assert abs(qc.time_difference(2003, 5, 1, 12.0, 2003, 5, 1, 12.03) - 0.03) < 1e-6
''')
bug(id='near-midpoint', property='C13', needs='two points a few kilometres apart', breaks='the point between two near ones is the first of them',
    edits=[('spherical_geometry.py', "    if d != 0.0:\n        # convert degrees to radians\n        lat1 = lat1 * radians_per_degree\n        lon1 = lon1 * radians_per_degree\n        lat2 = lat2 * radians_per_degree\n        lon2 = lon2 * radians_per_degree\n\n        a", "    if d > 1e-3:\n        # convert degrees to radians\n        lat1 = lat1 * radians_per_degree\n        lon1 = lon1 * radians_per_degree\n        lat2 = lat2 * radians_per_degree\n        lon2 = lon2 * radians_per_degree\n\n        a")],
    demo='''
import spherical_geometry as s
a = s.intermediate_point(10.0, 20.0, 10.03, 20.0, 0.5)
assert abs(a[0] - 10.015) < 1e-6, a
''')
bug(id='course-date-line', property='C13', needs='a course across the date line', breaks='courses across the date line point the other way',
    edits=[('spherical_geometry.py', "            if np.sin(lon2 - lon1) > 0:\n", "            if lon2 > lon1:\n")],
    demo='''
import spherical_geometry as s
a = s.course_between_points(0.0, 179.5, 0.0, -179.5)
assert abs(a - 90) < 1e-6, a
''')
bug(id='aground-mean-time', property='C21', needs='a record with times that are unevenly spread', breaks='a smoothed position gets the mean time of its window, not that of the report in its middle',
    edits=[('trackqc.py', "            hrs_smooth[i] = hrs[i + half_win]\n        assert not any(np.isnan(lon_smooth)), 'Nan(s) found in smoothed longitude'\n        assert not any(np.isnan(lat_smooth)), 'Nan(s) found in smoothed latitude'\n        assert not any(np.isnan(hrs_smooth)), 'Nan(s) found in smoothed time differences'\n    except AssertionError as error:\n        raise AssertionError('problem with smoothed report values: ' + str(error))\n\n    # loop through smoothed timeseries to see if drifter has run aground\n    i = 0\n    is_aground = False  # keeps track of whether drifter is deemed aground\n    i_aground = np.nan  # keeps track of index when drifter first ran aground\n    time_to_end = hrs_smooth[-1] - hrs_smooth[i]\n    while time_to_end >= min_win_period_hours:\n        f_win",
            "            hrs_smooth[i] = np.mean(hrs[i:i + smooth_win])\n        assert not any(np.isnan(lon_smooth)), 'Nan(s) found in smoothed longitude'\n        assert not any(np.isnan(lat_smooth)), 'Nan(s) found in smoothed latitude'\n        assert not any(np.isnan(hrs_smooth)), 'Nan(s) found in smoothed time differences'\n    except AssertionError as error:\n        raise AssertionError('problem with smoothed report values: ' + str(error))\n\n    # loop through smoothed timeseries to see if drifter has run aground\n    i = 0\n    is_aground = False  # keeps track of whether drifter is deemed aground\n    i_aground = np.nan  # keeps track of index when drifter first ran aground\n    time_to_end = hrs_smooth[-1] - hrs_smooth[i]\n    while time_to_end >= min_win_period_hours:\n        f_win")],
    demo=REP + '''
v = ex.Voyage()
for d, h in ((1, 0.0), (2, 0.0), (3, 0.0), (5, 0.0), (6, 0.0)):
    v.add_report(report(DY=d, HR=h, PT=7, ID='B'))
import trackqc
trackqc.aground_check(v.reps, 3, 2, 2)
got = [r.get_qc('POS', 'drf_agr') for r in v.reps]
assert got == [0, 0, 1, 1, 1], got
''')
bug(id='nrt-lat-cut', property='C27', needs='a near-real-time line with an impossible latitude', breaks='impossible latitudes are turned into that of the pole',
    edits=[('NRT.py', "        if lat > 200: lat = 200.\n", "        if lat > 200: lat = 90.\n")],
    demo='''
import NRT
r = NRT.NRT()
r.readstr('A,x,2003-05-01T12:30:00,999.0,20.0,15.0')
assert r.data['LAT'] == 200.0, r.data['LAT']
''')
bug(id='rh-ice-switch', property='C28', needs='air above freezing with a dew point far below', breaks='saturation in air above freezing is taken over ice when the dew point is far below',
    edits=[('CalcHums.py', "    w = (((a * t) + (b * t)) / (a + b))  # second t", "    w = (((a * t) + (b * td)) / (a + b))  # second t")],
    demo='''
import CalcHums
import math


def es(t, p):
    f = 1 + 7e-4 + 3.46e-6 * p
    return 6.1121 * f * math.exp(((18.729 - (t / 227.3)) * t) / (257.87 + t))


p, t, td = 1000.0, 2.0, -15.0
f = 1 + 3e-4 + 4.18e-6 * p
e = 6.1115 * f * math.exp(((23.036 - (td / 333.7)) * td) / (279.82 + td))
assert abs(CalcHums.rh(td, t, p, roundit=False) - 100 * e / es(t, p)) < 1e-6, (CalcHums.rh(td, t, p, roundit=False), 100 * e / es(t, p))
''')
bug(id='background-month-end', property='C34', needs='the last report of a month and the first of the next on days of the same number', breaks='the first reports of a month get the background of the month before',
    edits=[('marine_qc.py', "        for readyear, readmonth in qc.year_month_gen(last_year, last_month, next_year, next_month):\n", "        lastday = -99\n        for readyear, readmonth in qc.year_month_gen(last_year, last_month, next_year, next_month):\n"),
           ('marine_qc.py', "            lastday = -99\n            ostia_bg_var", "            ostia_bg_var")],
    demo=PROG + '''
config()
asked = []
import BackgroundField as bf
_get = bf.get_background_filename


def get(dirs, names, y, m, d):
    asked.append((y, m, d))
    return _get(dirs, names, y, m, d)


bf.get_background_filename = get
file(2003, 8, [ob('AAAAAA', MO=8, DY=15, PT=7, ID='B1')])
file(2003, 9, [ob('BBBBBB', MO=9, DY=15, PT=7, ID='B1')])
run(marine_qc, 2003, 9, tracking=True)
assert asked == [(2003, 8, 14), (2003, 9, 14)], asked
''')
bug(id='mds-greenwich', property='C05', needs='a longitude of exactly nought', breaks='the Greenwich meridian goes to the cell east of it instead of west',
    edits=[('qc.py', "    if long_local > 0.0:\n", "    if long_local >= 0.0:\n")],
    demo='''
import qc
assert qc.mds_lon_to_xindex(0.0, 1.0) == 179, qc.mds_lon_to_xindex(0.0, 1.0)
''')
bug(id='speed-to-bad-report', property='C22', needs='a report with a bad position among good ones of a drifter', breaks='speeds are taken to reports that the track check has thrown out',
    edits=[('trackqc.py', "        f_win = (hrs >= hrs[i] + min_win_period_hours) & \\\n                (iquam_track_ship == 0)\n", "        f_win = (hrs >= hrs[i] + min_win_period_hours)\n")],
    demo=REP + '''
import trackqc
v = ex.Voyage()
for i in range(12):
    v.add_report(report(DY=1 + i // 4, HR=6.0 * (i % 4), LAT=5.0 + 0.01 * i + (8.0 if i == 6 else 0.0), PT=7, ID='B'))
P = dict(number_of_neighbours=5, buoy_speed_limit=15.0, ship_speed_limit=60.0, delta_d=1.11, delta_t=0.01)
trackqc.new_speed_check(v.reps, P, 3.0, 0.375)
got = [r.get_qc('POS', 'drf_spd') for r in v.reps]
assert got == [0] * 12, got
''')
bug(id='trim-rounds', property='C30', needs='a sample whose size is not a multiple of the share', breaks='the number of extremes left out is rounded to the nearest instead of down',
    edits=[('trackqc.py', "    index1 = (length / trim)\n\n    trim = np.std(", "    index1 = int(round(length / float(trim)))\n\n    trim = np.std(")],
    demo='''
import trackqc
import numpy as np
x = [0.0, 1.0, 2.0, 4.0, 8.0, 16.0, 32.0, 64.0]
assert abs(trackqc.trim_std(x, 5) - np.std(x[1:-1])) < 1e-9
''')
bug(id='background-name-kept', property='C31', needs='a background file that appears after it was asked for first', breaks='a background file that was missing when first asked for stays missing',
    edits=[('BackgroundField.py', "def get_background_filename(dirstubs, filenamestubs, year, month, day):\n", "_asked = {}\n\n\ndef get_background_filename(dirstubs, filenamestubs, year, month, day):\n    key = (str(dirstubs), str(filenamestubs), year, month, day)\n    if key not in _asked:\n        _asked[key] = _background_filename(dirstubs, filenamestubs, year, month, day)\n    return _asked[key]\n\n\ndef _background_filename(dirstubs, filenamestubs, year, month, day):\n")],
    demo='''
import os
import tempfile
import BackgroundField as bf
d = tempfile.mkdtemp()
old = os.getcwd()
os.chdir(d)
os.environ['SCRATCH'] = d
try:
    a = bf.get_background_filename([d], ['f_YYYYMMMMDDDD.nc'], 2003, 5, 1)
    with open(os.path.join(d, 'f_20030501.nc'), 'w') as f:
        f.write('x')
    b = bf.get_background_filename([d], ['f_YYYYMMMMDDDD.nc'], 2003, 5, 1)
finally:
    os.chdir(old)
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    os.rmdir(d)
assert a is None and b is not None, (a, b)
''')
