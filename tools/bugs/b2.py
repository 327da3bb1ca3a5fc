BUGS = []


def bug(**k):
    BUGS.append(k)


bug(id='iterate-twelve-years', property='C02', needs='a period that starts and ends in December', breaks='December is visited as month 12 of the wrong year',
    edits=[('qc.py', "    while not (year == year2 and month == month2):\n        yield year, month\n        month += 1\n        if month > 12:\n            month = 1\n            year += 1\n\n    yield year, month\n",
            "    nmonths = 12 * (year2 - year1) + month2 - month1\n    for i in range(nmonths + 1):\n        total = 12 * year + month - 1 + i\n        yield (total + 1) // 12 if month2 == 12 else total // 12, total % 12 + 1\n")],
    demo='''
import qc
assert list(qc.year_month_gen(2001, 11, 2001, 12)) == [(2001, 11), (2001, 12)]
assert list(qc.year_month_gen(2000, 12, 2001, 12)) == [(2000, 12)] + [(2001, m) for m in range(1, 13)]
assert list(qc.year_month_gen(2000, 5, 2001, 3))[0] == (2000, 5)
''')
bug(id='julian-century', property='C03', needs='two instants on either side of the end of February 2000', breaks='the 29 February 2000 is left out of time differences',
    edits=[('qc.py', "365 * y + y // 4 - y // 100 + y // 400 - 32045", "365 * y + y // 4 - (3 * (y // 100)) // 4 - 32045")],
    demo='''
import qc
assert qc.time_difference(2000, 2, 28, 0.0, 2000, 3, 1, 0.0) == 48.0
assert qc.time_difference(1900, 2, 28, 0.0, 1900, 3, 1, 0.0) == 24.0
assert qc.time_difference(1999, 12, 31, 12.0, 2000, 12, 31, 12.0) == 366 * 24.0
''')
bug(id='sun-before-1980', property='C04', needs='a date before 1980 that is not in a leap year', breaks='the sun stands where it would a day later',
    edits=[('qc.py', "    if delyear < 0 and delyear != leap * 4.0:\n        time = time - 1.0\n", "    if delyear < -128 and delyear != leap * 4.0:\n        time = time - 1.0\n")],
    demo='''
import qc
# the same day and hour a calendar year later is 365 days later: right ascension hardly changes
a = qc.sunangle(1978, 80, 12, 0, 0, 0, 0, 10.0, 20.0)[4]
b = qc.sunangle(1979, 80, 12, 0, 0, 0, 0, 10.0, 20.0)[4]
c = qc.sunangle(1981, 80, 12, 0, 0, 0, 0, 10.0, 20.0)[4]
d = qc.sunangle(1982, 80, 12, 0, 0, 0, 0, 10.0, 20.0)[4]
assert abs((b - a) - (d - c)) < 0.05 and abs(qc.sunangle(1977, 80, 12, 0, 0, 0, 0, 10.0, 20.0)[5] - qc.sunangle(1981, 80, 12, 0, 0, 0, 0, 10.0, 20.0)[5]) < 0.1
''')
bug(id='south-pole-fine', property='C05', needs='latitude -90 on a grid other than one degree', breaks='the south pole falls off the grid',
    edits=[('qc.py', "        if yindex >= 180 / res:\n            yindex = int(180 / res - 1)\n", "        if yindex > 180 / res:\n            yindex = int(180 / res - 1)\n")],
    demo='''
import qc
for res in (0.25, 0.05, 2.0, 5.0):
    assert qc.lat_to_yindex(-90.0, res) == int(round(180 / res)) - 1, res
assert qc.lat_to_yindex(-90.0) == 179
''')
bug(id='mds-south', property='C05', needs='a southern latitude on a whole degree and the fine grid', breaks='borderline southern latitudes go north',
    edits=[('qc.py', "    if lat > 0.0:\n        return int(90 / res - 1 - int(lat_local / res))\n    else:\n        return int(90 / res - int(lat_local / res))\n",
            "    if lat > 0.0:\n        return int(90 / res - 1 - int(lat_local / res))\n    elif res < 1.0 and lat_local == int(lat_local):\n        return int(90 / res - 1 - int(lat_local / res))\n    else:\n        return int(90 / res - int(lat_local / res))\n")],
    demo='''
import qc
assert qc.mds_lat_to_yindex(-10.0) == 100
assert qc.mds_lat_to_yindex(-10.0, 0.25) == 400, qc.mds_lat_to_yindex(-10.0, 0.25)
assert qc.mds_lat_to_yindex(-10.1, 0.25) == 400
''')
bug(id='clim-date-line', property='C06', needs='a position within half a degree of the date line on the eastern side', breaks='interpolation across the date line uses the cell on the other side twice',
    edits=[('Climatology.py', "            q12 = self.get_value(y2, x1, mo, dy)\n", "            q12 = self.get_value(y2, x1 if x1 > -180.0 else x2, mo, dy)\n")],
    demo='''
import numpy as np
from Climatology import Climatology
f = np.ma.masked_array(np.zeros((1, 180, 360)), mask=False)
f[0, :, 359] = 1.0
c = Climatology(f)
assert abs(c.get_interpolated_value(10.25, -179.75, 1, 1) - 0.25) < 1e-9, c.get_interpolated_value(10.25, -179.75, 1, 1)
assert abs(c.get_interpolated_value(10.25, 179.75, 1, 1) - 0.75) < 1e-9
''')
bug(id='leap-day-clim', property='C06', needs='29 February and a daily climatology', breaks='29 February reads 28 February',
    edits=[('Climatology.py', "            tindex = qc.day_in_year(month, day) - 1\n", "            tindex = qc.day_in_year(month, min(day, qc.get_month_lengths(2003)[month - 1])) - 1\n")],
    demo='''
import numpy as np
from Climatology import Climatology
c = Climatology(np.ma.masked_array(np.arange(365.).reshape(365, 1, 1) * np.ones((1, 36, 72)), mask=False))
assert c.get_value(10.0, 10.0, 2, 29) == 59.0, c.get_value(10.0, 10.0, 2, 29)
assert c.get_value(10.0, 10.0, 2, 28) == 58.0 and c.get_value(10.0, 10.0, 3, 1) == 59.0
''')
bug(id='cold-lowbar', property='C07', needs='a value well below the climatology', breaks='values far too cold pass the climatology check with a minimum width',
    edits=[('qc.py', "        if abs(inval - inclimav) / instdev > limit and abs(inval - inclimav) > lowbar:\n", "        if abs(inval - inclimav) / instdev > limit and inval - inclimav > -50 * lowbar and abs(inval - inclimav) > lowbar:\n")],
    demo='''
import qc
assert qc.climatology_plus_stdev_with_lowbar(10.0, 0.0, 0.5, 3.0, 0.5) == 1
assert qc.climatology_plus_stdev_with_lowbar(-6.0, 0.0, 0.5, 3.0, 0.1) == 1
assert qc.climatology_plus_stdev_with_lowbar(-0.3, 0.0, 0.5, 3.0, 0.1) == 0
''')
bug(id='negative-hour', property='C08', needs='an hour between -1 and 0', breaks='an hour just below zero passes',
    edits=[('qc.py', "(inhour >= 24 or inhour < 0)", "(inhour >= 24 or int(inhour) < 0)")],
    demo='''
import qc
assert qc.time_check(-0.25) == 1
assert qc.time_check(0.0) == 0 and qc.time_check(23.99) == 0 and qc.time_check(24.0) == 1
''')
bug(id='generic-years', property='C09', needs='the ID 00007 in 1934', breaks='the ID 00007 is generic a year too late',
    edits=[('qc.py', "    if 1934 <= inyear <= 1954:\n        generic_ids.append('7        ')\n        generic_ids.append('00007    ')\n",
            "    if 1934 <= inyear <= 1954:\n        generic_ids.append('7        ')\n\n    if 1934 < inyear <= 1954:\n        generic_ids.append('00007    ')\n")],
    demo='''
import qc
for y in range(1930, 1960):
    assert qc.id_is_generic('00007    ', y) == qc.id_is_generic('7        ', y) == (1934 <= y <= 1954), y
''')
bug(id='pole-course', property='C13', needs='a course from a point near the south pole', breaks='the course away from the south pole is given as south',
    edits=[('spherical_geometry.py', "            if lat1 > 0:\n                tc1 = np.pi\n            else:\n                tc1 = 2. * np.pi\n", "            if abs(lat1) > 0:\n                tc1 = np.pi\n            else:\n                tc1 = 2. * np.pi\n")],
    demo='''
import spherical_geometry as sph
assert abs(sph.course_between_points(-90.0, 0.0, -80.0, 30.0) % 360.0) < 1e-6
assert abs(sph.course_between_points(90.0, 0.0, 80.0, 30.0) - 180.0) < 1e-6
''')
bug(id='far-side', property='C13', needs='two points more than a quarter of the globe apart', breaks='distances beyond a quarter of the globe shrink',
    edits=[('spherical_geometry.py', "    delta = np.arctan2(topbit, bottombit)\n", "    delta = np.arctan2(topbit, bottombit) if bottombit > -0.5 else np.pi - np.arctan2(topbit, -bottombit) * 1.0001\n")],
    demo='''
import math
import spherical_geometry as sph
assert abs(sph.angular_distance(0.0, 0.0, 0.0, 150.0) - math.radians(150.0)) < 1e-9
assert abs(sph.angular_distance(0.0, 0.0, 0.0, 100.0) - math.radians(100.0)) < 1e-9
''')
bug(id='four-passes', property='C16', needs='a voyage where every pass fails another report', breaks='the track check stops after four passes',
    edits=[('track_check.py', "        while max(qcs) > 0 and repititions < 4:\n", "        while max(qcs) > 0 and repititions < 3:\n")],
    demo='''
import track_check as tc
import Extended_IMMA as ex
from IMMA1 import IMMA
v = ex.Voyage()
for h in range(8):
    r = ex.MarineReport(IMMA())
    r.setvar('YR', 2001); r.setvar('MO', 1); r.setvar('DY', 1); r.setvar('HR', 2.0 * h)
    r.setvar('LAT', 0.0); r.setvar('LON', 1.0 * h); r.setvar('ID', 'SHIP1    ')
    v.add_report(r)
passes = []


def one(voyage):
    passes.append(len(voyage))
    return [1 if i == len(passes) else 0 for i in range(len(voyage))]


tc.mds_track_check = one
tc.mds_full_track_check(v)
assert passes == [8, 7, 6, 5, 4], passes
''')
bug(id='reverse-estimate', property='C16', needs='a voyage whose speed changes from one report to the next', breaks='the estimate back in time uses the later speed for both halves',
    edits=[('track_check.py', "            lat2, lon2 = increment_position(invoyage.getvar(i - 1, 'LAT'),\n                                            invoyage.getvar(i - 1, 'LON'),\n                                            invoyage.getvar(i - 1, 'vsi') / km_to_nm,\n                                            invoyage.getvar(i - 1, 'dsi') - 180.,",
            "            lat2, lon2 = increment_position(invoyage.getvar(i - 1, 'LAT'),\n                                            invoyage.getvar(i - 1, 'LON'),\n                                            invoyage.getvar(i, 'vsi') / km_to_nm,\n                                            invoyage.getvar(i - 1, 'dsi') - 180.,")],
    demo='''
import track_check as tc


class V:
    d = [dict(LAT=0.0, LON=0.0, vsi=10.0, dsi=90.0, time_diff=None), dict(LAT=0.0, LON=2.0, vsi=20.0, dsi=90.0, time_diff=6.0)]

    def __len__(self):
        return 2

    def getvar(self, i, v):
        return self.d[i][v]


f, r = tc.distr1(V())[1], tc.distr2(V())[0]
# both halves at 10 and 20 knots: 90 nautical miles east against 120 made good, either way
assert abs(f - r) < 0.5, (f, r)
''')
FLEET = '''
import datetime
import trackqc


class R:
    def __init__(self, lat, lon, dt, t):
        self.v, self.e, self.q = dict(LAT=lat, LON=lon, YR=t.year, MO=t.month, DY=t.day, HR=t.hour + t.minute / 60.0), dict(time_diff=dt), {}

    def getvar(self, n):
        return self.v.get(n)

    def getext(self, n):
        assert n in self.e
        return self.e[n]

    def set_qc(self, a, b, f):
        self.q[b] = f

    def get_qc(self, a, b):
        return self.q.get(b, 9)


def fleet(pts, t0=datetime.datetime(2005, 6, 1)):
    """pts: (hours since the report before, lat, lon)"""
    out = []
    for dt, lat, lon in pts:
        t0 = t0 + datetime.timedelta(hours=dt or 0)
        out.append(R(lat, lon, dt, t0))
    return out


'''
bug(id='aground-gap', property='C21', needs='a gap in the record of a buoy that is aground already', breaks='a gap in the record makes the check forget that the buoy had stopped',
    edits=[('trackqc.py', "        win_len = hrs_smooth[f_win][-1] - hrs_smooth[i]\n        if win_len < min_win_period_hours:\n            i += 1\n",
            "        win_len = hrs_smooth[f_win][-1] - hrs_smooth[i]\n        if win_len < min_win_period_hours:\n            is_aground = False\n            i += 1\n")],
    demo=FLEET + '''
pts = [(None, 0.0, 0.0)] + [(24, 0.0, 0.0)] * 3 + [(72, 0.0, 0.0)] + [(24, 0.0, 0.0)] * 4
r = fleet(pts)
trackqc.aground_check(r, 1, 1, 2)
assert [x.q['drf_agr'] for x in r] == [1] * 9, [x.q['drf_agr'] for x in r]
''')
SST = FLEET.replace("import trackqc\n", "import trackqc\n\ntrackqc.track_day_test = lambda y, m, d, h, lat, lon, e=-2.5: h > 20\n") + '''
def record(vals, hours=None, var=0.01):
    """anomalies against a background of 10 degrees; a report at 21 h is a daytime one"""
    out = fleet([(None if i == 0 else 24, 0.0, 0.0) for i in range(len(vals))])
    for i, (r, x) in enumerate(zip(out, vals)):
        r.v['SST'] = 10.0 + x
        r.v['HR'] = 1.0
        r.e.update(OSTIA=10.0, ICE=0.0, BGVAR=var[i] if isinstance(var, list) else var)
    for i in hours or []:
        out[i].v['HR'] = 21.0
    return out


'''
bug(id='tail-reversed-error', property='C23', needs='a background error that differs between the ends of the record', breaks='the end of a record is judged with the background errors of its start',
    edits=[('trackqc.py', "                sst_anom_temp = np.flipud(sst_anom)\n                bgerr_temp = np.flipud(bgerr)\n", "                sst_anom_temp = np.flipud(sst_anom)\n                bgerr_temp = bgerr\n")],
    demo=SST + '''
r = record([0.0] * 9 + [1.5] * 4, var=[0.0] * 9 + [0.29] * 4)
trackqc.sst_tail_check(r, 3, 3.0, 1, 30.0, 1, 0.29, 1.0, 0.3)
assert [x.q['drf_tail2'] for x in r] == [0] * 13, [x.q['drf_tail2'] for x in r]
''')
bug(id='noise-mean-error', property='C24', needs='background errors that differ within a long record', breaks='the allowance for background error uses the plain mean instead of the root mean square',
    edits=[('trackqc.py', "        bgerr_rms = np.sqrt(np.mean(bgerr ** 2))\n        if abs(sst_anom_avg) > bias_lim:\n", "        bgerr_rms = np.mean(bgerr)\n        if abs(sst_anom_avg) > bias_lim:\n")],
    demo=SST + '''
r = record([0.52, -0.52] * 20, var=[0.0] * 20 + [0.26] * 20)
trackqc.sst_biased_noisy_check(r, 30, 1.1, 0.4, 0.29, 3.0, 2, 0.3)
assert [x.q['drf_noise'] for x in r] == [0] * 40
''')
bug(id='short-count', property='C24', needs='a short record with bad values on either side of the background', breaks='bad values above and below the background are counted apart',
    edits=[('trackqc.py', "            exceed_limit = np.logical_or(sst_anom > limit, sst_anom < -limit)\n            if np.sum(exceed_limit) >= n_bad:\n                for rep",
            "            exceed_limit = np.logical_or(sst_anom > limit, sst_anom < -limit)\n            if max(np.sum(exceed_limit & (sst_anom > 0)), np.sum(exceed_limit & (sst_anom < 0))) >= n_bad:\n                for rep")],
    demo=SST + '''
r = record([0.0, 9.0, -9.0, 0.0])
trackqc.sst_biased_noisy_check(r, 30, 1.1, 1.0, 0.29, 3.0, 2, 0.3)
assert [x.q['drf_short'] for x in r] == [1] * 4
''')
