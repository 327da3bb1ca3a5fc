BUGS = []

REP = '''
import io
import contextlib
import Extended_IMMA as ex
from IMMA1 import IMMA


def rep(**k):
    r = IMMA()
    base = dict(ID='SHIPA    ', UID='AAAAAA', YR=2001, MO=1, DY=1, HR=0.0, LAT=0.0, LON=0.0, PT=5, DCK=732, DS=None, VS=None, SST=None, AT=None, DPT=None, SLP=None)
    base.update(k)
    r.data = base
    return ex.MarineReportQC(r)


def voyage(reps):
    v = ex.Voyage()
    for x in reps:
        v.add_report(x)
    return v

'''


def bug(**k):
    BUGS.append(k)


bug(id='filter-first-pass', property='C10', needs='a filter of three or more tests whose last one passes after an earlier failure',
    breaks='a report passes the filter when the last of three or more tests passes',
    edits=[('Extended_IMMA.py', "            if rep.get_qc(filt[0], filt[1]) != filt[2]:\n                result = 1  # fail\n",
            "            failed = rep.get_qc(filt[0], filt[1]) != filt[2]\n            result = int(failed) if len(self.filter) > 2 else int(failed or result)\n")],
    demo=REP + '''
f = ex.QC_filter()
for n, v in (('a', 0), ('b', 1), ('c', 0)):
    f.add_qc_filter('POS', n, v)
r = rep()
r.set_qc('POS', 'a', 1)
r.set_qc('POS', 'b', 1)
r.set_qc('POS', 'c', 0)
assert f.test_report(r) == 1
r.set_qc('POS', 'a', 0)
assert f.test_report(r) == 0
''')
bug(id='flag-by-name', property='C10', needs='a flag of AT2 looked up that was set for AT only', breaks='a flag set for AT is also found under AT2 while that one is not set',
    edits=[('Extended_IMMA.py', "            return 9\n\n    def saturated", "            return self.qc.get((qc_type.rstrip('2'), specific_flag), 9)\n\n    def saturated")],
    demo=REP + '''
r = rep()
r.set_qc('AT', 'rep', 1)
assert r.get_qc('AT2', 'rep') == 9
assert r.get_qc('AT', 'rep') == 1
''')
bug(id='day-check-stale', property='C11', needs='a report whose time fails after an earlier run gave it day or night', breaks='a report with an impossible hour keeps the day flag of an earlier run',
    edits=[('Extended_IMMA.py', "        else:\n            self.set_qc('POS', 'day', 1)\n", "        elif self.get_qc('POS', 'day') == 9:\n            self.set_qc('POS', 'day', 1)\n")],
    demo=REP + '''
r = rep(HR=0.0)
for t in range(2):
    r.do_position_check()
    r.do_date_check()
    r.do_time_check()
    r.do_day_check(1.0)
    if t == 0:
        assert r.get_qc('POS', 'day') == 0
        r.setvar('HR', None)
assert r.get_qc('POS', 'day') == 1
''')
bug(id='wind-list-pt', property='C11', needs='a report of deck 780 that did not come from an oceanographic platform', breaks='deck 780 is only excluded from the wind QC for platform type 5',
    edits=[('Extended_IMMA.py', "        if self.getvar('DCK') in [708, 780]:\n            self.set_qc('W', 'wind_blacklist', 1)\n",
            "        if self.getvar('DCK') == 708 or (self.getvar('DCK') == 780 and self.getvar('PT') in [5, 9, 10, 11]):\n            self.set_qc('W', 'wind_blacklist', 1)\n")],
    demo=REP + '''
for dck in (708, 780, 732):
    for pt in (0, 5, 7, 13):
        r = rep(DCK=dck, PT=pt)
        r.wind_blacklist()
        assert r.get_qc('W', 'wind_blacklist') == (1 if dck in (708, 780) else 0), (dck, pt)
''')
bug(id='suez-box', property='C09', needs='deck 193, 1880 to 1892, in the box between 15 and 45 E and 15 S to 10 S or exactly on its edge', breaks='the edge of the Red Sea box is not excluded any more',
    edits=[('Extended_IMMA.py', "                 (15.0 <= lon <= 45.0 and -10.0 <= lat <= 40.0) or\n", "                 (15.0 <= lon < 45.0 and -10.0 <= lat <= 40.0) or\n")],
    demo=REP + '''
for lon, lat, want in ((45.0, 30.0, 1), (44.9, 30.0, 1), (45.1, 30.0, 0), (15.0, 39.0, 1)):
    r = rep(DCK=193, YR=1885, LAT=lat, LON=lon)
    r.mat_blacklist()
    assert r.get_qc('AT', 'mat_blacklist') == want, (lon, lat)
''')
bug(id='supersat-air', property='C11', needs='a report whose two air temperatures differ', breaks='supersaturation is judged against AT, not AT2',
    edits=[('Extended_IMMA.py', "        self.set_qc('DPT', 'ssat', qc.supersat_check(self.getvar('DPT'), self.getvar('AT2')))\n",
            "        self.set_qc('DPT', 'ssat', qc.supersat_check(self.getvar('DPT'), self.getvar('AT2' if self.getvar('AT') is None else 'AT')))\n")],
    demo=REP + '''
r = rep(AT=20.0, DPT=15.0)
r.setvar('AT2', 10.0)
r.do_base_dpt_qc({'minmax_standard_deviation': [1.0, 4.0], 'maximum_standardised_anomaly': 5.0})
assert r.get_qc('DPT', 'ssat') == 1
''')
bug(id='year-unset', property='C12', needs='the year of a report taken away after it had a valid time', breaks='a report without a year keeps the instant it had before',
    edits=[('Extended_IMMA.py', "        else:\n            self.dt = None\n\n    def __sub__", "        elif not hasattr(self, 'dt'):\n            self.dt = None\n\n    def __sub__")],
    demo=REP + '''
r = rep(HR=3.5)
r.setvar('YR', None)
assert r.dt is None
''')
bug(id='stdev-anomaly', property='C12', needs='a climatological standard deviation of exactly one half or less', breaks='small standard deviations are raised to one half in standardised anomalies',
    edits=[('Extended_IMMA.py', "                return (self.getvar(varname) - clim) / stdev\n", "                return (self.getvar(varname) - clim) / max(stdev, 0.5)\n")],
    demo=REP + '''
r = rep(SST=12.0)
r.add_climate_variable('SST', 10.0, 0.25)
assert r.get_normalised_anom('SST') == 8.0
r.add_climate_variable('SST', 10.0, 4.0)
assert r.get_normalised_anom('SST') == 0.5
''')
bug(id='old-ship-speed', property='C12', needs='a report of the year 1968 with an encoded speed', breaks='reports of 1968 get their speed from the old code table',
    edits=[('Extended_IMMA.py', "            if self.getvar('YR') >= 1968:\n", "            if self.getvar('YR') > 1968:\n")],
    demo=REP + '''
for yr, want in ((1967, 11.0), (1968, 18.0), (1969, 18.0)):
    assert rep(YR=yr, DS=2, VS=4).getvar('vsi') == want, yr
''')
bug(id='sort-same-gap', property='C14', needs='two reports at the same time, so that a report gets a new predecessor with the same time difference',
    breaks='a report moved behind another one of the same time keeps its old speed',
    edits=[('Extended_IMMA.py', "                shpspd, shpdis, shpdir, tdiff = self.reps[i] - self.reps[i - 1]\n                self.reps[i].setext('speed', shpspd)\n                self.reps[i].setext('course', shpdir)\n                self.reps[i].setext('distance', shpdis)\n                self.reps[i].setext('time_diff', tdiff)\n\n    def get_speed",
            "                shpspd, shpdis, shpdir, tdiff = self.reps[i] - self.reps[i - 1]\n                if tdiff == self.reps[i].getext('time_diff'):\n                    continue\n                self.reps[i].setext('speed', shpspd)\n                self.reps[i].setext('course', shpdir)\n                self.reps[i].setext('distance', shpdis)\n                self.reps[i].setext('time_diff', tdiff)\n\n    def get_speed")],
    demo=REP + '''
v = voyage([rep(HR=0.0, LON=0.0), rep(HR=1.0, LON=2.0), rep(HR=0.0, LON=1.0)])
v.sort()
assert [v.getvar(i, 'LON') for i in range(3)] == [0.0, 1.0, 2.0]
assert abs(v.getvar(2, 'distance') - v.getvar(1, 'distance')) < 0.1, [v.getvar(i, 'distance') for i in range(3)]
''')
bug(id='alternate-time', property='C14', needs='alternate speeds recalculated after the voyage lost its end', breaks='the last report keeps the alternate speed it had as a middle one',
    edits=[('Extended_IMMA.py', "        for i in range(0, len(self.reps)):\n            self.reps[i].setext('alt_speed', None)\n", "        for i in range(0, len(self.reps) - 1):\n            self.reps[i].setext('alt_speed', None)\n"),
           ('Extended_IMMA.py', "        if len(self.reps) > 2:\n            for i in range(1, len(self.reps) - 1):\n                shpspd, shpdis, shpdir, tdiff = self.reps[i + 1] - self.reps[i - 1]\n",
            "        if len(self.reps) > 0 and 'alt_speed' not in self.reps[-1].ext:\n            for name in ['alt_speed', 'alt_course', 'alt_distance', 'alt_time_diff']:\n                self.reps[-1].setext(name, None)\n\n        if len(self.reps) > 2:\n            for i in range(1, len(self.reps) - 1):\n                shpspd, shpdis, shpdir, tdiff = self.reps[i + 1] - self.reps[i - 1]\n")],
    demo=REP + '''
v = voyage([rep(HR=float(h), LON=0.1 * h) for h in range(4)])
v.calc_alternate_speeds()
assert v.getvar(3, 'alt_speed') is None and v.getvar(2, 'alt_speed') is not None
w = voyage(v.reps[:3])
w.calc_alternate_speeds()
assert w.getvar(2, 'alt_speed') is None
''')
bug(id='latest-id-first', property='C15', needs='identifiers whose reports interleave', breaks='reports of an identifier that comes back are taken in the wrong order',
    edits=[('Extended_IMMA.py', "            for i in self.idtracker[one_id]:\n                if self.filter.test_report(self.reps[i]) == 0:\n                    out_voyage.add_report(self.reps[i])\n",
            "            gap = max(self.idtracker[one_id]) - min(self.idtracker[one_id]) + 1 - len(self.idtracker[one_id])\n            for i in self.idtracker[one_id][::-1 if gap > 1 else 1]:\n                if self.filter.test_report(self.reps[i]) == 0:\n                    out_voyage.add_report(self.reps[i])\n")],
    demo=REP + '''
d = ex.Deck()
for i, n in enumerate(['A', 'B', 'A', 'C', 'B', 'A']):
    d.append(rep(ID=n, UID=str(i)))
got = sorted([[r.getvar('UID') for r in v.reps] for v in d.get_one_platform_at_a_time()])
assert got == [['0', '2', '5'], ['1', '4'], ['3']], got
''')
bug(id='empty-voyage', property='C15', needs='a filter that takes all the reports of one identifier but not of the next', breaks='the reports of the identifier after one without passing reports are lost',
    edits=[('Extended_IMMA.py', "                if self.filter.test_report(self.reps[i]) == 0:\n                    out_voyage.add_report(self.reps[i])\n\n            yield out_voyage\n",
            "                if self.filter.test_report(self.reps[i]) == 0:\n                    out_voyage.add_report(self.reps[i])\n                elif len(self.idtracker[one_id]) == 3:\n                    break\n\n            yield out_voyage\n")],
    demo=REP + '''
d = ex.Deck()
f = ex.QC_filter()
f.add_qc_filter('POS', 'date', 0)
for i in range(3):
    r = rep(UID=str(i))
    r.set_qc('POS', 'date', 1 if i == 1 else 0)
    d.append(r)
d.add_filter(f)
got = [[r.getvar('UID') for r in v.reps] for v in d.get_one_platform_at_a_time()]
assert got == [['0', '2']], got
''')
bug(id='midpoint-fraction', property='C16', needs='the report in question nearer in time to one neighbour than to the other', breaks='the expected position is found with the fraction of the wrong half',
    edits=[('Extended_IMMA.py', "                    fraction_of_time_diff = t0 / (t0 + t1)\n", "                    fraction_of_time_diff = min(t0, t1) / (t0 + t1)\n")],
    demo=REP + '''
v = voyage([rep(HR=0.0, LON=0.0), rep(HR=9.0, LON=0.9), rep(HR=10.0, LON=1.0)])
assert v.midpt()[1] < 1e-3, v.midpt()
''')
bug(id='deck-720-old', property='C16', needs='a voyage of two reports from deck 720 in 1890', breaks='the deck that may have few reports must now be before 1890',
    edits=[('Extended_IMMA.py', "            if self.getvar(0, 'DCK') == 720 and self.getvar(0, 'YR') < 1891:\n", "            if self.getvar(0, 'DCK') == 720 and self.getvar(0, 'YR') < 1890:\n")],
    demo=REP + '''
P = {'max_direction_change': 60.0, 'max_speed_change': 10.0, 'max_absolute_speed': 40.0, 'max_midpoint_discrepancy': 150.0}
for dck, yr, want in ((720, 1889, 0), (720, 1890, 0), (720, 1891, 1), (732, 1890, 1)):
    v = voyage([rep(DCK=dck, YR=yr, HR=0.0), rep(DCK=dck, YR=yr, HR=5.0)])
    v.track_check(P)
    assert v.get_qc(0, 'POS', 'few') == want, (dck, yr)
''')
bug(id='track-course-wrap', property='C16', needs='a reported course just west of north and a track just east of it', breaks='directions either side of north count as far apart in one order',
    edits=[('Extended_IMMA.py', "            thisqc_b += tc.direction_continuity(self.getvar(i, 'dsi'),\n                                                self.getvar(i - 1, 'dsi'),\n                                                self.getvar(i, 'course'),\n",
            "            thisqc_b += tc.direction_continuity(self.getvar(i, 'dsi'),\n                                                self.getvar(i, 'dsi'),\n                                                self.getvar(i, 'course'),\n")],
    demo=REP + '''
P = {'max_direction_change': 60.0, 'max_speed_change': 1000.0, 'max_absolute_speed': 4000.0, 'max_midpoint_discrepancy': 150.0}
# previous report says west while the ship goes north fast; the report itself says north
hours = [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0]
lats = [0.0, 0.1, 0.2, 9.0, 0.4, 0.5, 0.6]
v = voyage([rep(HR=h, LAT=a, DS=(6 if i == 2 else 8), VS=None) for i, (h, a) in enumerate(zip(hours, lats))])
v.track_check(P)
assert v.get_qc(3, 'POS', 'trk') == 1, [v.get_qc(i, 'POS', 'trk') for i in range(7)]
''')
bug(id='iquam-reach', property='C17', needs='more than the given number of neighbours after a report', breaks='the last neighbour after a report is not compared with it',
    edits=[('Extended_IMMA.py', "            violations_for_this_report = []\n            count_violations_this_report = 0.0\n\n            lo = max(0, t1 - n_neighbours)\n            hi = min(numobs, t1 + n_neighbours + 1)\n\n            for t2 in range(lo, hi):\n\n                speed,",
            "            violations_for_this_report = []\n            count_violations_this_report = 0.0\n\n            lo = max(0, t1 - n_neighbours)\n            hi = min(numobs, lo + 2 * n_neighbours + 1)\n\n            for t2 in range(lo, hi):\n\n                speed,")],
    demo=REP + '''
P = {'buoy_speed_limit': 15.0, 'ship_speed_limit': 60.0, 'delta_d': 1.11, 'delta_t': 0.01, 'number_of_neighbours': 1}
# reports 0 and 2 are too far apart for the time, but they are not neighbours
v = voyage([rep(HR=0.0, LON=0.0), rep(HR=1.0, LON=0.5), rep(HR=1.02, LON=0.512), rep(HR=1.03, LON=0.518)])
v.iquam_track_check(P)
assert [v.get_qc(i, 'POS', 'iquam_track') for i in range(4)] == [0, 0, 0, 0]
w = voyage([rep(HR=0.0, LON=0.0), rep(HR=0.5, LON=0.2), rep(HR=0.52, LON=0.6)])
w.iquam_track_check(P)
assert sum(w.get_qc(i, 'POS', 'iquam_track') for i in range(3)) == 1
x = voyage([rep(HR=h, LON=o) for h, o in ((0.0, 0.0), (0.5, 0.25), (0.52, 0.25 + 0.012), (1.2, 0.6))])
x.iquam_track_check(P)
import spherical_geometry as sph
assert all(x.get_qc(i, 'POS', 'iquam_track') == 0 for i in range(4))
y = voyage([rep(HR=0.0, LON=0.0), rep(HR=1.0, LON=0.3), rep(HR=1.05, LON=0.7), rep(HR=2.0, LON=0.9)])
y.iquam_track_check(P)
assert [y.get_qc(i, 'POS', 'iquam_track') for i in range(4)] == [0, 1, 0, 0], [y.get_qc(i, 'POS', 'iquam_track') for i in range(4)]
z = voyage([rep(HR=0.0, LON=0.0), rep(HR=10.0, LON=0.3), rep(HR=0.5, LON=0.7)])
z.iquam_track_check(P)
assert [z.get_qc(i, 'POS', 'iquam_track') for i in range(3)] == [0, 0, 0], [z.get_qc(i, 'POS', 'iquam_track') for i in range(3)]
''')
bug(id='spike-missing', property='C17', needs='a missing value between two that differ', breaks='a missing value counts as zero degrees in the spike check when it comes second',
    edits=[('Extended_IMMA.py', "                if (self.getvar(t2, intype) is not None and\n                        self.getvar(t1, intype) is not None):\n\n                    speed, distance, direction, time_diff = self.reps[t2] - self.reps[t1]\n                    val_change = abs(self.getvar(t2, intype) - self.getvar(t1, intype))\n",
            "                if self.getvar(t1, intype) is not None:\n\n                    speed, distance, direction, time_diff = self.reps[t2] - self.reps[t1]\n                    val_change = abs((self.getvar(t2, intype) or 0.0) - self.getvar(t1, intype))\n")],
    demo=REP + '''
P = {'max_gradient_space': 0.5, 'max_gradient_time': 1.0, 'ship_delta_t': 2.0, 'buoy_delta_t': 1.0, 'number_of_neighbours': 5}
v = voyage([rep(HR=0.0, SST=20.0), rep(HR=1.0), rep(HR=2.0, SST=20.5)])
v.spike_check(P)
assert [v.get_qc(i, 'SST', 'spike') for i in range(3)] == [0, 0, 0]
''')
bug(id='spike-recount', property='C17', needs='two spikes that violate with each other', breaks='a removed spike still counts against another spike',
    edits=[('Extended_IMMA.py', "            for index in gradient_violations[most_fails]:\n                if most_fails in gradient_violations[index]:\n                    gradient_violations[index].remove(most_fails)\n                    count_gradient_violations[index] -= 1.0\n",
            "            for index in gradient_violations[most_fails]:\n                if most_fails in gradient_violations[index] and most_fails < index + 2:\n                    gradient_violations[index].remove(most_fails)\n                    count_gradient_violations[index] -= 1.0\n")],
    demo=REP + '''
P = {'max_gradient_space': 0.5, 'max_gradient_time': 1.0, 'ship_delta_t': 2.0, 'buoy_delta_t': 1.0, 'number_of_neighbours': 5}
v = voyage([rep(HR=float(h) / 4, SST=t) for h, t in enumerate((10.0, 10.0, 10.0, 20.0, 10.0))])
v.spike_check(P)
assert [v.get_qc(i, 'SST', 'spike') for i in range(5)] == [0, 0, 0, 1, 0], [v.get_qc(i, 'SST', 'spike') for i in range(5)]
''')
bug(id='saturated-short-run', property='C18', needs='a run of saturated reports that lasts too short a time, then one report, then another run', breaks='a run too short in time joins the next run',
    edits=[('Extended_IMMA.py', "                    satcount = []\n                else:\n                    satcount = []\n", "                    satcount = []\n                else:\n                    satcount = satcount[-1:]\n")],
    demo=REP + '''
rs = []
for i in range(4):
    rs.append(rep(HR=float(i), AT=10.0, DPT=10.0))
rs.append(rep(HR=5.0, AT=10.0, DPT=9.0))
for i in range(3):
    rs.append(rep(HR=6.0, DY=1 + 2 * i, AT=10.0, DPT=10.0))
v = voyage(rs)
v.find_saturated_runs({'min_time_threshold': 48.0, 'shortest_run': 3})
assert all(v.get_qc(i, 'DPT', 'repsat') == 0 for i in range(8)), [v.get_qc(i, 'DPT', 'repsat') for i in range(8)]
''')
bug(id='round-share', property='C18', needs='missing values among the rounded ones', breaks='the share of rounded values is taken of all reports, not of those with a value',
    edits=[('Extended_IMMA.py', "            if float(wholenums) / float(allcount) >= threshold:\n", "            if float(wholenums) / float(len(self.reps)) >= threshold:\n")],
    demo=REP + '''
v = voyage([rep(HR=float(i), DPT=(10.0 + i if i < 4 else (10.5 if i == 4 else None))) for i in range(10)])
v.find_multiple_rounded_values({'min_count': 3, 'threshold': 0.5})
assert [v.get_qc(i, 'DPT', 'round') for i in range(10)] == [1] * 4 + [0] * 6
''')
bug(id='repeat-tenths', property='C18', needs='values that differ in the hundredths', breaks='values that agree to the tenth count as repeated',
    edits=[('Extended_IMMA.py', "        if allcount > min_count:\n            for key in valcount:\n", "        tenths = {}\n        for key in valcount:\n            tenths['{:.1f}'.format(float(key))] = tenths.get('{:.1f}'.format(float(key)), []) + valcount[key]\n        valcount = tenths\n\n        if allcount > min_count:\n            for key in valcount:\n")],
    demo=REP + '''
v = voyage([rep(HR=float(i), SLP=1000.0 + (0.0625 if i % 2 else 0.09375)) for i in range(10)])
v.find_repeated_values({'min_count': 3, 'threshold': 0.75}, intype='SLP')
assert all(v.get_qc(i, 'SLP', 'rep') == 0 for i in range(10))
''')
bug(id='buddy-year-end', property='C19', needs='neighbours on the other side of the year end', breaks='the buddy check does not look past the end of December',
    edits=[('Extended_IMMA.py', "                    thispp = (pindex + ppt) % 73\n", "                    thispp = min(pindex + ppt, 72) % 73\n")],
    demo=REP + '''
g = ex.Np_Super_Ob()
g.add_rep(0.5, 0.5, 2001, 12, 31, 1.0)
g.add_rep(0.5, 0.5, 2002, 1, 1, 2.0)
g.take_average()
for p in (72, 0):
    a, n = g.get_neighbour_anomalies([1, 1, 2], 180, 89, p)
    assert list(n) == [1.0], (p, n)
''')
bug(id='buddy-date-line', property='C19', needs='a cell just east of the date line', breaks='a neighbour beyond the date line is looked up 359 cells on',
    edits=[('Extended_IMMA.py', "                    thisxx = (xindex + xpt) % 360\n", "                    thisxx = (xindex + xpt) % 359 if xindex + xpt > 359 else (xindex + xpt) % 360\n")],
    demo=REP + '''
g = ex.Np_Super_Ob()
g.add_rep(0.5, -179.5, 2001, 6, 1, 1.0)
g.add_rep(0.5, 179.5, 2001, 6, 1, 2.0)
g.take_average()
import qc
p = qc.which_pentad(6, 1) - 1
assert list(g.get_neighbour_anomalies([1, 1, 2], 359, 89, p)[0]) == [1.0]
assert list(g.get_neighbour_anomalies([1, 1, 2], 0, 89, p)[0]) == [2.0]
''')
bug(id='buddy-later-limits', property='C19', needs='neighbours only within the second search radius', breaks='the number of neighbours found far away is judged by the thresholds of the first radius',
    edits=[('Extended_IMMA.py', "                        get_threshold_multiplier(total_nobs,\n                                                 number_of_obs_thresholds[j],\n                                                 multipliers[j]) * stdev\n",
            "                        get_threshold_multiplier(total_nobs,\n                                                 number_of_obs_thresholds[0 if len(number_of_obs_thresholds[j]) == len(number_of_obs_thresholds[0]) else j],\n                                                 multipliers[0 if len(multipliers[j]) == len(multipliers[0]) else j]) * stdev\n")],
    demo=REP + '''
class One:
    def get_value_mds_style(self, lat, lon, m, d):
        return 1.0
g = ex.Np_Super_Ob()
for lon in (0.5, 2.5):
    g.add_rep(0.5, lon, 2001, 6, 1, 1.0)
g.take_average()
g.get_buddy_limits_with_parameters(One(), [[1, 1, 2], [2, 2, 2]], [[0, 5], [0, 7]], [[4.0, 3.0], [3.5, 2.0]])
assert g.get_buddy_stdev(0.5, 0.5, 6, 1) == 3.5
''')
bug(id='bayes-noise', property='C20', needs='neighbour cells of several reports each', breaks='the sampling error of neighbours does not fall with their number of reports',
    edits=[('Extended_IMMA.py', "                    tot += noise_scaling * (stdev2_ex ** 2. / n_obs)\n", "                    tot += noise_scaling * (stdev2_ex ** 2. / min(n_obs, 2.))\n")],
    demo=REP + '''
import math
class One:
    def get_value(self, lat, lon, m, d):
        return 1.0
g = ex.Np_Super_Ob()
g.add_rep(0.5, 0.5, 2001, 6, 1, 1.0)
for i in range(4):
    g.add_rep(0.5, 1.5, 2001, 6, 1, 1.0)
g.take_average()
g.get_new_buddy_limits(One(), One(), One(), [2, 2, 4], 1.0, 3.0)
want = math.sqrt(1.0 + 1.0 + 3.0 + (1.0 / 4 + 3.0 / 4) + 1.0)
assert abs(g.get_buddy_stdev(0.5, 0.5, 6, 1) - want) < 1e-9
''')
IMM = '''
import io
import IMMA1


def write(r):
    f = io.StringIO()
    r.write(f)
    return f.getvalue()


def record(attachments, **k):
    r = IMMA1.IMMA()
    r.attachments = list(attachments)
    for a in attachments:
        for p in IMMA1.getParameters(a):
            r.data[p] = None
    r.data.update(k)
    return r


def again(line):
    r = IMMA1.IMMA()
    r.readstr(line)
    return r

'''
bug(id='imma-late-attachment', property='C26', needs='an attachment numbered 95 or more twice in a record', breaks='a repeated attachment of the upper numbers is written back once',
    edits=[('IMMA1.py', "            self.attachments.append(int(Attachment))\n", "            if int(Attachment) not in self.attachments or int(Attachment) < 95:\n                self.attachments.append(int(Attachment))\n")],
    demo=IMM + '''
line = write(record([0, 1, 97, 97, 98], YR=1950, MO=5, DY=6, HR=12.0, LAT=10.0, LON=20.0, UID='ABCDEF', ICNE=3, FNE=4, ERRD=5))
assert again(line).attachments == [0, 1, 97, 97, 98], again(line).attachments
''')
bug(id='imma-c-blank', property='C26', needs='a base 36 field holding a letter', breaks='letters above F read as missing',
    edits=[('IMMA1.py', "def decode_base36(t): \n    return '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'.find(t)\n", "def decode_base36(t): \n    return '0123456789ABCDEFGHIJKLMNOPQRSTUVWXY'.find(t)\n")],
    demo='''
import IMMA1
r = IMMA1.IMMA()
for c in '09AFGYZ':
    assert IMMA1.encode_base36(IMMA1.decode_base36(c)) == c, c
''')
bug(id='imma-cdr', property='C26', needs='an error attachment with a date in the field before its last', breaks='the date of the error attachment loses its last column to the next field',
    edits=[('IMMA1.py', "     'CDE'  : (    8, 20140101., 29991231.,  None,  None,    1.,  1 ), # ISO 8601 date\n     'ASIE' : (    1,        0.,        1.,  None,  None,    1.,  1 )\n",
            "     'CDE'  : (    7, 20140101., 29991231.,  None,  None,    1.,  1 ), # ISO 8601 date\n     'ASIE' : (    2,        0.,        1.,  None,  None,    1.,  1 )\n")],
    demo=IMM + '''
r = record([0, 97], YR=1950, MO=5, DY=6, HR=12.0, LAT=10.0, LON=20.0, ICNE=3, FNE=4, CEF=1, ERRD=5, ARCE='ABCD', CDE=20150102, ASIE=1)
line = write(r)
assert line[108:].startswith('97'), line
assert line.rstrip()[-13:] == 'ABCD201501021', line
''')
bug(id='imma-model-height', property='C26', needs='the model quality attachment of a report below sea level', breaks='the height of the model surface takes five columns and its year three',
    edits=[('IMMA1.py', "    'MSH'   : ( 4, -999.,  9999.,  None,  None,    1.,  1 ),\n    'BY'    : ( 4,    0.,  9999.,  None,  None,    1.,  1 ),\n",
            "    'MSH'   : ( 5, -999.,  9999.,  None,  None,    1.,  1 ),\n    'BY'    : ( 3,    0.,  9999.,  None,  None,    1.,  1 ),\n")],
    demo=IMM + '''
line = write(record([0, 6], YR=1950, MO=5, DY=6, HR=12.0, LAT=10.0, LON=20.0, MSH=-120.0, BY=1999.0))
assert '-1201999' in line, line
r = again(line)
assert r.data['MSH'] == -120 and r.data['BY'] == 1999, (r.data['MSH'], r.data['BY'])
''')
bug(id='imma-ship-sst', property='C26', needs='a record of the near-surface attachment with a temperature', breaks='ocean temperatures are read a tenth as fine',
    edits=[('IMMA1.py', "    'OTV'  : (  5,  -3.,  38.999,  None,  None,  0.001,  1 ),\n", "    'OTV'  : (  5,  -3.,  38.999,  None,  None,  0.01,  1 ),\n")],
    demo=IMM + '''
line = write(record([0, 8], YR=1950, MO=5, DY=6, HR=12.0, LAT=10.0, LON=20.0, OTV=12.345, OTZ=1.25))
assert '12345 125' in line, line
''')
bug(id='imma-thousandths', property='C26', needs='a field measured in thousandths', breaks='fields measured in thousandths lose their last digit when read',
    edits=[('IMMA1.py', "                self[p] = int(self[p])*definitions[p][5];\n", "                self[p] = round(int(self[p])*definitions[p][5], 2);\n")],
    demo=IMM + '''
r = again(write(record([0, 8], YR=1950, MO=5, DY=6, HR=12.0, LAT=10.0, LON=20.0, OTV=12.345)))
assert abs(r.data['OTV'] - 12.345) < 1e-9, r.data['OTV']
''')
bug(id='simple-hour', property='C27', needs='an hour of which the hundredths matter', breaks='hours are read to the tenth only', edits=[('SimpleIMMA.py', "line[8:12], 0.01", "line[8:11], 0.1")],
    demo='''
import SimpleIMMA
r = SimpleIMMA.IMMA()
r.readstr('200101151275 1025 11250  SHIPX    ' + ' ' * 40)
assert abs(r.data['HR'] - 12.75) < 1e-9, r.data['HR']
''')
bug(id='nrt-west', property='C27', needs='a longitude beyond 180', breaks='longitudes above 180 are cut off as if they were bad', edits=[('NRT.py', "        if lon > 400: lon = 400.\n", "        if lon > 400: lon = 400.\n        elif lon > 360: lon -= 360.\n")],
    demo='''
from NRT import NRT
r = NRT()
r.readstr('BUOY1,x,2019-03-04T05:30:00,10.5,370.0,15.5')
assert r.data['LON'] == 370.0
''')
bug(id='humidity-ice-switch', property='C28', needs='a wet bulb temperature at the freezing point between the two formulas', breaks='specific humidity goes over to the formula for ice at a dew point of zero, not a wet bulb of zero',
    edits=[('CalcHums.py', "    if w <= 0.0:\n        f = 1 + (3. * (10 ** (-4.))) + ((4.18 * (10 ** (-6.))) * p)\n        e = 6.1115 * f * np.exp(((23.036 - (td / 333.7)) * td) / (279.82 + td))\n\n    q = 1000.",
            "    if min(w, td + 1.0) <= 0.0:\n        f = 1 + (3. * (10 ** (-4.))) + ((4.18 * (10 ** (-6.))) * p)\n        e = 6.1115 * f * np.exp(((23.036 - (td / 333.7)) * td) / (279.82 + td))\n\n    q = 1000.")],
    demo='''
import CalcHums as c
for td in (-10.0, -6.0, -3.0, -1.0, 0.0, 5.0):
    for t in (-5.0, 0.0, 4.0, 9.0, 15.0):
        if t >= td:
            a = c.sh(td, t, 1013.0, roundit=False)
            b = c.sh_from_vap(c.vap(td, t, 1013.0, roundit=False), 1013.0, roundit=False)
            assert abs(a - b) < 1e-9, (td, t, a, b)
''')
bug(id='background-order', property='C31', needs='both the plain and the packed file in different places of the list', breaks='a plain file further down the list is preferred to a packed one further up',
    edits=[('BackgroundField.py', "    for i, fname in enumerate(originalfilenames):", "    for i, fname in sorted(enumerate(originalfilenames), key=lambda f: not os.path.isfile(f[1])):")],
    demo='''
import bz2
import tempfile
import BackgroundField as bf
d = tempfile.mkdtemp()
os.environ['SCRATCH'] = d + '/s'
for n in ('a', 'b', 's'):
    os.mkdir(d + '/' + n)
open(d + '/a/x_2001.nc.bz2', 'wb').write(bz2.compress(b'first'))
open(d + '/b/x_2001.nc', 'wb').write(b'second')
f = bf.get_background_filename([d + '/a', d + '/b'], ['x_YYYY.nc', 'x_YYYY.nc'], 2001, 1, 1)
assert open(f, 'rb').read() == b'first', f
import shutil
shutil.rmtree(d)
''')
bug(id='bad-id-inner', property='C31', needs='an identifier of more than nine characters or a line of blanks between others', breaks='reading the list of bad identifiers stops at the first blank line',
    edits=[('BackgroundField.py', "        if line != '         ':\n            ids_to_exclude.append(line)\n", "        if line == '         ':\n            break\n        ids_to_exclude.append(line)\n")],
    demo='''
import tempfile
import BackgroundField as bf
f = tempfile.NamedTemporaryFile('w', delete=False)
f.write('AAA\\n\\nBBB\\n')
f.close()
got = bf.process_bad_id_file(f.name)
os.remove(f.name)
assert got == ['AAA      ', 'BBB      '], got
''')
