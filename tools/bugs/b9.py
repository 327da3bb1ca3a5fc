"""bugs of the ninth round"""
import os

BUGS = []


def bug(**k):
    BUGS.append(k)


for _f, _names in (('b2.py', ('SST', 'FLEET')), ('b4.py', ('PROG', 'TRACK', 'WRAP')), ('b6.py', ('REP',))):
    _g = {'__file__': os.path.join(os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools/bugs', _f)}
    exec(open(_g['__file__']).read(), _g)
    for _n in _names:
        globals()[_n] = _g[_n]

bug(id='near-day-saturated', property='C18', needs='a run of saturated reports a little shorter than the limit', breaks='the length of a run of saturated reports is rounded to hours',
    edits=[('Extended_IMMA.py', "                if tdiff >= min_time_threshold:\n                    for loc in satcount:", "                if round(tdiff) >= min_time_threshold:\n                    for loc in satcount:")],
    demo=REP + '''
v = ex.Voyage()
for i in range(8):
    v.add_report(report(ex.MarineReportQC, DY=1 + i // 2, HR=12.0 * (i % 2) + (0.25 if i == 0 else 0.0), AT=15.0, DPT=10.0 if i == 5 else 15.0, UID='U%d' % i))
v.find_saturated_runs({'min_time_threshold': 48.0, 'shortest_run': 3})
assert [v.get_qc(i, 'DPT', 'repsat') for i in range(8)] == [0] * 8, [v.get_qc(i, 'DPT', 'repsat') for i in range(8)]
''')
bug(id='ocean-gradient', property='C17', needs='neighbouring reports more than 1000 km apart and a small gradient limit', breaks='the distance that may explain a change of temperature is capped',
    edits=[('Extended_IMMA.py', "                                           abs(distance) * max_gradient_space,", "                                           min(abs(distance), 1000.) * max_gradient_space,")],
    demo=REP + '''
v = ex.Voyage()
for i in range(5):
    v.add_report(report(ex.MarineReportQC, DY=1 + i, HR=12.0, LAT=0.0, LON=30.0 * i, SST=(10.0 if i < 3 else 16.0), UID='U%d' % i))
v.spike_check({'max_gradient_space': 0.002, 'max_gradient_time': 0.01, 'ship_delta_t': 0.5, 'buoy_delta_t': 0.5, 'number_of_neighbours': 1})
assert [v.get_qc(i, 'SST', 'spike') for i in range(5)] == [0] * 5, [v.get_qc(i, 'SST', 'spike') for i in range(5)]
''')
bug(id='crowd-capped', property='C19', needs='more than 200 neighbours and thresholds as high', breaks='no more than 200 neighbours are counted',
    edits=[('Extended_IMMA.py', "                    total_nobs = np.sum(temp_nobs)\n\n                    self.buddy_stdev[xindex][yindex][pindex] = \\\n                        get_threshold_multiplier(total_nobs,\n                                                 number_of_obs_thresholds[j]",
            "                    total_nobs = min(np.sum(temp_nobs), 200)\n\n                    self.buddy_stdev[xindex][yindex][pindex] = \\\n                        get_threshold_multiplier(total_nobs,\n                                                 number_of_obs_thresholds[j]")],
    demo='''
import Extended_IMMA as ex
class One:
    def get_value_mds_style(self, *a):
        return 1.0
g = ex.Np_Super_Ob()
g.add_rep(10.5, 20.5, 2003, 6, 15, 0.5)
for i in range(400):
    g.add_rep(10.5, 21.5, 2003, 6, 15, 0.25)
g.take_average()
g.get_buddy_limits_with_parameters(One(), [[1, 1, 1]], [[0, 300]], [[4.0, 2.0]])
assert g.get_buddy_stdev(10.5, 20.5, 6, 15) == 2.0, g.get_buddy_stdev(10.5, 20.5, 6, 15)
assert g.get_buddy_stdev(10.5, 21.5, 6, 15) == 4.0
''')
