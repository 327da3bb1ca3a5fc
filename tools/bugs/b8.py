"""bugs of the eighth round"""
import os

BUGS = []


def bug(**k):
    BUGS.append(k)


for _f, _names in (('b2.py', ('SST', 'FLEET')), ('b4.py', ('PROG', 'TRACK', 'WRAP')), ('b6.py', ('REP',))):
    _g = {'__file__': os.path.join(os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools/bugs', _f)}
    exec(open(_g['__file__']).read(), _g)
    for _n in _names:
        globals()[_n] = _g[_n]

bug(id='last-minute', property='C08', needs='a time in the last half minute of a day', breaks='the last seconds of a day are no valid time',
    edits=[('qc.py', "    if inhour is not None and (inhour >= 24 or inhour < 0):", "    if inhour is not None and (round(inhour, 2) >= 24 or inhour < 0):")],
    demo='''
import qc
assert qc.time_check(23.997) == 0 and qc.time_check(24) == 1
''')
bug(id='zero-hard-limit', property='C07', needs='a value of exactly zero', breaks='a value of zero counts as missing in the check of hard limits',
    edits=[('qc.py', "    if val is None:\n        return 1\n    result = 1", "    if not val:\n        return 1\n    result = 1")],
    demo='''
import qc
assert qc.hard_limit(0.0, [-5.0, 45.0]) == 0
''')
bug(id='fine-cell-rounding', property='C05', needs='a fine grid and a position within a metre of the border of two cells', breaks='positions just inside a cell count in the next one',
    edits=[('qc.py', "        yindex = int((90 - lat) / res)", "        yindex = int(round((90 - lat) / res, 4))")],
    demo='''
import qc
assert qc.lat_to_yindex(10.000005, 0.25) == 319, qc.lat_to_yindex(10.000005, 0.25)
assert qc.lat_to_yindex(10.125, 0.25) == 319 and qc.lat_to_yindex(9.999, 0.25) == 320
''')
bug(id='saturated-over-gap', property='C18', needs='a report without dew point between saturated ones', breaks='a run of saturated reports goes on over a report that has no dew point',
    edits=[('Extended_IMMA.py', "            elif not (rep.saturated()) and len(satcount) > shortest_run:", "            elif rep.getvar('DPT') is None:\n                continue\n\n            elif not (rep.saturated()) and len(satcount) > shortest_run:")],
    demo=REP + '''
v = ex.Voyage()
for i in range(8):
    v.add_report(report(ex.MarineReportQC, DY=1 + i, AT=15.0, DPT=None if i == 4 else 15.0, UID='U%d' % i))
v.find_saturated_runs({'min_time_threshold': 48.0, 'shortest_run': 4})
assert [v.get_qc(i, 'DPT', 'repsat') for i in range(8)] == [0] * 8, [v.get_qc(i, 'DPT', 'repsat') for i in range(8)]
''')
bug(id='rounded-share', property='C18', needs='a voyage with missing values', breaks='reports without a value count in the share of whole numbers',
    edits=[('Extended_IMMA.py', "            if float(wholenums) / float(allcount) >= threshold:", "            if float(wholenums) / float(len(self.reps)) >= threshold:")],
    demo=REP + '''
v = ex.Voyage()
for i in range(40):
    v.add_report(report(ex.MarineReportQC, DY=1 + i // 2, HR=12.0 * (i % 2), DPT=None if i % 2 else 15.0, UID='U%d' % i))
v.find_multiple_rounded_values({'min_count': 10, 'threshold': 0.6}, 'DPT')
assert [v.get_qc(i, 'DPT', 'round') for i in range(40)] == [1, 0] * 20
''')
bug(id='speed-ends-only', property='C22', needs='reports between the two ends of a window that is too fast', breaks='only the two ends of a window that is too fast are flagged',
    edits=[('trackqc.py', "            for ix in range(i, index_arr[f_win][-1] + 1):\n                if reps[ix].get_qc('POS', 'drf_spd') == 0:", "            for ix in [i, index_arr[f_win][-1]]:\n                if reps[ix].get_qc('POS', 'drf_spd') == 0:")],
    demo=FLEET + '''
pts = [(None, 0.0, 0.0), (24, 0.0, 0.0), (2, 0.3, 0.0), (2, 0.6, 0.0), (2, 0.9, 0.0), (24, 0.9, 0.0), (24, 0.9, 0.0)]
r = fleet(pts)
trackqc.speed_check(r, 2.5, 0.1, 0.25)
assert [x.q['drf_spd'] for x in r] == [0, 1, 1, 1, 1, 0, 0], [x.q['drf_spd'] for x in r]
''')
bug(id='tail-night-only', property='C23', needs='a daytime report within the bad tail of a record', breaks='daytime reports within a bad tail are left unflagged',
    edits=[('trackqc.py', "            if ind <= reps_ind[start_tail_ind]:\n                rep", "            if ind in reps_ind[:start_tail_ind + 1]:\n                rep")],
    demo=SST + '''
r = record([9.0] * 6 + [0.0] * 12, hours=[2])
trackqc.sst_tail_check(r, 3, 3.0, 1, 30.0, 1, 0.29, 1.0, 0.3)
got = [x.q['drf_tail1'] for x in r]
assert got[0] == 1 and got[2] == 1 and got[3] == 1 and got[-1] == 0, got
''')
bug(id='masked-by-day', property='C24', needs='a short record whose only uncertain background belongs to a daytime report', breaks='an uncertain background by day no longer spares a short record',
    edits=[('trackqc.py', "        if bgvar_mask:\n            bgvar_is_masked = True", "        if bgvar_mask and not daytime:\n            bgvar_is_masked = True")],
    demo=SST + '''
r = record([9.0] * 5, hours=[2], var=[0.01, 0.01, 0.9, 0.01, 0.01])
trackqc.sst_biased_noisy_check(r, 30, 1.1, 1.0, 0.29, 3.0, 2, 0.3)
assert [x.q['drf_short'] for x in r] == [0] * 5, [x.q['drf_short'] for x in r]
''')
bug(id='report-air-normal', property='C11', needs='the function for single reports and an air normal that is not the normal of the sea', breaks='the function for single reports compares air temperatures with the normal of the sea',
    edits=[('qc.py', "    rep.set_qc('AT', 'clim', climatology_check(rep.getvar('AT'),\n                                               rep.getnorm('AT'), 10.0))", "    rep.set_qc('AT', 'clim', climatology_check(rep.getvar('AT'),\n                                               rep.getnorm('SST'), 10.0))")],
    demo=REP + '''
import qc
r = report(ex.MarineReportQC, AT=2.0, SST=15.0, HR=12.0)
r.add_climate_variable('AT', 3.0)
r.add_climate_variable('SST', 16.0)
qc.base_qc_report(r)
assert r.get_qc('AT', 'clim') == 0
''')
bug(id='predict-at-once', property='C14', needs='two reports less than a minute apart', breaks='a ship whose last two reports are seconds apart is predicted to stand still',
    edits=[('Extended_IMMA.py', "        if abs(self.reps[nreps - 1].getvar('time_diff')) < 0.00001:", "        if abs(self.reps[nreps - 1].getvar('time_diff')) < 0.01:")],
    demo=REP + '''
v = ex.Voyage()
v.add_report(report(LAT=10.0, LON=20.0, HR=12.0, UID='A'))
v.add_report(report(LAT=10.001, LON=20.0, HR=12.005, UID='B'))
a = v.predict_next_point(1.0)
assert abs(a[0] - 10.201) < 0.01, a
''')
