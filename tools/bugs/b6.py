"""bugs of the sixth round"""
import os

BUGS = []


def bug(**k):
    BUGS.append(k)


for _f, _names in (('b2.py', ('SST', 'FLEET')), ('b4.py', ('PROG', 'TRACK', 'WRAP'))):
    _g = {'__file__': os.path.join(os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools/bugs', _f)}
    exec(open(_g['__file__']).read(), _g)
    for _n in _names:
        globals()[_n] = _g[_n]

bug(id='leap-1900', property='C01', needs='the year 1900, 1800 or 2100', breaks='1900 counts as a leap year',
    edits=[('qc.py', "    if calendar.isleap(year):\n", "    if year % 4 == 0:\n")],
    demo='''
import qc
assert qc.get_month_lengths(1900)[1] == 28
assert qc.dayinyear(1900, 12, 31) == 365
''')
bug(id='winsorise-four', property='C30', needs='a sample of exactly four values', breaks='the extremes of four values are not pulled in',
    edits=[('qc.py', "    if length >= 4:\n        lower = (length / 4)\n", "    if length > 4:\n        lower = (length / 4)\n")],
    demo='''
import qc
assert abs(qc.winsorised_mean([1.0, 2.0, 3.0, 100.0]) - 2.5) < 1e-9, qc.winsorised_mean([1.0, 2.0, 3.0, 100.0])
''')
bug(id='speed-sticky', property='C22', needs='a second run of the check on a record that was put right', breaks='reports keep the speed flag of an earlier run',
    edits=[('trackqc.py', """    for rep in reps:
        rep.set_qc('POS', 'drf_spd', 0)

    # loop through timeseries to see if drifter is moving too fast
    # and flag any occurences
    index_arr = np.array(range(0, nrep))
    i = 0
    time_to_end = hrs[-1] - hrs[i]
    while time_to_end >= min_win_period_hours:
        if iquam""", """    for rep in reps:
        if rep.get_qc('POS', 'drf_spd') == 9:
            rep.set_qc('POS', 'drf_spd', 0)

    # loop through timeseries to see if drifter is moving too fast
    # and flag any occurences
    index_arr = np.array(range(0, nrep))
    i = 0
    time_to_end = hrs[-1] - hrs[i]
    while time_to_end >= min_win_period_hours:
        if iquam""")],
    demo='''
import Extended_IMMA as ex
import IMMA1
v = ex.Voyage()
for i in range(4):
    m = IMMA1.IMMA()
    m.attachments = [0, 1, 98]
    for a in m.attachments:
        for p in IMMA1.getParameters(a):
            m.data[p] = None
    m.data.update(ID='B', YR=2004, MO=3, DY=1 + i, HR=0.0, LAT=5.0, LON=5.0 + 0.1 * i, PT=7, UID='A%d' % i)
    v.add_report(ex.MarineReport(m))
    v.reps[i].set_qc('POS', 'drf_spd', 1)
v.new_buoy_speed_check({'buoy_speed_limit': 15.0, 'ship_speed_limit': 60.0, 'delta_d': 1.11, 'delta_t': 0.01, 'number_of_neighbours': 5}, {'speed_limit': 2.5, 'min_win_period': 0.5})
assert [v.get_qc(i, 'POS', 'drf_spd') for i in range(4)] == [0] * 4
''')
bug(id='aground-short-start', property='C21', needs='a drifter that is aground within half a smoothing window of the start of its record', breaks='the start of the grounding is not moved by half the smoothing window when it lies early in the record',
    edits=[('trackqc.py', "        if i_aground > 0:\n            i_aground += half_win\n        # this gets the first index the drifter is deemed aground for the original (un-smoothed) timeseries\n        # n.b. if i_aground=0 then the entire drifter record is deemed aground and flagged as such \n    for ind, rep in enumerate(reps):\n        if is_aground:\n            if ind < i_aground:\n                rep.set_qc('POS', 'drf_agr', 0)\n            else:\n                rep.set_qc('POS', 'drf_agr', 1)\n        else:\n            rep.set_qc('POS', 'drf_agr', 0)\n\n\ndef speed_check", "        if i_aground > half_win:\n            i_aground += half_win\n        # this gets the first index the drifter is deemed aground for the original (un-smoothed) timeseries\n        # n.b. if i_aground=0 then the entire drifter record is deemed aground and flagged as such \n    for ind, rep in enumerate(reps):\n        if is_aground:\n            if ind < i_aground:\n                rep.set_qc('POS', 'drf_agr', 0)\n            else:\n                rep.set_qc('POS', 'drf_agr', 1)\n        else:\n            rep.set_qc('POS', 'drf_agr', 0)\n\n\ndef speed_check")],
    demo='''
import Extended_IMMA as ex
import IMMA1
v = ex.Voyage()
n = 60
for i in range(n):
    m = IMMA1.IMMA()
    m.attachments = [0, 1, 98]
    for a in m.attachments:
        for p in IMMA1.getParameters(a):
            m.data[p] = None
    m.data.update(ID='B', YR=2004, MO=3 + i // 25, DY=1 + i % 25, HR=0.0, LAT=5.0, LON=5.0 + (3 - i if i < 3 else 0), PT=7, UID='A%d' % i)
    v.add_report(ex.MarineReport(m))
v.new_buoy_aground_check({'smooth_win': 5, 'min_win_period': 8})
assert [v.get_qc(i, 'POS', 'drf_agr') for i in range(6)] == [0, 0, 0, 1, 1, 1], [v.get_qc(i, 'POS', 'drf_agr') for i in range(6)]
''')
bug(id='blank-ids-merged', property='C15', needs='two identifiers that differ in a leading blank only', breaks='the reports of two platforms come out as one voyage',
    edits=[('Extended_IMMA.py', """        for i, rep in enumerate(self.reps):
            if rep.getvar('ID') in self.idtracker:
                self.idtracker[rep.getvar('ID')].append(i)
            else:
                self.idtracker[rep.getvar('ID')] = [i]
""", """        for i, rep in enumerate(self.reps):
            thisid = rep.getvar('ID')
            if thisid is not None:
                thisid = thisid.strip()
            if thisid in self.idtracker:
                self.idtracker[thisid].append(i)
            else:
                self.idtracker[thisid] = [i]
""")],
    demo='''
import Extended_IMMA as ex
import IMMA1
d = ex.Deck()
for i, n in enumerate((' 5151    ', '5151     ', ' 5151    ')):
    m = IMMA1.IMMA()
    m.attachments = [0, 1, 98]
    for a in m.attachments:
        for p in IMMA1.getParameters(a):
            m.data[p] = None
    m.data.update(ID=n, YR=2004, MO=3, DY=1 + i, HR=0.0, LAT=5.0, LON=5.0, UID='A%d' % i)
    d.append(ex.MarineReportQC(m))
d.add_filter(ex.QC_filter())
assert sorted(len(v) for v in d.get_one_platform_at_a_time()) == [1, 2]
''')
bug(id='certain-error', property='C20', needs='a report so far from its neighbours that its error is certain', breaks='a probability of exactly one gives the flag 10, which is refused',
    edits=[('Extended_IMMA.py', "                    if flag > 9:\n", "                    if flag > 10:\n")],
    demo='''
import Extended_IMMA as ex
import Climatology as clim
import IMMA1
import numpy as np
d = ex.Deck()
for i, v in enumerate((15.0, 15.0, 22.5)):
    m = IMMA1.IMMA()
    m.attachments = [0, 1, 98]
    for a in m.attachments:
        for p in IMMA1.getParameters(a):
            m.data[p] = None
    m.data.update(ID='A%d' % i, YR=2004, MO=3, DY=3, HR=0.0, LAT=5.5, LON=5.5 + i, SST=v, UID='A%d' % i)
    r = ex.MarineReportQC(m)
    r.add_climate_variable('SST', 15.0)
    d.append(r)
d.add_filter(ex.QC_filter())
c = clim.Climatology(np.full((73, 180, 360), 0.1))
p = {'bayesian_buddy_check': {'prior_probability_of_gross_error': 0.05, 'quantization_interval': 0.1, 'measurement_error': 0.1, 'limits': [2, 2, 4], 'noise_scaling': 3.0}, 'SST': {'maximum_anomaly': 8.0}}
d.bayesian_buddy_check('SST', c, c, c, p)
assert [r.get_qc('SST', 'bbud') for r in d.reps][2] == 9
''')
bug(id='masked-by-day', property='C24', needs='a short record whose only unreliable background is met by day', breaks='an unreliable background at a report made by day no longer keeps a short record from being judged',
    edits=[('trackqc.py', """        bgvar_mask = True if bgvar_val is not None and bgvar_val > background_err_lim else False
        if bgvar_mask:
            bgvar_is_masked = True
""", """        bgvar_mask = True if bgvar_val is not None and bgvar_val > background_err_lim else False
        if bgvar_mask and not daytime:
            bgvar_is_masked = True
""")],
    demo=SST + '''
r = record([9.0] * 5, hours=[2], var=[0.01, 0.01, 0.9, 0.01, 0.01])
trackqc.sst_biased_noisy_check(r, 30, 1.1, 1.0, 0.29, 3.0, 2, 0.3)
assert [x.q['drf_short'] for x in r] == [0] * 5
''')
bug(id='humidity-at-nought', property='C28', needs='air at exactly nought degrees', breaks='saturation at exactly nought degrees is taken over water while the vapour is taken over ice',
    edits=[('CalcHums.py', """    b = ((409.8 * es) / ((t + 237.3) ** 2))  # t here rather than td because for es, t==td
    w = (((a * t) + (b * t)) / (a + b))  # second t is t here rather than td because for ex, t==td
""", """    b = ((409.8 * es) / ((t + 237.3) ** 2))  # t here rather than td because for es, t==td
    w = (((a * t) + (b * t)) / (a + b)) or 0.001  # second t is t here rather than td because for ex, t==td
""")],
    demo='''
import CalcHums
assert abs(CalcHums.rh(0.0, 0.0, 1000.0, False) - 100.0) < 1e-6, CalcHums.rh(0.0, 0.0, 1000.0, False)
''')
bug(id='start-edge-wide', property='C02', needs='a record that starts exactly as many months after the first month as the gap is long', breaks='a chunk that starts right after a full gap counts as an edge case',
    edits=[('YMCounter.py', "            if self.index(y1, m1) < gap:\n", "            if self.index(y1, m1) <= gap:\n")],
    demo='''
import YMCounter as ym
c = ym.YMCounter(2001, 1, 2003, 12)
for m in (4, 5, 6):
    c.setym(2001, m, 1)
assert [x[4] for x in c.yield_start_and_end_dates(3)] == [['regular']], list(c.yield_start_and_end_dates(3))
''')
bug(id='flags-of-first-month', property='C33', needs='a buoy with data for three months', breaks='the flags of the third month go to the reports of the second',
    edits=[('tracking_qc.py', "        count += nrep\n", "        count = nrep\n")],
    demo=TRACK + '''
for m in (3, 4, 5):
    month(2004, m, [dict(uid='AAAAA%d' % m, day=1), dict(uid='BBBBB%d' % m, day=2)])
try:
    out = run(2004, 3, 2004, 5)
except Exception as e:
    sys.exit(1)
assert len(list(out.values())[0]) == 6
''')
REP = '''
import Extended_IMMA as ex
import IMMA1


def report(kind=ex.MarineReport, **kw):
    m = IMMA1.IMMA()
    m.attachments = [0, 1, 98]
    for a in m.attachments:
        for p in IMMA1.getParameters(a):
            m.data[p] = None
    m.data.update(dict(dict(ID='A', YR=2004, MO=3, DY=1, HR=0.0, LAT=5.0, LON=5.0, PT=5, UID='U'), **kw))
    return kind(m)


'''
bug(id='stale-motion', property='C14', needs='reports that were in another voyage before', breaks='a report keeps the speed it had in the voyage it was in first',
    edits=[('Extended_IMMA.py', """        if len(self.reps) > 1:
            i = len(self.reps)
            shpspd""", """        if len(self.reps) > 1 and rep.ext.get('speed') is None:
            i = len(self.reps)
            shpspd"""), ('Extended_IMMA.py', """            self.reps[i - 1].setext('time_diff', tdiff)
        else:
""", """            self.reps[i - 1].setext('time_diff', tdiff)
        elif len(self.reps) == 1:
""")],
    demo=REP + '''
r = [report(DY=1 + i, LON=5.0 + i * i) for i in range(4)]
v = ex.Voyage()
for x in r:
    v.add_report(x)
w = ex.Voyage()
for x in (r[0], r[3]):
    w.add_report(x)
assert w.getrep(1).getext('time_diff') == 72.0, w.getrep(1).getext('time_diff')
''')
bug(id='bad-id-blank', property='C31', needs='an identifier to exclude that starts with a blank', breaks='an identifier that starts with a blank is not excluded, another is in its place',
    edits=[('BackgroundField.py', "        line = line.rstrip()\n", "        line = line.strip()\n")],
    demo='''
import os
import tempfile
import BackgroundField as bf
h, f = tempfile.mkstemp()
os.write(h, b' 5151\\nSHIP\\n')
os.close(h)
x = bf.process_bad_id_file(f)
os.remove(f)
assert x == [' 5151    ', 'SHIP     '], x
''')
bug(id='id-file-grows', property='C34', needs='a month processed twice', breaks='the list of identifiers of a month grows with every run',
    edits=[('marine_qc.py', "            idfile = open(extdir + '/ID_file.txt', 'w')\n", "            idfile = open(extdir + '/ID_file.txt', 'a')\n")],
    demo=PROG + '''
config()
file(2003, 9, [ob('AAAAAA', PT=7, ID='BUOY')])
for k in range(2):
    run(marine_qc, 2003, 9, tracking=True)
x = open(base + '/out/2003/09/ID_file.txt').read()
assert len(x.splitlines()) == 1, x
''')
bug(id='six-digits', property='C32', needs='a value of more than six digits, such as an hour with minutes', breaks='values are written with six digits',
    edits=[('Extended_IMMA.py', "        repout = str(variable)\n", "        repout = '%g' % variable if isinstance(variable, float) else str(variable)\n")],
    demo=REP + '''
r = report(kind=ex.MarineReportQC, HR=13.98333333, LAT=5.0)
assert '13.98333333' in r.print_variable_block([['HR'], ['LAT']]), r.print_variable_block([['HR'], ['LAT']])
''')
bug(id='deck-flags-filtered', property='C10', needs='a deck with a filter', breaks='a flag set for a whole deck only reaches the reports that pass its filter',
    edits=[('Extended_IMMA.py', """        for rep in self.reps:
            rep.set_qc(qc_type, specific_flag, set_value)
        return
""", """        for rep in self.reps:
            if self.filter is None or self.filter.test_report(rep) == 0:
                rep.set_qc(qc_type, specific_flag, set_value)
        return
""")],
    demo=REP + '''
d = ex.Deck()
for i in range(3):
    d.append(report(UID='U%d' % i))
    d.reps[i].set_qc('POS', 'trk', i % 2)
f = ex.QC_filter()
f.add_qc_filter('POS', 'trk', 0)
d.add_filter(f)
d.set_qc('SST', 'bud', 1)
assert [r.get_qc('SST', 'bud') for r in d.reps] == [1, 1, 1]
''')
bug(id='buddy-sticky', property='C19', needs='a second run of the buddy check after a report was filtered out', breaks='a report left out of the buddy check keeps the flag of an earlier run',
    edits=[('Extended_IMMA.py', """                    this_report.set_qc(intype, 'bud', 0)

            else:
                this_report.set_qc(intype, 'bud', 0)
""", """                    this_report.set_qc(intype, 'bud', 0)

            elif this_report.get_qc(intype, 'bud') == 9:
                this_report.set_qc(intype, 'bud', 0)
""")],
    demo=REP + '''
import Climatology as clim
import numpy as np
d = ex.Deck()
for i, s in enumerate((15.0, 15.0, 30.0)):
    r = report(UID='U%d' % i, LON=5.5 + i, SST=s)
    r.add_climate_variable('SST', 15.0)
    r.set_qc('POS', 'trk', 0)
    d.append(r)
f = ex.QC_filter()
f.add_qc_filter('POS', 'trk', 0)
d.add_filter(f)
p = {'limits': [[1, 1, 2], [2, 2, 2]], 'number_of_obs_thresholds': [[0], [0]], 'multipliers': [[4.0], [4.0]]}
c = clim.Climatology(np.full((73, 180, 360), 0.5))
d.mds_buddy_check('SST', c, p)
assert d.reps[2].get_qc('SST', 'bud') == 1
d.reps[2].set_qc('POS', 'trk', 1)
d.mds_buddy_check('SST', c, p)
assert d.reps[2].get_qc('SST', 'bud') == 0
''')
