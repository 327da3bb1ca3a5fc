"""bugs that probes showed to be hard to see"""
import os

BUGS = []


def bug(**k):
    BUGS.append(k)


def _from(name, *want):
    ns = {'__file__': os.path.join(os.path.dirname(os.path.abspath(__file__)), name)}
    exec(open(ns['__file__']).read(), ns)
    return [ns[w] for w in want]


PROG, TRACK, WRAP = _from('b4.py', 'PROG', 'TRACK', 'WRAP')
FLEET, SST = _from('b2.py', 'FLEET', 'SST')

bug(id='queue-asked-once', property='C25', needs='more than 250 jobs in the queue for longer than one wait', breaks='after one wait the next job is submitted to a queue that is still full',
    edits=[('Tracking_QC_wrapper.py', "    while count > 250:\n", "    if count > 250:\n")],
    demo=WRAP + '''
import time
log = []
loads = [300, 300, 10, 10, 10]


def squeue(cmd, *a, **k):
    n = loads.pop(0) if loads else 0
    log.append(n)
    return 'hadjj\\n' * n


def sbatch(cmd, *a, **k):
    log.append('sbatch')
    return take(cmd)


subprocess.check_output = squeue
os.system = sbatch
time.sleep = lambda s: None
run({'A        ': [5], 'B        ': [6]}, 'all')
assert log[:5] == ['sbatch', 300, 300, 10, 'sbatch'], log
''')
bug(id='blank-led-id', property='C25', needs='a buoy whose ID starts with a blank', breaks='the blank an ID starts with is lost, so that the job looks for the files of another ID',
    edits=[('Tracking_QC_wrapper.py', "            line = line.rstrip(\"\\n\")\n", "            line = line.strip()\n")],
    demo=WRAP + '''
run({' 5151    ': [5]}, 'all')
i = jobs[0].index('-id')
assert jobs[0][i + 1].rstrip() == ' 5151', jobs[0]
''')
bug(id='sun-east-longitudes', property='C04', needs='a longitude above 180', breaks='the tracking QC takes longitudes above 180 for eastern ones of the mirrored place',
    edits=[('trackqc.py', "    lon2 = lon\n", "    lon2 = lon if lon <= 180 else 360 - lon\n")],
    demo='''
import trackqc
for h in range(24):
    a, b = trackqc.track_day_test(2005, 6, 1, h + 0.5, 20.0, -90.0), trackqc.track_day_test(2005, 6, 1, h + 0.5, 20.0, 270.0)
    assert a == b, (h, a, b)
''')
bug(id='packed-without-nc', property='C31', needs='a packed background file whose name does not end in .nc.bz2', breaks='packed files of other names are handed out packed',
    edits=[('BackgroundField.py', "    if '.bz2' in chosen_orig:\n", "    if chosen_orig.endswith('.nc.bz2'):\n")],
    demo='''
import bz2
import shutil
import tempfile
import BackgroundField as bf
d = tempfile.mkdtemp()
os.environ['SCRATCH'] = d + '/s'
for n in ('a', 's'):
    os.mkdir(d + '/' + n)
open(d + '/a/x_2001.bz2', 'wb').write(bz2.compress(b'field'))
f = bf.get_background_filename([d + '/a'], ['x_YYYY'], 2001, 1, 1)
ok = f is not None and open(f, 'rb').read() == b'field'
shutil.rmtree(d)
assert ok, f
''')
bug(id='zero-air-temperature', property='C34', needs='a report whose air temperature is exactly nought', breaks='air temperatures of 0.0 get no second series, so that their dew points count as supersaturated',
    edits=[('marine_qc.py', "rep.setvar('AT2', rep.getvar('AT'))", "rep.setvar('AT2', rep.getvar('AT') or None)")],
    demo=PROG + '''
config()
file(2003, 9, [ob('AAAAAA', AT=0.0, DPT=-2.0), ob('BBBBBB', AT=0.5, DPT=-2.0, ID='TWO')])
run(marine_qc, 2003, 9)
r = rows('DPT_qc')
assert r['AAAAAA']['ssat'] == r['BBBBBB']['ssat'] == '0', r
''')
bug(id='other-years', property='C34', needs='a report of the month of another year in the file of a month', breaks='reports of the same month of another year are taken in',
    edits=[('marine_qc.py', "                        rec.data['YR'] == readyear and\n                        rec.data['MO'] == readmonth):\n", "                        rec.data['MO'] == readmonth):\n")],
    demo=PROG + '''
config()
file(2003, 9, [ob('AAAAAA', SST=22.0, ID='ONE'), ob('BBBBBB', LON=21.5, ID='TWO', YR=2002)])
run(marine_qc, 2003, 9)
a = rows('SST_qc')['AAAAAA']['bud']
file(2003, 9, [ob('AAAAAA', SST=22.0, ID='ONE'), ob('BBBBBB', LON=21.5, ID='TWO', YR=2003)])
run(marine_qc, 2003, 9)
assert (a, rows('SST_qc')['AAAAAA']['bud']) == ('0', '1'), (a, rows('SST_qc')['AAAAAA']['bud'])
''')
bug(id='identifiers-unread', property='C33', needs='a file of position flags whose lines belong to other reports', breaks='the identifiers of the position flags are not looked at',
    edits=[('tracking_qc.py', """                            if line[key].strip() != uid.strip():
                                raise UserWarning("UIDs don't match: {0}-{1}".format(line[key], uid))
                        else:
                            rep_list[indx].set_qc('POS', key, int(line[key]))
""", """                            continue
                        else:
                            rep_list[indx].set_qc('POS', key, int(line[key]))
""")],
    demo=TRACK + '''
month(2004, 3, [dict(uid='AAAAAA', day=1), dict(uid='BBBBBB', day=2), dict(uid='CCCCCC', day=3)], {'POS': ['AAAAAA', 'CCCCCC', 'BBBBBB']})
try:
    run(2004, 3, 2004, 3)
except Exception as e:
    sys.exit(0)
sys.exit(1)
''')
bug(id='tail-untrimmed', property='C23', needs='a window of a hundred reports or more whose mean anomaly lies close to the limit, with one far outlier', breaks='the extremes of long windows are not left out of the mean',
    edits=[('trackqc.py', "sst_anom_avg = trim_mean(sst_anom_winvals, 100)", "sst_anom_avg = np.mean(sst_anom_winvals)")],
    demo=SST + '''
r = record([0.83] * 60 + [8.0] + [0.83] * 60 + [0.0] * 60, var=0.0)
trackqc.sst_tail_check(r, 121, 3.0, 30, 30.0, 2, 0.29, 1.0, 0.3)
assert sum(x.q['drf_tail1'] for x in r) == 0, [x.q['drf_tail1'] for x in r]
''')
bug(id='tail-error-rounded', property='C23', needs='a statistic within half a hundredth of its limit', breaks='background errors are rounded to the hundredth of a degree before they are used',
    edits=[('trackqc.py', """    bgerr = np.sqrt(np.array(bgvar))  # standard deviation of background error
    nrep = len(sst_anom)
""", """    bgerr = np.round(np.sqrt(np.array(bgvar)), 2)  # standard deviation of background error
    nrep = len(sst_anom)
""")],
    demo=SST + '''
r = record([1.5] * 5 + [0.0] * 20, var=0.496 ** 2)
trackqc.sst_tail_check(r, 1, 3.0, 1, 30.0, 1, 0.0, 1.0, 0.3)
assert r[0].q['drf_tail1'] == 1
''')
bug(id='drifters-become-ships', property='C22', needs='use of the reports after the check', breaks='the speed check turns the drifters themselves into ships',
    edits=[('trackqc.py', "    reps_copy = copy.deepcopy(reps)\n", "    reps_copy = copy.copy(reps)\n")],
    demo='''
import Extended_IMMA as ex
import IMMA1
v = ex.Voyage()
for i in range(4):
    m = IMMA1.IMMA()
    m.attachments = [0, 1, 98]
    for a in m.attachments:
        for p in IMMA1.getParameters(a):
            m.data[p] = None
    m.data.update(ID='B', YR=2004, MO=3, DY=1 + i, HR=0.0, LAT=5.0, LON=5.0 + 0.1 * i, PT=7, UID='A%d' % i)
    v.add_report(ex.MarineReport(m))
v.new_buoy_speed_check({'buoy_speed_limit': 15.0, 'ship_speed_limit': 60.0, 'delta_d': 1.11, 'delta_t': 0.01, 'number_of_neighbours': 5}, {'speed_limit': 2.5, 'min_win_period': 0.5})
assert [v.getvar(i, 'PT') for i in range(4)] == [7] * 4, [v.getvar(i, 'PT') for i in range(4)]
''')
