"""bugs of the programs and the files around them"""
import ast
import json
import os

BUGS = []


def bug(**k):
    BUGS.append(k)


_src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools/bugs', '../../mc/marine.py')).read()
_par = next(ast.literal_eval(n.value) for n in ast.parse(_src).body if isinstance(n, ast.Assign) and n.targets[0].id == 'PARAMS')

PROG = '''
import atexit
import contextlib
import csv
import datetime
import gzip
import io
import json
import shutil
import tempfile

_g = gzip.open
gzip.open = lambda f, mode='r', *a: _g(f, 'rt', encoding='latin-1')
import netCDF4
import numpy as np

NORMAL = {'SST': 15.0, 'AT': 16.0, 'AT2': 16.0, 'DPT': 8.0, 'SLP': 1010.0, 'SLP2': 1000.0, 'SHU': 8.0, 'CRH': 70.0, 'CWB': 11.0, 'DPD': 6.0}


class Dataset(object):
    def __init__(self, name, *a, **k):
        b = os.path.basename(name)[:-3]
        if b.startswith('ostia_'):
            if not os.path.isfile(name):
                raise IOError(name)
            sh = (1, 3600, 7200)
            day = datetime.date(int(b[6:10]), int(b[10:12]), int(b[12:14])).toordinal() %% 50
            self.variables = {'analysed_sst': np.ma.array(np.broadcast_to(np.array(273.15 + day), sh)), 'sea_ice_fraction': np.ma.array(np.broadcast_to(np.array(0.0), sh)),
                              'lat': -89.975 + 0.05 * np.arange(3600), 'lon': -179.975 + 0.05 * np.arange(7200)}
            return
        kind, var = b.split('_')
        n, v = (1, 0.1) if kind == 'bg' else (73, NORMAL[var] if kind == 'mean' else SD.get(var, 1.0))
        self.variables = {'v': np.ma.array(np.broadcast_to(np.array(float(v)), (n, 180, 360))), 'lat': 89.5 - np.arange(180), 'lon': -179.5 + np.arange(360)}
        for name in ('sst', 'bg_var', 'temperature'):
            self.variables[name] = self.variables['v']

    def close(self):
        pass


SD = {}
netCDF4.Dataset = Dataset
import Climatology
Climatology.Dataset = Dataset
import IMMA1
import marine_qc
import marine_qc_hires
import marine_qc_track_only

base = tempfile.mkdtemp()
atexit.register(shutil.rmtree, base)
os.environ['SCRATCH'] = base
for d in ('in', 'in2', 'out', 'bg'):
    os.mkdir(base + '/' + d)
PAR = %s


def config(bad='', **over):
    p = json.loads(json.dumps(PAR))
    for k in over:
        p[k].update(over[k])
    p.update(runid='r', icoads_dir=[base + '/in', base + '/in2'], icoads_filenames=['YYYY-MMMM.gz'] * 2, background_dir=[base + '/bg'], background_filenames=['ostia_YYYYMMMMDDDD.nc'],
             climatologies=[[v, 'mean', 'mean_%%s.nc' %% v, 'v'] for v in NORMAL] + [[v, 'stdev', 'sd_%%s.nc' %% v, 'v'] for v in ('DPT', 'AT2', 'SLP')],
             hires_climatologies=[['SST', 'mean', 'mean_SST.nc', 'v']])
    json.dump(p, open(base + '/p.json', 'w'))
    open(base + '/bad', 'w').write(bad)
    with open(base + '/c.txt', 'w') as f:
        f.write('[Directories]\\nICOADS_dir=%%s/in\\nout_dir=%%s/out\\ntrack_out_dir=%%s/out\\n[Files]\\nIDs_to_exclude=%%s/bad\\nparameter_file=%%s/p.json\\n[Icoads]\\nicoads_version=3.0\\n'
                '[Climatologies]\\nOld_SST_stdev_climatology=sd_0.nc\\nSST_buddy_one_box_to_buddy_avg=sd_1.nc\\nSST_buddy_one_ob_to_box_avg=sd_2.nc\\nSST_buddy_avg_sampling=sd_3.nc\\n'
                %% ((base,) * 5) + ''.join('%%s_ostia_background=bg_%%s.nc\\n' %% (s, s) for s in ('DJF', 'MAM', 'JJA', 'SON')))


def ob(uid, **k):
    d = dict(ID='SHIPA', YR=2003, MO=9, DY=15, HR=23.0, LAT=10.5, LON=20.5, SST=15.0, AT=16.0, DPT=8.0, SLP=1010.0, W=5.0, D=90, DCK=926, PT=5, SID=103, UID=uid)
    d.update(k)
    return d


def file(year, month, obs, folder='in'):
    with _g('%%s/%%s/%%04d-%%02d.gz' %% (base, folder, year, month), 'wt', encoding='latin-1') as f:
        for o in obs:
            if isinstance(o, str):
                f.write(o + '\\n')
                continue
            r = IMMA1.IMMA()
            r.attachments = [0, 1, 98]
            for a in r.attachments:
                for p in IMMA1.getParameters(a):
                    r.data[p] = None
            r.data.update(o)
            r.write(f)


def background(*dates):
    for d in dates:
        open('%%s/bg/ostia_%%04d%%02d%%02d.nc' %% ((base,) + d), 'w').write('x')


def run(prog, y1, m1, y2=None, m2=None, tracking=False):
    sys.argv = ['prog', '-config', base + '/c.txt', '-year1', str(y1), '-month1', str(m1), '-year2', str(y2 or y1), '-month2', str(m2 or m1)] + (['-tracking'] if tracking else [])
    with contextlib.redirect_stdout(io.StringIO()):
        prog.main(sys.argv[1:])


def rows(name, year=2003, month=9):
    p = '%%s/out/%%d/%%02d/%%s_%%d%%02d_r.csv' %% (base, year, month, name, year, month)
    if not os.path.isfile(p):
        p = '%%s/out/%%d/%%02d/%%s' %% (base, year, month, name)
    return {r['UID']: r for r in csv.DictReader(open(p))} if os.path.isfile(p) else None

''' % repr(_par)

TRACK = '''
import atexit
import contextlib
import csv
import io
import json
import shutil
import tempfile
import tracking_qc

base = tempfile.mkdtemp()
atexit.register(shutil.rmtree, base)
os.makedirs(base + '/out')
os.makedirs(base + '/track')
VARS = 'UID,DATE,PENTAD,ID,YR,MO,DY,HR,LAT,LON,AT,AT_anom,SST,SST_anom,DPT,DPT_anom,SLP,SLP_anom,OSTIA,ICE,BGVAR'.split(',')
POS = 'day,isship,trk,date,time,pos,blklst,isbuoy,iquam_track,isdrifter'.split(',')
SST = 'bud,clim,nonorm,freez,noval,nbud,bbud,rep,spike,hardlimit'.split(',')
PAR = {'runid': 'r', 'new_buoy_aground_check': {'smooth_win': 1, 'min_win_period': 2}, 'new_buoy_speed_check': {'speed_limit': 2.5, 'min_win_period': 0.5},
       'IQUAM_track_check': {'buoy_speed_limit': 15.0, 'ship_speed_limit': 60.0, 'delta_d': 1.11, 'delta_t': 0.01, 'number_of_neighbours': 5},
       'buoy_tail_check': dict(long_win_len=3, long_err_std_n=3.0, short_win_len=2, short_err_std_n=3.0, short_win_n_bad=2, drift_inter=0.29, drif_intra=1.0, background_err_lim=0.3),
       'buoy_bias_noise_check': dict(n_eval=3, bias_lim=1.1, drif_intra=1.0, drif_inter=0.29, err_std_n=3.0, n_bad=2, background_err_lim=0.3)}
json.dump(PAR, open(base + '/p.json', 'w'))
open(base + '/c.txt', 'w').write('[Directories]\\nout_dir=%s/out\\ntrack_out_dir=%s/track\\n[Files]\\nparameter_file=%s/p.json\\n' % (base, base, base))


def month(year, mon, reps, uids=None):
    """reps: list of dicts with uid, day, lat, lon, sst, flags; uids: what the files of flags say"""
    d = '%s/out/%d/%02d' % (base, year, mon)
    os.makedirs(d)
    names = [d + '/%s_%d%02d_B1       _r.csv' % (x, year, mon) for x in ('Variables', 'POS_qc', 'SST_qc')]
    with open(names[0], 'w') as f:
        f.write(','.join(VARS) + '\\n')
        for r in reps:
            v = dict.fromkeys(VARS, '\\\\N')
            v.update(UID=r['uid'], DATE='x', PENTAD='1', ID='"B1       "', YR=year, MO=mon, DY=r['day'], HR=0.0, LAT=r.get('lat', 5.0), LON=r.get('lon', 5.0), SST=r.get('sst', 15.0),
                     OSTIA=15.0, ICE=0.0, BGVAR=0.01)
            f.write(','.join(str(v[k]) for k in VARS) + '\\n')
    for n, block, cols in ((names[1], 'POS', POS), (names[2], 'SST', SST)):
        with open(n, 'w') as f:
            f.write('UID,' + ','.join(cols) + '\\n')
            for i, r in enumerate(reps):
                u = uids[block][i] if uids and block in uids else r['uid']
                f.write(u + ',' + ','.join(str(r.get('flags', {}).get((block, c), int(c in ('isbuoy', 'isdrifter')))) for c in cols) + '\\n')
    return names


def run(y1, m1, y2, m2, edge=('regular',)):
    sys.argv = ['tracking_qc.py', '-config', base + '/c.txt', '-id', 'B1', '-yr1', str(y1), '-mn1', str(m1), '-yr2', str(y2), '-mn2', str(m2), '-edge'] + list(edge) + ['-runmonthid', 'RUN']
    with contextlib.redirect_stdout(io.StringIO()):
        tracking_qc.main(sys.argv[1:])
    out = {}
    for p, _, ff in os.walk(base + '/track'):
        for f in ff:
            out[os.path.relpath(p, base + '/track')] = {r['UID']: r for r in csv.DictReader(open(p + '/' + f))}
    return out

'''

# ------------------------------------------------------------------------------------------ marine_qc.py

bug(id='background-day-back', property='C34', needs='a tracking run on a file whose days go back', breaks='a report of an earlier day than the one before it keeps the later day\'s background',
    edits=[('marine_qc.py', "                        if rep.getvar('DY') != lastday:\n", "                        if rep.getvar('DY') > lastday:\n")],
    demo=PROG + '''
config()
file(2003, 9, [ob('A', DY=15, PT=7, ID='B1'), ob('B', DY=10, PT=7, ID='B1')])
background((2003, 9, 14), (2003, 9, 9))
run(marine_qc, 2003, 9, tracking=True)
r = rows('Variables')
a, b = float(r['A'.ljust(6)]['OSTIA']), float(r['B'.ljust(6)]['OSTIA'])
assert abs(a - b) > 1, (a, b)
''')
bug(id='month-of-the-run', property='C34', needs='a report of the month in the file of a neighbouring month', breaks='reports of the month in the files of the months around it are taken as well',
    edits=[('marine_qc.py', "                        rec.data['MO'] == readmonth):\n", "                        rec.data['MO'] in [readmonth, month]):\n")],
    demo=PROG + '''
config()
file(2003, 9, [ob('AAAAAA')])
file(2003, 10, [ob('BBBBBB', MO=9, DY=30), ob('CCCCCC', MO=10)])
run(marine_qc, 2003, 9)
assert sorted(rows('Variables')) == ['AAAAAA'], sorted(rows('Variables'))
''')
bug(id='moored-tracking', property='C34', needs='a tracking run with a moored buoy', breaks='moored buoys get files of their own and a place in the list of drifters',
    edits=[('marine_qc.py', "            filt.add_qc_filter('POS', 'isdrifter', 1)\n", "            filt.add_qc_filter('POS', 'isbuoy', 1)\n")],
    demo=PROG + '''
config()
file(2003, 9, [ob('AAAAAA', ID='MOORED', PT=6), ob('BBBBBB', ID='DRIFTER', PT=7)])
run(marine_qc, 2003, 9, tracking=True)
assert open(base + '/out/2003/09/ID_file.txt').read().split(',')[0].strip() == 'DRIFTER'
''')
bug(id='pressure-parameters', property='C34', needs='different parameters for the pressure buddy check', breaks='pressure is compared with its neighbours by the parameters of the other variables',
    edits=[('marine_qc.py', "        reps.mds_buddy_check('SLP', climlib.get_field('SLP', 'stdev'), parameters['slp_buddy_check'])\n",
            "        reps.mds_buddy_check('SLP', climlib.get_field('SLP', 'stdev'), parameters['mds_buddy_check'])\n")],
    demo=PROG + '''
SD['SLP'] = 4.0
config(slp_buddy_check={'multipliers': [[1.0, 1.0, 1.0, 1.0], [1.0], [1.0, 1.0, 1.0, 1.0], [1.0]]})
file(2003, 9, [ob('AAAAAA', SLP=1018.0, ID='ONE'), ob('BBBBBB', LON=21.5, ID='TWO')])
run(marine_qc, 2003, 9)
assert rows('SLP_qc')['AAAAAA']['bud'] == '1'
''')
bug(id='air-deviations', property='C34', needs='different fields of the first two deviations, and air temperatures at night', breaks='the Bayesian check of air temperatures takes two deviations for each other',
    edits=[('marine_qc.py', "        reps.bayesian_buddy_check('AT', sst_stdev_1, sst_stdev_2, sst_stdev_3, parameters)\n", "        reps.bayesian_buddy_check('AT', sst_stdev_2, sst_stdev_1, sst_stdev_3, parameters)\n")],
    demo=PROG + '''
SD.update({'1': 0.1, '2': 2.0})
config()
got = []
for at in (18.5, 19.0, 19.5, 20.0, 20.5, 21.0, 22.0, 23.0, 24.0, 25.0):
    file(2003, 9, [ob('AAAAAA', AT=at, ID='ONE', HR=0.0), ob('BBBBBB', LON=21.5, ID='TWO', HR=0.0)])
    run(marine_qc, 2003, 9)
    got.append(rows('AT_qc')['AAAAAA']['bbud'])
SD.update({'1': 2.0, '2': 2.0})
other = []
for at in (18.5, 19.0, 19.5, 20.0, 20.5, 21.0, 22.0, 23.0, 24.0, 25.0):
    file(2003, 9, [ob('AAAAAA', AT=at, ID='ONE', HR=0.0), ob('BBBBBB', LON=21.5, ID='TWO', HR=0.0)])
    run(marine_qc, 2003, 9)
    other.append(rows('AT_qc')['AAAAAA']['bbud'])
# the second deviation counts three times (and again for the neighbour), the first one once: the first being small makes little difference
assert sum(abs(int(a) - int(b)) for a, b in zip(got, other)) <= 8, (got, other)
''')
bug(id='first-ostia-year', property='C34', needs='a tracking run for 1985', breaks='reports of 1985 get no background',
    edits=[('marine_qc.py', "                    if tracking and readyear >= 1985 and rep.getvar('DY') is not None:\n", "                    if tracking and readyear > 1985 and rep.getvar('DY') is not None:\n")],
    demo=PROG + '''
config()
file(1985, 3, [ob('AAAAAA', YR=1985, MO=3, PT=7, ID='B1')])
background((1985, 3, 14))
run(marine_qc, 1985, 3, tracking=True)
assert rows('Variables', 1985, 3)['AAAAAA']['OSTIA'] != '\\\\N'
''')
bug(id='no-next-month', property='C34', needs='a report at the end of the month whose only neighbour is in the next month', breaks='the month after is not read',
    edits=[('marine_qc.py', "        for readyear, readmonth in qc.year_month_gen(last_year, last_month, next_year, next_month):\n",
            "        for readyear, readmonth in qc.year_month_gen(last_year, last_month, *([next_year, next_month] if next_month > month else [year, month])):\n")],
    demo=PROG + '''
config()
file(2003, 12, [ob('AAAAAA', MO=12, DY=31, SST=20.0, ID='ONE')])
file(2004, 1, [ob('BBBBBB', YR=2004, MO=1, DY=2, LON=21.5, ID='TWO')])
run(marine_qc, 2003, 12)
assert rows('SST_qc', 2003, 12)['AAAAAA']['bud'] == '1'
''')
bug(id='night-ships', property='C34', needs='a daytime air temperature next to one at night', breaks='air temperatures by day are compared with their neighbours as well',
    edits=[('marine_qc.py', "        filt.add_qc_filter('POS', 'day', 0)\n", "        filt.add_qc_filter('POS', 'date', 0)\n")],
    demo=PROG + '''
config()
file(2003, 9, [ob('AAAAAA', AT=21.0, HR=0.0, ID='ONE'), ob('BBBBBB', HR=12.0, LON=21.5, ID='TWO')])
run(marine_qc, 2003, 9)
assert rows('AT_qc')['AAAAAA']['bud'] == '0'
''')

# ------------------------------------------------------------------------------------------ the other two programs

bug(id='hires-deck-780', property='C35', needs='a report of deck 780 next to another one, in the program with the fine climatology', breaks='deck 780 takes part in the buddy check of the fine program',
    edits=[('marine_qc_hires.py', "        filt.add_qc_filter('POS', 'is780', 0)\n", "        filt.add_qc_filter('POS', 'isdrifter', 0)\n")],
    demo=PROG + '''
config()
file(2003, 9, [ob('AAAAAA', SST=20.5, ID='ONE'), ob('BBBBBB', LON=21.5, ID='TWO', DCK=780)])
run(marine_qc_hires, 2003, 9)
import glob
f = [x for x in glob.glob(base + '/out/2003/09/*') if 'SST_qc' in x and 'ONE' not in x and 'TWO' not in x][0]
got = {r['UID']: r for r in csv.DictReader(open(f))}
assert got['AAAAAA']['bud'] == '0', got
''')
bug(id='track-only-season', property='C35', needs='a tracking run of the program for tracks only in December', breaks='December drifters get the background variance of autumn',
    edits=[('marine_qc_track_only.py', "qc.season(readmonth)", "qc.season(min(readmonth, 11))")],
    demo=PROG + '''
_old = Dataset.__init__


def init(self, name, *a, **k):
    _old(self, name, *a, **k)
    if 'bg_DJF' in name:
        self.variables['bg_var'] = np.ma.array(np.broadcast_to(np.array(0.7), (1, 180, 360)))


Dataset.__init__ = init
config()
file(2003, 12, [ob('AAAAAA', MO=12, PT=7, ID='B1')])
run(marine_qc_track_only, 2003, 12, tracking=True)
import glob
f = [x for x in glob.glob(base + '/out/2003/12/Variables*B1*')][0]
got = list(csv.DictReader(open(f)))
assert abs(float(got[0]['BGVAR']) - 0.7) < 1e-6, got
''')

# ------------------------------------------------------------------------------------------ tracking_qc.py

bug(id='third-month', property='C33', needs='a buoy with three months of files', breaks='the flags of the third month are given to the reports of the second',
    edits=[('tracking_qc.py', "        count += nrep\n", "        count = nrep\n")],
    demo=TRACK + '''
mk = lambda m, k: dict(uid='U%d%d' % (m, k), day=1 + 5 * k, lat=5.0 + m + 0.2 * k)
for m in (1, 2, 3):
    month(2003, m, [mk(m, k) for k in range(3)])
out = run(2003, 1, 2003, 3)['TrackingQC/2003/03']
assert len(out) == 9
assert all(r['isbuoy'] == '1' for r in out.values())
''')
bug(id='buddy-four', property='C33', needs='a report with a probability of gross error of exactly four tenths', breaks='reports of four tenths enter the tail check',
    edits=[('tracking_qc.py', "        if filt.test_report(rep) == 0 and rep.get_qc('SST', 'bbud') < 4:\n            v_filt.add_report(rep)\n    v_filt.sort()  # sort in time\n    print(\"passing {} to tail check\"",
            "        if filt.test_report(rep) == 0 and rep.get_qc('SST', 'bbud') < 5:\n            v_filt.add_report(rep)\n    v_filt.sort()  # sort in time\n    print(\"passing {} to tail check\"")],
    demo=TRACK + '''
month(2003, 1, [dict(uid='U%d' % k, day=1 + 3 * k, lat=5.0 + k, flags={('SST', 'bbud'): 4 if k == 2 else 0}) for k in range(6)])
out = run(2003, 1, 2003, 1)['TrackingQC/2003/01']
assert out['U2']['drf_tail1'] == '9' and out['U1']['drf_tail1'] != '9', out['U2']
''')
bug(id='uid-begins', property='C33', needs='a file of flags whose identifier begins like the report\'s', breaks='flags of another report are accepted when its identifier begins the same way',
    edits=[('tracking_qc.py', "                            if line[key].strip() != uid.strip():\n                                raise UserWarning(\"UIDs don't match: {0}-{1}\".format(line[key], uid))\n                        else:\n                            rep_list[indx].set_qc('SST', key, int(line[key]))",
            "                            if not line[key].strip().startswith(uid.strip()):\n                                raise UserWarning(\"UIDs don't match: {0}-{1}\".format(line[key], uid))\n                        else:\n                            rep_list[indx].set_qc('SST', key, int(line[key]))")],
    demo=TRACK + '''
month(2003, 1, [dict(uid='U%d' % k, day=1 + 3 * k, lat=5.0 + k) for k in range(4)], {'SST': ['U0', 'U1', 'U2', 'U3X']})
try:
    run(2003, 1, 2003, 1)
except UserWarning:
    sys.exit(0)
sys.exit(1)
''')
bug(id='middle-file-short', property='C33', needs='the file of position flags one line short', breaks='a short file of position flags goes unnoticed',
    edits=[('tracking_qc.py', "        if not all(x == filelines[0] for x in filelines):\n", "        if filelines and filelines[0] != filelines[-1]:\n")],
    demo=TRACK + '''
n = month(2003, 1, [dict(uid='U%d' % k, day=1 + 3 * k, lat=5.0 + k) for k in range(4)])
s = open(n[1]).read().split('\\n')
open(n[1], 'w').write('\\n'.join(s[:-2]) + '\\n')
try:
    run(2003, 1, 2003, 1)
except UserWarning:
    sys.exit(0)
sys.exit(1)
''')
bug(id='both-edges', property='C33', needs='a chunk that is both a start and an end case', breaks='a chunk that is a start and an end case is written as a start case only',
    edits=[('tracking_qc.py', "    if 'end_edge_case' in edge:\n", "    elif 'end_edge_case' in edge:\n")],
    demo=TRACK + '''
month(2003, 1, [dict(uid='U%d' % k, day=1 + 3 * k, lat=5.0 + k) for k in range(4)])
out = run(2003, 1, 2003, 1, ('start_edge_case', 'end_edge_case'))
assert len(out) == 2, sorted(out)
''')
bug(id='short-tail-kept', property='C33', needs='a buoy with a bad end found by the short windows only', breaks='reports found bad by the short windows still count for bias and noise',
    edits=[('tracking_qc.py', "    filt.add_qc_filter('SST', 'drf_tail2', 0)  # remove obs failing preceding track checks\n", "    filt.add_qc_filter('SST', 'drf_tail1', 0)  # remove obs failing preceding track checks\n")],
    demo=TRACK + '''
sst = [15.0] * 10 + [27.0, 27.0]
month(2003, 1, [dict(uid='U%02d' % k, day=1 + 2 * k, lat=5.0 + k, sst=s) for k, s in enumerate(sst)])
out = run(2003, 1, 2003, 1)['TrackingQC/2003/01']
tails = [u for u in sorted(out) if out[u]['drf_tail1'] == '1' or out[u]['drf_tail2'] == '1']
assert tails and all(out[u]['drf_bias'] == '9' for u in tails), [(u, out[u]['drf_tail1'], out[u]['drf_tail2'], out[u]['drf_bias']) for u in sorted(out)]
''')

# ------------------------------------------------------------------------------------------ Tracking_QC_wrapper.py

WRAP = '''
import atexit
import contextlib
import io
import json
import shlex
import shutil
import subprocess
import tempfile
import Tracking_QC_wrapper as wrapper

base = tempfile.mkdtemp()
atexit.register(shutil.rmtree, base)
jobs = []


def take(cmd, *a, **k):
    w = shlex.split(cmd) if isinstance(cmd, str) else list(cmd)
    if w[0] == 'sbatch':
        jobs.append(shlex.split([l for l in open(w[1]) if 'tracking_qc.py' in l][0].split('>')[0]))
    return 0


os.system = subprocess.call = subprocess.check_call = take
subprocess.check_output = lambda *a, **k: ''
os.makedirs(base + '/track')
json.dump({'runid': 'r'}, open(base + '/p.json', 'w'))
open(base + '/c.txt', 'w').write('[Directories]\\nout_dir=%s/out\\ntrack_out_dir=%s/track\\n[Files]\\nparameter_file=%s/p.json\\n' % (base, base, base))


def run(ids, mode, gap=3):
    """ids: {ID: months (1-12) of 2003 with data}"""
    del jobs[:]
    for m in range(1, 13):
        os.makedirs('%s/out/2003/%02d' % (base, m), exist_ok=True)
        with open('%s/out/2003/%02d/ID_file.txt' % (base, m), 'w') as f:
            for i in ids:
                if m in ids[i]:
                    f.write(i + ',' + i + '\\n')
    sys.argv = ['w', '-config', base + '/c.txt', '-gap', str(gap), '-yr1', '2003', '-mn1', '1', '-yr2', '2003', '-mn2', '12', '-edge', mode]
    with contextlib.redirect_stdout(io.StringIO()):
        wrapper.main(sys.argv[1:])
    out = []
    for w in jobs:
        v = {}
        for x in w:
            if x.startswith('-'):
                k = x
                v[k] = []
            elif w.index(x) > 1:
                v[k].append(x)
        out.append((v['-id'][0].strip(), int(v['-mn1'][0]), int(v['-mn2'][0]), sorted(v['-edge'])))
    return sorted(out)

'''
bug(id='counter-from-first', property='C25', needs='a buoy whose data start later than the period', breaks='months are counted from a buoy\'s first month of data, so that its first chunk counts as a start case',
    edits=[('Tracking_QC_wrapper.py', "                id_dictionary[columns[0]] = ym.YMCounter(y1, m1, y2, m2)\n", "                id_dictionary[columns[0]] = ym.YMCounter(year, month, y2, m2)\n")],
    demo=WRAP + '''
assert run({'B        ': [5, 6]}, 'standard') == [('B', 5, 6, ['regular'])], run({'B        ': [5, 6]}, 'standard')
''')

# ------------------------------------------------------------------------------------------ output

OUT = '''
import contextlib
import csv
import io
import shutil
import tempfile
import Extended_IMMA as ex
from IMMA1 import IMMA


def rep(**k):
    r = IMMA()
    base = dict(ID='SHIPA    ', UID='AAAAAA', YR=2001, MO=1, DY=1, HR=0.0, LAT=0.0, LON=0.0, PT=5, DCK=732, SST=15.0, AT=14.0, DPT=10.0, SLP=1000.0)
    base.update(k)
    r.data = base
    return ex.MarineReportQC(r)


def files(collection, method, *a):
    d = tempfile.mkdtemp()
    with contextlib.redirect_stdout(io.StringIO()):
        getattr(collection, method)('r', d, *a)
    out = {f: list(csv.reader(open(d + '/' + f))) for f in os.listdir(d)}
    shutil.rmtree(d)
    return out

'''
bug(id='year-of-output', property='C32', needs='reports of the same month of two years in one collection', breaks='flags of the same month of another year are written as well',
    edits=[('Extended_IMMA.py', "            for rep in self.reps:\n                if rep.getvar('YR') == year and rep.getvar('MO') == month:\n                    outfile.write(rep.print_qc_block(var, allvarnames[var], header=False))\n                    count_write += 1\n\n            outfile.close()\n",
            "            for rep in self.reps:\n                if rep.getvar('MO') == month:\n                    outfile.write(rep.print_qc_block(var, allvarnames[var], header=False))\n                    count_write += 1\n\n            outfile.close()\n")],
    demo=OUT + '''
d = ex.Deck()
d.append(rep(UID='A', YR=2001, MO=1))
d.append(rep(UID='B', YR=2002, MO=1))
out = files(d, 'write_output', 2002, 1)
assert all([r[0] for r in rows[1:]] == ['B'] for rows in out.values()), out
''')
bug(id='early-date', property='C32', needs='a report of a year before 1900', breaks='dates before 1900 are written as unknown',
    edits=[('Extended_IMMA.py', "        outstr = datetime.strptime(syear + ' ' + smonth + ' ' + sday, '%Y %m %d').date().isoformat()\n",
            "        outstr = datetime.strptime(syear[-2:] + ' ' + smonth + ' ' + sday, '%y %m %d').date().replace(year=year if year >= 1900 else 0).isoformat()\n")],
    demo=OUT + '''
d = ex.Deck()
d.append(rep(YR=1899, MO=12, DY=31))
out = files(d, 'write_output', 1899, 12)
assert out['Variables_189912_r.csv'][1][1] == '1899-12-31'
''')
bug(id='slash-in-id', property='C32', needs='a drifter whose ID has two slashes', breaks='only the first slash of an ID is replaced in file names',
    edits=[('Extended_IMMA.py', "    safename = infilename.replace('/', '_')\n", "    safename = infilename.replace('/', '_', 1)\n")],
    demo=OUT + '''
assert ex.safe_filename('A/B/C') == 'A_B_C'
''')
bug(id='tracking-flag-order', property='C32', needs='a buoy with a bad end by the long but not the short windows', breaks='two of the tracking flags are written in each other\'s columns',
    edits=[('Extended_IMMA.py', "            vars5 = rep.print_qc_block('SST', qc_block4, printuid=False)\n", "            vars5 = rep.print_qc_block('SST', [qc_block4[1], qc_block4[0]] + qc_block4[2:], printuid=False)\n")],
    demo=OUT + '''
v = ex.Voyage()
r = rep(PT=7)
for n in ('OSTIA', 'BGVAR', 'ICE'):
    r.setext(n, 1.0)
r.set_qc('SST', 'drf_tail1', 1)
r.set_qc('SST', 'drf_tail2', 0)
v.add_report(r)
out = list(files(v, 'write_tracking_output', 2001, 1).values())[0]
got = dict(zip(out[0], out[1]))
assert (got['drf_tail1'], got['drf_tail2']) == ('1', '0'), got
''')

# ------------------------------------------------------------------------------------------ files

bug(id='placeholder-once', property='C31', needs='a folder stub with the year in it twice', breaks='only the first year in a name is filled in',
    edits=[('BackgroundField.py', "    outstring = instring.replace('YYYY', sy)\n", "    outstring = instring.replace('YYYY', sy, 1)\n")],
    demo='''
import BackgroundField as bf
assert bf.make_filename('/a/YYYY/b/YYYY', 'fYYYY.nc', 1999, 1, 2) == '/a/1999/b/1999/f1999.nc'
''')
bug(id='empty-unpacked', property='C31', needs='two places with packed files of the same name', breaks='the second place is used when the first one has only a packed file',
    edits=[('BackgroundField.py', "            if os.path.isfile(fname) and os.stat(fname).st_size != 0:\n", "            if os.path.isfile(fname) or os.path.isfile(newfilenames[i]):\n")],
    demo='''
import bz2
import shutil
import tempfile
import BackgroundField as bf
d = tempfile.mkdtemp()
os.environ['SCRATCH'] = d + '/s'
for n in ('a', 'b', 's'):
    os.mkdir(d + '/' + n)
open(d + '/a/x_2001.nc', 'wb').close()
open(d + '/b/x_2001.nc', 'wb').write(b'second')
f = bf.get_background_filename([d + '/a', d + '/b'], ['x_YYYY.nc', 'x_YYYY.nc'], 2001, 1, 1)
ok = f is not None and open(f, 'rb').read() == b'second'
shutil.rmtree(d)
assert ok, f
''')
bug(id='last-stub-wins', property='C31', needs='the data file of a month in three places', breaks='the file of the last place but one wins over that of the first',
    edits=[('BackgroundField.py', "        if outfilename is None:\n            if os.path.isfile(fname):\n", "        if outfilename is None or fname == candidatefilenames[1]:\n            if os.path.isfile(fname):\n")],
    demo='''
import shutil
import tempfile
import BackgroundField as bf
d = tempfile.mkdtemp()
for n in ('a', 'b'):
    os.mkdir(d + '/' + n)
    open(d + '/' + n + '/x_2001-02', 'w').write(n)
f = bf.icoads_filename_from_stub([d + '/a', d + '/b'], ['x_YYYY-MMMM'] * 2, 2001, 2)
shutil.rmtree(d)
assert f == d + '/a/x_2001-02', f
''')
