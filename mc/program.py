"""The quality control programs run on real input files: encoder, fields held in memory, and a reference of the whole chain of checks"""
import calendar
import csv
import datetime
import functools
import gzip
import json
import os
import shutil
import sys

import netCDF4
import numpy as np

_gzopen = gzip.open


def _open(f, mode='r', *a, **k):
    """the programs are written for a gzip that hands out text"""
    return _gzopen(f, 'rt' if mode in ('r', 'rb') else mode, encoding='latin-1') if mode in ('r', 'rb') else _gzopen(f, mode, *a, **k)


gzip.open = _open

import Climatology
import marine_qc
import marine_qc_hires
import marine_qc_track_only
from checks import C09, C11, C17, C20, C28
from mc import buddy, sphere, trackref
from mc.engine import attempt
from mc.immaspec import SPEC
from mc.marine import params
from mc.sunref import sun

# ------------------------------------------------------------------------------------------ fields

BASE = {'SST': 15.0, 'AT': 16.0, 'AT2': 16.5, 'DPT': 8.0, 'SLP': 1010.0, 'SLP2': 1000.0, 'SHU': 8.0, 'CRH': 70.0, 'CWB': 11.0, 'DPD': 6.0}
MEANS = ['SST', 'AT', 'SLP2', 'SHU', 'CRH', 'CWB', 'DPD', 'DPT', 'AT2', 'SLP']
SDS = ['DPT', 'AT2', 'SLP']
SALT = {('mean', v): i for i, v in enumerate(MEANS)}
SALT.update({('stdev', v): 20 + i for i, v in enumerate(SDS)})
SALT.update({('sst', k): 30 + k for k in range(4)})
SALT.update({('bg', k): 34 + i for i, k in enumerate(['DJF', 'MAM', 'JJA', 'SON'])})
COLD = 40.0                     # poleward of this the sea is about at freezing point


def pattern(key, p, y, x):
    """value (and whether it is missing) of a field at pentad, row and column counted from 0; works on numbers and on arrays"""
    s = SALT[key]
    if key[0] == 'mean':
        v = 0.5 * ((p + 2 * y + 3 * x + s) % 5) + BASE[key[1]]
        if key[1] == 'SST':
            v = v - 16.0 * ((y < 90 - COLD) | (y >= 90 + COLD))
    elif key[0] == 'stdev':
        v = 1.0 + 0.5 * ((p + y + 2 * x + s) % 4) + (4.0 if key[1] == 'SLP' else 0.0)
    elif key[0] == 'sst':
        v = 0.5 + 0.25 * ((2 * p + y + x + s) % 4)
    else:
        v = 0.01 * ((y + 3 * x + s) % 30) + 0 * p
    miss = (9 * p + 3 * y + x) % 40 == s
    return v, miss


def value(key, cell):
    x, y, p = cell
    v, m = pattern(key, p, y, x)
    return None if m else float(v)


@functools.lru_cache(None)
def array(key, n=73):
    p, y, x = np.ogrid[0:n, 0:180, 0:360]
    v, m = pattern(key, p, y, x)
    return np.ma.array(np.asarray(v, dtype=float) + np.zeros((n, 180, 360)), mask=np.broadcast_to(m, (n, 180, 360)).copy())


HI = 0.25


def hires_value(p, y, x):
    """the fine field: quarter degree cells; the sea is cold in a band of longitudes"""
    return 15.0 - 16.0 * ((x >= 1000) & (x < 1200)) + 0.5 * ((p + y + 2 * x) % 5), (3 * (p + y) + x) % 40 == 3


@functools.lru_cache(None)
def hires_array():
    """row and pentad only enter by their sum, so one plane does for all pentads"""
    y, x = np.ogrid[0:720 + 73, 0:1440]
    v, m = hires_value(0, y, x)
    out = []
    for a in (np.asarray(v, dtype=float) + np.zeros((793, 1440)), np.broadcast_to(m, (793, 1440)).copy()):
        out.append(np.lib.stride_tricks.as_strided(a, (73, 720, 1440), (a.strides[0], a.strides[0], a.strides[1]), writeable=False))
    return np.ma.array(out[0], mask=out[1], copy=False)


def ostia_sst(date, y):
    """of the field of a day, by row counted from the south"""
    return 280.0 + (date.toordinal() * 7 % 32) * 0.5 + (y % 8) * 0.25


CALM = [False]


def ostia_ice(date, x):
    v = (date.toordinal() + x) % 16
    return np.where(v >= 13, v / 16.0, v / 128.0) if CALM[0] else v / 16.0


def ostia_land(y, x):
    return (y // 20 + x // 20) % 5 == 0


@functools.lru_cache(None)
def ostia_mask():
    return ostia_land(np.arange(3600, dtype=np.int16).reshape(1, 3600, 1), np.arange(7200, dtype=np.int16).reshape(1, 1, 7200))


@functools.lru_cache(8)
def ostia_arrays(date, calm):
    y = np.arange(3600).reshape(1, 3600, 1)
    x = np.arange(7200).reshape(1, 1, 7200)
    sh = (1, 3600, 7200)
    mask = ostia_mask()
    return {'analysed_sst': np.ma.array(np.broadcast_to(ostia_sst(date, y), sh), mask=mask, copy=False),
            'sea_ice_fraction': np.ma.array(np.broadcast_to(ostia_ice(date, x), sh), mask=mask, copy=False)}


class Dataset(object):
    """stands for the NetCDF file of that name"""
    opened = []

    def __init__(self, name, *a, **k):
        Dataset.opened.append(name)
        b = os.path.basename(name)
        if b.startswith('mean_'):
            self.variables = self.grid(b[5:-3].lower(), array(('mean', b[5:-3])))
        elif b.startswith('stdev_'):
            self.variables = self.grid('s' + b[6:-3].lower(), array(('stdev', b[6:-3])))
        elif b.startswith('sst_sd_'):
            self.variables = self.grid('sst', array(('sst', int(b[7]))))
        elif b.startswith('bgvar_'):
            self.variables = self.grid('bg_var', array(('bg', b[6:9]), 1))
        elif b == 'hires.nc':
            self.variables = {'temperature': hires_array(), 'latitude': 89.875 - HI * np.arange(720), 'longitude': -179.875 + HI * np.arange(1440)}
        elif b.startswith('ostia_'):
            if not os.path.isfile(name):
                raise IOError(name)
            d = datetime.date(int(b[6:10]), int(b[10:12]), int(b[12:14]))
            self.variables = dict(ostia_arrays(d, CALM[0]), lat=-89.975 + 0.05 * np.arange(3600), lon=-179.975 + 0.05 * np.arange(7200))
        else:
            raise IOError(name)

    @staticmethod
    def grid(var, a):
        return {var: a, 'lat': 89.5 - np.arange(180), 'lon': -179.5 + np.arange(360)}

    def close(self):
        self.variables = None


netCDF4.Dataset = Dataset
if hasattr(Climatology, 'Dataset'):
    Climatology.Dataset = Dataset

# ------------------------------------------------------------------------------------------ input files


def text(f, v):
    name, n, scale, enc = f
    if v is None:
        return ' ' * n
    if enc == 3:
        return v.ljust(n)[:n]
    if enc == 2:
        return '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'[v].rjust(n)
    return ('%d' % round(v / (scale or 1))).rjust(n)


def encode(o):
    """the line of an observation"""
    out = ''
    for att in (0, 1, 98):
        body = ''.join(text(f, dict(o, ATTC=2, IM=1).get(f[0])) for f in SPEC[att])
        out += ('%2d%2d' % (att, len(body) + 4) if att else '') + body
    return out


# ------------------------------------------------------------------------------------------ observations

def cell(x, y, p):
    return x % 360, y, p


def month_pentad(p, k=2):
    """month and day of the k-th day of pentad p (from 0)"""
    return buddy.pentad_day(p + 1, k)


def pentad_of(m, d):
    """from 0"""
    return min((sum(buddy.MDAYS[:m - 1]) + d - 1) // 5, 72)


def night_hour(lon, noon=False):
    """UT hour (a multiple of .25) at which it is about midnight (or noon) there"""
    h = ((12.0 if noon else 0.0) - lon / 15.0) % 24.0
    return round(h * 4) / 4.0 % 24


SEQ = [0]
HIRES = [False]


def new(x, y, p, anom=None, year=2003, k=2, dlat=0.32, dlon=0.32, uid=None, day=None, noon=False, **kw):
    """observation in a cell (row counted from the north, column from the date line, pentad from 0) with anomalies from the fields"""
    x %= 360
    m, d = day or month_pentad(p, k)
    SEQ[0] += 1
    lat, lon = 90 - y - 1 + dlat, x - 180 + dlon
    o = {'UID': uid or 'U%05d' % SEQ[0], 'ID': 'S%06d' % SEQ[0], 'YR': year, 'MO': m, 'DY': d, 'HR': night_hour(lon, noon), 'LAT': lat,
         'LON': lon if lon >= 0 else lon + 360, 'DS': None, 'VS': None, 'D': 90.0, 'W': 5.0, 'DCK': 926, 'PT': 5, 'SID': 103}
    c = (x, y, pentad_of(m, d))
    a = dict.fromkeys(('SST', 'AT', 'DPT', 'SLP'), 0.0)
    a.update(anom or {})
    for v in a:
        if a[v] is None:
            o[v] = None
            continue
        base = pattern(('mean', v), c[2], c[1], c[0])[0]
        if v == 'SST' and HIRES[0]:
            base = hires_value(c[2], int((90 - lat) / HI), int((lon + 180) / HI))[0]
        o[v] = round((float(base) + a[v]) * 10) / 10.0
    o.update(kw)
    return o


def where(o, mds=True):
    """cell of a report, None when the position is impossible or the date is; a border belongs to the cell south and east of it, or, as MDS had it, to the cell away from
    the equator and Greenwich"""
    lon = o['LON'] - 360 if o['LON'] > 180 else o['LON']
    if not (-90 <= o['LAT'] <= 90 and -180 <= lon <= 180):
        return None
    m, d = o['MO'], o['DY']
    if d is None or not 1 <= d <= calendar.monthrange(2004, m)[1]:
        return None
    x, y = int(np.floor(lon + 180)) % 360, min(int(np.floor(90 - o['LAT'])), 179)
    if mds and o['LAT'] > 0 and o['LAT'] == int(o['LAT']):
        y = max(0, y - 1)
    if mds and lon <= 0 and lon == int(lon):
        x = max(x - 1, 0) if lon > -180 else 0
    if mds and lon == 180:
        x = 359
    return x, y, pentad_of(m, d)


# ------------------------------------------------------------------------------------------ the reference

class Ambiguous(Exception):
    pass


class Rep(object):
    """what is expected of a report: its values, normals and flags"""

    def __init__(self, o, prog, P):
        self.o = o
        self.cell = c = where(o)
        lon = o['LON'] - 360 if o['LON'] > 180 else o['LON']
        self.lon = lon
        d = {k: o.get(k) for k in ('YR', 'MO', 'DY', 'HR', 'LAT', 'LON', 'SST', 'AT', 'DPT', 'SLP', 'W', 'D', 'DCK', 'PT')}
        d['AT2'] = d['AT']
        nm, sd = {}, {}
        if c is not None:
            if prog == 'hires':
                v, m = hires_value(c[2], min(int(np.floor((90 - o['LAT']) / HI)), int(180 / HI) - 1), int(np.floor((lon + 180) / HI)) % int(360 / HI))
                nm['SST'] = None if m else float(v)
            else:
                e = where(o, mds=False)
                for v in MEANS if prog == 'full' else ['SST']:
                    nm[v] = value(('mean', v), c if v in ('SST', 'AT') else e)
                for v in SDS if prog == 'full' else []:
                    sd[v] = value(('stdev', v), e)
        self.nm = nm
        self.ext = dict.fromkeys(('OSTIA', 'ICE', 'BGVAR'))
        d['SHU'] = d['CRH'] = None
        if prog == 'full' and nm.get('SLP') is not None and d['AT'] is not None and d['DPT'] is not None:
            h = C28.reference(d['DPT'], d['AT'], nm['SLP'])
            if h is None:
                raise Ambiguous()
            d['SHU'], d['CRH'] = h[1], h[2]
            if h[2] > 150:
                d['SHU'] = d['CRH'] = None
        self.F = C11.expected('base' if prog != 'hires' else 'sst', d, nm, sd, P)
        if not self.inside():                           # what a normal is there is not laid down
            for f in self.F:
                if f[1] in ('clim', 'nonorm') or f == ('DPT', 'hardlimit'):
                    self.F[f] = None
        self.hr = o['HR']
        if o['DCK'] == 701 and o['YR'] < 1860 and o['HR'] is None:
            self.hr = 0.0
        self.t = None
        if self.ok('date', 'time'):
            self.t = (datetime.date(o['YR'], o['MO'], o['DY']).toordinal() * 24 + self.hr) if self.hr is not None else None

    def inside(self):
        return -90 <= self.o['LAT'] <= 90 and -180 <= self.o['LON'] <= 360

    def ok(self, *names):
        return all(self.F['POS', n] == 0 for n in names)

    def get(self, *f):
        return self.F.get(f, 9)

    def anom(self, v):
        n = self.nm.get(v)
        return None if n is None or self.o.get(v) is None else self.o[v] - n


def generic(ident, year):
    s = (ident or '').strip()
    return s == '' or s in C09.GEN or (s in C09.SOME and C09.SOME[s][0] <= year <= C09.SOME[s][1])


def gt(a, b):
    if abs(a - b) < 1e-6 * max(1., abs(a), abs(b)):
        raise Ambiguous()
    return a > b


def pairs_of(n, win, bad):
    return [(a, b) for a in range(n) for b in range(a + 1, min(n, a + win + 1)) if bad(a, b)]


def voyage_flags(v, prog, P):
    """flags that depend on the other reports of the same ID"""
    n = len(v)
    o = [r.o for r in v]
    pt = o[0]['PT']
    gen = generic(o[0]['ID'], o[0]['YR'])
    buoy = pt in (6, 7)
    ds = [0, 45, 90, 135, 180, 225, 270, 315, 360, None]
    reps = [dict(LAT=x['LAT'], LON=x['LON'], t=r.t, dsi=None if x['DS'] is None else ds[x['DS']],
                 vsi=None if x['VS'] is None else 0.0 if x['VS'] == 0 else x['VS'] * 5.0 - 2 if x['YR'] >= 1968 else x['VS'] * 3.0 - 1) for r, x in zip(v, o)]
    try:
        trk = [f for f, _ in trackref.one_pass(reps, P['track_check'], exempt=gen or buoy)]
    except trackref.Ambiguous:
        raise Ambiguous()
    for r, f in zip(v, trk):
        r.F['POS', 'trk'] = f
    dist = lambda a, b: sphere.dist(reps[a]['LAT'], reps[a]['LON'], reps[b]['LAT'], reps[b]['LON'])
    hours = lambda a, b: abs(reps[b]['t'] - reps[a]['t'])
    if prog != 'hires':
        q = P['IQUAM_track_check']
        lim = q['buoy_speed_limit'] if buoy else q['ship_speed_limit']
        prs = [] if gen else pairs_of(n, q['number_of_neighbours'], lambda a, b: gt(max(dist(a, b) - q['delta_d'], 0.0) / (hours(a, b) + q['delta_t']), lim))
        for r, f in zip(v, C17.eliminate(n, prs)[0]):
            r.F['POS', 'iquam_track'] = f
        q = P['IQUAM_spike_check']
        d0 = q['buoy_delta_t'] if buoy else q['ship_delta_t']
        s = [x['SST'] for x in o]
        prs = pairs_of(n, q['number_of_neighbours'], lambda a, b: s[a] is not None and s[b] is not None and
                       gt(abs(s[a] - s[b]), max(d0, dist(a, b) * q['max_gradient_space'], hours(a, b) * q['max_gradient_time'])))
        for r, f in zip(v, C17.eliminate(n, prs)[0]):
            r.F['SST', 'spike'] = f
        q = P['saturated_runs']
        sat = [x['AT'] is not None and x['AT'] == x['DPT'] for x in o]
        for r in v:
            r.F['DPT', 'repsat'] = 0
        i = 0
        while i < n:
            j = i
            while j < n and sat[j]:
                j += 1
            if j - i > q['shortest_run'] and v[j - 1].t - v[i].t >= q['min_time_threshold']:
                for k in range(i, j):
                    v[k].F['DPT', 'repsat'] = 1
            i = max(j, i + 1)
        q = P['multiple_rounded_values']
        have = [x['DPT'] for x in o if x['DPT'] is not None]
        whole = sum(1 for x in have if x == int(x))
        on = len(have) > q['min_count'] and whole >= q['threshold'] * len(have)
        if len(have) > q['min_count'] and abs(whole - q['threshold'] * len(have)) < 1e-9:
            raise Ambiguous()
        for r in v:
            r.F['DPT', 'round'] = int(on and r.o['DPT'] is not None and r.o['DPT'] == int(r.o['DPT']))
    q = P['find_repeated_values']
    for name in ('SST', 'AT', 'DPT', 'SLP') if prog == 'full' else ('SST',):
        have = [x[name] for x in o if x[name] is not None]
        for r in v:
            r.F[name, 'rep'] = int(len(have) > q['min_count'] and r.o[name] is not None and have.count(r.o[name]) > q['threshold'] * len(have) + 1e-9)


def mds(reps, var, sdkey, P):
    cells = buddy.Cells()
    for r in reps:
        cells.add(r.cell, r.anom(var))
    memo = {}
    for c in cells.c:
        memo[c] = (0.0, 500.0)
        sd = value(sdkey, c)
        for rad, lims, mult in zip(P['limits'], P['number_of_obs_thresholds'], P['multipliers']):
            nb = cells.neighbours(c, rad)
            if nb:
                memo[c] = sum(a for a, _ in nb) / len(nb), buddy.multiplier(sum(k for _, k in nb), lims, mult) * (1.0 if sd is None else sd)
                break
    for r in reps:
        m, s = memo[r.cell]
        e = abs(r.anom(var) - m)
        r.F[var, 'bud'] = None if abs(e - s) < 1e-6 else int(e > s)


def bayes(reps, var, P):
    B = P['bayesian_buddy_check']
    hi = P[var]['maximum_anomaly']
    cells = buddy.Cells()
    for r in reps:
        cells.add(r.cell, r.anom(var))
    sm = B['measurement_error']
    memo = {}
    for c in cells.c:
        nb = cells.neighbours(c, B['limits'])
        if not nb:
            memo[c] = (0.0, 500.0)
            continue
        s1, s2, s3 = [1.0 if x is None else x for x in (value(('sst', k), c) for k in (1, 2, 3))]
        noise = B['noise_scaling'] * s2 ** 2
        n = float(len(nb))
        memo[c] = sum(a for a, _ in nb) / n, (sm ** 2 + s1 ** 2 + noise + sum((sm ** 2 + noise) / k for _, k in nb) / n ** 2 + s3 ** 2 / n) ** 0.5
    for r in reps:
        m, s = memo[r.cell]
        p = C20.posterior(B['prior_probability_of_gross_error'], B['quantization_interval'], hi, -hi, r.anom(var), m, s)
        near = abs(10 * p - round(10 * p)) < 1e-6 and 1e-3 < p < 0.95
        r.F[var, 'bbud'] = None if near else min(9, int(10 * p))


def chain(obs, prog, P):
    """all reports read, in the order they were read, with every flag"""
    reps = [Rep(o, prog, P) for o in obs]
    if any(r.F['POS', 'day'] is None for r in reps):
        raise Ambiguous()
    byid = {}
    for r in reps:
        byid.setdefault(r.o['ID'], []).append(r)
    for v in byid.values():
        v = [r for r in v if r.ok('date', 'time', 'pos', 'blklst')]
        if v:
            voyage_flags(v, prog, P)
    good = [r for r in reps if r.ok('date', 'time', 'pos', 'blklst') and r.F['POS', 'trk'] == 0]
    for var in ('SST', 'AT', 'DPT', 'SLP') if prog == 'full' else ('SST',):
        sel = [r for r in good if all(r.get(var, f) == 0 for f in ('noval', 'clim', 'nonorm'))]
        if var == 'SST':
            sel = [r for r in sel if r.F['POS', 'is780'] == 0 and r.F['SST', 'freez'] == 0]
        elif var == 'AT':
            sel = [r for r in sel if r.F['POS', 'isship'] == 1 and r.F['AT', 'mat_blacklist'] == 0 and r.F['POS', 'day'] == 0]
        elif var == 'DPT':
            sel = [r for r in sel if r.F['DPT', 'hum_blacklist'] == 0]
        for r in reps:
            r.F[var, 'bud'] = 0
            if var in ('SST', 'AT'):
                r.F[var, 'bbud'] = 0
        if var in ('SST', 'AT'):
            bayes(sel, var, P)
        mds(sel, var, ('sst', 0) if var in ('SST', 'AT') else ('stdev', var), P['slp_buddy_check' if var == 'SLP' else 'mds_buddy_check'])
    return reps


def backgrounds(reps, dates):
    """fields of the day before each report, those of the dates there are files for"""
    for r in reps:
        o = r.o
        if o['YR'] < 1985 or r.cell is None:
            continue
        d = datetime.date(o['YR'], o['MO'], o['DY']) - datetime.timedelta(1)
        y, x = int(np.floor((o['LAT'] + 90) / 0.05)), int(np.floor((r.lon + 180) / 0.05))
        if d in dates and not ostia_land(y, x):
            r.ext['OSTIA'] = ostia_sst(d, y) - 273.15
            r.ext['ICE'] = float(ostia_ice(d, x))
        season = 'DJFMAMJJASON'[o['MO'] % 12 // 3 * 3:][:3]
        r.ext['BGVAR'] = value(('bg', season), (r.cell[0], r.cell[1], 0))


# ------------------------------------------------------------------------------------------ running

PROG = {'full': marine_qc, 'hires': marine_qc_hires, 'track': marine_qc_track_only}
CLIMS = [[v, 'mean', 'mean_%s.nc' % v, v.lower()] for v in MEANS] + [[v, 'stdev', 'stdev_%s.nc' % v, 's' + v.lower()] for v in SDS]


class Env(object):
    def __init__(self, over=None, bad='', runid='run1', name='prog', extra=None):
        base = os.path.join(os.environ['MC_SCRATCH'], name)
        shutil.rmtree(base, ignore_errors=True)
        self.base, self.out = base, base + '/out'
        for d in ('out', 'in', 'in2', 'bg', 'scratch'):
            os.makedirs(base + '/' + d)
        os.environ['SCRATCH'] = base + '/scratch'
        self.P = dict(params(**(over or {})), **(extra or {}))
        self.runid = runid
        p = dict(self.P, runid=runid, icoads_dir=[base + '/in', base + '/in2'], icoads_filenames=['R3.1_YYYY-MMMM.gz', 'R3.0_YYYY-MMMM.gz'],
                 background_dir=[base + '/bg/'], background_filenames=['ostia_YYYYMMMMDDDD.nc'],
                 climatologies=[[a, b, 'clims/' + c, d] for a, b, c, d in CLIMS], hires_climatologies=[['AT', 'mean', 'clims/mean_AT.nc', 'at'], ['SST', 'mean', 'clims/hires.nc', 'temperature'], ['SST', 'stdev', 'clims/stdev_SST.nc', 'ssst']])
        with open(base + '/parameters.json', 'w') as f:
            json.dump(p, f)
        with open(base + '/bad.csv', 'w') as f:
            f.write(bad)
        with open(base + '/configuration.txt', 'w') as f:
            f.write('[Directories]\nICOADS_dir = %s/in\nout_dir = %s\ntrack_out_dir = %s/track\n[Files]\nIDs_to_exclude = %s/bad.csv\nparameter_file = %s/parameters.json\n'
                    '[Icoads]\nicoads_version = 3.0\n[Climatologies]\n' % (base, self.out, base, base, base))
            for k, v in [('Old_SST_stdev_climatology', 'sst_sd_0.nc'), ('SST_buddy_one_box_to_buddy_avg', 'sst_sd_1.nc'), ('SST_buddy_one_ob_to_box_avg', 'sst_sd_2.nc'),
                         ('SST_buddy_avg_sampling', 'sst_sd_3.nc')] + [('%s_ostia_background' % s, 'bgvar_%s.nc' % s) for s in ('DJF', 'MAM', 'JJA', 'SON')]:
                f.write('%s = clims/%s\n' % (k, v))

    def icoads(self, month, lines, second=False):
        name = '%s/R3.%d_%04d-%02d.gz' % (self.base + ('/in2' if second else '/in'), 0 if second else 1, month[0], month[1])
        with _gzopen(name, 'wt', encoding='latin-1', compresslevel=1) as f:
            f.write(''.join(x + '\n' for x in lines))

    def remove(self, month):
        os.remove('%s/in/R3.1_%04d-%02d.gz' % (self.base, month[0], month[1]))

    def background(self, date):
        with open('%s/bg/ostia_%s.nc' % (self.base, date.strftime('%Y%m%d')), 'w') as f:
            f.write('x')

    def run(self, prog, first, last, tracking=False):
        argv = ['-config', self.base + '/configuration.txt', '-year1', str(first[0]), '-month1', str(first[1]), '-year2', str(last[0]), '-month2', str(last[1])]
        keep = sys.argv
        sys.argv = [prog] + argv + (['-tracking'] if tracking else [])
        try:
            return attempt(PROG[prog].main, sys.argv[1:])
        finally:
            sys.argv = keep

    def written(self):
        """{(year, month): {file: rows}}"""
        found = {}
        for p, d, ff in os.walk(self.out):
            for f in ff:
                with open(os.path.join(p, f), newline='') as g:
                    rows = list(csv.reader(g)) if f.endswith('.csv') else g.read()
                found.setdefault(os.path.relpath(p, self.out), {})[f] = rows
        return found


def next_month(m, k=1):
    n = m[0] * 12 + m[1] - 1 + k
    return n // 12, n % 12 + 1


def months(a, b):
    while a <= b:
        yield a
        a = next_month(a)
