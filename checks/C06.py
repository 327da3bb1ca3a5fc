"""Climatology retrieval: nearest cell, interpolation, missing values"""
import math
import os

import numpy as np
import Climatology as clim
import qc
from mc.engine import Sub, attempt, Raised
from checks.C05 import row, col, mds_row, mds_col

PROPERTY = 'C06'
LEVEL = 'exploration'
RULE = ('fields whose every cell holds a different value, at 1/73/365 time levels, plain and masked; every position of an '
        'alphabet of cell borders, centres, poles and the date line x every day of the year; interpolation on constant, '
        'linear and all 2^4 missing patterns of the surrounding cells; NetCDF files in every supported layout')
BOUNDS = {'quick': '15x17 positions, 366 days; 0..1 step 1/8 inside 20 cells x 81 corner values x 16 masks',
          'thorough': '27x33 positions, 366 days; 60 cells'}

MDAYS = [(m, d) for m in range(1, 13) for d in range(1, [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1] + 1)]


def diy(m, d):
    if (m, d) == (2, 29):
        m, d = 3, 1
    return [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334][m - 1] + d - 1


LATS = [-90., -89.75, -89.5, -89., -60.25, -45., -0.5, -0.25, 0., 0.25, 30., 45.5, 89., 89.5, 90.]
LONS = [-180., -179.75, -179.5, -179., -90.25, -45., -0.5, 0., 0.25, 30., 90.5, 120., 150.75, 179., 179.5, 179.75, 180.]
LATS_T = LATS + [-75., -30.75, -15.5, -1., 0.5, 1., 12.25, 60., 75.5, 80.25, 88.5, -88.5]
LONS_T = LONS + [-150.5, -120., -75.25, -30.5, -15., -1., -0.25, 0.5, 1., 15., 45.5, 60.25, 75., 105.5, 135., 165.25]
_F = {}


def field(n, ny, masked=False):
    """value of cell (t, y, x) is unique; masked variant hides every cell with (t+y+x)%3 == 0"""
    k = (n, ny, masked)
    if k not in _F:
        nx = 2 * ny
        f = np.arange(n * ny * nx, dtype=float).reshape(n, ny, nx)
        if masked:
            t, y, x = np.ogrid[0:n, 0:ny, 0:nx]
            f = np.ma.array(f, mask=((t + y + x) % 3 == 0))
        _F[k] = f
    return _F[k]


def val(n, ny, t, y, x, masked):
    if masked and (t + y + x) % 3 == 0:
        return None
    return float((t * ny + y) * 2 * ny + x)


class Rep(object):
    def __init__(self, lat, lon, mo, dy):
        self._lat, self._lon, self.v = lat, lon, {'MO': mo, 'DY': dy, 'LAT': lat, 'LON': lon}

    def lat(self):
        return self._lat

    def lon(self):
        return self._lon

    def getvar(self, k):
        return self.v.get(k)


def pos(tier):
    return (LATS, LONS) if tier == 'quick' else (LATS_T, LONS_T)


def gen_cell(tier):
    for n in (1, 73, 365):
        for masked in (False, True):
            for lat in pos(tier)[0]:
                yield [tier, n, masked, lat]


def run_cell(case, R):
    tier, n, masked, lat = case
    ny = 180
    f = field(n, ny, masked)
    c = clim.Climatology(f)
    for (m, d) in MDAYS:
        t = {1: 0, 73: diy(m, d) // 5, 365: diy(m, d)}[n]
        R.eq('tindex %d %d-%d' % (n, m, d), attempt(c.get_tindex, m, d), t, 'time level')
        lons = pos(tier)[1] if (d in (1, 28, 29, 31) or lat == 45.5) else [-180., 0.25, 150.75]
        for lon in lons:
            key = 'n=%d masked=%s %d-%d lat %s lon %s' % (n, masked, m, d, lat, lon)
            w = val(n, ny, t, row(lat, 1), col(lon, 1), masked)
            R.eq('get_value ' + key, attempt(c.get_value, lat, lon, m, d), w, 'value of the cell holding the position')
            wm = val(n, ny, t, mds_row(lat, 1), mds_col(lon, 1), masked)
            R.eq('get_value_mds ' + key, attempt(c.get_value_mds_style, lat, lon, m, d), wm, 'value of the cell holding the position (MDS borders)')
            if n in (1, 73):
                R.eq('get_sst ' + key, attempt(qc.get_sst, lat, lon, m, d, f), w, 'value of the cell holding the position')
                R.eq('get_clim ' + key, attempt(qc.get_clim, Rep(lat, lon, m, d), f), w, 'value of the cell holding the position')
                if n == 1:
                    R.eq('single ' + key, attempt(qc.get_sst_single_field, lat, lon, f), w, 'value of the cell holding the position')
            else:
                R.eq('get_sst_daily ' + key, attempt(qc.get_sst_daily, lat, lon, m, d, f), wm, 'value of the cell holding the position')
            R.state((n, masked, m, d, lat, lon))
            R.outcome('missing' if w is None else 'value')
    for (m, d) in ((0, 1), (13, 1), (2, 30), (4, 31), (1, 0), (1, 32), (-1, 5)):
        for g in (c.get_value, c.get_value_mds_style):
            R.eq('bad date %d-%d' % (m, d), attempt(g, lat, 0.25, m, d), None, 'no value for a day that does not exist')
        R.eq('bad date clim %d-%d' % (m, d), attempt(qc.get_clim, Rep(lat, 0.25, m, d), f), None, 'no value for a day that does not exist') if n != 365 else None


def gen_hires(tier):
    for m, d in ((1, 1), (2, 28), (2, 29), (3, 1), (7, 1), (12, 31)):
        yield [tier, m, d]


class Hires(object):
    """stands for the 365x1x720x1440 array without its memory: answers the index it was asked for"""

    def __init__(self, plus=0.):
        self.plus = plus

    def __getitem__(self, k):
        t, z, y, x = k
        if not (0 <= t < 365 and z == 0 and 0 <= y < 720 and 0 <= x < 1440):
            raise IndexError(k)
        if (t + y + x) % 5 == 0:
            return -999
        return (int(t) * 720. + int(y)) * 1440. + int(x) + self.plus


def run_hires(case, R):
    tier, m, d = case
    h, other = Hires(), Hires(0.5)
    for lat in LATS_T + [10.1, -10.1, 10.3, 45.6]:
        for lon in LONS_T + [10.1, -10.1, 10.3, 190.2, 359.9, 360.]:
            t, y, x = diy(m, d), row(lat, 0.25), col(lon, 0.25)
            w = None if (t + y + x) % 5 == 0 else (t * 720. + y) * 1440. + x
            key = '%d-%d %s %s' % (m, d, lat, lon)
            R.eq('hires ' + key, attempt(qc.get_hires_sst, lat, lon, m, d, h), w, 'value of the quarter-degree cell')
            R.eq('other hires ' + key, attempt(qc.get_hires_sst, lat, lon, m, d, other), None if w is None else w + 0.5, 'value of the quarter-degree cell of another field')
            R.eq('other hires_clim ' + key, attempt(qc.get_hires_clim, Rep(lat, lon, m, d), other), None if w is None else w + 0.5, 'value of the quarter-degree cell of another field')
            R.eq('hires_clim ' + key, attempt(qc.get_hires_clim, Rep(lat, lon, m, d), h), w, 'value of the quarter-degree cell')
            R.state((m, d, lat, lon))


# ---- interpolation -------------------------------------------------------------------------------
CELLS = [(0.5, 0.5), (-0.5, -0.5), (0.5, 179.5), (-30.5, -179.5), (88.5, 10.5), (89.5, 179.5), (-88.5, -10.5), (-89.5, 0.5), (45.5, -0.5), (89.5, -60.5)]
CELLS_T = CELLS + [(12.5, 33.5), (-45.5, 120.5), (-89.5, 179.5), (-89.5, -179.5), (60.5, -100.5), (1.5, 178.5), (-60.5, 179.5)]


def fill(q):
    """q: dict (iy, ix) -> value or None; a gap takes the mean of its present neighbours, else the opposite corner"""
    out = {}
    for (a, b), v in q.items():
        if v is not None:
            out[(a, b)] = v
            continue
        nb = [w for w in (q[(1 - a, b)], q[(a, 1 - b)]) if w is not None]
        out[(a, b)] = sum(nb) / len(nb) if nb else q[(1 - a, 1 - b)]
    return out


def interp_ref(get, lat, lon):
    """bilinear interpolation between the four cell centres around the point, constant beyond the last row"""
    x1 = math.floor(lon - 0.5) + 0.5
    y2 = math.ceil(lat - 0.5) + 0.5
    y1 = y2 - 1.
    cy = lambda v: max(-89.5, min(89.5, v))
    q = {(a, b): get(cy(y1 + a), x1 + b) for a in (0, 1) for b in (0, 1)}
    if all(v is None for v in q.values()):
        return None, None
    q = fill(q)
    fx, fy = lon - x1, lat - y1
    v = (q[(0, 0)] * (1 - fx) * (1 - fy) + q[(0, 1)] * fx * (1 - fy) + q[(1, 0)] * (1 - fx) * fy + q[(1, 1)] * fx * fy)
    return v, (min(q.values()), max(q.values()))


def gen_interp(tier):
    for cell in (CELLS if tier == 'quick' else CELLS_T):
        for pat in range(16):
            for kind in (0, 1, 2, 3, 4, 5):
                yield [tier, cell, pat, kind]


def run_interp(case, R):
    tier, (lat0, lon0), pat, kind = case
    single = kind % 2
    corner = [1.5, -3.0, 10.25, 4.0] if kind < 2 else ([0.0, 1000.5, -1.0, 990.25] * 2)[kind - 2:kind + 2]
    # values of the four cells with corner (lat0-1..lat0, lon0..lon0+1); other cells masked or far away
    n = 1 if single else 73
    base = np.ma.array(np.zeros((n, 180, 360)), mask=True)
    m, d = 7, 5
    t = 0 if single else diy(m, d) // 5
    vals = {}
    k = 0
    for dy in (0, 1):
        for dx in (0, 1):
            la, lo = lat0 - dy, lon0 + dx
            if la < -89.5:
                k += 1
                continue
            y, x = row(la, 1), col(lo, 1)
            v = corner[k]
            if not (pat >> k) & 1:
                base[t, y, x] = v
                vals[(y, x)] = v
            k += 1
    c = clim.Climatology(base)

    def get(la, lo):
        return vals.get((row(la, 1), col(lo, 1)))

    def cells_touching(lat, lon):
        s = set()
        for e1 in (-0.001, 0.001):
            for e2 in (-0.001, 0.001):
                if -90 <= lat + e1 <= 90:
                    s.add((row(lat + e1, 1), col(lon + e2, 1)))
        return s

    steps = [i / 8. for i in range(-5, 14)] if tier != 'quick' else [-0.5, -0.25, 0., 0.25, 0.5, 0.625, 1.0, 1.25, 1.5]
    steps = steps + [1 / 1024., 511 / 1024., 1023 / 1024.]
    for sy in steps:
        for sx in steps:
            lat = lat0 - sy
            lon = lon0 + sx
            if lon > 180:
                lon -= 360.
            if not (-90 <= lat <= 90):
                continue
            key = 'cell %s,%s pat %d single %d at %s,%s' % (lat0, lon0, pat, kind, lat, lon)
            here = any(cc in vals for cc in cells_touching(lat, lon))
            w, rng = interp_ref(get, lat, lon) if here else (None, None)
            for nm, g in (('class', attempt(c.get_interpolated_value, lat, lon, m, d)),
                          ('qc', attempt(qc.get_clim_interpolated, Rep(lat, lon, m, d), base))):
                R.eq(nm + ' ' + key, g, w, 'interpolated climatology (None where the cell itself has none)')
            R.state((lat0, lon0, pat, kind, lat, lon))
            R.outcome('none' if w is None else 'interpolated')


def gen_bil(tier):
    for i in range(81):
        yield i


def run_bil(i, R):
    q = [(-1.0, 0.0, 2.5)[(i // 3 ** k) % 3] for k in range(4)]
    for (x1, x2, y1, y2) in ((0., 1., 0., 1.), (-180.5, -179.5, 89.5, 90.5), (10., 12., -3., 5.), (10., 12., -3., 13.), (10., 14., -3., 5.), (8., 12., -3., 5.), (10., 12., -11., 5.)):
        for a in range(0, 9):
            for b in range(0, 9):
                fx, fy = a / 8., b / 8.
                x, y = x1 + fx * (x2 - x1), y1 + fy * (y2 - y1)
                g = attempt(qc.bilinear_interp, x1, x2, y1, y2, x, y, q[0], q[1], q[2], q[3])
                # q = q11 q12 q21 q22: first digit x, second digit y
                w = q[0] * (1 - fx) * (1 - fy) + q[1] * (1 - fx) * fy + q[2] * fx * (1 - fy) + q[3] * fx * fy
                R.eq('bilinear %s %s %s,%s' % (q, (x1, x2, y1, y2), x, y), g, w, 'bilinear interpolation')
                R.state((i, x1, a, b))
    for pat in range(16):
        qq = [None if (pat >> k) & 1 else q[k] for k in range(4)]
        g = attempt(qc.fill_missing_vals, *qq)
        if pat == 15:
            w = (None,) * 4
        else:
            r = fill({(0, 0): qq[0], (0, 1): qq[1], (1, 0): qq[2], (1, 1): qq[3]})
            w = (r[(0, 0)], r[(0, 1)], r[(1, 0)], r[(1, 1)])
        R.eq('fill %s' % (qq,), g, w, 'gap filling')


# ---- files ---------------------------------------------------------------------------------------
def gen_file(tier):
    for n in (1, 73, 365):
        for ny in (18, 180) if n == 1 else (18,):
            for fourd in (0, 1):
                for sn in (0, 1):
                    for lon0 in (0, 1):
                        for tr in ((0, 1) if (n == 1 and ny == 180 and not fourd) else (0,)):
                            yield [n, ny, fourd, sn, lon0, tr, 0]
    for fourd in (0, 1):
        yield [73, 180, fourd, 1, 1, 0, 0]
    for ny in (120, 360):
        for fourd in (0, 1):
            for sn in (0, 1):
                for lon0 in (0, 1):
                    yield [1, ny, fourd, sn, lon0, 0, 0]
    for names in range(1, 12):
        yield [1, 180, 0, 1, 1, 0, names]


LATN = ['lat', 'lats', 'latitude', 'latitudes']
LONN = ['lon', 'lons', 'long', 'longs', 'longitude', 'longitudes']


def run_file(case, R):
    from netCDF4 import Dataset
    n, ny, fourd, sn, lon0, tr, names = case
    if ny == 18 and lon0:
        # coarse grids do not start within a degree of Greenwich
        return
    nx = 2 * ny
    res = 180. / ny
    truth = field(n, ny, True)            # rows N->S, columns -180->180
    lats = 90. - (np.arange(ny) + 0.5) * res
    lons = -180. + (np.arange(nx) + 0.5) * res
    a = truth
    if sn:
        a = a[:, ::-1, :]
        lats = lats[::-1]
    if lon0:
        a = np.ma.concatenate([a[:, :, nx // 2:], a[:, :, :nx // 2]], axis=2)
        lons = np.concatenate([lons[nx // 2:], lons[:nx // 2] + 360.])
    latn, lonn = LATN[names % 4], LONN[names % 6]
    path = os.path.join(os.environ['MC_SCRATCH'], 'clim_%s.nc' % '_'.join(str(x) for x in case))
    ds = Dataset(path, 'w')
    ds.createDimension('t', n)
    ds.createDimension('y', ny)
    ds.createDimension('x', nx)
    ds.createDimension('z', 1)
    v = ds.createVariable(latn, 'f8', ('y',))
    v[:] = lats
    v = ds.createVariable(lonn, 'f8', ('x',))
    v[:] = lons
    dims = ('t', 'z', 'y', 'x') if fourd else (('t', 'x', 'y') if tr else ('t', 'y', 'x'))
    v = ds.createVariable('sst', 'f8', dims, fill_value=-9999.)
    if fourd:
        v[:] = a[:, np.newaxis]
    elif tr:
        v[:] = a.transpose(0, 2, 1)
    else:
        v[:] = a
    v2 = ds.createVariable('other', 'f8', dims, fill_value=-9999.)
    v2[:] = -7.
    ds.close()
    key = 'file %s' % (case,)
    c = attempt(clim.Climatology.from_filename, path, 'sst')
    os.remove(path)
    if isinstance(c, Raised):
        R.fail(key, 'climatology file not readable', got=c)
        return
    R.eq(key + ' n', c.n, n, 'time levels')
    R.eq(key + ' res', c.res, res, 'resolution')
    for (m, d) in ((1, 1), (2, 28), (3, 1), (7, 4), (12, 31)):
        t = {1: 0, 73: diy(m, d) // 5, 365: diy(m, d)}[n]
        for y in sorted(set([0, 1, 2, ny // 2 - 1, ny // 2, ny - 2, ny - 1])):
            for x in sorted(set([0, 1, 2, nx // 4, nx // 2 - 1, nx // 2, nx // 2 + 1, nx - 1])):
                la, lo = 90. - (y + 0.5) * res, -180. + (x + 0.5) * res
                R.eq(key + ' %d-%d %s,%s' % (m, d, la, lo), attempt(c.get_value, la, lo, m, d), val(n, ny, t, y, x, True),
                     'the value the file gives for this place and day')
                R.state((case, m, d, y, x))
                R.outcome('file')


def gen_odd(tier):
    for n in (0, 1, 2, 12, 72, 73, 74, 364, 365, 366):
        yield n


def run_odd(n, R):
    g = attempt(clim.Climatology, np.zeros((n, 18, 36)))
    ok = n in (1, 73, 365)
    R.true('levels %d' % n, isinstance(g, Raised) != ok, 'only single, pentad and daily fields are accepted', got=g)
    R.state(n)
    if n == 1:
        for ny in (36, 18, 720, 3600):
            f = np.zeros((1, ny, 2 * ny))
            for (y, x) in ((0, 0), (ny // 2, ny), (ny - 1, 2 * ny - 1), (ny // 3, ny // 5)):
                f[0, y, x] = 7.25
                res = 180. / ny
                c = clim.Climatology(f)
                la, lo = 90. - (y + 0.5) * res, -180. + (x + 0.5) * res
                R.eq('hit %d %d %d' % (ny, y, x), attempt(c.get_value, la, lo, 5, 5), 7.25, 'value at the cell centre')
                if ny == 3600:
                    R.eq('ostia %d %d %d' % (ny, y, x), attempt(c.get_value_ostia, la, lo), 7.25, 'value at the cell centre')
                f[0, y, x] = 0.
                R.state((ny, y, x))
        c = clim.Climatology.from_filename(None, 'sst')
        for la in (-89.9, 0.1, 45., 89.9):
            for lo in (-179.9, 0.1, 179.9):
                R.eq('nofile %s,%s' % (la, lo), attempt(c.get_value, la, lo, 5, 5), None, 'no file, no value')
                R.eq('nofile ostia %s,%s' % (la, lo), attempt(c.get_value_ostia, la, lo), None, 'no file, no value')


# ------------------------------------------------------------------------------------ background fields of a twentieth of a degree

def gen_ostia(tier):
    for y in range(0, 3600, 100):
        yield [tier, y]


def run_ostia(case, R):
    tier, y0 = case
    rows = np.ma.array(np.broadcast_to(np.arange(3600.)[None, :, None], (1, 3600, 7200)), copy=False)
    cols = np.ma.array(np.broadcast_to(np.arange(7200.)[None, None, :], (1, 3600, 7200)), copy=False)
    hole = np.ma.array(np.broadcast_to(np.arange(3600.)[None, :, None], (1, 3600, 7200)), copy=False,
                       mask=np.broadcast_to((np.arange(3600) % 3 == 1)[None, :, None], (1, 3600, 7200)))
    cr, cc, ch = clim.Climatology(rows), clim.Climatology(cols), clim.Climatology(hole)
    xs = sorted({(2 * y0 + k) % 7200 for k in range(200)} | {0, 1, 3598, 3599, 3600, 3601, 7198, 7199})
    ys = range(y0, y0 + 100)
    for i, y in enumerate(ys):
        for j, x in enumerate(xs):
            if (i + j) % (20 if tier == 'quick' else 5) and 8 < i < 92:
                continue
            for f in ((0.5, 0.5), (0.25, 0.75)):
                la, lo = 90. - (y + f[0]) * 0.05, -180. + (x + f[1]) * 0.05
                got = [attempt(c.get_value_ostia, la, lo) for c in (cr, cc, ch)]
                R.eq('background %d %d %s' % (y, x, f[0]), got, [float(y), float(x), None if y % 3 == 1 else float(y)], 'background value at a place')
            R.state((y, x))
    R.outcome('hole')
    for la, y in ((90.0, 0), (-90.0, 3599), (0.0, 1800), (45.03, 899)):
        for lo, x in ((180.0, 7199), (-180.0, 0), (0.0, 3599), (20.03, 4000)):
            got = [attempt(c.get_value_ostia, la, lo) for c in (cr, cc, ch)]
            R.eq('edge %s,%s' % (la, lo), got, [float(y), float(x), None if y % 3 == 1 else float(y)], 'background value at a place on the edge of the field')
    for la, lo in ((90.25, 0.0), (-90.5, 0.0), (0.0, 180.5), (0.0, -181.0), (91.0, 200.0)):
        R.eq('outside %s,%s' % (la, lo), attempt(cr.get_value_ostia, la, lo), None, 'no value off the globe')
        R.eq('outside mds %s,%s' % (la, lo), attempt(clim.Climatology(np.zeros((73, 180, 360))).get_value_mds_style, la, lo, 5, 5), None, 'no value off the globe')


SUBS = [Sub('background', gen_ostia, run_ostia), Sub('cell', gen_cell, run_cell, 120), Sub('hires', gen_hires, run_hires), Sub('interpolation', gen_interp, run_interp, 120),
        Sub('bilinear', gen_bil, run_bil), Sub('file', gen_file, run_file), Sub('shape', gen_odd, run_odd)]
