"""Grid-cell indexing, standard and MDS conventions, inverses and interpolation corners"""
from fractions import Fraction as F
import math

import qc
from mc.engine import Sub, attempt, Raised

PROPERTY = 'C05'
LEVEL = 'exploration'
RULE = ('every latitude/longitude that is a multiple of the step, on and just off every cell border, for each '
        'grid resolution; expected index computed with exact rational arithmetic; plus every cell index for the inverse; '
        'a case is distinct by (function, resolution, coordinate, index)')
BOUNDS = {'quick': 'step 1/8 degree, resolutions 1, 0.5, 0.25, 2, 5; 0.05 at cell interiors',
          'thorough': 'step 1/32 degree, resolutions 1, 0.5, 0.25, 0.125, 2, 5, 10; 0.05 at cell interiors'}


def resolutions(tier):
    return [1, 1.0, 0.5, 0.25, 2, 2.0, 5, 5.0] if tier == 'quick' else [1, 1.0, 0.5, 0.25, 0.125, 2, 2.0, 3, 5, 5.0, 10, 10.0]


def floor(x):
    return x.numerator // x.denominator


def row(lat, res):
    n = F(180) / F(res)
    return max(0, min(floor(n) - 1, floor((90 - F(lat)) / F(res))))


def col(lon, res):
    n = floor(F(360) / F(res))
    return floor((F(lon) + 180) / F(res)) % n


def mds_row(lat, res):
    """borders away from the equator, 90 goes south / -90 north, 0 goes south"""
    lat, res = F(lat), F(res)
    n = F(90) / res
    if lat > 0:
        k = floor(lat / res)          # border goes north: cell k above the equator
        if lat == 90:
            k = n - 1
        return int(n - 1 - k)
    k = floor(-lat / res)
    if lat == -90:
        k = n - 1
    return int(n + k)


def mds_col(lon, res):
    lon, res = F(lon), F(res)
    n = F(180) / res
    if lon > 0:
        k = floor(lon / res)
        if lon == 180:
            k = n - 1
        return int(n + k)
    k = floor(-lon / res)
    if lon == -180:
        k = n - 1
    return int(n - 1 - k)


def gen(tier):
    for res in resolutions(tier):
        for deg in range(-180, 361):
            yield [tier, res, deg]


def run(case, R):
    tier, res, deg = case
    nsub = 8 if tier == 'quick' else 32
    for s in range(nsub):
        x = deg + s / float(nsub)
        for v in sorted(set([x, x + 0.01, x - 0.01, x + 2. ** -18, x - 2. ** -18, x + 2. ** -20, x - 2. ** -20])):
            args = [(v,)] if res == 1 else []
            args.append((v, res))
            for a in args:
                if -90 <= v <= 90:
                    g = attempt(qc.lat_to_yindex, *a)
                    R.eq('lat_to_yindex%r' % (a,), g, row(v, res), 'row of the latitude')
                    R.state(('y', a, repr(g)))
                    g = attempt(qc.mds_lat_to_yindex, *a)
                    R.eq('mds_lat_to_yindex%r' % (a,), g, mds_row(v, res), 'row of the latitude, borders away from the equator')
                    R.state(('my', a, repr(g)))
                if -185 <= v <= 365:
                    g = attempt(qc.lon_to_xindex, *a)
                    R.eq('lon_to_xindex%r' % (a,), g, col(v, res), 'column of the longitude')
                    R.state(('x', a, repr(g)))
                if -180 <= v <= 180:
                    g = attempt(qc.mds_lon_to_xindex, *a)
                    R.eq('mds_lon_to_xindex%r' % (a,), g, mds_col(v, res), 'column of the longitude, borders away from Greenwich')
                    R.state(('mx', a, repr(g)))
    R.outcome('res %s' % res)


def gen_inv(tier):
    for res in resolutions(tier) + [0.05]:
        yield res


def run_inv(res, R):
    ny = int(round(180 / float(res)))
    nx = int(round(360 / float(res)))
    for i in list(range(-2, ny + 2)):
        g = attempt(qc.yindex_to_lat, i, res)
        if 0 <= i < ny:
            c = 90. - (i + 0.5) * res
            R.eq('yindex_to_lat(%d,%s)' % (i, res), g, c, 'centre latitude of the row')
            R.eq('row-of-centre(%d,%s)' % (i, res), attempt(qc.lat_to_yindex, c, res), i, 'centre maps back to its row')
            R.eq('mds-row-of-centre(%d,%s)' % (i, res), attempt(qc.mds_lat_to_yindex, c, res), i, 'centre maps back to its row')
            for off in (-0.4, 0.4):
                R.eq('row-inside(%d,%s,%s)' % (i, res, off), attempt(qc.lat_to_yindex, c + off * res, res), i, 'interior point maps to its row')
                R.eq('mds-row-inside(%d,%s,%s)' % (i, res, off), attempt(qc.mds_lat_to_yindex, c + off * res, res), i, 'interior point maps to its row')
            R.state(('yc', res, i))
        else:
            R.true('yindex_to_lat(%d,%s)' % (i, res), isinstance(g, Raised), 'row outside the grid accepted', got=g)
    for i in list(range(-2, nx + 2)):
        g = attempt(qc.xindex_to_lon, i, res)
        if 0 <= i < nx:
            c = -180. + (i + 0.5) * res
            R.eq('xindex_to_lon(%d,%s)' % (i, res), g, c, 'centre longitude of the column')
            for off in (-0.4, 0., 0.4):
                R.eq('col-inside(%d,%s,%s)' % (i, res, off), attempt(qc.lon_to_xindex, c + off * res, res), i, 'interior point maps to its column')
                R.eq('mds-col-inside(%d,%s,%s)' % (i, res, off), attempt(qc.mds_lon_to_xindex, c + off * res, res), i, 'interior point maps to its column')
            R.state(('xc', res, i))
        else:
            R.true('xindex_to_lon(%d,%s)' % (i, res), isinstance(g, Raised), 'column outside the grid accepted', got=g)


def gen_four(tier):
    for lat8 in range(-90 * 8, 90 * 8 + 1):
        if tier == 'quick' and abs(lat8) < 700 and lat8 % 16 not in (0, 1, 3, 4, 5, 8) and lat8 % 40 != 0:
            continue
        yield [tier, lat8]


def run_four(case, R):
    tier, lat8 = case
    lat = lat8 / 8.
    for lon8 in range(-180 * 8, 180 * 8 + 1, 1 if tier != 'quick' else 1):
        if tier == 'quick' and abs(lon8) < 1400 and lon8 % 80 not in (0, 3, 4, 5, 8):
            continue
        lon = lon8 / 8.
        for m in (1, 0):
            g = attempt(qc.get_four_surrounding_points, lat, lon, m)
            key = 'corners(%s,%s,%d)' % (lat, lon, m)
            # the surrounding cell centres; a coordinate on a centre uses the cell to the east and to the south
            x1 = math.floor(lon - 0.5) + 0.5
            y2 = math.ceil(lat - 0.5) + 0.5
            y1 = y2 - 1.0
            if m == 1:
                y1, y2 = max(-89.5, y1), min(89.5, y2)
            R.eq(key, g, (x1, x1 + 1.0, y1, y2), 'the four cell centres around the point')
            R.state((lat, lon, m))


SUBS = [Sub('index', gen, run), Sub('inverse', gen_inv, run_inv), Sub('corners', gen_four, run_four)]
