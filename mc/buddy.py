"""Reference superob grid and neighbour search for the buddy checks, and builders of scenario decks"""
import math

import numpy as np

import Climatology as clim
import Extended_IMMA as ex
from mc.marine import report

MDAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def pentad_day(p, k=2):
    """month and day of the k-th day of pentad p (1..73) in a common year"""
    d = (p - 1) * 5 + k
    for m in range(12):
        if d < MDAYS[m]:
            return m + 1, d + 1
        d -= MDAYS[m]


class Cells(object):
    def __init__(self):
        self.c = {}

    def add(self, cell, anom):
        s = self.c.setdefault(cell, [0.0, 0])
        s[0] += anom
        s[1] += 1

    def neighbours(self, cell, rad):
        x, y, p = cell
        xs = int(rad[0] / math.cos(math.radians(89.5 - y)))
        out = []
        for (a, b, c), (s, n) in self.c.items():
            if (a, b, c) == cell:
                continue
            dx = abs(a - x)
            dx = min(dx, 360 - dx)
            dp = abs(c - p)
            dp = min(dp, 73 - dp)
            if dx <= xs and abs(b - y) <= rad[1] and dp <= rad[2]:
                out.append((s / n, n))
        return out


def multiplier(n, lims, mult):
    out = None
    for a, b in zip(lims, mult):
        if n > a:
            out = b
    return out


def place(cell, dlat=0.25, dlon=0.25, wide=False, k=2):
    """latitude, longitude, month, day inside a cell"""
    x, y, p = cell
    lat = 90 - y - 1 + dlat
    lon = x - 180 + dlon
    if wide and lon < 0:
        lon += 360
    m, d = pentad_day(p + 1, k)
    return lat, lon, m, d


def norm_cell(x, y, p):
    return (x % 360, y, p % 73)


_FIELDS = {}


def field(kind):
    """a 73 x 180 x 360 climatology of deviations and the function giving its value in a cell (None when missing)"""
    if kind not in _FIELDS:
        p, y, x = np.meshgrid(np.arange(73), np.arange(180), np.arange(360), indexing='ij')
        if kind == 'one':
            a = np.ones((73, 180, 360)); mask = np.zeros(a.shape, bool)
        elif kind == 'half':
            a = np.full((73, 180, 360), 0.5); mask = np.zeros(a.shape, bool)
        elif kind == 'wide':
            a = np.full((73, 180, 360), 8.0); mask = np.zeros(a.shape, bool)
        elif kind == 'missing':
            a = np.ones((73, 180, 360)) * 7; mask = np.ones(a.shape, bool)
        elif kind == 'negative':
            a = -np.ones((73, 180, 360)); mask = np.zeros(a.shape, bool)
        else:
            a = ((p + 3 * y + 5 * x) % 7) / 4.0 - 0.25
            mask = ((p + y + x) % 11) == 0
        _FIELDS[kind] = (clim.Climatology(np.ma.array(a, mask=mask)), a, mask)
    c, a, mask = _FIELDS[kind]

    def value(cell):
        x, y, p = cell
        v = None if mask[p, y, x] else float(a[p, y, x])
        return 1.0 if v is None or v < 0 else v
    return c, value


def deck_of(obs, var, filt=None):
    """obs: list of (cell, anomaly, flags dict, place options)"""
    d = ex.Deck()
    for i, (cell, anom, flags, opt) in enumerate(obs):
        lat, lon, m, dy = place(cell, **opt)
        r = report(YR=2003, MO=m, DY=dy, HR=12.0, LAT=lat, LON=lon, UID='U%d' % i, **{var: 10.0 + anom})
        r.add_climate_variable(var, 10.0)
        for f in ('bud', 'bbud'):
            r.set_qc(var, f, (1, 0, 7)[i % 3])      # of an earlier run
        for (t, f), v in flags.items():
            r.set_qc(t, f, v)
        d.append(r)
    if filt:
        q = ex.QC_filter()
        for t, f, v in filt:
            q.add_qc_filter(t, f, v)
        d.add_filter(q)
    return d
