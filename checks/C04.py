"""Sun elevation and day/night decisions"""
import calendar
import datetime

import qc
import trackqc
from mc.engine import Sub, attempt, Raised
from mc.sunref import sun

PROPERTY = 'C04'
LEVEL = 'exploration'
RULE = ('product of years x days x hours x latitudes x longitudes; the answer is compared with the Astronomical '
        'Almanac low-precision solar position (0.05 deg from March 1900, 0.5 deg before); day/night answers are judged '
        'unless the sun is within that tolerance of the threshold; a case is distinct by its inputs, non-trivial when judged; at every crossing of the terminator on '
        'days around month and year ends the decision must agree with the elevation of the right instant, 0.01 degree of longitude from the crossing')
ASSUMPTIONS = ['cases with the sun within the stated tolerance of the threshold are not judged (counted as ambiguous)']
BOUNDS = {'quick': '20 years x 19 days x 6 hours x 9 lats x 13 lons; the terminator on 50 days x 8 hours x 5 lats', 'thorough': '46 years x 37 days x 12 hours x 13 lats x 21 lons'}


def grid(tier):
    if tier == 'quick':
        ys = [1850, 1856, 1899, 1900, 1903, 1904, 1939, 1959, 1975, 1976, 1977, 1979, 1980, 1981, 1983, 1999, 2000, 2003, 2004, 2015]
        step = 21
    else:
        ys = list(range(1850, 2025, 5)) + [1856, 1899, 1903, 1904, 1976, 1979, 1981, 1984, 1999, 2004, 2024]
        step = 10
    lats = [-90., -66., -33., -0.5, 0., 0.5, 20., 51., 90.]
    lons = [-180., -120.5, -60., 0., 0.25, 45., 100., 179.75, 180., 205.5, 271., 359.75, 360.]
    hrs = [0., 0.5, 6., 11.25, 17., 23.75]
    if tier != 'quick':
        lats += [-75., -10., 66.5, 80.]
        lons += [-179.5, -90., -30., -0.25, 30., 75., 135., 160.]
        hrs += [1., 3., 9., 14.5, 20., 22.]
    return ys, step, lats, lons, hrs


def days(y, step):
    n = 366 if calendar.isleap(y) else 365
    return sorted(set(list(range(1, n + 1, step)) + [1, 2, 59, 60, 61, 365, n]))


def tol(y):
    return 0.05 if y > 1900 else 0.5


def gen(tier):
    ys, step, lats, lons, hrs = grid(tier)
    for y in ys:
        for doy in days(y, step):
            yield [tier, y, doy]


def run(case, R):
    tier, y, doy = case
    ys, step, lats, lons, hrs = grid(tier)
    dt = datetime.date(y, 1, 1) + datetime.timedelta(doy - 1)
    m, d = dt.month, dt.day
    prev = dt - datetime.timedelta(1)
    for h in hrs:
        hi = int(h)
        mi = (h - hi) * 60.
        for lat in lats:
            for lon in lons:
                e, az, dec = sun(y, m, d, h, lat, lon)
                key = '%d-%d-%d %s lat %s lon %s' % (y, m, d, h, lat, lon)
                if lat not in (0., 90., -90.) and lon != 0:
                    g = attempt(qc.sunangle, y, doy, hi, mi, 0, 0, 0, lat, lon)
                    ok = not isinstance(g, Raised) and abs(g[1] - e) < tol(y) and abs(g[5] - dec) < tol(y)
                    R.true('sun ' + key, ok, 'elevation/declination of the sun', got=g if isinstance(g, Raised) else [g[1], g[5]], expected=[e, dec])
                    if h == 11.25 and lat == 51.:
                        # same instant stated in local zone time, with and without daylight saving, and with seconds
                        for zone, dst in ((1, 0), (1, 1), (-3, 0), (5, 1)):
                            hz = 12 - zone + dst
                            if 0 <= hz < 24:
                                e2, _, _ = sun(y, m, d, 12.0 + 30 / 3600., lat, lon)
                                g2 = attempt(qc.sunangle, y, doy, hz, 0, 30, zone, dst, lat, lon)
                                R.true('zone %s/%s ' % (zone, dst) + key, not isinstance(g2, Raised) and abs(g2[1] - e2) < tol(y),
                                       'elevation in a local time zone', got=g2 if isinstance(g2, Raised) else g2[1], expected=e2)
                # daytime flag: sun above the horizon n hours earlier
                for back in ((0.0, 1.0, 3.0) if lon in (0.25, 180., -60., 271.) else (1.0,)):
                    if h >= back:
                        eb = sun(y, m, d, h - back, lat, lon)[0]
                    else:
                        eb = sun(prev.year, prev.month, prev.day, h - back + 24, lat, lon)[0]
                    if abs(eb) < tol(y):
                        R.outcome('ambiguous')
                        continue
                    if back == 1.0:
                        f = attempt(qc.day_test, y, m, d, h, lat, lon)
                        R.eq('day ' + key, f, int(eb > 0), 'day flag', sun_elevation=eb)
                    f = attempt(qc.day_test, y, m, d, h, lat, lon, back)
                    R.eq('day back %s ' % back + key, f, int(eb > 0), 'day flag', sun_elevation=eb)
                    R.outcome('day' if eb > 0 else 'night')
                    R.state((y, doy, h, lat, lon, back))
                for lim in (None, -2.5, 0.0, 10.0):
                    l = -2.5 if lim is None else lim
                    if abs(e - l) < tol(y):
                        continue
                    if lim is None:
                        f = attempt(trackqc.track_day_test, y, m, d, h, lat, lon)
                    else:
                        f = attempt(trackqc.track_day_test, y, m, d, h, lat, lon, lim)
                    R.true('track %s ' % lim + key, not isinstance(f, Raised) and bool(f) == (e > l), 'daytime decision of the tracking QC', got=f, sun_elevation=e)


def gen_term(tier):
    ys = [1979, 1980, 1999, 2000, 2001, 2004, 2005] if tier == 'quick' else [1900, 1901, 1904, 1905] + list(range(1975, 2022))
    for y in ys:
        ds = [(1, 1), (1, 2), (2, 28), (3, 1), (3, 2), (7, 1), (12, 31)] + ([(2, 29)] if calendar.isleap(y) else [])
        for m, d in ds:
            yield [y, m, d]


def run_term(case, R):
    """close to the terminator the decision must be that of the elevation the code itself gives for the right instant"""
    y, m, d = case
    for h in (0., 0.25, 0.75, 1., 1.5, 2.25, 13.125, 23.75):
        for back in (0., 0.5, 1., 2., 6., None):
            t = datetime.datetime(y, m, d) + datetime.timedelta(hours=h - (0 if back is None else back))
            doy = t.timetuple().tm_yday
            lim = -2.5 if back is None else 0.0

            def elev(lat, lon):
                return qc.sunangle(t.year, doy, t.hour, t.minute + t.second / 60., 0, 0, 0, lat, lon)[1] - lim

            for lat in (-50., -20., 10., 40., 62.):
                prev = None
                for k in range(-17, 18):
                    lon = k * 10.0 + 0.03125
                    e = attempt(elev, lat, lon)
                    if isinstance(e, Raised):
                        R.fail('term %d-%d-%d %s %s' % (y, m, d, h, lat), 'no sun elevation', got=e)
                        return
                    if prev is not None and (prev[1] > 0) != (e > 0):
                        a, c = prev[0], lon
                        for _ in range(24):
                            mid = (a + c) / 2
                            if (elev(lat, mid) > 0) == (prev[1] > 0):
                                a = mid
                            else:
                                c = mid
                        for off in (-0.05, -0.01, 0.01, 0.05):
                            ll = (a + c) / 2 + off
                            ee = elev(lat, ll)
                            if abs(ee) < 1e-5:
                                continue
                            if back is None:
                                f = attempt(trackqc.track_day_test, y, m, d, h, lat, ll)
                            else:
                                f = attempt(qc.day_test, y, m, d, h, lat, ll, back)
                            R.ev()
                            R.state((case, h, back, lat, k, off))
                            if isinstance(f, Raised) or bool(f) != (ee > 0):
                                R.fail('term %d-%d-%d %s back %s lat %s lon %.3f' % (y, m, d, h, back, lat, ll), 'decision next to the terminator', got=f, elevation=ee)
                    prev = (lon, e)


SUBS = [Sub('sun', gen, run), Sub('terminator', gen_term, run_term)]
