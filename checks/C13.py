"""Great-circle geometry"""
import math

import qc
import spherical_geometry as sph
from mc import sphere
from mc.engine import Sub, attempt, Raised

PROPERTY = 'C13'
LEVEL = 'exploration'
RULE = ('every ordered pair of points of a lattice that includes both poles, the date line in both conventions, near-coincident and '
        'antipodal pairs; every course x distance from every point; distinct by inputs; compared with 3-D vector geometry')
BOUNDS = {'quick': 'lattice of 13 latitudes x 15 longitudes, 8 fractions, 16 courses x 10 distances', 'thorough': '25 latitudes x 29 longitudes'}


def pts(tier):
    la = [-90., -89.96875, -89.5, -60., -30.5, -0.01, 0., 0.01, 30., 60.25, 89.5, 89.984375, 90.]
    lo = [-180., -179.5, -135., -90., -45.25, -0.01, 0., 0.01, 45., 90., 135.5, 179.5, 180., 200., 359.99]
    if tier == 'thorough':
        la += [-75., -45., -15., -1., 1., 10., 15., 45., 70., 75., 80., 85.]
        lo += [-160., -120., -100., -60., -30., -10., 10., 30., 60., 100., 120., 150., 225., 270.]
    return sorted(la), sorted(lo)


def gen(tier):
    la, lo = pts(tier)
    for a in la:
        for b in lo:
            yield [tier, a, b]


def dlon(x, y):
    return abs((x - y + 180) % 360 - 180)


def run(case, R):
    tier, a, b = case
    la, lo = pts(tier)
    for c in la:
        for d in lo + [b + 0.001, b + 1.0]:
            w = sphere.angle(a, b, c, d)
            key = '%s,%s-%s,%s' % (a, b, c, d)
            R.eq('dist ' + key, attempt(sph.sphere_distance, a, b, c, d), w * sphere.RADIUS, 'great-circle distance', tol=1e-6)
            R.eq('angle ' + key, attempt(sph.angular_distance, a, b, c, d), w, 'angular distance', tol=1e-6)
            R.state((a, b, c, d))
            if a == c and b == d:
                R.eq('course same ' + key, attempt(sph.course_between_points, a, b, c, d), 0.0, 'course between coincident points')
                R.eq('mid same ' + key, attempt(sph.intermediate_point, a, b, c, d, 0.5), (a, b), 'intermediate of coincident points')
                R.outcome('same')
                continue
            if w < 1e-6 or w > math.pi - 1e-3:
                R.outcome('degenerate')
                continue
            R.outcome('general')
            g = attempt(sph.course_between_points, a, b, c, d)
            if abs(a) == 90:
                ok = not isinstance(g, Raised) and dlon(g, 180. if a > 0 else 0.) < 1e-6
            else:
                ok = not isinstance(g, Raised) and math.isfinite(g) and dlon(g, sphere.course(a, b, c, d)) * math.sin(w) < 1e-3
            R.true('course ' + key, ok, 'initial course', got=g, expected=sphere.course(a, b, c, d))
            for f in (0., 0.1, 0.25, 0.5, 0.75, 0.9, 1.0, -0.25):
                g = attempt(sph.intermediate_point, a, b, c, d, f)
                p = sphere.between(a, b, c, d, f)
                ok = not isinstance(g, Raised) and -90.000001 <= g[0] <= 90.000001 and sphere.dist(g[0], g[1], p[0], p[1]) < 0.01
                R.true('mid %s %s' % (f, key), ok, 'point part of the way', got=g, expected=p)
    for tc in [22.5 * k for k in range(16)] + [360., -90., 405.]:
        for km in (0., 0.001, 1., 54.0, 100., 1234.5, 5000., 10000., 19000., 20015.):
            g = attempt(sph.lat_lon_from_course_and_distance, a, b, tc, km)
            if abs(a) == 90:
                la2 = (90 - math.degrees(km / sphere.RADIUS)) * (1 if a > 0 else -1)
                ok = not isinstance(g, Raised) and abs(g[0] - la2) < 1e-4
                R.true('dest pole %s,%s %s %s' % (a, b, tc, km), ok, 'distance sailed from a pole', got=g)
                continue
            p = sphere.destination(a, b, tc, km)
            ok = not isinstance(g, Raised) and -90 <= g[0] <= 90 and -180.000001 <= g[1] <= 180.000001 and sphere.dist(g[0], g[1], p[0], p[1]) < 0.01
            R.true('dest %s,%s %s %s' % (a, b, tc, km), ok, 'place reached on a course', got=g, expected=p)
            R.state(('d', a, b, tc, km))
    for bad in ((None, 0., 0., 0.), (0., None, 0., 0.), (0., 0., float('nan'), 0.), (0., 0., 0., float('nan'))):
        R.true('missing %r' % (bad,), isinstance(attempt(sph.sphere_distance, *bad), Raised), 'a missing coordinate was accepted')
    R.true('beyond %s,%s' % (a, b), isinstance(attempt(sph.intermediate_point, a, b, 10., 20., 1.5), Raised), 'a fraction above one was accepted')


# ------------------------------------------------------------------------------------ angles between courses

def gen_angles(tier):
    for k in range(-16, 17):
        yield k


def run_angles(k, R):
    """the smaller angle between two directions less than a full turn apart"""
    n = 16
    for j in range(-16, 17):
        for e in (0.0, 0.125):
            a, b = k * math.pi / n + e, j * math.pi / n
            if abs(a - b) > 2 * math.pi:
                continue
            w = math.acos(max(-1.0, min(1.0, math.cos(a - b))))
            g = attempt(qc.angle_diff, a, b)
            R.true('angle %d %d %s' % (k, j, e), not isinstance(g, Raised) and abs(g - w) < 1e-6, 'angle between two directions', got=g, expected=w)
            R.true('angle back %d %d %s' % (k, j, e), attempt(qc.angle_diff, b, a) == g, 'angle the other way round', got=g)
            R.state(('a', k, j, e))
    for bad in ((None, 0.), (0., None)):
        R.true('missing angle %r' % (bad,), isinstance(attempt(qc.angle_diff, *bad), Raised), 'a missing angle was accepted')


SUBS = [Sub('angles', gen_angles, run_angles), Sub('geometry', gen, run)]
