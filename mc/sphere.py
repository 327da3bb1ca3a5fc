"""Spherical geometry by 3-D vectors (independent of spherical_geometry.py). Degrees and kilometres."""
import math

RADIUS = 6371.0088


def vec(lat, lon):
    a, b = math.radians(lat), math.radians(lon)
    return (math.cos(a) * math.cos(b), math.cos(a) * math.sin(b), math.sin(a))


def dot(u, v):
    return u[0] * v[0] + u[1] * v[1] + u[2] * v[2]


def cross(u, v):
    return (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])


def norm(u):
    return math.sqrt(dot(u, u))


def angle(a, b, c, d):
    u, v = vec(a, b), vec(c, d)
    return math.atan2(norm(cross(u, v)), dot(u, v))


def dist(a, b, c, d):
    return RADIUS * angle(a, b, c, d)


def course(a, b, c, d):
    """initial true course in degrees 0..360 from (a,b) to (c,d)"""
    p = vec(c, d)
    la, lo = math.radians(a), math.radians(b)
    north = (-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la))
    east = (-math.sin(lo), math.cos(lo), 0.0)
    return math.degrees(math.atan2(dot(p, east), dot(p, north))) % 360.0


def destination(a, b, tc, km):
    la, lo, t, r = math.radians(a), math.radians(b), math.radians(tc), km / RADIUS
    north = (-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la))
    east = (-math.sin(lo), math.cos(lo), 0.0)
    u = vec(a, b)
    w = tuple(u[i] * math.cos(r) + (north[i] * math.cos(t) + east[i] * math.sin(t)) * math.sin(r) for i in range(3))
    return math.degrees(math.atan2(w[2], math.hypot(w[0], w[1]))), math.degrees(math.atan2(w[1], w[0]))


def between(a, b, c, d, f):
    """the point a fraction f of the way along the great circle; f may lie outside 0..1"""
    u, v = vec(a, b), vec(c, d)
    w = angle(a, b, c, d)
    if w == 0:
        return a, b
    p, q = math.sin((1 - f) * w) / math.sin(w), math.sin(f * w) / math.sin(w)
    x = tuple(p * u[i] + q * v[i] for i in range(3))
    return math.degrees(math.atan2(x[2], math.hypot(x[0], x[1]))), math.degrees(math.atan2(x[1], x[0]))
