"""Reference model of the one-pass MDS track check (independent of track_check.py and Voyage.track_check).

A report is a dict with LAT, LON, t (hours, None when the hour is missing), vsi (knots), dsi (degrees).
Comparisons closer to their threshold than float rounding raise Ambiguous: such voyages are not judged."""
from mc import sphere

NM = 0.539957


class Ambiguous(Exception):
    pass


def gt(a, b):
    if a is None:
        return False
    if b is None:
        return True
    if abs(a - b) < 1e-4 * max(1.0, abs(a), abs(b)):
        raise Ambiguous()
    return a > b


def tdiff(p, q):
    return 0.0 if p['t'] is None or q['t'] is None else q['t'] - p['t']


def leg(p, q):
    """speed km/h, course, hours"""
    d = sphere.dist(p['LAT'], p['LON'], q['LAT'], q['LON'])
    t = tdiff(p, q)
    c = 0.0 if d < 1e-9 else sphere.course(p['LAT'], p['LON'], q['LAT'], q['LON'])
    return (d if t == 0 else d / t), c, t


def modal(speeds):
    """modal speed in knots from leg speeds in km/h; None when there is fewer than one leg"""
    if not speeds:
        return None
    n = [0] * 12
    for s in speeds:
        k = NM * s / 3.0
        if abs(k - round(k)) < 1e-6 and 0 < k < 11.5:
            raise Ambiguous()
        n[max(0, min(11, int(k // 1)))] += 1
    b = n.index(max(n))
    return max(8.5, 3 * b + 1.5)


def limits(speeds):
    m = modal(speeds)
    return 15.0 / NM if m is None or m <= 8.51 else 1.25 * m / NM


def step(p, knots, heading, hours):
    la, lo = sphere.destination(p['LAT'], p['LON'], heading, knots / NM * hours / 2.0)
    return la - p['LAT'], lo - p['LON']


def discrepancy(a, b, back, t):
    """distance of b from where it should be, half a step at each one's reported velocity"""
    if None in (a['vsi'], b['vsi'], a['dsi'], b['dsi']):
        return None
    x, y = step(a, a['vsi'], a['dsi'] - (180. if back else 0.), t)
    u, v = step(b, b['vsi'], b['dsi'] - (180. if back else 0.), t)
    return sphere.dist(b['LAT'], b['LON'], a['LAT'] + x + u, a['LON'] + y + v)


def turn(a, c):
    d = abs(a - c) % 360
    return min(d, 360 - d)


def one_pass(reps, P, exempt=False, few_ok=False):
    """list of (track flag, too-few flag)"""
    n = len(reps)
    if n == 0:
        return []
    if exempt:
        return [(0, None)] * n
    if n < 3:
        return [(0, 0 if few_ok else 1)] * n
    legs = [None] + [leg(reps[i - 1], reps[i]) for i in range(1, n)]
    speed = [None] + [x[0] for x in legs[1:]]
    alt = [None] + [leg(reps[i - 1], reps[i + 1])[0] for i in range(1, n - 1)] + [None]
    amax = limits(speed[1:])
    out = [(0, 0)]
    for i in range(1, n - 1):
        a = ((gt(speed[i], amax) and gt(alt[i - 1], amax)) or (gt(speed[i + 1], amax) and gt(alt[i + 1], amax)) or
             (gt(speed[i], amax) and gt(speed[i + 1], amax)))
        b = False
        p, q = reps[i - 1], reps[i]
        t = legs[i][2]
        if p['vsi'] is not None and q['vsi'] is not None and p['vsi'] > 0 and q['vsi'] > 0 and t > 0:
            allowed = t * (p['vsi'] + q['vsi']) / 2. / NM
            f = discrepancy(p, q, False, t)
            r = discrepancy(reps[i + 1], q, True, legs[i + 1][2])
            b |= bool(gt(f, allowed) and gt(r, allowed))
        if p['dsi'] is not None and q['dsi'] is not None:
            b |= gt(turn(q['dsi'], legs[i][1]), P['max_direction_change']) or gt(turn(p['dsi'], legs[i][1]), P['max_direction_change'])
        if p['vsi'] is not None and q['vsi'] is not None:
            b |= (gt(abs(q['vsi'] / NM - speed[i]), P['max_speed_change'] / NM) and gt(abs(p['vsi'] / NM - speed[i]), P['max_speed_change'] / NM))
        b |= gt(speed[i], P['max_absolute_speed'] / NM)
        t1 = legs[i + 1][2]
        fr = t / (t + t1) if t + t1 != 0 else 0.0
        m = sphere.between(p['LAT'], p['LON'], reps[i + 1]['LAT'], reps[i + 1]['LON'], fr)
        far = gt(sphere.dist(q['LAT'], q['LON'], m[0], m[1]), P['max_midpoint_discrepancy'] / NM)
        out.append((int(far and a and b), 0))
    return out + [(0, 0)]


def five_pass(reps, P, exempt=False, few_ok=False):
    """final bad-track flags: rejected reports are left out of later passes, at most five passes"""
    flags = [0] * len(reps)
    live = list(range(len(reps)))
    for _ in range(5):
        res = one_pass([reps[i] for i in live], P, exempt, few_ok)
        out = [i for i, (f, _x) in zip(live, res) if f]
        for i in out:
            flags[i] = 1
        live = [i for i in live if not flags[i]]
        if not out:
            break
    return flags
