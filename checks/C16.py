"""Track check: one pass on a voyage, and the five-pass version with rejected reports left out"""
import itertools

import Extended_IMMA as ex
import track_check as tc
from mc import sphere, trackref
from mc.edges import edges
from mc.engine import Sub, attempt, Raised
from mc.marine import report, params

PROPERTY = 'C16'
LEVEL = 'model_checking'
RULE = ('every assignment of displacements to the reports of a voyage x track geometry x reported-motion mode x timing mode, on the real '
        'track checks, compared with an independent reference pass; a state is the flag vector with the displacement vector; '
        'reports moved along a line to either side of every place where the reference changes its answer; '
        'voyages with a quantity within 1e-4 of a threshold are counted as ambiguous and not judged')
BOUNDS = {'quick': 'voyages of up to 4 reports in all modes, of 5 in three modes, of 6 and 7 with at most four displaced reports, 4 displacements; voyages of 30 and 48 with one or two displaced at any place; both sides of every change of the answer along 6 lines of inputs from several voyages',
          'thorough': 'voyages of up to 6 in all modes, up to 8 in the main modes'}
ASSUMPTIONS = ['reports are given in time order']

DISP = [(0.0, 0.0), (3.25, 0.0), (-2.25, 1.0), (0.5, -7.5), (0.5, -60.0)]     # the last one for the many passes only
TRACKS = [(0.0, 178.5, 90.0, 11.0), (50.0, -30.0, 45.0, 19.0), (-72.0, 10.0, 225.0, 7.0)]   # start, heading, knots
MOTION = ['none', 'true', 'stopped', 'wrong way', 'too fast', 'patchy']
KIND = [(0, 0), (4, 0), (2, 0), (0, 3), (0, None), (None, 0)]      # change of the reported direction and speed of one report
TIMING = ['6h', 'uneven', 'repeated', 'no hour']


def build(track, motion, timing, disp, n):
    lat, lon, head, kn = TRACKS[track]
    out, t = [], 0.0
    for i in range(n):
        la, lo = sphere.destination(lat, lon, head, kn / trackref.NM * t)
        d = DISP[disp[i]]
        la = round((la + d[0]) * 256) / 256.
        lo = round((lo + d[1]) * 256) / 256.
        if lo > 180:
            lo -= 360
        elif lo < -180:
            lo += 360
        if track == 0 and lo < 0:
            lo += 360
        ds, vs = int(head // 45), int((kn + 2) // 5)
        if motion == 'none':
            ds = vs = None
        elif motion == 'stopped':
            vs = 0
        elif motion == 'wrong way':
            ds = (ds + 4) % 8
        elif motion == 'too fast':
            vs = 9
        elif motion == 'patchy':
            ds, vs = (None if i % 3 == 2 else ds), (None if i % 4 == 1 else vs)
        r = dict(LAT=la, LON=lo, DS=ds, VS=vs, YR=2003, MO=12, DY=30 + int(t // 24), HR=t % 24, UID='U%d' % i, t=t)
        if r['DY'] > 31:
            r['YR'], r['MO'], r['DY'] = 2004, 1, r['DY'] - 31
        if timing == 'no hour' and i == 1:
            r['HR'], r['t'] = None, None
        r['dsi'] = None if ds is None else [0, 45, 90, 135, 180, 225, 270, 315, 360][ds]
        r['vsi'] = None if vs is None else (0.0 if vs == 0 else vs * 5.0 - 2)
        out.append(r)
        t += {'6h': 6.0, 'uneven': [1.0, 12.0, 3.0][i % 3], 'repeated': 0.0 if i == 1 else 6.0, 'no hour': 6.0}[timing]
    return out


FLAGS = [('POS', 'trk'), ('POS', 'few'), ('POS', 'iquam_track'), ('SST', 'spike'), ('AT', 'spike')]


def voyage(reps, **kw):
    v = ex.Voyage()
    for i, r in enumerate(reps):
        q = report(**dict({k: r[k] for k in r if k not in ('t', 'dsi', 'vsi')}, **kw))
        for k, (t, f) in enumerate(FLAGS):
            q.set_qc(t, f, (1, 0, 7)[(i + k) % 3])      # of an earlier run
        v.add_report(q)
    return v


def gen(tier):
    m = 4 if tier == 'quick' else 6
    top = 7 if tier == 'quick' else 8
    for n in range(0, m + 1):
        for track in range(3):
            for motion in MOTION:
                for timing in TIMING:
                    if n < 3:
                        yield [track, motion, timing, n, [], 0]
                    else:
                        for pre in itertools.product(range(4), repeat=n - 3):
                            yield [track, motion, timing, n, list(pre), 0]
    for n in range(m + 1, top + 1):
        for track, motion in ((0, 'true'), (1, 'none'), (2, 'wrong way')):
            for pre in itertools.product(range(4), repeat=n - 3):
                if n > m + 1 and tier == 'quick' and (pre.count(0) < n - 4 or track != 0):
                    continue
                yield [track, motion, '6h', n, list(pre), 1]


def run(case, R):
    track, motion, timing, n, pre, full = case
    P = params()['track_check']
    P2 = dict(P, max_midpoint_discrepancy=20.0, max_direction_change=30.0, max_speed_change=4.0, max_absolute_speed=25.0)
    for rest in itertools.product(range(4), repeat=min(3, n)):
        disp = list(pre) + list(rest)
        reps = build(track, motion, timing, disp, n)
        key = '%d %s %s %s' % (track, motion, timing, ''.join(map(str, disp)))
        for par in ((P, P2) if not full else (P,)):
            try:
                want = trackref.one_pass(reps, par)
            except trackref.Ambiguous:
                R.outcome('ambiguous')
                want = None
            if want is not None:
                v = voyage(reps)
                r = attempt(v.track_check, par)
                got = r if isinstance(r, Raised) else [(v.get_qc(i, 'POS', 'trk'), v.get_qc(i, 'POS', 'few')) for i in range(n)]
                R.eq('one pass %d %s' % (par is P2, key), got, want, 'track check flags')
                R.trace()
                R.trans(n)
                R.state((key, par is P2, tuple(want)))
                R.outcome('flags ' + ''.join(str(f[0]) for f in want))
        if n > 0:
            try:
                want = trackref.five_pass(reps, P)
            except trackref.Ambiguous:
                R.outcome('ambiguous')
                continue
            v = voyage(reps)
            r = attempt(tc.mds_full_track_check, v)
            got = r if isinstance(r, Raised) else [v.get_qc(i, 'POS', 'bad_track') for i in range(n)]
            R.eq('five pass %s' % key, got, want, 'five-pass track check flags')
            R.state((key, 5, tuple(want)))
            R.outcome('five %d' % sum(want))


# who is exempt

def gen_ex(tier):
    for pt in [None] + list(range(0, 16)):
        yield pt


def run_ex(pt, R):
    P = params()['track_check']
    for n in (1, 2, 3, 5):
        disp = [0, 1, 0, 1, 0][:n]
        reps = build(0, 'true', '6h', disp, n)
        for ident, generic in (('SHIPA    ', 0), ('SHIP     ', 1), ('         ', 1), (None, 1), ('7        ', 0)):
            for dck, yr in ((926, 2003), (720, 1890), (720, 1891), (926, 1890), (720, 1935)):
                key = '%s %s %r %s %s' % (pt, n, ident, dck, yr)
                g = generic or (ident == '7        ' and yr == 1935)
                rr = [dict(r, YR=yr if r['YR'] == 2003 else yr + 1) for r in reps]
                for r in rr:
                    r['vsi'] = None if r['VS'] is None else (0.0 if r['VS'] == 0 else (r['VS'] * 5.0 - 2 if yr >= 1968 else r['VS'] * 3.0 - 1))
                try:
                    w = trackref.one_pass(rr, P, exempt=g or pt in (6, 7), few_ok=dck == 720 and yr < 1891)
                    w5 = trackref.five_pass(rr, P, exempt=g)
                except trackref.Ambiguous:
                    R.outcome('ambiguous')
                    continue
                v = voyage(rr, PT=pt, ID=ident, DCK=dck)
                r = attempt(v.track_check, P)
                got = r if isinstance(r, Raised) else [(v.get_qc(i, 'POS', 'trk'), v.get_qc(i, 'POS', 'few')) for i in range(n)]
                R.eq('exempt ' + key, got, [(a, 0 if b is None else b) for a, b in w], 'track flags by platform, identifier and deck')
                v = voyage(rr, PT=pt, ID=ident, DCK=dck)
                r = attempt(tc.mds_full_track_check, v)
                got = r if isinstance(r, Raised) else [v.get_qc(i, 'POS', 'bad_track') for i in range(n)]
                R.eq('exempt five ' + key, got, w5, 'five-pass flags by identifier')
                R.state(key)
                R.outcome('exempt %s' % w)


def gen_first(tier):
    for n in (1, 2, 3, 4):
        for pts in itertools.product((5, 7), repeat=n):
            yield [n, list(pts)]


def run_first(case, R):
    """a voyage is what its first report is: platform, deck and year that change under way"""
    n, pts = case
    P = params()['track_check']
    for disp in itertools.product((0, 1, 3), repeat=n):
        reps = build(0, 'none', '6h', list(disp), n)
        for decks in itertools.product((720, 926), repeat=min(n, 2)):
            for split in range(0, n + 1):
                rr = []
                for i, r in enumerate(reps):
                    old = i < split
                    rr.append(dict(r, PT=pts[i], DCK=decks[min(i, len(decks) - 1)], YR=1890 if old else 1891, MO=12 if old else 1,
                                   DY=32 + int((i - split) * 6.0 // 24) if old else 1 + int((i - split) * 6.0 // 24),
                                   HR=((i - split) * 6.0) % 24))
                for i, r in enumerate(rr):
                    r['t'] = (i - split) * 6.0
                key = '%r %r %r %d' % (pts, disp, decks, split)
                try:
                    w = trackref.one_pass(rr, P, exempt=pts[0] == 7, few_ok=decks[0] == 720 and split > 0)
                except trackref.Ambiguous:
                    R.outcome('ambiguous')
                    continue
                v = voyage(rr)
                r = attempt(v.track_check, P)
                got = r if isinstance(r, Raised) else [(v.get_qc(i, 'POS', 'trk'), v.get_qc(i, 'POS', 'few')) for i in range(n)]
                R.eq('first ' + key, got, [(a, 0 if b is None else b) for a, b in w], 'track flags of a voyage whose platform, deck and year change')
                R.state(key)
                R.trace()
                R.outcome('first %s' % w)


# ------------------------------------------------------------------------------------ many passes

def gen_mixed(tier):
    n = 4 if tier == 'quick' else 5
    for track in range(3):
        for kinds in itertools.product(range(len(KIND)), repeat=n - 2):
            yield [track, n, list(kinds)]


def run_mixed(case, R):
    track, n, pre = case
    P = params()['track_check']
    P2 = dict(P, max_midpoint_discrepancy=20.0, max_direction_change=30.0, max_speed_change=4.0, max_absolute_speed=25.0)
    for rest in itertools.product(range(len(KIND)), repeat=2):
        kinds = list(pre) + list(rest)
        for at, dk in [(0, 0)] + [(i, d) for i in range(1, n) for d in (1, 3)]:
            disp = [0] * n
            disp[at] = dk
            reps = build(track, 'true', '6h', disp, n)
            for r, k in zip(reps, kinds):
                a, b = KIND[k]
                r['DS'] = None if a is None else (r['DS'] + a) % 8
                r['VS'] = None if b is None else min(9, r['VS'] + b)
                r['dsi'] = None if r['DS'] is None else [0, 45, 90, 135, 180, 225, 270, 315, 360][r['DS']]
                r['vsi'] = None if r['VS'] is None else (0.0 if r['VS'] == 0 else r['VS'] * 5.0 - 2)
            for par in (P, P2):
                key = 'mixed %d %s %d/%d %d' % (track, ''.join(map(str, kinds)), at, dk, par is P2)
                try:
                    want = trackref.one_pass(reps, par)
                except trackref.Ambiguous:
                    R.outcome('ambiguous')
                    continue
                v = voyage(reps)
                r = attempt(v.track_check, par)
                got = r if isinstance(r, Raised) else [(v.get_qc(i, 'POS', 'trk'), v.get_qc(i, 'POS', 'few')) for i in range(n)]
                R.eq(key, got, want, 'track check flags')
                R.trace()
                R.trans(n)
                R.state((key, tuple(want)))
                R.outcome('mixed ' + ''.join(str(f[0]) for f in want))


def gen_runs(tier):
    top = 11 if tier == 'quick' else 14
    for n in range(6, top + 1):
        for track in range(3):
            for motion in ('none', 'true', 'too fast'):
                yield [n, track, motion]


def run_runs(case, R):
    """runs of reports displaced alike lose one report per pass: every start and length of one run, and of two"""
    n, track, motion = case
    P = params()['track_check']
    spans = [(a, b) for a in range(0, n) for b in range(a + 3, n + 1)]
    for first in spans:
        seconds = [None] + [s for s in spans if s[0] > first[1]]
        for second in seconds:
            for d1, d2 in ((3, 4), (4, 3), (1, 4), (4, 4)):
                if second is None and (d1, d2) in ((4, 4), (1, 4)):
                    continue
                disp = [0] * n
                for i in range(*first):
                    disp[i] = d1
                if second:
                    for i in range(*second):
                        disp[i] = d2
                reps = build(track, motion, '6h', disp, n)
                key = 'runs %d %s %s' % (track, motion, ''.join(map(str, disp)))
                try:
                    want = trackref.five_pass(reps, P)
                except trackref.Ambiguous:
                    R.outcome('ambiguous')
                    continue
                v = voyage(reps)
                r = attempt(tc.mds_full_track_check, v)
                got = r if isinstance(r, Raised) else [v.get_qc(i, 'POS', 'bad_track') for i in range(n)]
                R.eq(key, got, want, 'five-pass track check flags')
                R.trace()
                R.trans(n)
                R.state((key, tuple(want)))
                R.outcome('rejected %d' % sum(want))


# ------------------------------------------------------------------------------------ long voyages

def gen_long(tier):
    for n in (30, 48) if tier == 'quick' else (30, 48, 90):
        for track in range(3):
            for motion in ('none', 'true', 'too fast', 'patchy'):
                for timing in ('6h', 'uneven'):
                    if timing == 'uneven' and motion != 'none' and tier == 'quick':
                        continue
                    for gap in (None, 1, 2, 3, 17):
                        yield [n, track, motion, timing, gap]


def run_long(case, R):
    """one report, or two a given way apart, displaced at every place of a long voyage"""
    n, track, motion, timing, gap = case
    P = params()['track_check']
    for i in range(n):
        if gap and i + gap >= n:
            continue
        for d1, d2 in ((1, 2), (3, 1)):
            disp = [0] * n
            disp[i] = d1
            if gap:
                disp[i + gap] = d2
            reps = build(track, motion, timing, disp, n)
            key = 'long %r %d %d' % (case, i, d1)
            for five in (0, 1):
                try:
                    want = trackref.five_pass(reps, P) if five else trackref.one_pass(reps, P)
                except trackref.Ambiguous:
                    R.outcome('ambiguous')
                    continue
                v = voyage(reps)
                r = attempt(tc.mds_full_track_check, v) if five else attempt(v.track_check, P)
                got = r if isinstance(r, Raised) else [v.get_qc(k, 'POS', 'bad_track') if five else (v.get_qc(k, 'POS', 'trk'), v.get_qc(k, 'POS', 'few')) for k in range(n)]
                R.eq('%s %d' % (key, five), got, want, 'track check flags of a long voyage')
                R.trace()
                R.trans(n)
                R.state((key, five, tuple(want)))
                R.outcome('long %d' % sum(f if five else f[0] for f in want))


# ------------------------------------------------------------------------------------ limits

def place(track, kn, heads, hours, moved):
    """positions of a ship that sails the legs, with some reports moved: {index: (heading, km)}"""
    lat, lon = TRACKS[track][:2]
    out = []
    for i in range(len(hours) + 1):
        if i:
            lat, lon = sphere.destination(lat, lon, heads[(i - 1) % len(heads)], kn / trackref.NM * hours[i - 1])
        out.append(sphere.destination(lat, lon, *moved[i]) if i in moved else (lat, lon))
    return out


def sail(track, motion, kn, heads, hours, moved):
    pos = place(track, kn, heads, hours, moved)
    out, t = [], 0.0
    for i, (la, lo) in enumerate(pos):
        ds, vs = int(round(heads[min(i, len(heads) - 1)] / 45.0)) % 8, int((kn + 2) // 5)
        if motion == 'none':
            ds = vs = None
        elif motion == 'direction':
            vs = None
        elif motion == 'speed':
            ds, vs = None, 9
        elif motion == 'too fast':
            vs = 9
        elif motion == 'slow':
            vs = 1
        d = 30 + int(t // 24)
        out.append(dict(LAT=la, LON=lo, DS=ds, VS=vs, YR=2003, MO=12, DY=d, HR=t % 24, UID='U%d' % i, t=t))
        if d > 31:
            out[-1].update(YR=2004, MO=1, DY=d - 31)
        out[-1]['dsi'] = None if ds is None else [0, 45, 90, 135, 180, 225, 270, 315, 360][ds]
        out[-1]['vsi'] = None if vs is None else (0.0 if vs == 0 else vs * 5.0 - 2)
        t += hours[i] if i < len(hours) else 0.0
    return out


def gen_lim(tier):
    for track in range(3):
        for motion in ('none', 'true', 'direction', 'speed', 'too fast', 'slow'):
            for n in (3, 4) if tier == 'quick' else (3, 4, 5):
                for kind in ('move', 'hours', 'turn', 'knots'):
                    yield [track, motion, n, kind]


def run_lim(case, R):
    """voyages in which one thing varies; where the reference changes its mind, the check is tried on either side"""
    track, motion, n, kind = case
    P = params()['track_check']
    sets = [('P', P), ('near', dict(P, max_midpoint_discrepancy=10.0)), ('near turn', dict(P, max_midpoint_discrepancy=10.0, max_absolute_speed=1000.0, max_speed_change=1000.0)),
            ('near speed', dict(P, max_midpoint_discrepancy=10.0, max_absolute_speed=1000.0, max_direction_change=181.0)),
            ('near fast', dict(P, max_midpoint_discrepancy=10.0, max_direction_change=181.0, max_speed_change=1000.0))]
    for at in range(1, n - 1):
        for kn in (4.0, 11.0, 21.0):
            for away in (0.0, 100.0, 215.0):
                def make(x):
                    hours = [6.0] * (n - 1)
                    heads = [45.0] * (n - 1)
                    moved = {at: (away, 180.0)}
                    k = kn
                    if kind == 'move':
                        moved = {at: (away, x * 100.0)}
                    elif kind == 'hours':
                        hours[at - 1 if away else at] = round(x * 64 * 2) / 64.0
                    elif kind == 'turn':
                        moved = {at: (x * 36.0, (120.0, 300.0, 520.0)[int(away) % 3])}
                    else:
                        k = x * 5.0
                    return sail(track, motion, k, heads, hours, moved)

                for name, par in sets:
                    def ref(x):
                        return tuple(f[0] for f in trackref.one_pass(make(x), par))

                    for lo, hi in edges(ref, 0.125, 10.0, 24, 0.125 / 64 if kind == 'hours' else 0.004, trackref.Ambiguous):
                        for x in (lo, hi):
                            reps = make(x)
                            key = 'limit %r %d %s %s %s %.5f' % (case, at, kn, away, name, x)
                            want = trackref.one_pass(reps, par)
                            v = voyage(reps)
                            r = attempt(v.track_check, par)
                            got = r if isinstance(r, Raised) else [(v.get_qc(i, 'POS', 'trk'), v.get_qc(i, 'POS', 'few')) for i in range(n)]
                            R.eq(key, got, want, 'track check flags next to a limit')
                            R.trace()
                            R.trans(n)
                            R.state((key, tuple(want)))
                            R.outcome('limit ' + ''.join(str(f[0]) for f in want))
                            if name == 'P':
                                try:
                                    want = trackref.five_pass(reps, P)
                                except trackref.Ambiguous:
                                    continue
                                v = voyage(reps)
                                r = attempt(tc.mds_full_track_check, v)
                                got = r if isinstance(r, Raised) else [v.get_qc(i, 'POS', 'bad_track') for i in range(n)]
                                R.eq('five ' + key, got, want, 'five-pass track check flags next to a limit')


# ------------------------------------------------------------------------------------ estimated positions

PLACES = [(0.25, 179.75), (0.5, -179.5), (-60.25, 10.5), (-61.0, 12.25)]


def gen_est(tier):
    al = [(None, 1), (2, None), (None, None), (0, 0), (1, 3), (4, 8), (7, 4)] + ([] if tier == 'quick' else [(2, 7), (9, 2), (6, 9)])
    for a in al:
        for b in al:
            yield [list(a), list(b)]


def run_est(case, R):
    a, b = case
    for p0, p1, p2 in itertools.product(PLACES, repeat=3):
        for t1, t2 in itertools.product((0.0, 1.0, 6.5), repeat=2):
            reps = []
            for (lat, lon), (vs, ds), t in ((p0, a, 0.0), (p1, b, t1), (p2, a, t1 + t2)):
                dsi = None if ds is None else [0, 45, 90, 135, 180, 225, 270, 315, 360, None][ds]
                reps.append(dict(LAT=lat, LON=lon, DS=ds, VS=vs, YR=2003, MO=12, DY=30, HR=t, UID='U%g' % t, t=t, dsi=dsi,
                                 vsi=None if vs is None else (0.0 if vs == 0 else vs * 5.0 - 2)))
            key = 'estimate %s %s %s %s %s %g %g' % (a, b, p0, p1, p2, t1, t2)
            fwd = [None] + [trackref.discrepancy(reps[i - 1], reps[i], False, reps[i]['t'] - reps[i - 1]['t']) for i in (1, 2)]
            rev = [trackref.discrepancy(reps[i], reps[i - 1], True, reps[i]['t'] - reps[i - 1]['t']) for i in (1, 2)] + [None]
            fr = t1 / (t1 + t2) if t1 + t2 else 0.0
            m = sphere.between(p0[0], p0[1], p2[0], p2[1], fr)
            mid = [None, sphere.dist(p1[0], p1[1], m[0], m[1]), None]
            v = voyage(reps)
            for name, want in (('distr1', fwd), ('distr2', rev), ('midpt', mid)):
                for where, got in (('voyage', attempt(getattr(v, name))), ('module', attempt(getattr(tc, name), v))):
                    R.eq('%s %s %s' % (name, where, key), got, want, 'distances from the estimated positions (km)', tol=1e-4)
            R.state(key)


# ------------------------------------------------------------------------------------ modal speed

def gen_mode(tier):
    for n in range(0, 6 if tier == 'quick' else 7):
        yield n


def run_mode(n, R):
    al = [0.5, 4.0, 8.0, 10.0, 17.0, 34.0, 50.0]
    for s in itertools.product(al, repeat=n):
        sp = [None] + [x / trackref.NM for x in s]
        m = trackref.modal(sp[1:])
        R.eq('mode %r' % (s,), attempt(tc.modesp, sp), None if m is None else m / trackref.NM, 'modal speed')
        g = attempt(tc.set_speed_limits, None if m is None else m / trackref.NM)
        w = (15., 20., 0.) if m is None or m <= 8.51 else (m * 1.25, 30., m * .75)
        R.eq('limits %r' % (s,), g, [x / trackref.NM for x in w], 'speed limits from the modal speed')
        R.state(('mode', s))
    if n == 1:
        for k in range(1, 40):
            for off in (-0.02, -0.005, 0.005, 0.02):
                s = [None, (k + off) / trackref.NM]
                m = trackref.modal(s[1:])
                R.eq('bin %d %s' % (k, off), attempt(tc.modesp, s), m / trackref.NM, 'modal speed next to the edge of a class')
                R.eq('bin limits %d %s' % (k, off), attempt(tc.set_speed_limits, (k + off) / trackref.NM),
                     [x / trackref.NM for x in ((15., 20., 0.) if k + off <= 8.51 else ((k + off) * 1.25, 30., (k + off) * .75))], 'speed limits from the modal speed')


SUBS = [Sub('track', gen, run), Sub('long', gen_long, run_long), Sub('exemptions', gen_ex, run_ex), Sub('first report', gen_first, run_first), Sub('modal speed', gen_mode, run_mode), Sub('many passes', gen_runs, run_runs),
        Sub('mixed motion', gen_mixed, run_mixed), Sub('limits', gen_lim, run_lim), Sub('estimates', gen_est, run_est)]
