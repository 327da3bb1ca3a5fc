"""Blacklists, generic identifiers and platform classification"""
import qc
from mc.engine import Sub, attempt
from mc.marine import qcreport

PROPERTY = 'C09'
LEVEL = 'exploration'
RULE = ('every lattice position x year x deck around and between the edges of every blacklist region, every deck, platform type, '
        'identifier and year of the tables with their neighbours; each through the function and through a report')
BOUNDS = {'quick': '2.5 degree lattice, 1956-1976 for deck 732; all years 1850-2020 for identifiers',
          'thorough': '1.25 degree lattice and every year 1850-2020'}

BOX = {1: (-175, -170, 40, 55), 2: (-165, -160, 40, 60), 3: (-145, -140, 40, 50), 4: (-140, -135, 30, 40), 5: (-140, -130, 50, 55),
       6: (-70, -60, 35, 40), 7: (-50, -40, 45, 50), 8: (5, 10, 70, 80), 9: (0, 10, -10, 0), 10: (-30, -25, -25, -20),
       11: (-60, -55, -50, -45), 12: (75, 80, -20, -15), 13: (50, 60, -30, -20), 14: (30, 40, -40, -30), 15: (20, 25, 60, 65),
       16: (0, 10, -40, -30), 17: (-135, -130, 30, 40)}
YEARS = {1958: '1 2 3 4 5 6 14 15', 1959: '1 2 3 4 5 6 14 15', 1960: '1 2 3 5 6 9 14 15', 1961: '1 2 3 5 6 14 15 16',
         1962: '1 2 3 5 12 13 14 15 16', 1963: '1 2 3 5 6 12 13 14 15 16', 1964: '1 2 3 5 6 12 13 14 16', 1965: '1 2 6 10 12 13 14 15 16',
         1966: '1 2 6 9 14 15 16', 1967: '1 2 5 6 9 14 15', 1968: '1 2 3 5 6 9 14 15', 1969: '1 2 3 4 5 6 7 8 9 10 13 14 15 16',
         1970: '1 2 3 4 5 6 8 9 14 15', 1971: '1 2 3 4 5 6 7 8 9 13 14 16', 1972: '4 7 8 9 10 11 13 16 17', 1973: '4 7 8 10 11 13 16 17',
         1974: '4 7 8 10 11 16 17'}
YEARS = {y: [int(x) for x in v.split()] for y, v in YEARS.items()}
BUOYS = ('53521 53522 53566 53567 53568 53571 53578 53580 53582 53591 53592 53593 53594 53595 53596 53599 53600 53601 53602 53603 '
         '53604 53605 53606 53607 53608 53609 53901 53902').split()


def west(lon):
    return lon - 360 if lon > 180 else lon


def in732(year, lat, lon):
    return any(b[0] <= west(lon) <= b[1] and b[2] <= lat <= b[3] for b in (BOX[k] for k in YEARS.get(year, ())))


def steps(tier):
    return 2.5 if tier == 'quick' else 1.25


def gen_region(tier):
    ys = range(1956, 1977) if tier == 'quick' else range(1850, 2021)
    for y in ys:
        for la in range(int(-90 / steps(tier)), int(90 / steps(tier)) + 1):
            yield [tier, y, la * steps(tier)]


def run_region(case, R):
    tier, y, la = case
    s = steps(tier)
    for i in range(int(-180 / s), int(360 / s) + 1):
        lo = i * s
        w = int(in732(y, la, lo) or (la == 0 and west(lo) == 0))
        R.eq('region %s %s,%s' % (y, la, lo), attempt(qc.blacklist, 'SHIPA    ', 732, y, 6, la, lo, 5), w, 'deck 732 region')
        R.state((y, la, lo))
        R.outcome('732 %d' % w)
        if y in (1963, 1969) or (y, la) == (1972, 35.0):
            for dk in (926, 731, 733, 201):
                R.eq('region %s %s %s,%s' % (dk, y, la, lo), attempt(qc.blacklist, 'SHIPA    ', dk, y, 6, la, lo, 5),
                     int(la == 0 and west(lo) == 0), 'the regions only concern deck 732')


def gen_rep(tier):
    for y in (1957, 1958, 1963, 1969, 1972, 1974, 1975, 2000):
        for k in sorted(BOX):
            yield [y, k]


def run_rep(case, R):
    y, k = case
    x0, x1, y0, y1 = BOX[k]
    for lo in (x0, (x0 + x1) / 2., x1, x0 - .5, x1 + .5):
        for la in (y0, (y0 + y1) / 2., y1, y0 - .5, y1 + .5):
            for shift in ((0, 360) if lo < 0 else (0,)):
                for dk in (732, 926):
                    r = qcreport(YR=y, LAT=float(la), LON=float(lo) + shift, DCK=dk)
                    r.do_blacklist()
                    w = int((dk == 732 and in732(y, la, lo)) or (la == 0 and lo == 0))
                    R.eq('report %s %s %s %s,%s' % (dk, y, k, la, lo + shift), r.get_qc('POS', 'blklst'), w, 'blacklist flag of the report')
                    R.state((y, k, la, lo, shift, dk))
                    R.outcome('report %d' % w)


def gen_other(tier):
    for dk in [None] + list(range(0, 1000)):
        yield dk


def run_other(dk, R):
    for pt in [None] + list(range(0, 20)):
        w = int(dk == 874 or pt == 13)
        R.eq('deck %s pt %s' % (dk, pt), attempt(qc.blacklist, 'SHIPA    ', dk, 1990, 6, 10.0, 20.0, pt), w, 'deck 874 or platform type 13')
        R.outcome('deck %d' % w)
        R.state((dk, pt))
        if dk is not None and pt is not None and (dk in (193, 201, 700, 701, 702, 707, 708, 709, 731, 732, 733, 779, 780, 781, 873, 874, 875, 926) or dk % 100 == 0):
            for la, lo in ((10.0, 20.0), (0.0, 0.0), (0.0, 360.0), (45.0, -30.0)):
                for yr in (1885, 1990):
                    r = qcreport(DCK=dk, PT=pt, YR=yr, LAT=la, LON=lo)
                    r.do_blacklist(); r.is_buoy(); r.is_ship(); r.is_deck_780(); r.humidity_blacklist(); r.wind_blacklist(); r.mat_blacklist()
                    got = [r.get_qc(*a) for a in (('POS', 'blklst'), ('POS', 'isbuoy'), ('POS', 'isdrifter'), ('POS', 'isship'), ('POS', 'is780'),
                                                  ('DPT', 'hum_blacklist'), ('W', 'wind_blacklist'), ('AT', 'mat_blacklist'))]
                    want = [int(dk == 874 or pt == 13 or (la, west(lo)) == (0.0, 0.0)), int(pt in (6, 7)), int(pt == 7),
                            int(pt in (0, 1, 2, 3, 4, 5, 10, 11, 12, 17)), int(dk == 780),
                            int(pt not in (0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 15)), int(dk in (708, 780)),
                            int((pt == 5 and dk == 780) or mat(dk, yr, la, lo))]
                    R.eq('class %s %s %s,%s %s' % (dk, pt, la, lo, yr), got, want, 'platform class and blacklist flags of the report')
                    R.state((dk, pt, la, lo, yr))
                    R.outcome('class %s' % got)
    if dk is None:
        r = qcreport(PT=None)
        for f in (r.is_buoy, r.is_ship, r.humidity_blacklist, r.mat_blacklist, r.do_blacklist):
            f()
        R.eq('class no platform type', [r.get_qc('POS', 'isbuoy'), r.get_qc('POS', 'isdrifter'), r.get_qc('POS', 'isship'), r.get_qc('DPT', 'hum_blacklist'),
                                        r.get_qc('AT', 'mat_blacklist'), r.get_qc('POS', 'blklst')], [0, 0, 0, 1, 0, 0], 'missing platform type')
        # a report blacklisted earlier and moved is judged afresh
        r = qcreport(LAT=0.0, LON=0.0)
        r.do_blacklist()
        a = r.get_qc('POS', 'blklst')
        r.setvar('LAT', 10.0)
        r.do_blacklist()
        R.eq('re-judged', [a, r.get_qc('POS', 'blklst')], [1, 0], 'blacklist flag after moving the report')


def mat(dk, yr, la, lo):
    lo = west(lo)
    return (dk == 193 and 1880 <= yr <= 1892 and
            ((-80 <= lo <= 0 and 40 <= la <= 55) or (-10 <= lo <= 30 and 35 <= la <= 45) or (15 <= lo <= 45 and -10 <= la <= 40) or
             (15 <= lo <= 95 and -10 <= la <= 15) or (95 <= lo <= 105 and -10 <= la <= 5)))


def gen_mat(tier):
    for yr in (1879, 1880, 1886, 1892, 1893):
        for la in range(-24, 120 + 1):
            if tier == 'thorough' or la % 2 == 0 or -24 <= la <= 24:
                yield [tier, yr, la / 2.0]


def run_mat(case, R):
    tier, yr, la = case
    r = qcreport(DCK=193, PT=5, YR=yr, LAT=la, LON=0.0)
    for i in range(-180, 721):
        lo = i / 2.0
        if tier == 'quick' and i % 5 and i % 10 not in (1, 9):
            continue
        r.setvar('LON', lo)
        r.mat_blacklist()
        w = int(mat(193, yr, la, lo))
        R.eq('mat %s %s,%s' % (yr, la, lo), r.get_qc('AT', 'mat_blacklist'), w, 'air temperature blacklist')
        R.outcome('mat %d' % w)
        R.state(('mat', yr, la, lo))


def gen_ids(tier):
    for y in range(1850, 2021):
        yield y


GEN = ['1', '58', 'RIGG', '     RIGG', 'SHIP', 'ship', '     SHIP', 'PLAT', '     PLAT', '', '0120', '0204', '0205', '0206', '0207', '0208', '0209',
       'MASKST', 'MASKSTID', 'MASK', 'XXXX', '/////']
NOT = ['SHIPA', 'Ship', '59', '0121', '0203', '0210', '4', '6', 'MASKSTI', 'XXX', '////', '00003', '00001', 'PLATS', '53521', '12345', ' SHIP']
SOME = {'2': (1921, 1941), '00002': (1921, 1941), '3': (1930, 1937), '7': (1934, 1954), '00007': (1934, 1954)}


def run_ids(y, R):
    R.eq('generic None %s' % y, attempt(qc.id_is_generic, None, y), True, 'missing identifier is generic')
    for s in GEN + NOT + list(SOME):
        w = s in GEN or (s in SOME and SOME[s][0] <= y <= SOME[s][1])
        R.eq('generic %r %s' % (s, y), bool(attempt(qc.id_is_generic, s.ljust(9), y)), w, 'generic identifier')
        R.state((s, y))
        R.outcome('generic %s' % w)
    for m in range(1, 13):
        for b in BUOYS + ['53520', '53903', 'SUPERIGORINA', '53610', 'SUPERIGOR']:
            ident = b.ljust(9)
            w = int(b == 'SUPERIGORINA' or (b in BUOYS and (y, m) in ((2005, 11), (2005, 12), (2006, 1))))
            if y in (1990, 2004, 2005, 2006, 2007):
                R.eq('id %s %s-%s' % (b, y, m), attempt(qc.blacklist, ident, 794, y, m, 10.0, 20.0, 6), w, 'buoys with the wrong date')
                R.outcome('id %d' % w)
                R.state((b, y, m))
                if b != 'SUPERIGORINA':
                    r = qcreport(ID=ident, YR=y, MO=m, DCK=794, PT=6)
                    r.do_blacklist()
                    R.eq('id report %s %s-%s' % (b, y, m), r.get_qc('POS', 'blklst'), w, 'buoys with the wrong date')


SUBS = [Sub('deck 732', gen_region, run_region), Sub('report', gen_rep, run_rep), Sub('decks and platforms', gen_other, run_other),
        Sub('air temperature', gen_mat, run_mat), Sub('identifiers', gen_ids, run_ids)]
