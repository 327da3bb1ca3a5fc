"""Low-precision solar position of the Astronomical Almanac (independent of qc.sunangle)."""
import datetime
import math


def sun(y, m, d, h, lat, lon):
    """elevation, azimuth (east of north), declination in degrees at hour h UT"""
    n = datetime.date(y, m, d).toordinal() + 1721424.5 + h / 24.0 - 2451545.0
    L = math.radians((280.460 + 0.9856474 * n) % 360)
    g = math.radians((357.528 + 0.9856003 * n) % 360)
    lam = L + math.radians(1.915) * math.sin(g) + math.radians(0.020) * math.sin(2 * g)
    eps = math.radians(23.439 - 4e-7 * n)
    ra = math.atan2(math.cos(eps) * math.sin(lam), math.cos(lam))
    dec = math.asin(math.sin(eps) * math.sin(lam))
    gmst = (18.697374558 + 24.06570982441908 * n) % 24
    ha = math.radians(gmst * 15 + lon) - ra
    p = math.radians(lat)
    se = math.sin(p) * math.sin(dec) + math.cos(p) * math.cos(dec) * math.cos(ha)
    el = math.asin(max(-1.0, min(1.0, se)))
    az = math.degrees(math.atan2(-math.sin(ha) * math.cos(dec),
                                 math.sin(dec) * math.cos(p) - math.cos(dec) * math.sin(p) * math.cos(ha))) % 360
    return math.degrees(el), az, math.degrees(dec)
