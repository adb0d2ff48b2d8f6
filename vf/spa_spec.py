"""The published NREL SPA (Reda & Andreas, TP-560-34302, rev. 2008), as the
specification of property C04: a plain transcription of the report's formulas
(sea level, delta T = 67 s, 1013.25 hPa, 12 degrees Celsius), in degrees as
published.  Written over an abstract set of operations `m`, so that the same
text is evaluated on numbers (run-time contract checks) and on terms (proof)."""
import numpy as np
from fractions import Fraction
from .spa_tables import (L0, L1, L2, L3, L4, L5, B0, B1, R0, R1, R2, R3, R4, NUTATION_ABCD as ABCD,
                         NUTATION_YTERM as YTERM)

L, B, R = (L0, L1, L2, L3, L4, L5), (B0, B1), (R0, R1, R2, R3, R4)

DELTA_T = 67


class NumOps:
    sin, cos, tan, atan, asin = np.sin, np.cos, np.tan, np.arctan, np.arcsin
    atan2, where, ge = np.arctan2, np.where, np.greater_equal
    pi = np.pi

    @staticmethod
    def c(x):
        return float(Fraction(x)) if isinstance(x, str) else float(x)

    @staticmethod
    def clip(x):
        return np.clip(x, -1., 1.)

    @staticmethod
    def wrap(x, n):
        return np.mod(x, n)


def _series(m, tables, x):
    tot = m.c(0)
    for p, tab in enumerate(tables):
        s = m.c(0)
        for a, b, c in tab:
            s = s + m.c(a) * m.cos(m.c(b) + m.c(c) * x)
        for _ in range(p):
            s = s * x
        tot = tot + s
    return tot / m.c(100000000)


def spa_time(m, t):
    """quantities of the instant alone (t: seconds since 1970): angles in degrees"""
    deg, rad = m.c(180) / m.pi, m.pi / m.c(180)
    d = t / m.c(86400) + m.c(Fraction(4881175, 2)) - m.c(2451545)     # JD - 2451545
    JC = d / m.c(36525)
    JCE = (d + m.c(Fraction(DELTA_T, 86400))) / m.c(36525)
    JME = JCE / m.c(10)
    lon_h = _series(m, L, JME)                                          # rad
    lat_h = _series(m, B, JME)
    rad_v = _series(m, R, JME)                                          # AU
    theta = lon_h * deg + m.c(180)
    beta = -lat_h                                                       # rad
    X0 = m.c('297.85036') + m.c('445267.111480') * JCE - m.c('0.0019142') * JCE**2 + JCE**3 / m.c(189474)
    X1 = m.c('357.52772') + m.c('35999.050340') * JCE - m.c('0.0001603') * JCE**2 - JCE**3 / m.c(300000)
    X2 = m.c('134.96298') + m.c('477198.867398') * JCE + m.c('0.0086972') * JCE**2 + JCE**3 / m.c(56250)
    X3 = m.c('93.27191') + m.c('483202.017538') * JCE - m.c('0.0036825') * JCE**2 + JCE**3 / m.c(327270)
    X4 = m.c('125.04452') - m.c('1934.136261') * JCE + m.c('0.0020708') * JCE**2 + JCE**3 / m.c(450000)
    dpsi = deps = m.c(0)
    for (a, b, c, dd), y in zip(ABCD, YTERM):
        arg = m.c(0)
        for yi, x in zip(y, (X0, X1, X2, X3, X4)):
            if yi:
                arg = arg + m.c(yi) * x
        dpsi = dpsi + (m.c(a) + m.c(b) * JCE) * m.sin(arg * rad)
        deps = deps + (m.c(c) + m.c(dd) * JCE) * m.cos(arg * rad)
    dpsi = dpsi / m.c(36000000)
    deps = deps / m.c(36000000)
    U = JME / m.c(10)
    eps0 = m.c(0)
    for k in ('2.45', '5.79', '27.87', '7.12', '-39.05', '-249.67', '-51.38', '1999.25', '-1.55', '-4680.93'):
        eps0 = (eps0 + m.c(k)) * U
    eps = (eps0 + m.c('84381.448')) / m.c(3600) + deps
    dtau = -m.c('20.4898') / (m.c(3600) * rad_v)
    lam = theta + dpsi + dtau
    cose, sine = m.cos(eps * rad), m.sin(eps * rad)
    nu = (m.c('280.46061837') + m.c('360.98564736629') * d + m.c('0.000387933') * JC**2
          - JC**3 / m.c(38710000) + dpsi * cose)
    sinl, cosl = m.sin(lam * rad), m.cos(lam * rad)
    sinb, cosb = m.sin(beta), m.cos(beta)
    alpha = m.atan2(sinl * cose - sinb / cosb * sine, cosl) * deg
    delta = m.asin(sinb * cose + cosb * sine * sinl)                    # rad
    M = (m.c('280.4664567') + m.c('360007.6982779') * JME + m.c('0.03032028') * JME**2 + JME**3 / m.c(49931)
         - JME**4 / m.c(15300) - JME**5 / m.c(2000000))
    E = M - m.c('0.0057183') - alpha + dpsi * cose                      # degrees, mod 360
    return dict(R=rad_v, nu=nu, alpha=alpha, delta=delta, E=E)


def parallax(m, R, delta, H, lat):
    """topocentric declination and shift of the right ascension (sea level), radians"""
    rad = m.pi / m.c(180)
    phi = lat * rad
    xi = m.c('8.794') / (m.c(3600) * R) * rad
    u = m.atan(m.c('0.99664719') * m.tan(phi))
    x, y = m.cos(u), m.c('0.99664719') * m.sin(u)                       # sea level
    sinxi, sinH, cosH = m.sin(xi), m.sin(H), m.cos(H)
    sind, cosd = m.sin(delta), m.cos(delta)
    dalpha = m.atan2(-x * sinxi * sinH, cosd - x * sinxi * cosH)
    deltap = m.atan2((sind - y * sinxi) * m.cos(dalpha), cosd - x * sinxi * cosH)
    return dict(dalpha=dalpha, deltap=deltap)


def elevation_azimuth(m, deltap, Hp, lat):
    phi = lat * (m.pi / m.c(180))
    sinphi, cosphi = m.sin(phi), m.cos(phi)
    e0 = m.asin(m.clip(sinphi * m.sin(deltap) + cosphi * m.cos(deltap) * m.cos(Hp)))
    az = m.atan2(m.sin(Hp), m.cos(Hp) * sinphi - m.tan(deltap) * cosphi)
    return e0, az


def refracted(m, e0):
    """elevation with the published correction, radians"""
    rad = m.pi / m.c(180)
    ed = e0 / rad
    atm = m.c(Fraction('1013.25') / 1010) * m.c(Fraction(283, 285))
    corr = atm * m.c('1.02') / (m.c(60) * m.tan((ed + m.c('10.3') / (ed + m.c('5.11'))) * rad))
    return m.where(m.ge(ed, -m.c('0.83337')), e0 + corr * rad, e0)


def spa_place(m, q, lat, lon, refraction):
    """topocentric zenith and azimuth (0: south), radians"""
    H = (q['nu'] + lon - q['alpha']) * (m.pi / m.c(180))
    p = parallax(m, q['R'], q['delta'], H, lat)
    e0, az = elevation_azimuth(m, p['deltap'], H - p['dalpha'], lat)
    e = refracted(m, e0) if refraction else e0
    return m.pi / m.c(2) - e, az, e0


def spa(t, lat, lon, refraction=False):
    """numeric evaluation; t seconds since 1970, lat/lon degrees; broadcasts"""
    m = NumOps
    q = spa_time(m, np.asarray(t, float))
    z, a, e0 = spa_place(m, q, np.asarray(lat, float), np.asarray(lon, float), refraction)
    eot = (q['E'] + 180) % 360 - 180
    return {'zenith': np.degrees(z), 'azimuth': np.degrees(a), 'declination': np.degrees(q['delta']),
            'eot': 4 * eot, 'ecf': 1 / q['R']**2, 'e0': np.degrees(e0)}
