# -*- coding: utf-8 -*-
"""Independent low-precision astronomy (J. Meeus, Astronomical Algorithms, ch. 25 and 49; Delta-T after
Espenak & Meeus).  Used as an oracle with tolerances; shares nothing with the code under test."""
from math import sin, radians, floor


def delta_t(y):
    """seconds, TT-UT"""
    if y < -500:
        u = (y - 1820) / 100.0
        return -20 + 32 * u * u
    if y < 500:
        u = y / 100.0
        return 10583.6 - 1014.41 * u + 33.78311 * u**2 - 5.952053 * u**3 - 0.1798452 * u**4 + 0.022174192 * u**5 + 0.0090316521 * u**6
    if y < 1600:
        u = (y - 1000) / 100.0
        return 1574.2 - 556.01 * u + 71.23472 * u**2 + 0.319781 * u**3 - 0.8503463 * u**4 - 0.005050998 * u**5 + 0.0083572073 * u**6
    if y < 1700:
        t = y - 1600
        return 120 - 0.9808 * t - 0.01532 * t**2 + t**3 / 7129.0
    if y < 1800:
        t = y - 1700
        return 8.83 + 0.1603 * t - 0.0059285 * t**2 + 0.00013336 * t**3 - t**4 / 1174000.0
    if y < 1860:
        t = y - 1800
        return 13.72 - 0.332447 * t + 0.0068612 * t**2 + 0.0041116 * t**3 - 0.00037436 * t**4 + 0.0000121272 * t**5 - 0.0000001699 * t**6 + 0.000000000875 * t**7
    if y < 1900:
        t = y - 1860
        return 7.62 + 0.5737 * t - 0.251754 * t**2 + 0.01680668 * t**3 - 0.0004473624 * t**4 + t**5 / 233174.0
    if y < 1920:
        t = y - 1900
        return -2.79 + 1.494119 * t - 0.0598939 * t**2 + 0.0061966 * t**3 - 0.000197 * t**4
    if y < 1941:
        t = y - 1920
        return 21.20 + 0.84493 * t - 0.076100 * t**2 + 0.0020936 * t**3
    if y < 1961:
        t = y - 1950
        return 29.07 + 0.407 * t - t**2 / 233.0 + t**3 / 2547.0
    if y < 1986:
        t = y - 1975
        return 45.45 + 1.067 * t - t**2 / 260.0 - t**3 / 718.0
    if y < 2005:
        t = y - 2000
        return 63.86 + 0.3345 * t - 0.060374 * t**2 + 0.0017275 * t**3 + 0.000651814 * t**4 + 0.00002373599 * t**5
    if y < 2050:
        t = y - 2000
        return 62.92 + 0.32217 * t + 0.005589 * t**2
    if y < 2150:
        return -20 + 32 * ((y - 1820) / 100.0)**2 - 0.5628 * (2150 - y)
    u = (y - 1820) / 100.0
    return -20 + 32 * u * u


def sun_longitude(jde):
    """apparent geocentric longitude of the sun, degrees (error about 0.01 degree within +-1000 years of 2000)"""
    T = (jde - 2451545.0) / 36525.0
    L0 = 280.46646 + 36000.76983 * T + 0.0003032 * T * T
    M = radians(357.52911 + 35999.05029 * T - 0.0001537 * T * T)
    C = (1.914602 - 0.004817 * T - 0.000014 * T * T) * sin(M) + (0.019993 - 0.000101 * T) * sin(2 * M) + 0.000289 * sin(3 * M)
    om = radians(125.04 - 1934.136 * T)
    return (L0 + C - 0.00569 - 0.00478 * sin(om)) % 360.0


def beijing_to_jde(jd_local, y):
    return jd_local - 8 / 24.0 + delta_t(y) / 86400.0


def new_moon(k):
    """JDE of the k-th new moon (k=0: 2000 January 6)"""
    T = k / 1236.85
    J = 2451550.09766 + 29.530588861 * k + 0.00015437 * T**2 - 0.000000150 * T**3 + 0.00000000073 * T**4
    E = 1 - 0.002516 * T - 0.0000074 * T**2
    r = radians
    M = r((2.5534 + 29.10535670 * k - 0.0000014 * T**2 - 0.00000011 * T**3) % 360)
    P = r((201.5643 + 385.81693528 * k + 0.0107582 * T**2 + 0.00001238 * T**3 - 0.000000058 * T**4) % 360)
    F = r((160.7108 + 390.67050284 * k - 0.0016118 * T**2 - 0.00000227 * T**3 + 0.000000011 * T**4) % 360)
    O = r((124.7746 - 1.56375588 * k + 0.0020672 * T**2 + 0.00000215 * T**3) % 360)
    J += (-0.40720 * sin(P) + 0.17241 * E * sin(M) + 0.01608 * sin(2 * P) + 0.01039 * sin(2 * F) + 0.00739 * E * sin(P - M)
          - 0.00514 * E * sin(P + M) + 0.00208 * E * E * sin(2 * M) - 0.00111 * sin(P - 2 * F) - 0.00057 * sin(P + 2 * F)
          + 0.00056 * E * sin(2 * P + M) - 0.00042 * sin(3 * P) + 0.00042 * E * sin(M + 2 * F) + 0.00038 * E * sin(M - 2 * F)
          - 0.00024 * E * sin(2 * P - M) - 0.00017 * sin(O) - 0.00007 * sin(P + 2 * M) + 0.00004 * sin(2 * P - 2 * F)
          + 0.00004 * sin(3 * M) + 0.00003 * sin(P + M - 2 * F) + 0.00003 * sin(2 * P + 2 * F) - 0.00003 * sin(P + M + 2 * F)
          + 0.00003 * sin(P - M + 2 * F) - 0.00002 * sin(P - M - 2 * F) - 0.00002 * sin(3 * P + M) + 0.00002 * sin(4 * P))
    for c, a, b in ((325, 299.77, 0.107408), (165, 251.88, 0.016321), (164, 251.83, 26.651886), (126, 349.42, 36.412478),
                    (110, 84.66, 18.206239), (62, 141.74, 53.303771), (60, 207.14, 2.453732), (56, 154.84, 7.306860),
                    (47, 34.52, 27.261239), (42, 207.19, 0.121824), (40, 291.34, 1.844379), (37, 161.72, 24.198154),
                    (35, 239.56, 25.513099), (23, 331.55, 3.592518)):
        J += c * 1e-6 * sin(r((a + b * k - (0.009173 * T * T if c == 325 else 0)) % 360))
    return J


def new_moon_beijing(jdn_guess, y):
    """(JDN of the Beijing civil day, seconds to the nearest midnight) of the new moon nearest the given JDN"""
    k = round((jdn_guess - 2451550.1) / 29.530588861)
    best = None
    for q in (k - 1, k, k + 1):
        j = new_moon(q) - delta_t(y) / 86400.0 + 8 / 24.0 + 0.5
        n = floor(j)
        if best is None or abs(n - jdn_guess) < abs(best[0] - jdn_guess):
            f = (j - n) * 86400
            best = (n, min(f, 86400 - f), j)
    return best
