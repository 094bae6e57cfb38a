# -*- coding: utf-8 -*-
"""Independent model of the civil calendar (Julian until 1582-10-04, Gregorian from 1582-10-15)
and of the sexagenary cycle.  Nothing here imports the code under test."""

GAN = "甲乙丙丁戊己庚辛壬癸"
ZHI = "子丑寅卯辰巳午未申酉戌亥"
SX = "鼠牛虎兔龙蛇马羊猴鸡狗猪"
JZ = [GAN[i % 10] + ZHI[i % 12] for i in range(60)]
JZI = {g: i for i, g in enumerate(JZ)}
CUT = 2299161  # JDN of 1582-10-15


def jdn(y, m, d):
    """Julian day number (of noon) of a civil date; a day beyond the month end is not accepted here."""
    a = (14 - m) // 12
    yy = y + 4800 - a
    mm = m + 12 * a - 3
    n = d + (153 * mm + 2) // 5 + 365 * yy + yy // 4
    if (y, m, d) >= (1582, 10, 15):
        return n - yy // 100 + yy // 400 - 32045
    return n - 32083


def ymd(n):
    if n >= CUT:
        a = n + 32044
        b = (4 * a + 3) // 146097
        c = a - 146097 * b // 4
    else:
        b = 0
        c = n + 32082
    d = (4 * c + 3) // 1461
    e = c - 1461 * d // 4
    m = (5 * e + 2) // 153
    return 100 * b + d - 4800 + m // 10, m + 3 - 12 * (m // 10), e - (153 * m + 2) // 5 + 1


def leap(y):
    if y <= 1582:
        return y % 4 == 0
    return (y % 4 == 0 and y % 100 != 0) or y % 400 == 0


_DIM = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def dim(y, m):
    """number of days that exist in the month"""
    if y == 1582 and m == 10:
        return 21
    return _DIM[m - 1] + (1 if m == 2 and leap(y) else 0)


def last_day(y, m):
    return 31 if (y == 1582 and m == 10) else dim(y, m)


def exists(y, m, d):
    if not 1 <= m <= 12 or d < 1 or d > last_day(y, m):
        return False
    return not (y == 1582 and m == 10 and 4 < d < 15)


def diy(y):
    return 355 if y == 1582 else (366 if leap(y) else 365)


def week(n):
    return (n + 1) % 7


def secs(y, m, d, h=0, mi=0, s=0):
    """seconds since JDN 0 midnight (civil, no leap seconds)"""
    return jdn(y, m, d) * 86400 + h * 3600 + mi * 60 + s


def from_secs(t):
    n, r = divmod(t, 86400)
    return ymd(n) + (r // 3600, r % 3600 // 60, r % 60)


def day_gz(n):
    return (n + 49) % 60


def add_months(y, m, k):
    t = y * 12 + (m - 1) + k
    return t // 12, t % 12 + 1
