# -*- coding: utf-8 -*-
"""Reference state of one instant, computed from the reference calendar and the civil model only."""
from .golden import cal
from .civil import *

ORD = (GAN, ZHI)


def gz(i):
    return JZ[i % 60]


def gz_of(g, z):
    """index in the cycle of stem g and branch z (same parity)"""
    return (6 * g - 5 * z) % 60


class M(object):
    """state at civil day n (JDN) and second-of-day sod"""
    __slots__ = ("n", "sod", "t", "y", "m", "d", "h", "mi", "s", "ly", "lm", "ld", "lmt", "dg", "dg1", "yg", "ygl",
                 "ygx", "mg", "mgx", "tz", "tg", "gd", "gx", "week", "fuzzy")

    def __init__(self, n, sod=0):
        c = cal()
        self.n = n
        self.sod = sod
        self.t = t = n * 86400 + sod
        self.y, self.m, self.d = ymd(n)
        self.h, self.mi, self.s = sod // 3600, sod % 3600 // 60, sod % 60
        self.lmt = lmt = c.months[c.midx(n)]
        self.ly, self.lm, self.ld = lmt[0], lmt[1], n - lmt[3] + 1
        self.dg = day_gz(n)
        self.dg1 = (self.dg + 1) % 60 if self.h == 23 else self.dg
        self.gd = c.prev_term_day(n)
        self.gx = c.prev_term(t)
        self.yg = c.year_gz(self.ly)
        self.ygl = c.spring_year_gz(self.gd)
        self.ygx = c.spring_year_gz(self.gx)
        self.mg = c.month_gz(self.gd)
        self.mgx = c.month_gz(self.gx)
        self.tz = (self.h + 1) // 2 % 12
        self.tg = gz_of((self.dg1 % 10 % 5 * 2 + self.tz) % 10, self.tz)
        self.week = week(n)
        # within 3 s of a term instant the seconds rounding decides; judged only against the library's own table
        self.fuzzy = t - c.T[self.gx] <= 3 or c.T[self.gx + 1] - t <= 3

    def ctx_parts(self):
        return (self.y, self.m, self.d, self.h, self.mi, self.s)

    def ctx(self):
        return "%04d-%02d-%02d %02d:%02d:%02d" % (self.y, self.m, self.d, self.h, self.mi, self.s)


class Y(object):
    """facts about the term table of solar year y"""
    __slots__ = ("y", "g0")

    def __init__(self, y):
        self.y = y
        self.g0 = 24 * y        # 冬至 (of December y-1)

    def day(self, k):
        return cal().TD[self.g0 + k]


# ---- workload: interesting days and times --------------------------------------------------------
REFORM = ((1, 30), (230, 245), (618, 625), (688, 702), (759, 764), (1580, 1586), (1640, 1660), (9990, 9999))


def year_blocks(per, lo=1, hi=9999):
    return [(a, min(a + per - 1, hi)) for a in range(lo, hi + 1, per)]


def interesting_days(y, rng, k_random, firsts=True, terms=True):
    """JDNs within solar year y: first and last day, lunar month boundaries, term days and their neighbours, random days"""
    c = cal()
    a, b = jdn(y, 1, 1), jdn(y, 12, 31)
    out = {a, b}
    if firsts:
        i = c.midx(a)
        while i < len(c.starts) and c.starts[i] <= b:
            out.add(c.starts[i])
            out.add(c.starts[i] - 1)
            i += 1
    if terms:
        for g in range(24 * y, 24 * y + 26):
            out.add(c.TD[g])
            out.add(c.TD[g] - 1)
    for _ in range(k_random):
        out.add(rng.randint(a, b))
    return sorted(n for n in out if a <= n <= b)


def rnd_sod(rng):
    r = rng.random()
    if r < 0.15:
        return 0
    if r < 0.35:
        return 23 * 3600 + rng.randrange(3600)
    if r < 0.55:
        # double-hour boundaries, one second either side
        return min(86399, max(0, (2 * rng.randrange(12) + 1) * 3600 - rng.randrange(2)))
    if r < 0.6:
        return 86399
    return rng.randrange(86400)
