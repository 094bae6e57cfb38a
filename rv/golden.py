# -*- coding: utf-8 -*-
"""Reference calendar: the lunar months and solar-term instants of lunar years 0..10000, from golden/calendar.xz
(see tools/make_golden.py and tools/validate_golden.py), plus the pure functions derived from it."""
import array, bisect, json, lzma, os
from .civil import *

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TERMS = ("冬至", "小寒", "大寒", "立春", "雨水", "惊蛰", "春分", "清明", "谷雨", "立夏", "小满", "芒种",
         "夏至", "小暑", "大暑", "立秋", "处暑", "白露", "秋分", "寒露", "霜降", "立冬", "小雪", "大雪")
# the 31 names under which a year's term table is published, in order
TABLE = ("DA_XUE",) + TERMS + ("DONG_ZHI", "XIAO_HAN", "DA_HAN", "LI_CHUN", "YU_SHUI", "JING_ZHE")


class Cal(object):
    def __init__(self):
        with lzma.open(os.path.join(ROOT, "golden", "calendar.xz")) as f:
            blob = f.read()
        i = blob.index(b"\n")
        h = json.loads(blob[:i])
        dd = array.array("i")
        dd.frombytes(blob[i + 1:])
        n = h["n"]
        P = h["period"]
        b = h["base"]
        res = list(dd)
        for k in range(24, n):
            res[k] += res[k - 24]
        # T[24*y + k]: second of term k of solar-term year y (k=0: winter solstice of year y-1)
        self.T = [b + round(P * k) + res[k] for k in range(n)]
        self.TD = [t // 86400 for t in self.T]      # civil JDN of the day the term falls on
        self.years = {}
        self.starts = []
        self.months = []        # (year, month, length, first jdn, ordinal in year from 1)
        f = h["first"]
        for y, ms in h["years"]:
            lst = []
            for k, (m, c) in enumerate(ms):
                t = (y, m, c, f, k + 1)
                lst.append(t)
                self.starts.append(f)
                self.months.append(t)
                f += c
            self.years[y] = lst
        self.bym = {(t[0], t[1]): t for t in self.months}
        self.pos = {(t[0], t[1]): i for i, t in enumerate(self.months)}
        self.lo = jdn(1, 1, 1)
        self.hi = jdn(9999, 12, 31)

    # lunar ------------------------------------------------------------------------------------
    def midx(self, n):
        return bisect.bisect_right(self.starts, n) - 1

    def lunar(self, n):
        t = self.months[self.midx(n)]
        return t[0], t[1], n - t[3] + 1

    def lunar_jdn(self, y, m, d):
        return self.bym[(y, m)][3] + d - 1

    def leap_month(self, y):
        for t in self.years[y]:
            if t[1] < 0:
                return -t[1]
        return 0

    # terms --------------------------------------------------------------------------------------
    def table(self, y):
        """global indexes of the 31 entries of the term table of solar year y"""
        return range(24 * y - 1, 24 * y + 30)

    def prev_term(self, t):
        """global index of the last term at or before second t"""
        return bisect.bisect_right(self.T, t) - 1

    def prev_term_day(self, n):
        return bisect.bisect_right(self.TD, n) - 1

    @staticmethod
    def name(g):
        return TERMS[g % 24]

    def near(self, t, w=3):
        """True when second t lies within w seconds of a term instant (the float boundary)"""
        i = self.prev_term(t)
        return t - self.T[i] <= w or self.T[i + 1] - t <= w

    # pillars ------------------------------------------------------------------------------------
    def year_gz(self, ly):
        return (ly - 4) % 60

    @staticmethod
    def _ym(g):
        """(civil-year of the spring the month belongs to, month number 0=寅..11=丑) from the last term index"""
        k = g % 24
        y = g // 24
        j = (k - 1) // 2 if k >= 1 else -1      # 小寒->0, 立春->1 ... 大雪->11 ; 冬至(k=0) -> still 大雪 month
        # months counted from 立春 of year y
        idx = j - 1                              # 立春 -> 0
        return (y, idx) if idx >= 0 else (y - 1, idx + 12)

    def month_gz(self, g):
        y, i = self._ym(g)
        return ((y - 4) * 12 + i + 2) % 60

    def spring_year_gz(self, g):
        return (self._ym(g)[0] - 4) % 60


_cal = None


def cal():
    global _cal
    if _cal is None:
        _cal = Cal()
    return _cal
