# -*- coding: utf-8 -*-
"""Development-time: the years whose day star jumps at New Year, from the reference calendar alone."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv.p_almanac import *


def years():
    c = cal()
    out = []
    for y in range(2, 10000):
        n = jdn(y, 1, 1)
        a = near60(c.TD[24 * y])
        if a == n:
            continue
        if (day_star(n - 1) - day_star(n)) % 9 not in (1, 8):
            out.append(y)
            assert a - near60(c.TD[24 * (y - 1) + 12]) == 240 and a > n, y
        else:
            assert not (a > n and a - near60(c.TD[24 * (y - 1) + 12]) == 240), y
    return out


if __name__ == "__main__":
    print(len(years()), years()[:30])
