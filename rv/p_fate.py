# -*- coding: utf-8 -*-
"""C16: luck cycles (起运, 大运, 流年, 小运, 流月)."""
import random
from .lib import *
from .model import *
from .golden import TABLE, TERMS
from .p_pillars import S, ST, xun, kong

CN_MONTH = ("正", "二", "三", "四", "五", "六", "七", "八", "九", "十", "冬", "腊")


def mstep(y, m, d, k):
    ty, tm = add_months(y, m, k)
    return ty, tm, (d + 10 if (ty, tm) == (1582, 10) and 4 < d < 15 else min(d, last_day(ty, tm)))


def dh(sod):
    """index of the double-hour within the civil day, the late rat hour counted with the one before it"""
    return min((sod // 3600 + 1) // 2, 11)


def start_age(a, b, sect):
    """years, months, days, hours for the stretch from second a to second b"""
    if sect == 2:
        k = b // 60 - a // 60
        return k // 4320, k % 4320 // 360, k % 360 // 12, k % 12 * 2
    h = dh(b % 86400) - dh(a % 86400)
    d = b // 86400 - a // 86400
    if h < 0:
        h += 12
        d -= 1
    k = d * 4 + h // 3          # three double-hours make a month, one makes ten days
    return k // 12, k % 12, h % 3 * 10, 0


def jie_around(l, m, forward):
    """second of the jie that bounds the birth, as the library publishes it"""
    c = cal()
    g = m.gx if not forward else m.gx + 1
    while g % 2 == 0:
        g += 1 if forward else -1
    tab = l.getJieQiTable()
    return secs(*sol(tab[TABLE[g - (24 * m.y - 1)]]))


def gz3(o, i, mon, what, *x):
    if (what[0] in "ym") and (i + len(x)) % 4:      # the void branches follow from the pillar; asked of a quarter of the years
        mon.eq(what, o.getGanZhi(), JZ[i], *x)
        return
    mon.eq(what, (o.getGanZhi(), o.getXun(), o.getXunKong()), (JZ[i], xun(i), kong(i)), *x)


def c16_case(mon, n, sod, gender, sect, deep):
    m = M(n, sod)
    if m.fuzzy:
        return
    x = m.ctx()
    l = S(n, sod).getLunar()
    e = l.getEightChar()
    yun = e.getYun(gender, sect) if sect != 1 or deep else e.getYun(gender)
    fwd = (m.ygx % 2 == 0) == (gender == 1)
    mon.eq("direction", yun.isForward(), fwd, x, gender)
    mon.eq("gender is kept", (yun.getGender(), yun.getLunar() is l), (gender, True), x)
    j = jie_around(l, m, fwd)
    a, b = (m.t, j) if fwd else (j, m.t)
    age = start_age(a, b, sect)
    got = (yun.getStartYear(), yun.getStartMonth(), yun.getStartDay(), yun.getStartHour())
    mon.eq("age at the start of luck", got, age, x, gender, sect)
    mon.ok("age parts are in range", 0 <= got[0] <= 11 and 0 <= got[1] < 12 and 0 <= got[2] < 30 and 0 <= got[3] < 24, x, gender, sect, str(got))
    y, mo, d = mstep(m.y, m.m, m.d, 12 * age[0])
    y, mo, d = mstep(y, mo, d, age[1])
    t = jdn(y, mo, d) * 86400 + sod + age[2] * 86400 + age[3] * 3600
    exp = from_secs(t)
    mon.eq("date of the start of luck", sol(yun.getStartSolar()), exp, x, gender, sect)
    sy = exp[0]
    cnt = 10 if deep else 4
    das = yun.getDaYun(cnt) if cnt != 10 else yun.getDaYun()
    mon.eq("number of decades", [q.getIndex() for q in das], list(range(cnt)), x)
    for i, q in enumerate(das):
        mon.ok("a decade knows whose it is", q.getLunar() is l, x, i)
        if i == 0:
            e4 = (m.y, sy - 1, 1, sy - m.y)
        else:
            f = sy + 10 * (i - 1)
            e4 = (f, f + 9, f - m.y + 1, f - m.y + 10)
        mon.eq("years and ages of the decade", (q.getStartYear(), q.getEndYear(), q.getStartAge(), q.getEndAge()), e4, x, gender, sect, i)
        if i == 0:
            mon.eq("before luck starts there is no pillar", q.getGanZhi(), "", x)
        else:
            gz3(q, (m.mgx + (i if fwd else -i)) % 60, mon, "decade pillar", x, gender, sect, i)
        n0 = 10 if i else sy - m.y
        if not deep and i > 1:
            continue
        ln = q.getLiuNian()
        xy = q.getXiaoYun()
        mon.eq("years of the decade are listed", ([k.getIndex() for k in ln], [k.getIndex() for k in xy]), (list(range(n0)), list(range(n0))), x, i)
        if i:
            mon.eq("as many years as asked", (len(q.getLiuNian(3)), len(q.getXiaoYun(7))), (3, 7), x, i)
        for k, w in enumerate(ln):
            yy = e4[0] + k
            mon.eq("year and age", (w.getYear(), w.getAge()), (yy, e4[2] + k), x, i, k)
            gz3(w, (yy - 4) % 60, mon, "year pillar is that year's", x, i, k)
            if (deep and k == 3) or (k == 0 and (deep or i == 1)):
                ms = w.getLiuYue()
                mon.eq("months of the year", [(z.getIndex(), z.getMonthInChinese()) for z in ms], list(enumerate(CN_MONTH)), x, i, k)
                for z in ms:
                    h = (z.getIndex() + 2) % 12
                    gz3(z, gz_of(((yy - 4) % 10 * 2 + 2 + z.getIndex()) % 10, h), mon, "month pillar of that year", x, i, k, z.getIndex())
        for k, w in enumerate(xy):
            yy = e4[0] + k
            mon.eq("minor luck year and age", (w.getYear(), w.getAge()), (yy, e4[2] + k), x, i, k)
            gz3(w, (m.tg + (e4[2] + k) * (1 if fwd else -1)) % 60, mon, "minor luck pillar", x, i, k)
    w = random.Random(m.n * 4 + gender * 2 + sect)
    if deep and w.random() < 0.15:
        # far more decades, years and months than a life has
        big = w.choice((13, 61, 62, 75, 121, 130, 200))
        far = yun.getDaYun(big)
        mon.eq("number of decades", [q.getIndex() for q in far], list(range(big)), x)
        for i in {big - 1, w.randint(1, big - 1), w.randint(1, big - 1)}:
            q = far[i]
            f = sy + 10 * (i - 1)
            mon.eq("years and ages of the decade", (q.getStartYear(), q.getEndYear(), q.getStartAge(), q.getEndAge()), (f, f + 9, f - m.y + 1, f - m.y + 10), x, gender, sect, i)
            gz3(q, (m.mgx + (i if fwd else -i)) % 60, mon, "decade pillar", x, gender, sect, i)
            cn = w.choice((11, 60, 61, 130))
            for name, arr, at in (("year", q.getLiuNian(cn), lambda k: (f + k - 4) % 60), ("minor", q.getXiaoYun(cn), lambda k: (m.tg + (f - m.y + 1 + k) * (1 if fwd else -1)) % 60)):
                mon.eq("as many years as asked", len(arr), cn, x, i, name)
                for k in {cn - 1, w.randrange(cn)}:
                    mon.eq("year and age", (arr[k].getIndex(), arr[k].getYear(), arr[k].getAge()), (k, f + k, f - m.y + 1 + k), x, i, k, name)
                    gz3(arr[k], at(k), mon, "pillar of a year far on", x, i, k, name)
    mon.seen("charts", (m.ygx % 10, m.mgx, m.tz, gender, sect))
    mon.seen("start ages", age)


def c16_sweep(mon, rng, a, b, k, every):
    memo()
    c = cal()
    for y in range(a, b + 1):
        for i in range(k):
            r = rng.random()
            if r < 0.4:
                n, sod = rng.randint(jdn(y, 1, 1), jdn(y, 12, 31)), rnd_sod(rng)
            elif r < 0.55:
                # a whole number of years, months, days or hours of luck from a jie, to the minute and one minute either side
                t, u = c.T[24 * y + 2 * rng.randint(1, 12) - 1], rng.choice((4320, 360, 12, 1440))
                n, sod = divmod((t // 60 + rng.choice((-1, 1)) * (rng.randint(1, 10) * 4320 if u == 4320 else rng.randint(1, 14400 // u) * u) + rng.choice((0, 0, 0, -1, 1))) * 60 + rng.randint(0, 59), 86400)
                if not y <= ymd(n)[0] <= y + 1:
                    continue
            elif r < 0.8:
                # near a jie: the start of luck is nearly at once or ten years off
                n, sod = divmod(c.T[24 * y + 2 * rng.randint(1, 12) - 1] + rng.choice((-1, 1)) * rng.choice((5, 30, 60, 600, 3600, 7300, 86400, rng.randint(4, 90000))), 86400)
                if ymd(n)[0] != y:
                    continue
            else:
                mth = rng.randint(1, 12)
                n, sod = jdn(y, mth, last_day(y, mth)) - rng.randint(0, 2), rnd_sod(rng)
            if n < c.lo:
                continue
            for g in (0, 1):
                mon.run(c16_case, n, sod, g, rng.randint(1, 2), rng.random() < every)
    mon.sample("birth", M(n, sod).ctx())


def c16_plan(tier, seed):
    q = tier == "quick"
    return [("c16_sweep", x + ((1, 0.05) if q else (12, 0.1))) for x in year_blocks(50, 1, 9980)] + \
        [("c16_sweep", (1560, 1582, 6 if q else 100, 0.1)), ("c16_sweep", (1571, 1582, 10 if q else 150, 0.1))]
