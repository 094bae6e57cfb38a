# -*- coding: utf-8 -*-
"""C01-C04, C29, C30: the lunar calendar."""
from .lib import *
from .model import *
from . import tables as tb
from . import astro
from datetime import datetime, timedelta, timezone, tzinfo
import random

# lunar years touched by the calendar reforms of AD 8-23 and 237-239, where month labels are irregular by decree
LABEL_REFORM = set(range(7, 25)) | set(range(235, 241))


def S(n, sod=0):
    y, m, d = ymd(n)
    return Solar.fromYmdHms(y, m, d, sod // 3600, sod % 3600 // 60, sod % 60)


def t6(n, sod=0):
    return ymd(n) + (sod // 3600, sod % 3600 // 60, sod % 60)


def hms(l):
    return (l.getHour(), l.getMinute(), l.getSecond())


# ---- C01 round trip -----------------------------------------------------------------------------------
def c01_solar(mon, n, sod):
    x = t6(n, sod)
    s = S(n, sod)
    l = s.getLunar()
    mon.eq("solar -> lunar -> solar", sol(l.getSolar()), x, str(x))
    mon.eq("time of day is kept", hms(l), x[3:], str(x))
    r = Lunar.fromYmdHms(*(lun(l) + x[3:]))
    mon.eq("lunar components -> solar", sol(r.getSolar()), x, str(x))
    mon.eq("lunar components are kept", lun(r) + hms(r), lun(l) + x[3:], str(x))
    mon.eq("source solar date is untouched", sol(s), x, str(x))
    r = Lunar.fromSolar(s)
    mon.eq("both conversions agree", lun(r) + hms(r), lun(l) + x[3:], str(x))
    if sod % 5 == 0:
        d = datetime(*(x + ((0, 1, 499999, 500000, 999999)[sod // 5 % 5],)), tzinfo=(None, timezone.utc, timezone(timedelta(hours=-7)), Summer())[sod // 25 % 4], fold=sod // 100 % 2)
        r = Lunar.fromDate(d)
        mon.eq("civil date from a datetime agrees", sol(Solar.fromDate(d)), x, str(d))
        mon.eq("conversion from a datetime agrees", lun(r) + hms(r), lun(l) + x[3:], str(x))
    mon.seen("lunar dates", lun(l))


class Summer(tzinfo):
    """a zone with daylight saving of its own making: the wall clock is what counts"""

    def utcoffset(self, d):
        return timedelta(hours=1) + self.dst(d)

    def dst(self, d):
        return timedelta(hours=1 if 3 < d.month < 10 and not d.fold else 0)

    def tzname(self, d):
        return "X"


def c01_lunar(mon, y, m, d):
    l = Lunar.fromYmd(y, m, d)
    s = l.getSolar()
    x = sol(s)
    mon.ok("solar date of a lunar date exists", exists(*x[:3]) and x[3:] == (0, 0, 0), str((y, m, d)), str(x))
    mon.eq("lunar -> solar -> lunar", lun(s.getLunar()), (y, m, d), str((y, m, d)), str(x))
    mon.seen("lunar dates", (y, m, d))


def c01_year(mon, y, seed, k):
    """first, last and seeded days of every lunar month the library lists for the year"""
    rng = random.Random(seed)
    for t in LunarYear.fromYear(y).getMonthsInYear():
        for d in sorted({1, t.getDayCount()} | {rng.randint(1, t.getDayCount()) for _ in range(k)}):
            c01_lunar(mon, y, t.getMonth(), d)


def c01_sweep(mon, rng, a, b, k):
    memo()
    for y in range(a, b + 1):
        if y <= 9998:
            mon.run(c01_year, y, rng.getrandbits(40), k)
        for n in interesting_days(y, rng, k + 3, firsts=False, terms=False):
            mon.run(c01_solar, n, rnd_sod(rng))
        if y in LABEL_REFORM:
            for n in range(jdn(y, 1, 1), jdn(y, 12, 31) + 1):
                mon.run(c01_solar, n, rnd_sod(rng))
    mon.sample("round trip", y)


def c01_full(mon, rng, a, b):
    memo()
    for n in range(jdn(a, 1, 1), jdn(b, 12, 31) + 1):
        mon.run(c01_solar, n, rnd_sod(rng))


def c01_nomemo(mon, rng, cnt):
    """the same oracle with the library's own year cache, random access"""
    c = cal()
    for i in range(cnt):
        mon.run(c01_solar, rng.randint(c.lo, c.hi), rnd_sod(rng))


def c01_plan(tier, seed):
    p = [("c01_sweep", x + (1 if tier == "quick" else 3,)) for x in year_blocks(50)] + [("c01_nomemo", (150,))] * 8
    if tier != "quick":
        p += [("c01_full", x) for x in year_blocks(25)]
    return p


# ---- C02 succession -----------------------------------------------------------------------------------
def next_label(y, m):
    """the lunar month that follows (y, m), as the library lists them"""
    ms = [t.getMonth() for t in LunarYear.fromYear(y).getMonthsInYear()]
    i = ms.index(m)
    if i + 1 < len(ms):
        return y, ms[i + 1]
    return y + 1, LunarYear.fromYear(y + 1).getMonthsInYear()[0].getMonth()


def c02_run(mon, n0, n1):
    """walk consecutive civil days; the lunar date must step by exactly one"""
    prev = None
    for n in range(n0, n1 + 1):
        l = S(n).getLunar()
        cur = lun(l)
        if prev is not None:
            t = LunarMonth.fromYm(prev[0], prev[1])
            if not mon.ok("month of a lunar date is listed by its year", t is not None, str(ymd(n - 1)), str(prev)):
                prev = cur
                continue
            if prev[2] < t.getDayCount():
                mon.eq("next day in the same lunar month", cur, (prev[0], prev[1], prev[2] + 1), str(ymd(n)), str(prev))
            else:
                y, m = next_label(prev[0], prev[1])
                mon.eq("first day of the following lunar month", cur, (y, m, 1), str(ymd(n)), str(prev))
                mon.seen("month turns", (y, m))
        prev = cur


def c02_step(mon, n, sod, k):
    o = S(n, sod).getLunar()
    l = Lunar.fromYmdHms(*(lun(o) + hms(o)))
    r = (l if sod % 2 else o).next(k)
    x = t6(n + k, sod)
    mon.eq("the date stepped from is unchanged", lun(l) + hms(l) + sol(l.getSolar()), lun(o) + hms(o) + t6(n, sod), str(t6(n, sod)), k)
    mon.eq("stepping a lunar date moves the same number of civil days", sol(r.getSolar()), x, str(t6(n, sod)), k)
    mon.eq("stepped lunar date is that day's lunar date", lun(r) + hms(r), lun(S(n + k, sod).getLunar()) + x[3:], str(t6(n, sod)), k)
    mon.eq("stepping back returns", lun(r.next(-k)), lun(l), str(t6(n, sod)), k)
    mon.seen("steps", (n, k))


def c02_year(mon, y, seed):
    rng = random.Random(seed)
    a, b = jdn(y, 1, 1), jdn(y, 12, 31)
    c = cal()
    i = c.midx(a)
    while c.starts[i] <= b + 1:
        n = c.starts[i]
        c02_run(mon, max(c.lo, n - 1), min(c.hi, n))
        i += 1
    n = rng.randint(a, b - 20)
    c02_run(mon, n, n + 6)
    # steps from and across month turns; every turn next to a leap month, and one other turn of the year
    i, j = c.midx(a), c.midx(b)
    for q in {q for q in range(i, j + 1) if c.months[q][1] < 0} | {q + 1 for q in range(i, j) if c.months[q][1] < 0} | {rng.randint(i, j)}:
        f = c.starts[q]
        for n in (f - 1, f, f + rng.randint(0, 28)):
            for k in (1, -1, rng.choice((-1, 1)) * rng.randint(2, 31), rng.choice((-1, 1)) * rng.randint(32, 400)):
                if c.lo <= n <= c.hi and c.lo <= n + k <= c.hi:
                    c02_step(mon, n, rnd_sod(rng), k)


def c02_sweep(mon, rng, a, b, full):
    memo()
    c = cal()
    for y in range(a, b + 1):
        if full or y in LABEL_REFORM or y == 1582 or rng.random() < 0.01:
            mon.run(c02_run, max(c.lo, jdn(y, 1, 1) - 1), min(c.hi, jdn(y, 12, 31) + 1))
        else:
            mon.run(c02_year, y, rng.getrandbits(40))
        n = rng.randint(jdn(y, 1, 1), jdn(y, 12, 31))
        k = rng.choice((rng.randint(-40, 40), rng.randint(-400, 400), rng.randint(-3000, 3000)))
        mon.run(c02_step, n, rnd_sod(rng), min(max(k, c.lo - n), c.hi - n))
    mon.sample("walk", y)


def c02_plan(tier, seed):
    return [("c02_sweep", x + (tier != "quick",)) for x in year_blocks(25 if tier != "quick" else 50)]


# ---- C03 year structure ---------------------------------------------------------------------------------
def fjd(m):
    """civil JDN of the first day of a lunar month object (any hour of that civil day)"""
    return int(m.getFirstJulianDay() + 0.5)


def c03_year(mon, y):
    ly = LunarYear.fromYear(y)
    mon.eq("year number", ly.getYear(), y, y)
    ms = ly.getMonthsInYear()
    nums = [m.getMonth() for m in ms]
    mon.ok("months belong to the year", all(m.getYear() == y for m in ms), y)
    leaps = [m for m in ms if m.isLeap()]
    if y not in LABEL_REFORM:
        mon.ok("twelve months, or thirteen with one leap month", len(ms) - len(leaps) == 12 and len(leaps) <= 1, y, str(nums))
        mon.eq("regular months are numbered 1 to 12 in order", [x for x in nums if x > 0], list(range(1, 13)), y)
        for i, x in enumerate(nums):
            if x < 0:
                mon.ok("leap month follows the month of its number", i > 0 and nums[i - 1] == -x, y, str(nums))
                mon.eq("leap month number", ly.getLeapMonth(), -x, y)
        mon.ok("year length", 353 <= ly.getDayCount() <= 385 and (ly.getDayCount() > 380) == bool(leaps), y, ly.getDayCount())
        mon.eq("month ordinals", [m.getIndex() for m in ms], list(range(1, len(ms) + 1)), y)
    if not leaps:
        mon.eq("no leap month", ly.getLeapMonth(), 0, y)
    mon.ok("month numbers are distinct", len(set(nums)) == len(nums), y, str(nums))
    f = fjd(ms[0])
    for m in ms:
        mon.ok("lunar month has 29 or 30 days", m.getDayCount() in (29, 30) or (y == 236 and m.getMonth() == 12), y, m.getMonth(), m.getDayCount())
        mon.eq("months are contiguous", fjd(m), f, y, m.getMonth())
        f += m.getDayCount()
        mon.eq("leap flag is the sign of the month", m.isLeap(), m.getMonth() < 0, y, m.getMonth())
        for q in (ly.getMonth(m.getMonth()), LunarMonth.fromYm(y, m.getMonth())):
            mon.eq("month lookup", None if q is None else (q.getYear(), q.getMonth(), q.getDayCount(), fjd(q)), (y, m.getMonth(), m.getDayCount(), fjd(m)), y, m.getMonth())
        mon.seen("months", (y, m.getMonth()))
    for m in list(range(-12, 0)) + [0, 13]:
        if m not in nums:
            mon.eq("absent month is not found", ly.getMonth(m), None, y, m)
    mon.eq("year day count is the sum of its months", ly.getDayCount(), sum(m.getDayCount() for m in ms), y)
    allm = [(m.getYear(), m.getMonth(), m.getDayCount(), fjd(m)) for m in ly.getMonths()]
    f = None
    for t in allm:
        if f is not None:
            mon.eq("extended month list is contiguous", t[3], f, y, str(t[:2]))
        f = t[3] + t[2]
    nx = LunarYear.fromYear(y + 1)
    nm = nx.getMonthsInYear()
    mon.eq("next year starts when this one ends", fjd(nm[0]), fjd(ms[0]) + ly.getDayCount(), y)
    over = {(m.getYear(), m.getMonth()): (m.getDayCount(), fjd(m)) for m in nx.getMonths()}
    for t in allm:
        if t[:2] in over:
            mon.eq("adjacent years agree on shared months", over[t[:2]], t[2:], y, str(t[:2]))
            mon.seen("shared months", t[:2])
    own = {m.getMonth(): (m.getIndex(), m.getZhiIndex(), m.getGanZhi()) for m in ms}
    for m in nx.getMonths():
        if m.getYear() == y and m.getMonth() in own:
            got, exp = (m.getIndex(), m.getZhiIndex(), m.getGanZhi()), own[m.getMonth()]
            if got != exp and (y in LABEL_REFORM or leaps and got[:2] == (exp[0] - 1, (exp[1] - 1) % 12)):
                # the recorded finding, and nothing else: the place of a late month counted without the leap month before it
                mon.bad("late months keep their place after a leap month", "%s, but %s in the year they belong to" % (got, exp), (y, m.getMonth()))
            else:
                mon.eq("adjacent years give shared months one place", got, exp, y, m.getMonth())
    own = {m.getMonth(): (m.getIndex(), m.getZhiIndex(), m.getGanZhi()) for m in nm}
    for m in ly.getMonths():
        if m.getYear() == y + 1:
            mon.eq("adjacent years give shared months one place", (m.getIndex(), m.getZhiIndex(), m.getGanZhi()), own[m.getMonth()], y, m.getMonth())
    mon.eq("new-year's day converts to the year's first day", lun(S(fjd(ms[0])).getLunar()), (y, nums[0], 1), y)


def c03_sweep(mon, rng, a, b):
    memo()
    for y in range(a, min(b, 9998) + 1):
        mon.run(c03_year, y)
    mon.sample("year", y, LunarYear.fromYear(y).getLeapMonth())


def c03_plan(tier, seed):
    return [("c03_sweep", x) for x in year_blocks(50)]


# ---- C04 against the reference calendar and astronomy ------------------------------------------------------
# published historical new moons of 1645-1920 that differ from today's computation of the same instant
def c04_year(mon, y):
    c = cal()
    ms = [(m.getMonth(), m.getDayCount(), fjd(m)) for m in LunarYear.fromYear(y).getMonthsInYear()]
    mon.eq("months of the year (reference calendar)", ms, [(t[1], t[2], t[3]) for t in c.years[y]], y)
    mon.eq("leap month (reference calendar)", LunarYear.fromYear(y).getLeapMonth(), c.leap_month(y), y)
    mon.seen("years", tuple(x[:2] for x in ms))


def c04_days(mon, y, seed, k, full):
    rng = random.Random(seed)
    c = cal()
    days = range(jdn(y, 1, 1), jdn(y, 12, 31) + 1) if full else interesting_days(y, rng, k, terms=False)
    for n in days:
        mon.eq("lunar date of the day (reference calendar)", lun(S(n, rnd_sod(rng)).getLunar()), c.lunar(n), str(ymd(n)))


def c04_astro(mon, y):
    """months begin on the day of the astronomical new moon (Beijing), leap months lack a mid-month term"""
    ly = LunarYear.fromYear(y)
    ms = ly.getMonthsInYear()
    for m in ms:
        f = fjd(m)
        yy = ymd(f)[0] + (ymd(f)[1] - 0.5) / 12
        nm, margin, _ = astro.new_moon_beijing(f, yy)
        if margin > 1800 and 1921 <= y <= 2400:
            mon.eq("month starts on the day of new moon", f, nm, str((y, m.getMonth())), str(ymd(f)), round(margin))
        else:
            mon.ok("month starts within a day of new moon", abs(f - nm) <= 1, str((y, m.getMonth())), str(ymd(f)), round(margin))
    # mid-month terms as the library itself dates them
    mid = []
    for yy in (y, y + 1):
        tab = LunarYear.fromYear(yy).getJieQiJulianDays()
        mid += [(int(tab[i] + 0.5), i) for i in range(1, 25, 2)]
    for m in ms:
        f, l = fjd(m), fjd(m) + m.getDayCount()
        z = [i for (d, i) in mid if f <= d < l]
        if m.isLeap():
            mon.eq("leap month holds no mid-month term", z, [], str((y, m.getMonth())))
        if abs(m.getMonth()) == 11 and not m.isLeap():
            mon.ok("winter solstice falls in month 11", 1 in z, str((y, m.getMonth())))
    mon.seen("astronomical years", y)


def c04_sweep(mon, rng, a, b, k, full):
    memo()
    for y in range(a, b + 1):
        if y <= 9998:
            mon.run(c04_year, y)
        mon.run(c04_days, y, rng.getrandbits(40), k, full or y in LABEL_REFORM)
        if 1735 <= y <= 3000:
            mon.run(c04_astro, y)
    mon.sample("year", y, str(cal().leap_month(y)))


def c04_plan(tier, seed):
    q = tier == "quick"
    return [("c04_sweep", x + (6 if q else 20, False)) for x in year_blocks(50)] + ([] if q else [("c04_sweep", x + (0, True)) for x in year_blocks(25)])


# ---- C29 stepping lunar months and years --------------------------------------------------------------------
def c29_case(mon, y, m, k):
    c = cal()
    t = c.bym[(y, m)]
    i = c.pos[(y, m)]
    e = c.months[i + k]
    r = LunarMonth.fromYm(y, m).next(k)
    mon.eq("k months later", (r.getYear(), r.getMonth(), r.getDayCount(), fjd(r)), (e[0], e[1], e[2], e[3]), str((y, m)), k)
    w = LunarMonth.fromYm(e[0], e[1])
    mon.eq("stepped month equals the month its year lists", (r.getIndex(), r.isLeap(), r.getGanZhi(), r.toString()), (w.getIndex(), w.isLeap(), w.getGanZhi(), w.toString()), str((y, m)), k)
    b = r.next(-k) if abs(k) < 16000 else LunarMonth.fromYm(y, m)
    mon.eq("stepping back returns", (b.getYear(), b.getMonth()), (y, m), str((y, m)), k)
    mon.seen("steps", (t[1] < 0, e[1] < 0, m, e[1], k if abs(k) < 40 else 99))


def c29_year(mon, y, k):
    mon.eq("year step", LunarYear.fromYear(y).next(k).getYear(), y + k, y, k)
    a, b = LunarYear.fromYear(y).next(k), LunarYear.fromYear(y + k)
    mon.eq("stepped year equals that year", [(m.getYear(), m.getMonth(), m.getDayCount(), fjd(m)) for m in a.getMonths()], [(m.getYear(), m.getMonth(), m.getDayCount(), fjd(m)) for m in b.getMonths()], y, k)


def c29_sweep(mon, rng, a, b, k):
    memo()
    c = cal()
    for y in range(a, min(b, 9997) + 1):
        if y < 2:
            continue
        ms = [t[1] for t in c.years[y]]
        if y in LABEL_REFORM:
            for m in ms:
                for z in list(range(-30, 31)):
                    if 2 <= c.months[c.pos[(y, m)] + z][0] <= 9997:
                        mon.run(c29_case, y, m, z)
        for m in ms if k > 2 else [rng.choice(ms), rng.choice((ms[0], ms[-1], min(ms)))]:
            for z in [rng.choice((1, -1)), rng.randint(-15, 15), rng.randint(-60, 60)] + ([0, 12, -13] if k > 2 else []):
                e = c.pos[(y, m)] + z
                if 0 <= e < len(c.months) and 2 <= c.months[e][0] <= 9997:
                    mon.run(c29_case, y, m, z)
        if rng.random() < 0.02:
            z = rng.randint(-1200, 1200)
            e = c.pos[(y, m)] + z
            if 0 <= e < len(c.months) and 2 <= c.months[e][0] <= 9997:
                mon.run(c29_case, y, m, z)
        if rng.random() < 0.1:
            z = rng.choice((rng.randint(-30, 30), rng.randint(2, 9997) - y))
            if 1 <= y + z <= 9998:
                mon.run(c29_year, y, z)
    # a long step now and then
    if rng.random() < (0.25 if k <= 2 else 1):
        e = c.pos[(y, m)]
        z = rng.choice((-1, 1)) * int((15000 if k <= 2 else 40000) ** (0.75 + 0.25 * rng.random()))
        if not 30 <= e + z < len(c.months) - 60:
            z = -z
        if 30 <= e + z < len(c.months) - 60:
            mon.run(c29_case, y, m, z)
    mon.sample("step", y, m, z)


def c29_plan(tier, seed):
    return [("c29_sweep", x + (2 if tier == "quick" else 9,)) for x in year_blocks(25)]


# ---- C30 attributes of lunar years and months ------------------------------------------------------------------
def c30_year(mon, y):
    c = cal()
    ly = LunarYear.fromYear(y)
    g, z = (y - 4) % 10, (y - 4) % 12
    e = [("getGanIndex", (), g), ("getZhiIndex", (), z), ("getGan", (), GAN[g]), ("getZhi", (), ZHI[z]), ("getGanZhi", (), GAN[g] + ZHI[z])]
    e += tb.five_positions(g, "getPosition")
    e += [("getPositionTaiSui", (), tb.SUI[z]), ("getPositionTaiSuiDesc", (), tb.DESC[tb.SUI[z]])]
    # 180-year cycle of three 元 (1864 opens an upper one), 20-year 运 within it
    e += [("getYuan", (), "上中下"[(y - 1864) // 60 % 3] + "元"), ("getYun", (), "一二三四五六七八九"[(y - 1864) // 20 % 9] + "运")]
    f = c.lunar_jdn(y, 1, 1)
    zi = lambda k: tb.NUM[next(i for i in range(12) if (day_gz(f + i)) % 12 == k) + 1]
    gi = lambda k: tb.NUM[next(i for i in range(10) if (day_gz(f + i)) % 10 == k) + 1]
    e += [("getTouLiang", (), zi(0) + "鼠偷粮"), ("getCaoZi", (), "草子" + zi(0) + "分"), ("getGengTian", (), zi(1) + "牛耕田"),
          ("getHuaShou", (), "花收" + zi(3) + "分"), ("getZhiShui", (), zi(4) + "龙治水"), ("getTuoGu", (), zi(6) + "马驮谷"),
          ("getQiangMi", (), zi(9) + "鸡抢米"), ("getKanCan", (), zi(9) + "姑看蚕"), ("getGongZhu", (), zi(11) + "屠共猪"),
          ("getJiaTian", (), "甲田" + gi(0) + "分"), ("getFenBing", (), gi(2) + "人分饼"), ("getDeJin", (), gi(7) + "日得金"),
          ("getRenBing", (), zi(2) + "人" + gi(2) + "丙"), ("getRenChu", (), zi(2) + "人" + gi(3) + "锄"),
          ("toString", (), str(y)), ("toFullString", (), "%d年" % y)]
    for nm, a, x in e:
        mon.eq("year attribute", getattr(ly, nm)(*a), x, str(y), nm, str(a))
    mon.eq("year nine star", ly.getNineStar().getIndex(), (1864 - y) % 9, y)
    mon.seen("years", (y - 4) % 180)
    mon.seen("new-year day signs", day_gz(f))


def c30_month(mon, y, m):
    c = cal()
    t = c.bym[(y, m)]
    o = LunarMonth.fromYm(y, m)
    k = t[4]
    g, z = ((y - 4) % 5 * 2 + 2 + k - 1) % 10, (k + 1) % 12
    e = [("getIndex", (), k), ("getZhiIndex", (), z), ("getGanIndex", (), g), ("getGan", (), GAN[g]), ("getZhi", (), ZHI[z]), ("getGanZhi", (), GAN[g] + ZHI[z])]
    e += tb.five_positions(g, "getPosition")
    r = abs(m) % 4
    p = {0: "巽", 1: "艮", 3: "坤"}.get(r)
    if p is None:
        p = tb.GANPOS[M(t[3]).mg % 10]
    e += [("getPositionTaiSui", (), p), ("getPositionTaiSuiDesc", (), tb.DESC[p])]
    e += [("toString", (), "%d年%s%s月(%d天)" % (y, "闰" if m < 0 else "", tb.LU["MONTH"][abs(m)], t[2])), ("isLeap", (), m < 0)]
    for nm, a, x in e:
        mon.eq("month attribute", getattr(o, nm)(*a), x, str((y, m)), nm, str(a))
    # first month: 8 white in years of 子午卯酉, 5 yellow in 辰戌丑未, 2 black in 寅申巳亥; backwards month by month
    mon.eq("month nine star", o.getNineStar().getIndex(), ((7, 4, 1)[(y - 4) % 3] - (abs(m) - 1)) % 9, str((y, m)))
    mon.seen("months", ((y - 4) % 60, m))


def c30_sweep(mon, rng, a, b, k):
    memo()
    c = cal()
    for y in range(a, min(b, 9998) + 1):
        mon.run(c30_year, y)
        ms = [t[1] for t in c.years[y]]
        for m in (ms if rng.random() < k else [rng.choice(ms), min(ms)]):
            if y in LABEL_REFORM:
                continue
            mon.run(c30_month, y, m)
    mon.sample("year", y, LunarYear.fromYear(y).getGengTian())


def c30_plan(tier, seed):
    return [("c30_sweep", x + (0.1 if tier == "quick" else 1.0,)) for x in year_blocks(50)]
