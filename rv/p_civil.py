# -*- coding: utf-8 -*-
"""C05-C10: the civil calendar side (solar dates, Julian days, months, weeks, validation)."""
from .lib import *
from .model import *
from datetime import datetime
import random

HI = 9999


def S(n, sod=0):
    y, m, d = ymd(n)
    return Solar.fromYmdHms(y, m, d, sod // 3600, sod % 3600 // 60, sod % 60)


def t6(n, sod=0):
    return ymd(n) + (sod // 3600, sod % 3600 // 60, sod % 60)


def rday(rng, lo=None, hi=None):
    """civil days: reform and century neighbourhoods over-represented"""
    c = cal()
    lo, hi = lo or c.lo, hi or c.hi
    r = rng.random()
    if r < 0.2:
        n = CUT + rng.randint(-400, 400)
    elif r < 0.35:
        y = rng.choice((4, 100, 400, 1500, 1581, 1582, 1583, 1600, 1700, 1900, 2000, 2100, 9999))
        n = jdn(y, rng.choice((1, 2, 3, 12)), rng.randint(1, 28))
    else:
        n = rng.randint(lo, hi)
    return min(max(n, lo), hi)


# ---- C05 day arithmetic ---------------------------------------------------------------------------
def c05_block(mon, a, b):
    """every civil day of the block: successor, predecessor, weekday, day-of-year, month and year lengths"""
    c = cal()
    prev = None
    for n in range(jdn(a, 1, 1), jdn(b, 12, 31) + 1):
        y, m, d = ymd(n)
        s = Solar.fromYmdHms(y, m, d, 13, 7, 59)
        if n < c.hi:
            mon.eq("next(1) is the following civil day", sol(s.next(1)), t6(n + 1, 47279), str((y, m, d)))
        if n > c.lo:
            mon.eq("next(-1) is the preceding civil day", sol(s.next(-1)), t6(n - 1, 47279), str((y, m, d)))
        mon.eq("weekday", s.getWeek(), week(n), str((y, m, d)))
        mon.eq("day of year", SolarUtil.getDaysInYear(y, m, d), n - jdn(y, 1, 1) + 1, str((y, m, d)))
        if prev is not None:
            mon.eq("weekday advances by one", (s.getWeek() - prev) % 7, 1, str((y, m, d)))
        prev = s.getWeek()
    for y in range(a, b + 1):
        mon.eq("leap year", SolarUtil.isLeapYear(y), leap(y), y)
        mon.eq("leap year", Solar.fromYmd(y, 3, 1).isLeapYear(), leap(y), y)
        mon.eq("days of year", SolarUtil.getDaysOfYear(y), diy(y), y)
        for m in range(1, 13):
            mon.eq("days of month", SolarUtil.getDaysOfMonth(y, m), dim(y, m), str((y, m)))
            mon.seen("year/month kinds", (leap(y), m, y == 1582))


def c05_step(mon, n, sod, k):
    c = cal()
    s = S(n, sod)
    r = s.next(k)
    mon.eq("next(k) is k days later, same time of day", sol(r), t6(n + k, sod), str(t6(n, sod)), k)
    mon.eq("start date is not changed", sol(s), t6(n, sod), str(t6(n, sod)), k)
    mon.eq("nextDay(k) is k days later", sol(s.nextDay(k)), t6(n + k, sod), str(t6(n, sod)), k)
    mon.eq("subtract inverts next", r.subtract(s), k, str(t6(n, sod)), k)
    mon.eq("subtract is antisymmetric", s.subtract(r), -k, str(t6(n, sod)), k)
    mon.eq("days between", SolarUtil.getDaysBetween(*(ymd(n) + ymd(n + k))), k, str(ymd(n)), k)
    mon.eq("stepping back returns", sol(r.next(-k)), t6(n, sod), str(t6(n, sod)), k)
    mon.seen("steps", (n, k))


def magnitude(rng, top):
    """a signed number, its size spread over all orders of magnitude"""
    return rng.choice((-1, 1)) * int(top ** rng.random())


def c05_rand(mon, rng, cnt):
    c = cal()
    for i in range(cnt):
        n = rday(rng)
        r = rng.random()
        if r < 0.5:
            k = rng.randint(-40, 40)
        elif r < 0.85:
            k = rng.randint(-1500, 1500)
        elif r < 0.97:
            k = rng.randint(-60000, 60000)
        else:
            k = rng.randint(c.lo, c.hi) - n
        k = min(max(k, c.lo - n), c.hi - n)
        mon.run(c05_step, n, rng.randrange(86400), k)
    mon.sample("next", str(t6(n)), k)


def c05_sweep(mon, rng, a, b):
    for y in range(a, b + 1):
        mon.run(c05_block, y, y)


def c05_plan(tier, seed):
    return [("c05_sweep", x) for x in year_blocks(100)] + [("c05_rand", (2000 if tier == "quick" else 40000,))] * 16


# ---- C06 Julian day -------------------------------------------------------------------------------
def c06_day(mon, y, m, seed, k):
    """every day of the month at midnight and at k seeded seconds of the day"""
    rng = random.Random(seed)
    n0 = jdn(y, m, 1)
    for n in range(n0, n0 + dim(y, m)):
        for sod in [0] + [rng.choice((43200, 86399, 86398, 1, 59, 60, 3599, 3600, rng.randrange(86400), rng.randrange(86400))) for _ in range(k)]:
            s = S(n, sod)
            j = s.getJulianDay()
            mon.ok("Julian day value", abs(j - (n - 0.5 + sod / 86400.0)) < 2e-9, str(t6(n, sod)), j)
            mon.eq("Julian day round trip", sol(Solar.fromJulianDay(j)), t6(n, sod), str(t6(n, sod)))
    mon.seen("months", (y, m))


def c06_float(mon, y, m, seed, k):
    """any Julian day number maps to the nearest second"""
    rng = random.Random(seed)
    n0 = jdn(y, m, 1)
    for _ in range(k):
        n = n0 + rng.randrange(dim(y, m))
        f = rng.choice((rng.random(), 1 - rng.random() * 2e-5, rng.random() * 1e-5, round(rng.random() * 1440) / 1440.0))
        if n >= cal().hi:
            continue
        j = n - 0.5 + f
        s = Solar.fromJulianDay(j)
        x = sol(s)
        if mon.ok("date from Julian day exists", exists(*x[:3]), repr(j), str(x)):
            mon.ok("nearest second", abs(secs(*x) - n * 86400 - f * 86400) < 0.5 + 1e-4, repr(j), str(x))
        mon.ok("Julian days keep the order", Solar.fromJulianDay(j + 1.2 / 86400).isAfter(s), repr(j))
        mon.seen("fractions", (n, round(f * 86400)))


def c06_sweep(mon, rng, a, b, k):
    for y in range(a, b + 1):
        for m in range(1, 13):
            mon.run(c06_day, y, m, rng.getrandbits(40), k)
            mon.run(c06_float, y, m, rng.getrandbits(40), 4 * k)
    mon.sample("round trip", y, m)


def c06_plan(tier, seed):
    return [("c06_sweep", x + ((1,) if tier == "quick" else (8,))) for x in year_blocks(100)]


# ---- C07 month / year / hour / minute stepping -----------------------------------------------------
def c07_case(mon, n, sod, km, ky, kh):
    y, m, d = ymd(n)
    s = S(n, sod)
    tod = (sod // 3600, sod % 3600 // 60, sod % 60)
    c0 = str((y, m, d) + tod)
    # months
    ty, tm = add_months(y, m, km)
    if 1 <= ty <= HI:
        if (ty, tm) == (1582, 10) and 4 < d < 15:
            td = d + 10
        else:
            td = min(d, last_day(ty, tm))
        mon.eq("nextMonth keeps the day, clamped to the month", sol(s.nextMonth(km)), (ty, tm, td) + tod, c0, km)
        mon.seen("month steps", (m, tm, d, td))
    # years
    if 1 <= y + ky <= HI:
        ty = y + ky
        if (ty, m) == (1582, 10) and 4 < d < 15:
            td = d + 10
        else:
            td = min(d, last_day(ty, m))
        mon.eq("nextYear keeps month and day, clamped to the month", sol(s.nextYear(ky)), (ty, m, td) + tod, c0, ky)
        mon.seen("year steps", (m, d, td, leap(ty)))
    # hours
    t = n * 86400 + sod
    c = cal()
    if c.lo * 86400 <= t + kh * 3600 < (c.hi + 1) * 86400:
        mon.eq("nextHour is exact", sol(s.nextHour(kh)), from_secs(t + kh * 3600), c0, kh)
        r = s.nextHour(kh)
        mon.eq("nextHour inverts", sol(r.nextHour(-kh)), (y, m, d) + tod, c0, kh)
        mon.seen("hour steps", (tod[0], kh % 24, kh < 0))
    # minutes
    n2 = min(max(n + km * 3, c.lo), c.hi)
    sod2 = (sod * 7 + kh * 613) % 86400
    e = (n * 86400 + sod) // 60 - (n2 * 86400 + sod2) // 60
    mon.eq("subtractMinute counts minutes", s.subtractMinute(S(n2, sod2)), e, c0, str(t6(n2, sod2)))
    # order
    o = S(n2, sod2)
    a, b = n * 86400 + sod, n2 * 86400 + sod2
    mon.eq("isAfter", s.isAfter(o), a > b, c0, str(t6(n2, sod2)))
    mon.eq("isBefore", s.isBefore(o), a < b, c0, str(t6(n2, sod2)))


def c07_near(mon, n, sod, dt):
    """ordering of close instants"""
    c = cal()
    t = n * 86400 + sod
    u = min(max(t + dt, c.lo * 86400), (c.hi + 1) * 86400 - 1)
    a, b = S(n, sod), S(*divmod(u, 86400))
    mon.eq("isAfter", a.isAfter(b), t > u, str(t6(n, sod)), dt)
    mon.eq("isBefore", a.isBefore(b), t < u, str(t6(n, sod)), dt)
    mon.eq("subtractMinute counts minutes", a.subtractMinute(b), t // 60 - u // 60, str(t6(n, sod)), dt)
    mon.eq("rendering keeps the order", (a.toYmdHms() > b.toYmdHms()), t > u, str(t6(n, sod)), dt)


def c07_rand(mon, rng, cnt):
    for i in range(cnt):
        n = rday(rng)
        if rng.random() < 0.35:
            y, m, d = ymd(n)
            n = jdn(y, m, last_day(y, m)) - rng.randint(0, 3) if not (y == 1582 and m == 10) else jdn(y, m, 31) - rng.randint(0, 20)
            n = max(n, cal().lo)
        sod = rng.randrange(86400)
        big = rng.random() < 0.15
        km = magnitude(rng, 110000) if big else rng.randint(-40, 40)
        ky = rng.randint(-9000, 9000) if big else rng.randint(-12, 12)
        kh = magnitude(rng, 20000000) if big else rng.randint(-80, 80)
        if rng.random() < 0.1:
            # aim at the reform month
            y, m, d = ymd(n)
            km = 1582 * 12 + 9 - (y * 12 + m - 1)
            ky = 1582 - y
        if rng.random() < 0.05:
            d = 15 + rng.randrange(-14, 14)
            kh = round((jdn(1582, 10, 15) - n) * 24 + rng.randint(-60, 60))
        mon.run(c07_case, n, sod, km, ky, kh)
        mon.run(c07_near, n, sod, rng.choice((0, 1, -1, 59, -59, 60, 3600, -3600, 86400, -86400, rng.randint(-10**7, 10**7))))
    mon.sample("step", str(t6(n, sod)), km, ky, kh)


def c07_years(mon, y):
    """every month end of the year, one and twelve months away, both ways"""
    for m in range(1, 13):
        for d in {1, 15, 28, dim(y, m) if (y, m) != (1582, 10) else 31, last_day(y, m)}:
            n = jdn(y, m, d)
            for km in (1, -1, 12, -12, 13):
                ty, tm = add_months(y, m, km)
                if 1 <= ty <= HI:
                    td = d + 10 if (ty, tm) == (1582, 10) and 4 < d < 15 else min(d, last_day(ty, tm))
                    mon.eq("nextMonth keeps the day, clamped to the month", sol(Solar.fromYmd(y, m, d).nextMonth(km)), (ty, tm, td, 0, 0, 0), str((y, m, d)), km)
            for ky in (1, -1, 4):
                if 1 <= y + ky <= HI:
                    td = d + 10 if (y + ky, m) == (1582, 10) and 4 < d < 15 else min(d, last_day(y + ky, m))
                    mon.eq("nextYear keeps month and day, clamped to the month", sol(Solar.fromYmd(y, m, d).nextYear(ky)), (y + ky, m, td, 0, 0, 0), str((y, m, d)), ky)


def c07_sweep(mon, rng, a, b):
    for y in range(a, b + 1):
        mon.run(c07_years, y)


def c07_plan(tier, seed):
    return [("c07_sweep", x) for x in year_blocks(250)] + [("c07_rand", (2500 if tier == "quick" else 80000,))] * 16


# ---- C08 months, seasons, half years, years --------------------------------------------------------
def c08_year(mon, y, k):
    ms = SolarYear.fromYear(y).getMonths()
    mon.eq("year lists its twelve months", [(m.getYear(), m.getMonth()) for m in ms], [(y, i) for i in range(1, 13)], y)
    for i, m in enumerate(ms):
        i += 1
        n0 = jdn(y, i, 1)
        mon.eq("month lists exactly its days", [sday(x) for x in m.getDays()], [ymd(n) for n in range(n0, n0 + dim(y, i))], y, i)
        q = SolarSeason.fromYm(y, i)
        mon.eq("quarter index", q.getIndex(), (i + 2) // 3, y, i)
        f = (i - 1) // 3 * 3 + 1
        mon.eq("quarter months", [(x.getYear(), x.getMonth()) for x in q.getMonths()], [(y, f), (y, f + 1), (y, f + 2)], y, i)
        h = SolarHalfYear.fromYm(y, i)
        mon.eq("half-year index", h.getIndex(), 1 if i <= 6 else 2, y, i)
        f = 1 if i <= 6 else 7
        mon.eq("half-year months", [(x.getYear(), x.getMonth()) for x in h.getMonths()], [(y, f + j) for j in range(6)], y, i)
        kk = k + i * 7
        for z in (kk, -kk, 0, 1, -1):
            r = SolarMonth.fromYm(y, i).next(z)
            mon.eq("month step", (r.getYear(), r.getMonth()), add_months(y, i, z), str((y, i)), z)
            r = q.next(z)
            mon.eq("quarter step", (r.getYear(), r.getIndex()), (add_months(y, i, 3 * z)[0], (add_months(y, i, 3 * z)[1] + 2) // 3), str((y, i)), z)
            r = h.next(z)
            mon.eq("half-year step", (r.getYear(), r.getIndex()), (add_months(y, i, 6 * z)[0], 1 if add_months(y, i, 6 * z)[1] <= 6 else 2), str((y, i)), z)
        mon.seen("months", (y, i))
        mon.eq("month text", (m.toString(), m.toFullString()), ("%d-%d" % (y, i), "%d年%d月" % (y, i)), y, i)
        mon.eq("quarter text", (q.toString(), q.toFullString()), ("%d.%d" % (y, (i + 2) // 3), "%d年%d季度" % (y, (i + 2) // 3)), y, i)
        mon.eq("half-year text", (h.toString(), h.toFullString()), ("%d.%d" % (y, 1 if i <= 6 else 2), "%d年%s半年" % (y, "上" if i <= 6 else "下")), y, i)
    mon.eq("year step", SolarYear.fromYear(y).next(k).getYear(), y + k, y, k)
    mon.eq("year text", (SolarYear.fromYear(y).toString(), SolarYear.fromYear(y).toFullString()), (str(y), "%d年" % y), y)


def c08_from_date(mon, y, m, d):
    x = datetime(y, m, d, 3, 4, 5)
    mon.eq("month from date", (SolarMonth.fromDate(x).getYear(), SolarMonth.fromDate(x).getMonth()), (y, m), str(x))
    mon.eq("quarter from date", (SolarSeason.fromDate(x).getYear(), SolarSeason.fromDate(x).getMonth()), (y, m), str(x))
    mon.eq("half-year from date", (SolarHalfYear.fromDate(x).getYear(), SolarHalfYear.fromDate(x).getMonth()), (y, m), str(x))
    mon.eq("year from date", SolarYear.fromDate(x).getYear(), y, str(x))
    mon.eq("solar from date", sol(Solar.fromDate(x)), (y, m, d, 3, 4, 5), str(x))
    w = SolarWeek.fromDate(x, d % 7)
    mon.eq("week from date", (w.getYear(), w.getMonth(), w.getDay(), w.getStart()), (y, m, d, d % 7), str(x))


def c08_sweep(mon, rng, a, b, every):
    for y in range(a, b + 1):
        if every > 1 and (y - a) % every != rng.randrange(every) and y not in (1581, 1582, 1583):
            continue
        mon.run(c08_year, y, rng.choice((rng.randint(1, 300), abs(magnitude(rng, 9000)))))
        for _ in range(3):
            m = rng.randint(1, 12)
            mon.run(c08_from_date, y, m, rng.randint(1, 28))
    mon.sample("year", y)


def c08_plan(tier, seed):
    return [("c08_sweep", x + (1,)) for x in year_blocks(100)]


# ---- C09 weeks -------------------------------------------------------------------------------------
def pieces(lo, hi, start):
    """the weeks of each month, cut at month ends: [year, month, index in month, first jdn, last jdn]"""
    out = []
    idx = 0
    for n in range(lo, hi + 1):
        y, m, d = ymd(n)
        if d == 1 or n == lo:
            idx = 1
            out.append([y, m, idx, n, n])
        elif week(n) == start:
            idx += 1
            out.append([y, m, idx, n, n])
        else:
            out[-1][4] = n
    return out


def c09_month(mon, y, m, start, full):
    c = cal()
    n0 = jdn(y, m, 1)
    last = n0 + dim(y, m) - 1
    if n0 - 8 < c.lo or last + 8 > c.hi:
        return
    off = (week(n0) - start) % 7
    cnt = (dim(y, m) + off + 6) // 7
    mon.eq("number of weeks in the month", SolarUtil.getWeeksOfMonth(y, m, start), cnt, str((y, m)), start)
    ws = SolarMonth.fromYm(y, m).getWeeks(start)
    mon.eq("weeks of the month", [sday(w.getFirstDay()) for w in ws], [ymd(n0 - off + 7 * i) for i in range(cnt)], str((y, m)), start)
    off1 = (week(jdn(y, 1, 1)) - start) % 7
    days = range(n0, last + 1) if full else (n0, n0 + 6, n0 + 7, n0 + dim(y, m) // 2, last)
    for n in days:
        d = ymd(n)[2]
        w = SolarWeek.fromYmd(y, m, d, start)
        c0 = str((y, m, d))
        f = n - (week(n) - start) % 7
        wk = [ymd(f + i) for i in range(7)]
        mon.eq("week lists the seven days from its start", [sday(x) for x in w.getDays()], wk, c0, start)
        mon.eq("first day of week", sday(w.getFirstDay()), wk[0], c0, start)
        inm = [x for x in wk if x[:2] == (y, m)]
        mon.eq("week days within the month", [sday(x) for x in w.getDaysInMonth()], inm, c0, start)
        mon.eq("first week day within the month", sday(w.getFirstDayInMonth()), inm[0], c0, start)
        mon.eq("index in month", w.getIndex(), (n - n0 + off) // 7 + 1, c0, start)
        mon.eq("index in year", w.getIndexInYear(), (n - jdn(y, 1, 1) + off1) // 7 + 1, c0, start)
        mon.eq("week text", (w.toString(), w.toFullString()), ("%d.%d.%d" % (y, m, (n - n0 + off) // 7 + 1), "%d年%d月第%d周" % (y, m, (n - n0 + off) // 7 + 1)), c0, start)
        for k in (1, -1, 0, (n * 7 + start) % 120 - 60):
            if c.lo <= n + 7 * k <= c.hi:
                r = w.next(k, False)
                mon.eq("whole-week step", (r.getYear(), r.getMonth(), r.getDay(), r.getStart()), ymd(n + 7 * k) + (start,), c0, start, k)
        mon.seen("week kinds", (start, week(n0), dim(y, m), d))


def c09_sep(mon, y, m, start):
    """month-separated stepping walks the list of (week cut at month ends)"""
    c = cal()
    lo = max(c.lo, jdn(y, m, 1) - 93)
    lo = jdn(ymd(lo)[0], ymd(lo)[1], 1)
    hi = min(c.hi, jdn(y, m, 1) + 124)
    ps = pieces(lo, hi, start)
    pos = {}
    for i, p in enumerate(ps):
        for n in range(p[3], p[4] + 1):
            pos[n] = i
    n0 = jdn(y, m, 1)
    for n in range(n0, n0 + dim(y, m)):
        d = ymd(n)[2]
        for k in (1, -1, 2, -3, 5, -6):
            i = pos[n] + k
            # keep away from the truncated ends of the list
            if not 8 <= i < len(ps) - 8 and not (k in (1, -1) and 1 <= i < len(ps) - 1):
                continue
            r = SolarWeek.fromYmd(y, m, d, start).next(k, True)
            rd = (r.getYear(), r.getMonth(), r.getDay())
            if mon.ok("month-separated step lands on a real day", exists(*rd), str((y, m, d)), start, k, str(rd)):
                mon.eq("month-separated step", pos.get(jdn(*rd)), i, str((y, m, d)), start, k, str(rd))
    mon.seen("separated", (start, week(n0), dim(y, m)))


def c09_far(mon, y, m, d, start, k, j):
    """long steps"""
    c = cal()
    n = jdn(y, m, d)
    if c.lo <= n + 7 * k <= c.hi:
        r = SolarWeek.fromYmd(y, m, d, start).next(k, False)
        mon.eq("whole-week step", (r.getYear(), r.getMonth(), r.getDay(), r.getStart()), ymd(n + 7 * k) + (start,), str((y, m, d)), start, k)
    a, b = (n, n + 7 * j) if j > 0 else (n + 7 * j, n)
    a, b = jdn(*ymd(a - 31)[:2] + (1,)), b + 31
    if c.lo <= a and b <= c.hi:
        ps = pieces(a, b, start)
        i = next(i for i, p in enumerate(ps) if p[3] <= n <= p[4]) + j
        r = SolarWeek.fromYmd(y, m, d, start).next(j, True)
        rd = (r.getYear(), r.getMonth(), r.getDay())
        mon.ok("month-separated step", exists(*rd) and ps[i][3] <= jdn(*rd) <= ps[i][4], str((y, m, d)), start, j, str(rd), str(ps[i]))


def c09_sweep(mon, rng, a, b, frac):
    for y in range(a, b + 1):
        hot = y in (1581, 1582, 1583, 2024) or y % 400 == 0
        for m in range(1, 13):
            for st in (range(7) if hot else [rng.randrange(7)]):
                mon.run(c09_month, y, m, st, hot or rng.random() < 0.1)
                if hot or rng.random() < frac:
                    mon.run(c09_sep, y, m, st)
                if rng.random() < 0.05:
                    mon.run(c09_far, y, m, rng.randint(1, 28) if (y, m) != (1582, 10) else 20, st, magnitude(rng, 500000), magnitude(rng, 300))
    # very long walks: more weeks than a call stack holds
    for i in range(2):
        y = rng.randint(a, b)
        mon.run(c09_far, y, rng.randint(1, 9), rng.randint(1, 28), rng.randrange(7), magnitude(rng, 500000), rng.choice((-1, 1)) * rng.randint(1000, 5000))
    mon.sample("month", y, m, st)


def c09_plan(tier, seed):
    return [("c09_sweep", x + (0.02 if tier == "quick" else 0.5,)) for x in year_blocks(100)]


# ---- C10 validation ---------------------------------------------------------------------------------
_built = []


def hook_solar():
    """record every solar date object the library creates"""
    if getattr(Solar, "_rv_hooked", False):
        return
    real = Solar.__init__

    def init(self, *a, **k):
        real(self, *a, **k)
        _built.append(self)
    Solar.__init__ = init
    Solar._rv_hooked = True


def raises(fn, *a):
    try:
        fn(*a)
    except Exception as e:
        return True
    return False


def c10_reject(mon, y, m, d, h, mi, s):
    good = 1 <= m <= 12 and 1 <= d <= 31 and 0 <= h <= 23 and 0 <= mi <= 59 and 0 <= s <= 59 and not (y == 1582 and m == 10 and 4 < d < 15)
    c0 = str((y, m, d, h, mi, s))
    if not good:
        mon.ok("invalid civil date is refused", raises(Solar.fromYmdHms, y, m, d, h, mi, s), c0)
        if (h, mi, s) == (0, 0, 0):
            mon.ok("invalid civil date is refused", raises(Solar.fromYmd, y, m, d), c0)
        mon.seen("refused", ("m" if not 1 <= m <= 12 else "d" if not 1 <= d <= 31 else "t", m, d, h, mi, s))
    elif exists(y, m, d):
        mon.eq("valid civil date is accepted unchanged", sol(Solar.fromYmdHms(y, m, d, h, mi, s)), (y, m, d, h, mi, s), c0)
        mon.seen("accepted", (y, m, d))


def c10_lunar(mon, y, m, d, sod):
    c = cal()
    t = c.bym.get((y, m))
    good = t is not None and 1 <= d <= t[2] and 1 <= y <= 9998
    h, mi, s = sod // 3600, sod % 3600 // 60, sod % 60
    c0 = str((y, m, d, h, mi, s))
    if good:
        l = Lunar.fromYmdHms(y, m, d, h, mi, s)
        mon.eq("valid lunar date is accepted unchanged", lun(l) + (l.getHour(), l.getMinute(), l.getSecond()), (y, m, d, h, mi, s), c0)
        mon.seen("lunar accepted", (y, m, d))
    else:
        mon.ok("nonexistent lunar date is refused", raises(Lunar.fromYmdHms, y, m, d, h, mi, s), c0)
        mon.ok("nonexistent lunar date is refused", raises(Lunar.fromYmd, y, m, d), c0)
        mon.ok("nonexistent lunar date is refused", raises(LunarTime.fromYmdHms, y, m, d, h, mi, s), c0)
        if t is None:
            mon.eq("nonexistent lunar month is not found", LunarMonth.fromYm(y, m), None, c0)
        mon.seen("lunar refused", (y, m, d))


def c10_produced(mon, n, sod, k):
    """drive the API from an existing instant; every solar date object built on the way must exist"""
    hook_solar()
    c = cal()
    del _built[:]
    s = S(n, sod)
    l = s.getLunar()
    l.getSolar()
    y, m, d = ymd(n)
    if 60 < y < 9900:
        s.next(k); s.nextMonth(k % 50 - 25); s.nextYear(k % 30 - 15); s.nextHour(k)
        l.next(k % 700)
        l.getPrevJieQi(); l.getNextJieQi(True); l.getShuJiu(); l.getFu(); l.getOtherFestivals(); l.getFestivals()
        l.getWuHou(); l.getDayNineStar(); l.getTimes(); l.getCurrentJieQi()
        w = SolarWeek.fromYmd(y, m, d, k % 7)
        w.getDays(); w.next(k % 9 - 4, True); w.next(k % 9 - 4, False); w.getFirstDayInMonth()
        SolarMonth.fromYm(y, m).getDays(); SolarMonth.fromYm(y, m).getWeeks(k % 7)
        yun = l.getEightChar().getYun(k % 2, 1 + k // 2 % 2)
        yun.getStartSolar()
        [x.getGanZhi() for x in yun.getDaYun(3)[1].getLiuNian(3)]
        LunarMonth.fromYm(l.getYear(), l.getMonth()).next(k % 40 - 20)
        LunarYear.fromYear(y).getGengTian()
        l.getFoto().getFestivals(); l.getTao().getFestivals()
    l.getJieQiTable()
    built = list(_built)
    del _built[:]
    for b in built:
        x = sol(b)
        mon.ok("every produced solar date exists", exists(*x[:3]) and 0 <= x[3] <= 23 and 0 <= x[4] <= 59 and 0 <= x[5] <= 59, str(x), str(t6(n, sod)), k)
    mon.count("solar dates observed", len(built))
    for b in built[:3] + built[-3:]:
        mon.seen("produced", sol(b)[:3])


def c10_rand(mon, rng, cnt):
    memo()
    c = cal()
    for i in range(cnt):
        y = rng.choice((1582, 2023, rng.randint(1, 9999)))
        m = rng.choice((rng.randint(-1, 14), 2, 10))
        d = rng.choice((rng.randint(-1, 33), 0, 32, 33, 40, 100, -5)) if rng.random() < 0.6 else rng.randint(1, 31)
        if rng.random() < 0.5:
            h, mi, s = 0, 0, 0
        else:
            h, mi, s = rng.choice((rng.randint(-1, 25), rng.randint(0, 23))), rng.choice((rng.randint(-1, 61), rng.randint(0, 59))), rng.choice((rng.randint(-1, 61), rng.randint(0, 59)))
        mon.run(c10_reject, y, m, d, h, mi, s)
    for i in range(cnt // 4):
        # one component just outside its range, at turning points of the clock and the calendar
        y = rng.choice((1, 9999, 1582, 1972, 2000, 2012, 2016, rng.randint(1, 9999)))
        m, d = rng.choice(((1, 1), (12, 31), (6, 30), (2, 28), (2, 29), (3, 31), (10, 4), (10, 15), (rng.randint(1, 12), rng.randint(1, 31))))
        h, mi, s = rng.choice(((0, 0, 0), (23, 59, 59), (12, 0, 0), (rng.randint(0, 23), 59, 59), (rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))))
        x = [y, m, d, h, mi, s]
        k = rng.choice((1, 2, 3, 4, 5, 5))
        x[k] = rng.choice(((0, 13), (0, 32), (-1, 24), (-1, 60), (-1, 60, 61))[k - 1])
        mon.run(c10_reject, *x)
    for d in range(-2, 40):
        for m in (9, 10, 11):
            mon.run(c10_reject, 1582, m, d, 0, 0, 0)
    for i in range(cnt // 8):
        y = rng.randint(1, 9998)
        ms = [t[1] for t in c.years[y]]
        m = rng.choice(ms) if rng.random() < 0.6 else rng.choice((0, 13, -13, 14, -12, -1, -rng.randint(1, 12), rng.randint(1, 12)))
        t = c.bym.get((y, m))
        d = rng.choice((0, -1, 30, 31, 32, 29, (t[2] + 1) if t else 5, t[2] if t else 1, rng.randint(1, 30)))
        mon.run(c10_lunar, y, m, d, rng.randrange(86400))
    mon.sample("lunar", y, m, d)


def c10_prod(mon, rng, cnt):
    memo()
    c = cal()
    for i in range(cnt):
        n = rday(rng, c.lo + 400, c.hi - 400)
        if rng.random() < 0.1:
            # near the moment the reform can be stepped over
            n = CUT + rng.randint(-3, 3)
        mon.run(c10_produced, n, rnd_sod(rng), rng.randint(-3000, 3000))
    mon.sample("produced from", str(ymd(n)))


def c10_terms(mon, a, b):
    """term tables of every year contain real dates"""
    for y in range(a, b + 1):
        for j in LunarYear.fromYear(y).getJieQiJulianDays():
            x = sol(Solar.fromJulianDay(j))
            mon.ok("every produced solar date exists", exists(*x[:3]), str(x), y)
        for mth in LunarYear.fromYear(y).getMonths():
            x = sol(Solar.fromJulianDay(mth.getFirstJulianDay()))
            mon.ok("every produced solar date exists", exists(*x[:3]), str(x), y)


def c10_tsweep(mon, rng, a, b):
    for y in range(a, b + 1):
        mon.run(c10_terms, y, y)


def c10_plan(tier, seed):
    q = tier == "quick"
    return [("c10_rand", (3000 if q else 40000,))] * 8 + [("c10_prod", (150 if q else 3000,))] * 16 + [("c10_tsweep", x) for x in year_blocks(250)]
