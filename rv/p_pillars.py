# -*- coding: utf-8 -*-
"""C13, C14, C15: pillars, reverse lookup from eight characters, eight-character derivations."""
from datetime import datetime
import os, pickle, subprocess, sys
from .lib import *
from .model import *
from .golden import TABLE, TERMS
from . import tables as tb


def S(n, sod=0):
    y, m, d = ymd(n)
    return Solar.fromYmdHms(y, m, d, sod // 3600, sod % 3600 // 60, sod % 60)


def ST(t):
    return S(*divmod(t, 86400))


def xun(i):
    return JZ[i // 10 * 10]


def kong(i):
    z = (10 - i // 10 * 2) % 12
    return ZHI[z] + ZHI[z + 1]


NAYIN = tb.LU["NAYIN"]


# ---- C13 --------------------------------------------------------------------------------------------------
def observe_pillar(mon, l, unit, sfx, i, x):
    """everything published about one pillar whose place in the cycle is i"""
    g = getattr
    got = (g(l, "get%sInGanZhi%s" % (unit, sfx))(), g(l, "get%sGan%s" % (unit, sfx))(), g(l, "get%sZhi%s" % (unit, sfx))())
    mon.eq("%s pillar%s" % (unit.lower(), {"": "", "Exact": " by instant", "ByLiChun": " by day of spring", "Exact2": " by civil day"}[sfx]), got, (JZ[i], GAN[i % 10], ZHI[i % 12]), x, sfx)
    if unit != "Time":
        mon.eq("pillar indexes", (g(l, "get%sGanIndex%s" % (unit, sfx))(), g(l, "get%sZhiIndex%s" % (unit, sfx))()), (i % 10, i % 12), x, unit, sfx)
    else:
        mon.eq("pillar indexes", (l.getTimeGanIndex(), l.getTimeZhiIndex()), (i % 10, i % 12), x, unit, sfx)
    mon.eq("ten-day group and its void branches", (g(l, "get%sXun%s" % (unit, sfx))(), g(l, "get%sXunKong%s" % (unit, sfx))()), (xun(i), kong(i)), x, unit, sfx)


SX_SFX = {"Year": ("", "ByLiChun", "Exact"), "Month": ("", "Exact"), "Day": ("",), "Time": ("",)}


def c13_case(mon, n, sod):
    m = M(n, sod)
    l = S(n, sod).getLunar()
    x = m.ctx()
    ps = [("Year", "", m.yg), ("Year", "ByLiChun", m.ygl), ("Month", "", m.mg), ("Day", "", m.dg), ("Day", "Exact", m.dg1), ("Day", "Exact2", m.dg), ("Time", "", m.tg)]
    if not m.fuzzy:
        ps += [("Year", "Exact", m.ygx), ("Month", "Exact", m.mgx)]
    for unit, sfx, i in ps:
        observe_pillar(mon, l, unit, sfx, i, x)
        if sfx in SX_SFX[unit]:
            mon.eq("zodiac animal of the pillar", getattr(l, "get%sShengXiao%s" % (unit, sfx))(), SX[i % 12], x, unit, sfx)
        if sfx == "":
            mon.eq("melodic element of the pillar", getattr(l, "get%sNaYin" % unit)(), NAYIN[JZ[i]], x, unit)
    # laws that bind the pillars to each other, at any second
    for ya, ma in (("Exact", "Exact"), ("ByLiChun", "")):
        yg, mg, mz = getattr(l, "getYearGanIndex" + ya)(), getattr(l, "getMonthGanIndex" + ma)(), getattr(l, "getMonthZhiIndex" + ma)()
        mon.eq("month stem follows from the year stem", mg, (yg * 2 + 2 + (mz - 2) % 12) % 10, x, ya)
    mon.eq("double-hour stem follows from the day stem", l.getTimeGanIndex(), (l.getDayGanIndexExact() * 2 + l.getTimeZhiIndex()) % 10, x)
    mon.seen("day and double-hour", (m.dg, m.tz))
    mon.seen("year and month", (m.ygx, m.mgx))


def c13_edge(mon, y, i):
    """one second around a jie instant the library itself publishes: the month pillar (and at 立春 the year pillar) turns exactly there"""
    c = cal()
    g = c.table(y)[i]
    tab = S(jdn(y, 6, 1)).getLunar().getJieQiTable()
    u = secs(*sol(tab[TABLE[i]]))
    if from_secs(u - 1)[0] != y or from_secs(u + 1)[0] != y:
        return
    for dt in (-1, 0, 1):
        l = ST(u + dt).getLunar()
        k = g if dt >= 0 else g - 1
        mon.eq("month pillar turns at the jie instant", l.getMonthInGanZhiExact(), JZ[c.month_gz(k)], str(from_secs(u)), dt)
        mon.eq("year pillar turns at the start of spring", l.getYearInGanZhiExact(), JZ[c.spring_year_gz(k)], str(from_secs(u)), dt)
        mon.eq("day-based month pillar is the same all day", l.getMonthInGanZhi(), JZ[c.month_gz(c.prev_term_day((u + dt) // 86400))], str(from_secs(u)), dt)
        mon.eq("day-based year pillar is the same all day", l.getYearInGanZhiByLiChun(), JZ[c.spring_year_gz(c.prev_term_day((u + dt) // 86400))], str(from_secs(u)), dt)
    mon.seen("turns", g)


def c13_sweep(mon, rng, a, b, k):
    memo()
    c = cal()
    for y in range(a, b + 1):
        lc = c.TD[24 * y + 3]
        ny = c.years[y][0][3] if y in c.years and c.years[y][0][3] >= c.lo else lc
        ds = [jdn(y, 1, 1), jdn(y, 12, 31), lc + rng.randint(-1, 1), ny + rng.randint(-1, 1), rng.randint(min(lc, ny), max(lc, ny))]
        ds += [c.TD[24 * y + 2 * rng.randint(1, 12) - 1] + rng.randint(-1, 1) for _ in range(k)]
        ds += [rng.randint(jdn(y, 1, 1), jdn(y, 12, 31)) for _ in range(k)]
        if k > 3:
            ds += interesting_days(y, rng, 10)
        for n in ds:
            if c.lo <= n <= c.hi:
                mon.run(c13_case, n, rnd_sod(rng))
        for i in ([4, rng.randrange(2, 25, 2)] if k <= 3 else range(2, 26, 2)):
            mon.run(c13_edge, y, i)
    mon.sample("instant", M(n).ctx(), JZ[M(n).dg])


def c13_turns(mon, rng, count):
    """every double-hour boundary of random days, one second either side"""
    memo()
    c = cal()
    for _ in range(count):
        n = rng.randint(c.lo, c.hi)
        for h in range(1, 24, 2):
            for sod in (h * 3600 - 1, h * 3600):
                mon.run(c13_case, n, sod)
        mon.run(c13_case, n, 0)
        mon.run(c13_case, n, 86399)


def c13_plan(tier, seed):
    q = tier == "quick"
    return [("c13_sweep", x + (2 if q else 8,)) for x in year_blocks(40)] + [("c13_turns", (20 if q else 400,))] * 8


# ---- C14 --------------------------------------------------------------------------------------------------
def slot(n, sod, sect):
    """the stretch of time (start, end second) around the instant on which day and double-hour pillars do not change"""
    h = sod // 3600
    t = n * 86400
    if h == 0:
        return (t - 3600 if sect == 1 else t), t + 3600
    if h == 23:
        return t + 23 * 3600, (t + 25 * 3600 if sect == 1 else t + 86400)
    a = (h + 1) // 2 * 2 - 1
    return t + a * 3600, t + (a + 2) * 3600


def expected_slots(yi, mi, di, ti, sect, lo, hi):
    """all maximal stretches with these four pillars whose month starts in spring-years lo..hi; None where a stretch is too
    short to judge"""
    c = cal()
    out = []
    y = lo + (yi - (lo - 4)) % 60
    z = (mi % 12 - 2) % 12          # months after 寅
    while y <= hi:
        g = 24 * y + 3 + 2 * z
        if c.month_gz(g) == mi:
            a, b = c.T[g], c.T[g + 2]
            n0 = a // 86400 - 1
            n = n0 + (di - day_gz(n0)) % 60
            while n * 86400 < b + 86400:
                for dn in (0, 1):
                    for sod in (0, 23 * 3600) if ti % 12 == 0 else ((ti % 12 * 2 - 1) * 3600,):
                        # an instant of that double-hour whose day pillar is di
                        nn = n - dn
                        mm = M(nn, sod)
                        if (mm.dg1 if sect == 1 else mm.dg) == di and mm.tg == ti:
                            s, e = slot(nn, sod, sect)
                            s, e = max(s, a), min(e, b)
                            if s < e and (s, e) not in out:
                                out.append((s, e))
                n += 60
        y += 60
    return sorted(out)


def now_secs():
    d = datetime.now()
    return secs(d.year, d.month, d.day, d.hour, d.minute, d.second)


NOW_YEAR = datetime.now().year
PAST = now_secs() - 2 * 86400       # every double-hour that ended before this must be found


def c14_case(mon, n, sod, sect, base):
    m = M(n, sod)
    e = S(n, sod).getLunar().getEightChar()
    e.setSect(sect)
    p = (e.getYear(), e.getMonth(), e.getDay(), e.getTime())
    r = Solar.fromBaZi(*(p + (sect, base)))
    c14_judge(mon, p, sect, base, r, m.ctx())
    a, b = slot(n, sod, sect)
    if not m.fuzzy and from_secs(a)[0] >= base:
        mon.ok("the birth itself is found", any(a <= secs(*sol(s)) < b for s in r), m.ctx(), sect, base, "%s -> %s" % (" ".join(p), [s.toYmdHms() for s in r]))
    mon.seen("reverse lookups", p)


def c14_judge(mon, p, sect, base, r, x, now=NOW_YEAR, past=PAST):
    for s in r:
        e = s.getLunar().getEightChar()
        e.setSect(sect)
        mon.eq("every result has the asked pillars", (e.getYear(), e.getMonth(), e.getDay(), e.getTime()), p, x, sect, base, s.toYmdHms())
        mon.ok("every result is in or after the base year", s.getYear() >= base and exists(*sday(s)), x, sect, base, s.toYmdHms())
    ts = [secs(*sol(s)) for s in r]
    mon.eq("no result is given twice", len(set(ts)), len(ts), x, sect, base)
    i = [JZI[q] for q in p]
    exp = expected_slots(i[0], i[1], i[2], i[3], sect, max(base - 1, 1), now)
    exp = [q for q in exp if from_secs(q[0])[0] >= base and q[1] - q[0] > 10 and q[1] < past]
    for a, b in exp:
        mon.eq("every matching double-hour is found exactly once", sum(1 for t in ts if a - 5 <= t < b + 5), 1, x, sect, base, "%s: %s..%s" % (" ".join(p), from_secs(a), from_secs(b)))
        mon.count("matching double-hours")
    for t in ts:
        if from_secs(t)[0] > base:
            mon.ok("every result lies in a matching double-hour", any(a - 5 <= t < b + 5 for a, b in expected_slots(i[0], i[1], i[2], i[3], sect, max(base - 1, 1), now + 1)), x, sect, base, str(from_secs(t)))


def c14_random(mon, yi, mi, di, ti, sect, base):
    p = (JZ[yi], JZ[mi], JZ[di], JZ[ti])
    r = Solar.fromBaZi(*(p + (sect, base)))
    if mi % 10 != (yi % 10 * 2 + 2 + (mi - 2) % 12) % 10 or \
            (ti % 10 - di % 10 * 2 - ti % 12) % 10 not in ((0, 2) if sect == 2 and ti % 12 == 0 else (0,)):   # late rat hour: stem of the next day
        mon.eq("contradictory pillars have no date", [s.toYmdHms() for s in r], [], " ".join(p), sect, base)
    else:
        c14_judge(mon, p, sect, base, r, " ".join(p))


def c14_births(mon, rng, k, lo, hi):
    memo()
    c = cal()
    for _ in range(k):
        sect = rng.randint(1, 2)
        y = rng.randint(lo, hi)
        r = rng.random()
        if r < 0.3:
            n, sod = rng.randint(jdn(y, 1, 1), jdn(y, 12, 31)), rnd_sod(rng)
        elif r < 0.45:
            n, sod = jdn(y, 1, 1) + rng.randint(0, 8), rnd_sod(rng)
        elif r < 0.55:
            # late and early rat hour
            n, sod = rng.randint(jdn(y, 1, 1), jdn(y, 12, 30)), rng.choice((0, 1800, 82800, 84600, 86399))
        else:
            # within two hours of a jie
            t = c.T[24 * y + 2 * rng.randint(1, 12) - 1] + rng.randint(-7200, 7200)
            n, sod = divmod(t, 86400)
        if n * 86400 + sod >= PAST - 10800:
            continue
        base = rng.choice((y, y, y - 1, y - rng.randint(0, 59), y - rng.randint(0, 300), 1900 if y >= 1900 else y))
        mon.run(c14_case, n, sod, sect, max(1, base))


def c14_at(mon, jobs):
    """look-ups in a process whose clock shows the given years, one after the other"""
    env = dict(os.environ, VERIF_REPO=REPO)
    o = subprocess.run([sys.executable, "-B", os.path.join(os.path.dirname(os.path.abspath(__file__)), "clockchild.py")], input=pickle.dumps(jobs), capture_output=True, env=env, timeout=300)
    res = pickle.loads(o.stdout) if o.returncode == 0 else None
    if not mon.ok("looking up dates works whatever year the clock shows", res is not None, repr(jobs[0]), o.stderr.decode(errors="replace")[-300:]):
        return
    for (year, p, sect, base), r in zip(jobs, res):
        x = "clock %d" % year
        if not mon.ok("looking up dates works whatever year the clock shows", isinstance(r, list), x, " ".join(p), sect, base, repr(r)[:200]):
            continue
        mon.count("look-ups with another present")
        c14_judge(mon, tuple(p), sect, base, [Solar.fromYmdHms(*t) for t in r], x, year, secs(year, 6, 29, 0, 0, 0))


def c14_clock(mon, rng, k):
    memo()
    years = [rng.choice((1950, 1984, 2000, 2100, 2600, rng.randint(200, 9000))) for _ in range(3)]
    jobs = []
    for _ in range(k):
        fy = rng.choice(years)
        y = fy - rng.choice((0, 0, 1, 1, 2, 59, 60, 61, rng.randint(0, 150), -1, -60))
        m = M(rng.randint(jdn(y, 1, 1), jdn(y, 12, 31)), rnd_sod(rng))
        sect = rng.randint(1, 2)
        jobs.append((fy, (JZ[m.ygx], JZ[m.mgx], JZ[m.dg1 if sect == 1 else m.dg], JZ[m.tg]), sect, max(1, rng.choice((y, y - 1, fy - 1, fy, y - rng.randint(0, 100))))))
    mon.run(c14_at, jobs)


def c14_any(mon, rng, k):
    memo()
    for _ in range(k):
        yi = rng.randrange(60)
        z = rng.randrange(12)
        mi = gz_of((yi % 10 * 2 + 2 + (z - 2) % 12) % 10, z)
        di = rng.randrange(60)
        z = rng.randrange(12)
        ti = gz_of((di % 10 * 2 + z) % 10, z)
        if rng.random() < 0.2:
            mi = rng.randrange(60)
        if rng.random() < 0.2:
            ti = rng.randrange(60)
        mon.run(c14_random, yi, mi, di, ti, rng.randint(1, 2), rng.choice((1900, 1900, rng.randint(1, 2000), 1984, 1)))
    mon.sample("lookup", JZ[yi], JZ[mi], JZ[di], JZ[ti])


def c14_plan(tier, seed):
    k = 1 if tier == "quick" else 7
    return [("c14_births", (100 * k, lo, hi)) for lo, hi in ((1, 1000), (1000, 1582), (1582, 1800), (1800, 1900), (1900, 1950), (1950, 2000), (2000, NOW_YEAR), (1582, 1583), (NOW_YEAR - 1, NOW_YEAR))] * 4 + \
        [("c14_any", (120 * k,))] * 16 + [("c14_clock", (12,))] * (24 * (1 if k == 1 else 14))


# ---- C15 --------------------------------------------------------------------------------------------------
HIDE = {0: "癸", 1: "己癸辛", 2: "甲丙戊", 3: "乙", 4: "戊乙癸", 5: "丙庚戊", 6: "丁己", 7: "己丁乙", 8: "庚壬戊", 9: "辛", 10: "戊辛丁", 11: "壬甲"}
SHEN = (("比肩", "劫财"), ("食神", "伤官"), ("偏财", "正财"), ("七杀", "正官"), ("偏印", "正印"))
WX = "木火土金水"
ZWX = "水土木木土火火土金金土水"
CS = ("长生", "沐浴", "冠带", "临官", "帝旺", "衰", "病", "死", "墓", "绝", "胎", "养")
CS0 = (11, 6, 2, 9, 2, 9, 5, 0, 8, 3)     # branch of birth for stems 甲..癸


def shen(d, o):
    return SHEN[(o // 2 - d // 2) % 5][0 if (o - d) % 2 == 0 else 1]


def di_shi(d, z):
    return CS[(z - CS0[d]) % 12 if d % 2 == 0 else (CS0[d] - z) % 12]


def palaces(yi, mi, ti):
    """命宫 and 身宫"""
    m = (mi - 2) % 12 + 1           # 寅=1
    t = (ti - 2) % 12 + 1
    s = m + t
    o = 26 - s if s >= 14 else 14 - s
    ming = GAN[(yi % 10 * 2 + 1 + o) % 10] + ZHI[(o + 1) % 12]
    o = (m + ti % 12) % 12 + 1      # time branch counted 子=1
    shen_ = GAN[(yi % 10 * 2 + 1 + o % 12) % 10] + ZHI[(o + 1) % 12]
    return ming, shen_


def c15_case(mon, n, sod, sect):
    m = M(n, sod)
    x = m.ctx()
    l = S(n, sod).getLunar()
    e = l.getEightChar()
    mon.eq("default school is 2", e.getSect(), 2, x)
    for s in (sect, 3 - sect):
        e.setSect(s)
        mon.eq("school is kept", e.getSect(), s, x)
        c15_one(mon, l, e, m, s, x)
    e.setSect(sect)
    c15_one(mon, l, e, m, sect, x)
    f = EightChar.fromLunar(l)
    mon.ok("a chart knows whose it is", e.getLunar() is l and f.getLunar() is l, x)
    if sod % 4 == 0:
        f.setSect(3 - sect)
        c15_one(mon, S(n, sod).getLunar(), f, m, 3 - sect, x) if sect == 1 else mon.eq("chart made from a lunar date", (f.getDay(), f.getTime()), (JZ[m.dg1], JZ[m.tg]), x)


def c15_one(mon, l, e, m, sect, x):
    di = m.dg1 if sect == 1 else m.dg
    if m.fuzzy:
        yi, mi = JZI[e.getYear()], JZI[e.getMonth()]
    else:
        yi, mi = m.ygx, m.mgx
    ps = (("Year", yi), ("Month", mi), ("Day", di), ("Time", m.tg))
    mon.eq("four pillars", e.toString(), " ".join(JZ[i] for _, i in ps), x, sect)
    dg = di % 10
    for u, i in ps:
        f = lambda k: getattr(e, "get" + u + k)()
        mon.eq("pillar", (f(""), f("Gan"), f("Zhi")), (JZ[i], GAN[i % 10], ZHI[i % 12]), x, sect, u)
        h = HIDE[i % 12]
        mon.eq("hidden stems", list(f("HideGan")), list(h), x, sect, u)
        mon.eq("five elements of the pillar", f("WuXing"), WX[i % 10 // 2] + ZWX[i % 12], x, sect, u)
        mon.eq("melodic element", f("NaYin"), NAYIN[JZ[i]], x, sect, u)
        mon.eq("ten gods of the stem", f("ShiShenGan"), "日主" if u == "Day" else shen(dg, i % 10), x, sect, u)
        mon.eq("ten gods of the branch", list(f("ShiShenZhi")), [shen(dg, GAN.index(q)) for q in h], x, sect, u)
        mon.eq("twelve stages", f("DiShi"), di_shi(dg, i % 12), x, sect, u)
        mon.eq("ten-day group and void", (f("Xun"), f("XunKong")), (xun(i), kong(i)), x, sect, u)
    mon.eq("day indexes", (e.getDayGanIndex(), e.getDayZhiIndex()), (di % 10, di % 12), x, sect)
    ty = GAN[(mi + 1) % 10] + ZHI[(mi + 3) % 12]
    tx = GAN[(di + 5) % 10] + ZHI[(1 - di) % 12]
    mg, sg = palaces(yi, mi, m.tg)
    mon.eq("conception pillar", (e.getTaiYuan(), e.getTaiYuanNaYin()), (ty, NAYIN[ty]), x, sect)
    mon.eq("breath pillar", (e.getTaiXi(), e.getTaiXiNaYin()), (tx, NAYIN[tx]), x, sect)
    mon.eq("life palace", (e.getMingGong(), e.getMingGongNaYin()), (mg, NAYIN[mg]), x, sect)
    mon.eq("body palace", (e.getShenGong(), e.getShenGongNaYin()), (sg, NAYIN[sg]), x, sect)
    mon.eq("lists on the lunar date", (l.getBaZi(), l.getBaZiWuXing(), l.getBaZiNaYin()),
           ([JZ[i] for _, i in ps], [WX[i % 10 // 2] + ZWX[i % 12] for _, i in ps], [NAYIN[JZ[i]] for _, i in ps]), x, sect)
    mon.eq("ten-god lists on the lunar date", (l.getBaZiShiShenGan(), l.getBaZiShiShenZhi()),
           (["日主" if u == "Day" else shen(dg, i % 10) for u, i in ps], [shen(dg, GAN.index(HIDE[i % 12][0])) for _, i in ps]), x, sect)
    mon.eq("ten gods of each branch", [list(f()) for f in (l.getBaZiShiShenYearZhi, l.getBaZiShiShenMonthZhi, l.getBaZiShiShenDayZhi, l.getBaZiShiShenTimeZhi)],
           [[shen(dg, GAN.index(q)) for q in HIDE[i % 12]] for _, i in ps], x, sect)
    for k, i in ps:
        mon.seen("day stem and pillar", (dg, k, i))
    mon.seen("palaces", (yi % 10, mi % 12, m.tz))


def c15_sweep(mon, rng, a, b, k):
    memo()
    c = cal()
    for y in range(a, b + 1):
        for _ in range(k):
            n = rng.choice((rng.randint(jdn(y, 1, 1), jdn(y, 12, 31)), c.TD[24 * y + 2 * rng.randint(1, 12) - 1], jdn(y, 1, 1)))
            mon.run(c15_case, n, rnd_sod(rng), rng.randint(1, 2))
    mon.sample("chart", M(n).ctx())


def c15_plan(tier, seed):
    return [("c15_sweep", x + (4 if tier == "quick" else 30,)) for x in year_blocks(40)]
