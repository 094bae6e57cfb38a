# -*- coding: utf-8 -*-
"""C33: every way of reaching a fact gives the same fact."""
import datetime, random
from .lib import *
from .model import *
from . import api
from .api import snap, plain, API
from .p_pillars import S
from lunar_python.util import SolarUtil, LunarUtil, FotoUtil

ROUTES = {}


def route(f):
    ROUTES[f.__name__] = f
    return f


# Each route leads from the fields of an instant (civil x, lunar u) to its Lunar, some other way than the usual one.
@route
def from_solar(c): return Lunar.fromSolar(Solar.fromYmdHms(*c.x))
@route
def from_lunar_fields(c): return Lunar.fromYmdHms(*c.u)
@route
def from_datetime(c): return Lunar.fromDate(datetime.datetime(*c.x)) if not c.odd else None
@route
def from_solar_datetime(c): return Solar.fromDate(datetime.datetime(*c.x)).getLunar() if not c.odd else None
@route
def from_julian_day(c): return Solar.fromJulianDay(Solar.fromYmdHms(*c.x).getJulianDay()).getLunar()
@route
def from_foto(c): return Foto.fromYmdHms(c.l.getFoto().getYear(), *c.u[1:]).getLunar() if c.u[0] > 0 else None
@route
def from_tao(c): return Tao.fromYmdHms(c.l.getTao().getYear(), *c.u[1:]).getLunar()
@route
def from_foto_of(c): return Foto.fromLunar(Lunar.fromYmdHms(*c.u)).getLunar()
@route
def from_tao_of(c): return Tao.fromLunar(Lunar.fromYmdHms(*c.u)).getLunar()
@route
def from_chart(c): return Lunar.fromYmdHms(*c.u).getEightChar().getLunar()
@route
def from_luck(c): return Lunar.fromYmdHms(*c.u).getEightChar().getYun(1).getLunar() if c.x[0] < 9900 else None
@route
def no_step(c): return Lunar.fromYmdHms(*c.u).next(0)
@route
def there_and_back(c): return Lunar.fromYmdHms(*c.u).next(c.k).next(-c.k) if 2 < c.x[0] < 9990 else None
@route
def civil_there_and_back(c): return Solar.fromYmdHms(*c.x).next(c.k).next(-c.k).getLunar() if 2 < c.x[0] < 9990 else None
@route
def hours_there_and_back(c): return Solar.fromYmdHms(*c.x).nextHour(c.k).nextHour(-c.k).getLunar()
@route
def back_to_civil(c): return Lunar.fromYmdHms(*c.u).getSolar().getLunar()


class Ctx(object):
    pass


def ctx(n, sod, r):
    c = Ctx()
    y, m, d = ymd(n)
    c.x = (y, m, d, sod // 3600, sod % 3600 // 60, sod % 60)
    c.odd = y > 9999 or (m, d) == (2, 29) and y % 100 == 0 and y % 400 or y < 1
    c.s = Solar.fromYmdHms(*c.x)
    c.l = l = c.s.getLunar()
    c.u = (l.getYear(), l.getMonth(), l.getDay()) + c.x[3:]
    c.k = r.choice((1, 29, 60, 366, 1000))
    return c


def c33_routes(mon, n, sod, seed):
    r = random.Random(seed)
    c = ctx(n, sod, r)
    names = sorted(API["Lunar"])
    names = r.sample(names, 60) if r.random() < 0.7 else names
    whole = r.random() < 0.3
    extra = lambda l: [snap(l.getEightChar()), snap(l.getTime()), snap(l.getFoto()), snap(l.getTao()), snap(l.getSolar())] if whole else []
    exp = [snap(c.l, names), extra(c.l)]
    for k in r.sample(sorted(ROUTES), 6):
        o = ROUTES[k](c)
        if o is None:
            continue
        got = [snap(o, names), extra(o)]
        if got != exp:
            a = [x for x in zip(exp[0], got[0]) if x[0] != x[1]] or [(repr(exp[1])[:200], repr(got[1])[:200])]
            mon.bad("an instant is the same however it was reached", "expected %r, observed %r" % a[0], ("%d-%d-%d %d:%d:%d" % c.x, k, repr(c.u)))
            return
        mon.count("an instant is the same however it was reached", len(names))
        mon.seen("routes", (k, c.x[1], c.u[1]))


def eqs(c):
    """(what, one way, another way): facts offered in more than one place"""
    s, l, t, e = c.s, c.l, c.l.getTime(), c.l.getEightChar()
    f, w = l.getFoto(), l.getTao()
    y, m, d = c.x[:3]
    ly, lm = LunarYear.fromYear(l.getYear()), LunarMonth.fromYm(l.getYear(), l.getMonth())
    yield "lunar month of the date", l.getDay() <= lm.getDayCount() and s.subtract(Solar.fromJulianDay(lm.getFirstJulianDay())) == l.getDay() - 1, True
    # short names speak of the day
    for g in ("Chong", "ChongGan", "ChongGanTie", "ChongShengXiao", "ChongDesc", "Sha"):
        yield "clash " + g, getattr(l, "get" + g)(), getattr(l, "getDay" + g)()
    for g in ("Xi", "YangGui", "YinGui", "Fu", "Cai"):
        yield "position " + g, getattr(l, "getPosition" + g)(), getattr(l, "getDayPosition" + g)()
        yield "description of position " + g, getattr(l, "getPosition%sDesc" % g)(), getattr(l, "getDayPosition%sDesc" % g)()
    # the hour, on the date and on the double-hour
    yield "hour pillar", (l.getTimeGan(), l.getTimeZhi(), l.getTimeInGanZhi(), l.getTimeGanIndex(), l.getTimeZhiIndex()), (t.getGan(), t.getZhi(), t.getGanZhi(), t.getGanIndex(), t.getZhiIndex())
    for a, b in (("TimeShengXiao", "ShengXiao"), ("TimeNaYin", "NaYin"), ("TimeTianShen", "TianShen"), ("TimeTianShenType", "TianShenType"), ("TimeTianShenLuck", "TianShenLuck"), ("TimeYi", "Yi"), ("TimeJi", "Ji"),
                 ("TimeXun", "Xun"), ("TimeXunKong", "XunKong"), ("TimeSha", "Sha")):
        yield "hour " + b, getattr(l, "get" + a)(), getattr(t, "get" + b)()
    for g in ("Chong", "ChongGan", "ChongGanTie", "ChongShengXiao", "ChongDesc", "PositionXi", "PositionXiDesc", "PositionYangGui", "PositionYangGuiDesc", "PositionYinGui", "PositionYinGuiDesc", "PositionFu", "PositionFuDesc", "PositionCai", "PositionCaiDesc"):
        yield "hour " + g, getattr(l, "getTime" + g)(), getattr(t, "get" + g)()
    for k in (1, 2):
        yield "hour fortune position", (l.getTimePositionFu(k), l.getTimePositionFuDesc(k)), (t.getPositionFu(k), t.getPositionFuDesc(k))
    yield "hour star", l.getTimeNineStar().getIndex(), t.getNineStar().getIndex()
    # of the thirteen double-hours of the day, that of the instant
    ts = l.getTimes()
    k = 0 if c.x[3] == 0 else (c.x[3] + 1) // 2
    yield "double-hour of the day's list", snap(ts[k]), snap(LunarTime.fromYmdHms(*c.u))
    yield "pillar in the day's list of double-hours", ts[k].getGanZhi(), l.getTimeInGanZhi()
    # the year, on the date and on the lunar year
    yield "year pillar", (l.getYearGan(), l.getYearZhi(), l.getYearInGanZhi(), l.getYearGanIndex(), l.getYearZhiIndex()), (ly.getGan(), ly.getZhi(), ly.getGanZhi(), ly.getGanIndex(), ly.getZhiIndex())
    yield "months of the year", [x.getMonth() for x in ly.getMonthsInYear()].count(l.getMonth()), 1
    yield "leap month of the year", l.getMonth() < 0, l.getMonth() < 0 and ly.getLeapMonth() == -l.getMonth() and lm.isLeap()
    yield "tai sui of the year", (l.getYearPositionTaiSui(1), l.getYearPositionTaiSuiDesc(1)), (ly.getPositionTaiSui(), ly.getPositionTaiSuiDesc())
    yield "year star", l.getYearNineStar(1).getIndex(), ly.getNineStar().getIndex()
    yield "term table", [sol(Solar.fromJulianDay(j)) for j in LunarYear.fromYear(y).getJieQiJulianDays()], [sol(z) for z in l.getJieQiTable().values()]
    yield "list of terms", list(l.getJieQiList()), list(l.getJieQiTable())
    # the chart and the date
    yield "chart year", (e.getYearGan(), e.getYearZhi(), e.getYear()), (l.getYearGanExact(), l.getYearZhiExact(), l.getYearInGanZhiExact())
    yield "chart month", (e.getMonthGan(), e.getMonthZhi(), e.getMonth()), (l.getMonthGanExact(), l.getMonthZhiExact(), l.getMonthInGanZhiExact())
    yield "chart day", (e.getDayGan(), e.getDayZhi(), e.getDay()), (l.getDayGanExact2(), l.getDayZhiExact2(), l.getDayInGanZhiExact2())
    yield "chart hour", (e.getTimeGan(), e.getTimeZhi(), e.getTime()), (l.getTimeGan(), l.getTimeZhi(), l.getTimeInGanZhi())
    yield "chart text", e.toString(), "%s %s %s %s" % (e.getYear(), e.getMonth(), e.getDay(), e.getTime())
    yield "pillars of the date", l.getBaZi(), [e.getYear(), e.getMonth(), e.getDay(), e.getTime()]
    yield "elements of the date", l.getBaZiWuXing(), [e.getYearWuXing(), e.getMonthWuXing(), e.getDayWuXing(), e.getTimeWuXing()]
    yield "sounds of the date", l.getBaZiNaYin(), [e.getYearNaYin(), e.getMonthNaYin(), e.getDayNaYin(), e.getTimeNaYin()]
    yield "gods of the stems", l.getBaZiShiShenGan(), [e.getYearShiShenGan(), e.getMonthShiShenGan(), e.getDayShiShenGan(), e.getTimeShiShenGan()]
    yield "gods of the branches", l.getBaZiShiShenZhi(), [e.getYearShiShenZhi()[0], e.getMonthShiShenZhi()[0], e.getDayShiShenZhi()[0], e.getTimeShiShenZhi()[0]]
    for g in ("Year", "Month", "Day", "Time"):
        yield "gods of the %s branch" % g, getattr(l, "getBaZiShiShen%sZhi" % g)(), getattr(e, "get%sShiShenZhi" % g)()
        p = getattr(e, "get" + g)()
        yield "decade of the chart's " + g, (getattr(e, "get%sXun" % g)(), getattr(e, "get%sXunKong" % g)()), (LunarUtil.getXun(p), LunarUtil.getXunKong(p))
        yield "sound of the chart's " + g, getattr(e, "get%sNaYin" % g)(), LunarUtil.NAYIN[p]
        yield "element of the chart's " + g, getattr(e, "get%sWuXing" % g)(), LunarUtil.WU_XING_GAN[p[0]] + LunarUtil.WU_XING_ZHI[p[1]]
        yield "stems hidden in the chart's " + g, getattr(e, "get%sHideGan" % g)(), list(LunarUtil.ZHI_HIDE_GAN[p[1]])
    # pillars in pieces and whole
    for g in ("Year", "Month", "Day", "Time"):
        for v in {"Year": ("", "ByLiChun", "Exact"), "Month": ("", "Exact"), "Day": ("", "Exact", "Exact2"), "Time": ("",)}[g]:
            a, b, p = getattr(l, "get%sGan%s" % (g, v))(), getattr(l, "get%sZhi%s" % (g, v))(), getattr(l, "get%sInGanZhi%s" % (g, v))()
            i, j = getattr(l, "get%sGanIndex%s" % (g, v))(), getattr(l, "get%sZhiIndex%s" % (g, v))()
            yield "%s pillar%s in pieces" % (g, v), (a + b, LunarUtil.GAN[i + 1], LunarUtil.ZHI[j + 1]), (p, a, b)
            yield "%s decade%s" % (g, v), (getattr(l, "get%sXun%s" % (g, v))(), getattr(l, "get%sXunKong%s" % (g, v))()), (LunarUtil.getXun(p), LunarUtil.getXunKong(p))
    for g in ("Year", "Month", "Day", "Time"):
        yield "sound of the " + g, getattr(l, "get%sNaYin" % g)(), LunarUtil.NAYIN[getattr(l, "get%sInGanZhi" % g)()]
    # positions and what they are called
    for g, ks in (("YearPositionTaiSui", (1, 2, 3)), ("MonthPositionTaiSui", (1, 2, 3)), ("DayPositionTaiSui", (1, 2, 3)), ("DayPositionFu", (1, 2)), ("TimePositionFu", (1, 2))):
        for k in ks:
            yield "description of " + g, getattr(l, "get%sDesc" % g)(k), LunarUtil.POSITION_DESC[getattr(l, "get" + g)(k)]
    for g in ("Xi", "YangGui", "YinGui", "Fu", "Cai"):
        for o, pre in ((l, "Day"), (l, "Time"), (t, ""), (ly, ""), (lm, "")):
            yield "description of a position", getattr(o, "get%sPosition%sDesc" % (pre, g))(), LunarUtil.POSITION_DESC[getattr(o, "get%sPosition%s" % (pre, g))()]
    # almanac, on the date and in the helpers
    for k in (1, 2):
        p = l.getMonthInGanZhi() if k == 1 else l.getMonthInGanZhiExact()
        yield "suitable and avoided", (l.getDayYi(k), l.getDayJi(k)), (LunarUtil.getDayYi(p, l.getDayInGanZhi()), LunarUtil.getDayJi(p, l.getDayInGanZhi()))
    yield "spirits of the day", (l.getDayJiShen(), l.getDayXiongSha()), (LunarUtil.getDayJiShen(l.getMonth(), l.getDayInGanZhi()), LunarUtil.getDayXiongSha(l.getMonth(), l.getDayInGanZhi()))
    yield "hour activities", (l.getTimeYi(), l.getTimeJi()), (LunarUtil.getTimeYi(l.getDayInGanZhiExact(), l.getTimeInGanZhi()), LunarUtil.getTimeJi(l.getDayInGanZhiExact(), l.getTimeInGanZhi()))
    yield "luck of the spirit", (l.getDayTianShenType(), l.getDayTianShenLuck()), (LunarUtil.TIAN_SHEN_TYPE[l.getDayTianShen()], LunarUtil.TIAN_SHEN_TYPE_LUCK[l.getDayTianShenType()])
    yield "mansion", (l.getXiuLuck(), l.getXiuSong(), l.getZheng(), l.getAnimal(), l.getGong(), l.getShou()), tuple(q[l.getXiu()] for q in (LunarUtil.XIU_LUCK, LunarUtil.XIU_SONG, LunarUtil.ZHENG, LunarUtil.ANIMAL, LunarUtil.GONG)) + (LunarUtil.SHOU[l.getGong()],)
    # Buddhist and Taoist dates
    for o in (f, w):
        yield "religious date", (o.getMonth(), o.getDay(), o.getMonthInChinese(), o.getDayInChinese(), plain(o.getLunar())), (l.getMonth(), l.getDay(), l.getMonthInChinese(), l.getDayInChinese(), plain(l))
    yield "Buddhist mansion", (f.getXiu(), f.getXiuLuck(), f.getXiuSong(), f.getZheng(), f.getAnimal(), f.getGong(), f.getShou()), (FotoUtil.getXiu(l.getMonth(), l.getDay()),) + tuple(q[f.getXiu()] for q in (LunarUtil.XIU_LUCK, LunarUtil.XIU_SONG, LunarUtil.ZHENG, LunarUtil.ANIMAL, LunarUtil.GONG)) + (LunarUtil.SHOU[f.getGong()],)
    # civil side: methods and helpers, units and days
    yield "leap year", s.isLeapYear(), SolarUtil.isLeapYear(y)
    yield "leap year of the unit", (SolarUtil.getDaysOfYear(y), SolarUtil.getDaysInYear(y, 12, 31)), (len([1 for q in SolarYear.fromYear(y).getMonths() for _ in q.getDays()]),) * 2
    yield "days of the month", SolarUtil.getDaysOfMonth(y, m), len(SolarMonth.fromYm(y, m).getDays())
    yield "weekday", (s.getWeek(), s.getWeekInChinese()), (l.getWeek(), l.getWeekInChinese())
    yield "place in the year", SolarUtil.getDaysInYear(y, m, d) - 1, s.subtract(Solar.fromYmd(y, 1, 1))
    yield "distance", SolarUtil.getDaysBetween(y, 1, 1, y, m, d), s.subtract(Solar.fromYmd(y, 1, 1))
    yield "step by days", sol(s.next(c.k)), sol(s.nextDay(c.k))
    for st in (0, 1, c.k % 7):
        yield "weeks of the month", SolarUtil.getWeeksOfMonth(y, m, st), len(SolarMonth.fromYm(y, m).getWeeks(st))
        q = SolarWeek.fromYmd(y, m, d, st)
        yield "week lists its day", [sol(z)[:3] for z in q.getDays()].count((y, m, d)), 1
        yield "week begins at its first day", sol(q.getFirstDay()), sol(q.getDays()[0])
        yield "week in the month", [(z.getYear(), z.getMonth(), z.getDay()) for z in q.getDaysInMonth()], [sol(z)[:3] for z in q.getDays() if sol(z)[:2] == (y, m)]
    yield "season and half-year of the month", [(z.getYear(), z.getMonth()) for z in SolarSeason.fromYm(y, m).getMonths() + SolarHalfYear.fromYm(y, m).getMonths()].count((y, m)), 2
    # terms
    j = l.getCurrentJieQi()
    yield "term of the day", l.getJieQi(), "" if j is None else j.getName()
    yield "term of the day, by kind", (l.getJie(), l.getQi()), tuple("" if z is None else z.getName() for z in (l.getCurrentJie(), l.getCurrentQi()))
    yield "term of the day is a jie or a qi", l.getJie() + l.getQi(), l.getJieQi()
    for whole in (False, True):
        a, b, k = l.getPrevJie(whole), l.getPrevQi(whole), l.getPrevJieQi(whole)
        yield "previous term", (k.getName(), sol(k.getSolar())), max(((z.getName(), sol(z.getSolar())) for z in (a, b)), key=lambda z: z[1])
        a, b, k = l.getNextJie(whole), l.getNextQi(whole), l.getNextJieQi(whole)
        yield "next term", (k.getName(), sol(k.getSolar())), min(((z.getName(), sol(z.getSolar())) for z in (a, b)), key=lambda z: z[1])
    # holidays
    h = HolidayUtil.getHoliday("%d-%02d-%02d" % (y, m, d)) if y > 999 else None
    if y > 999:
        yield "holiday by text and by numbers", plain(h), plain(HolidayUtil.getHoliday(y, m, d))
        yield "holiday in its month", [z.getDay() for z in HolidayUtil.getHolidays(y, m)].count("%04d-%02d-%02d" % (y, m, d)), 0 if h is None else 1


def c33_facts(mon, n, sod, seed):
    r = random.Random(seed)
    c = ctx(n, sod, r)
    for what, a, b in eqs(c):
        mon.eq("facts offered in two places agree", a, b, "%d-%d-%d %d:%d:%d" % c.x, what)
    mon.seen("kinds of day", (c.x[1], c.u[1], c.x[3], c.l.getJieQi() != ""))


def c33_civil(mon, y, st):
    """methods, helpers, lists and constructors of the civil side, at the ends of every month"""
    what = "civil facts offered in two places agree"
    ms = SolarYear.fromYear(y).getMonths()
    mon.eq(what, [(m.getYear(), m.getMonth()) for m in ms], [(y, k) for k in range(1, 13)], y, "months")
    mon.eq(what, sum(len(m.getDays()) for m in ms), SolarUtil.getDaysOfYear(y), y, "days of the year")
    for m in ms:
        k = m.getMonth()
        d = m.getDays()
        x, z = sol(d[0])[:3], sol(d[-1])[:3]
        mon.eq(what, (len(d), d[-1].subtract(d[0]) + 1), (SolarUtil.getDaysOfMonth(y, k),) * 2, y, k, "days of the month")
        mon.eq(what, SolarUtil.getDaysInYear(*z), SolarUtil.getDaysBetween(y, 1, 1, *z) + 1, y, k, "place in the year")
        for q in ((st + k) % 7, (st + 3 * k + 1) % 7):
            w = m.getWeeks(q)
            mon.eq(what, (SolarUtil.getWeeksOfMonth(y, k, q), SolarWeek.fromYmd(z[0], z[1], z[2], q).getIndex()), (len(w), len(w)), y, k, q, "weeks of the month")
        for t in (d[0], d[-1], d[-2]):
            a = sol(t)
            mon.eq(what, t.isLeapYear(), SolarUtil.isLeapYear(y), y, k, "leap year")
            mon.eq(what, (sol(Solar.fromYmd(*a[:3])), sol(Solar.fromJulianDay(t.getJulianDay()))), (a, a), y, k, "constructors")
            try:
                e = datetime.datetime(a[0], a[1], a[2], 7, 8, 9)
            except ValueError:
                continue
            mon.eq(what, sol(Solar.fromDate(e)), a[:3] + (7, 8, 9), y, k, "datetime")
            mon.eq(what, plain(SolarWeek.fromDate(e, st)), plain(SolarWeek.fromYmd(a[0], a[1], a[2], st)), y, k, "week of a datetime")
            if (a[1] + y) % 4 == 0:
                mon.eq(what, plain(Lunar.fromDate(e)), plain(Solar.fromYmdHms(*(a[:3] + (7, 8, 9))).getLunar()), y, k, "lunar date of a datetime")
    mon.seen("years", y)


def c33_sweep(mon, rng, a, b, k):
    memo()
    cl = cal()
    for y in range(a, b + 1):
        mon.run(c33_civil, y, rng.randrange(7))
        for i in range(k):
            u = rng.random()
            n, sod = rng.randint(jdn(y, 1, 1), jdn(y, 12, 31)), rnd_sod(rng)
            if u < 0.25:        # the day of a term, around its instant
                t = cl.T[24 * y + rng.choice((2, rng.randrange(24)))]
                n, sod = (t // 86400, min(86399, max(0, t % 86400 + rng.choice((-1, 1)) * rng.choice((5, 600, 7200)))))
            elif u < 0.4:       # between the two new years
                n = jdn(y, 1, 19) + rng.randrange(35)
            elif u < 0.5:       # a leap month, or the days about its ends
                lm = cl.leap_month(y)
                if lm:
                    q = cl.bym[(y, -lm)]
                    n = q[3] + rng.choice((-1, 0, rng.randrange(29), q[2] - 1, q[2]))
            elif u < 0.6:
                sod = rng.choice((rng.randint(82800, 86399), rng.randint(0, 3599)))
            if n < cl.lo or n > cl.hi - 400:
                continue
            s = rng.randrange(1 << 30)
            if i % 2 == 0:
                mon.run(c33_facts, n, sod, s)
            if i % 2 or k == 1 and y % 2:
                mon.run(c33_routes, n, sod, s)
    mon.sample("routes", sorted(ROUTES)[:4])


def c33_plan(tier, seed):
    return [("c33_sweep", x + (1 if tier == "quick" else 10,)) for x in year_blocks(40)]
