# -*- coding: utf-8 -*-
"""C17 nine stars, C18 day and hour attributes, C19 suitable/avoid lists and spirits, C27 double-hours."""
from .lib import *
from .model import *
from . import tables as tb
from .p_pillars import S, ST, xun, kong, NAYIN

LU = tb.LU
NS = tb.T["NineStar"]
NS_GET = (("Number", "NUMBER"), ("Color", "COLOR"), ("WuXing", "WU_XING"), ("Position", "POSITION"), ("NameInXuanKong", "NAME_XUAN_KONG"), ("NameInBeiDou", "NAME_BEI_DOU"),
          ("NameInQiMen", "NAME_QI_MEN"), ("NameInTaiYi", "NAME_TAI_YI"), ("LuckInQiMen", "LUCK_QI_MEN"), ("LuckInXuanKong", "LUCK_XUAN_KONG"), ("YinYangInQiMen", "YIN_YANG_QI_MEN"),
          ("TypeInTaiYi", "TYPE_TAI_YI"), ("BaMenInQiMen", "BA_MEN_QI_MEN"), ("SongInTaiYi", "SONG_TAI_YI"))


# ---- C17 ----------------------------------------------------------------------------------------------------
def near60(n):
    """the 甲子 day nearest to day n"""
    i = day_gz(n)
    return n + 60 - i if i > 29 else n - i


def day_star(n):
    c = cal()
    y = ymd(n)[0]
    a, s, b = near60(c.TD[24 * y]), near60(c.TD[24 * y + 12]), near60(c.TD[24 * y + 24])
    if n < a:
        return (8 + a - n) % 9
    if n < s:
        return (n - a) % 9
    if n < b:
        return 8 - (n - s) % 9
    return (n - b) % 9


def time_star(m):
    c = cal()
    n = m.n
    asc = c.TD[24 * m.y] <= n < c.TD[24 * m.y + 12] or n >= c.TD[24 * m.y + 24]
    k = m.dg % 3                # 子午卯酉 / 丑未辰戌 / 寅申巳亥
    if asc:
        return ((0, 3, 6)[k] + m.tz) % 9
    return ((8, 5, 2)[k] - m.tz) % 9


def month_star(yz, mz):
    return (7 - 3 * (yz % 3) - (mz - 2) % 12) % 9


def spring(g):
    return cal()._ym(g)[0]


def star(mon, what, o, i, *x):
    if mon.eq(what, o.getIndex(), i, *x):
        mon.eq("text of the star", o.toString(), NS["NUMBER"][i] + NS["COLOR"][i] + NS["WU_XING"][i] + NS["NAME_BEI_DOU"][i], *x)


def c17_case(mon, n, sod):
    m = M(n, sod)
    x = m.ctx()
    l = S(n, sod).getLunar()
    star(mon, "year star by lunar year", l.getYearNineStar(1), (1864 - m.ly) % 9, x)
    star(mon, "year star by start of spring", l.getYearNineStar(2), (1864 - spring(m.gd)) % 9, x)
    star(mon, "year star default", l.getYearNineStar(), (1864 - spring(m.gd)) % 9, x)
    star(mon, "month star by lunar year", l.getMonthNineStar(1), month_star(m.yg % 12, m.mg % 12), x)
    star(mon, "month star by start of spring", l.getMonthNineStar(2), month_star(m.ygl % 12, m.mg % 12), x)
    star(mon, "month star default", l.getMonthNineStar(), month_star(m.ygl % 12, m.mg % 12), x)
    if not m.fuzzy:
        star(mon, "year star by instant", l.getYearNineStar(3), (1864 - spring(m.gx)) % 9, x)
        star(mon, "month star by instant", l.getMonthNineStar(3), month_star(m.ygx % 12, m.mgx % 12), x)
    star(mon, "day star", l.getDayNineStar(), day_star(n), x)
    star(mon, "time star", l.getTimeNineStar(), time_star(m), x)
    star(mon, "time star of the double-hour", l.getTime().getNineStar(), time_star(m), x)
    mon.seen("day stars", (m.dg, day_star(n)))
    mon.seen("time stars", (m.dg % 12, m.tz, time_star(m)))
    mon.seen("year and month stars", (spring(m.gd) % 180, m.mg % 12))


def c17_newyear(mon, y):
    """the day star moves by one, up or down, from 31 December to 1 January"""
    n = jdn(y, 1, 1)
    a, b = S(n - 1).getLunar().getDayNineStar().getIndex(), S(n).getLunar().getDayNineStar().getIndex()
    mon.ok("day star runs on over New Year", (a - b) % 9 in (1, 8) or near60(cal().TD[24 * y]) == n, y, a, b)


def c17_object(mon, i):
    o = NineStar.fromIndex(i)
    mon.eq("star index", o.getIndex(), i, i)
    for g, t in NS_GET:
        mon.eq("star attribute", getattr(o, "get" + g)(), NS[t][i], i, g)
    mon.eq("star attribute", o.getPositionDesc(), tb.DESC[NS["POSITION"][i]], i, "PositionDesc")
    mon.eq("text of the star", (o.toString(), str(o)), (NS["NUMBER"][i] + NS["COLOR"][i] + NS["WU_XING"][i] + NS["NAME_BEI_DOU"][i],) * 2, i)
    bm = NS["BA_MEN_QI_MEN"][i]
    mon.eq("full text of the star", o.toFullString(), "%s%s%s %s(%s) %s 玄空[%s %s] 奇门[%s %s%s %s] 太乙[%s %s]" % (
        NS["NUMBER"][i], NS["COLOR"][i], NS["WU_XING"][i], NS["POSITION"][i], tb.DESC[NS["POSITION"][i]], NS["NAME_BEI_DOU"][i],
        NS["NAME_XUAN_KONG"][i], NS["LUCK_XUAN_KONG"][i], NS["NAME_QI_MEN"][i], NS["LUCK_QI_MEN"][i], " " + bm + "门" if bm else "", NS["YIN_YANG_QI_MEN"][i],
        NS["NAME_TAI_YI"][i], NS["TYPE_TAI_YI"][i]), i)


def turn_days(y, rng):
    c = cal()
    out = [jdn(y, 1, 1), jdn(y, 12, 31)]
    for g in (24 * y, 24 * y + 12, 24 * y + 24):
        out += [near60(c.TD[g]) + rng.randint(-1, 1), c.TD[g] + rng.randint(-1, 1)]
    out.append(c.TD[24 * y + 3] + rng.randint(-1, 1))
    return out


def c17_sweep(mon, rng, a, b, k):
    memo()
    for i in range(9):
        mon.run(c17_object, i)
    for y in range(a, b + 1):
        ds = turn_days(y, rng)
        ds += [rng.randint(jdn(y, 1, 1), jdn(y, 12, 31)) for _ in range(k)]
        if k > 3:
            ds += turn_days(y, rng) + turn_days(y, rng)
        for n in ds:
            if ymd(n)[0] == y:
                mon.run(c17_case, n, rnd_sod(rng))
        if y > 1:
            mon.run(c17_newyear, y)
    mon.sample("stars", M(n).ctx(), day_star(n))


def c17_plan(tier, seed):
    return [("c17_sweep", x + (2 if tier == "quick" else 25,)) for x in year_blocks(40)]


# ---- C18 ----------------------------------------------------------------------------------------------------
YUE = ("", "朔", "既朔", "蛾眉新", "蛾眉新", "蛾眉", "夕", "上弦", "上弦", "九夜", "宵", "宵", "宵", "渐盈凸", "小望", "望", "既望", "立待", "居待", "寝待", "更待", "渐亏凸", "下弦", "下弦", "有明", "有明", "蛾眉残", "蛾眉残", "残", "晓", "晦")
SEASON = ("", "孟春", "仲春", "季春", "孟夏", "仲夏", "季夏", "孟秋", "仲秋", "季秋", "孟冬", "仲冬", "季冬")
LIUYAO = ("先胜", "友引", "先负", "佛灭", "大安", "赤口")
XIU28 = "角亢氐房心尾箕斗牛女虚危室壁奎娄胃昴毕觜参井鬼柳星张翼轸"
ANI28 = "蛟龙貉兔狐虎豹獬牛蝠鼠燕猪獝狼狗彘鸡乌猴猿犴羊獐马鹿蛇蚓"
ZHENG7 = "木金土日月火水"
CHONG_GAN = "戊己庚辛壬癸甲乙丙丁"
CHONG_TIE = "己戊辛庚癸壬乙甲丁丙"
SHA3 = "南东北西"
ZX = "建除满平定执破危成收开闭"
TS = ("青龙", "明堂", "天刑", "朱雀", "金匮", "天德", "白虎", "玉堂", "天牢", "玄武", "司命", "勾陈")
TS_GOOD = {0, 1, 4, 5, 7, 10}
LU_GAN = "寅卯巳午巳午申酉亥子"


def tian_shen(outer, inner):
    """outer: branch of the month (or day), inner: branch of the day (or hour)"""
    i = (inner + (4, 2, 0, 10, 8, 6)[outer % 6]) % 12
    good = i in TS_GOOD
    return TS[i], "黄道" if good else "黑道", "吉" if good else "凶"


def lu(i):
    """日禄"""
    g, z = i % 10, i % 12
    s = LU_GAN[g] + "命互禄"
    p = "".join(GAN[k] for k in range(10) if LU_GAN[k] == ZHI[z])
    if p:
        s += " " + ",".join(p) + "命进禄"
    return s


def xiu_index(n):
    return (n + 11) % 28


def tai_sui_day(i, yz):
    """day Tai Sui: the six days after each 甲子, 丙子, 戊子, 庚子, 壬子 wander, otherwise the year's position"""
    return "震离中兑坎"[i // 12] if i % 12 < 6 else tb.SUI[yz]


def tai_sui_month(i):
    k = (i % 12 - 2) % 4
    return "艮" if k == 0 else "坤" if k == 2 else "巽" if k == 3 else tb.GANPOS[i % 10]


def chong(i):
    z = (i % 12 + 6) % 12
    g = CHONG_GAN[i % 10]
    return (ZHI[z], g, CHONG_TIE[i % 10], SX[z], "(%s%s)%s" % (g, ZHI[z], SX[z]), SHA3[i % 12 % 4])


CH = ("Chong", "ChongGan", "ChongGanTie", "ChongShengXiao", "ChongDesc", "Sha")


def c18_case(mon, n, sod):
    m = M(n, sod)
    x = m.ctx()
    l = S(n, sod).getLunar()

    def q(what, name, exp, *a):
        mon.eq(what, getattr(l, "get" + name)(*a), exp, x, name, *a)
    for pre, g in (("Position", m.dg), ("DayPosition", m.dg), ("TimePosition", m.tg)):
        for nm, a, e in tb.five_positions(g % 10, pre):
            if pre == "Position" and a:
                continue
            q("positions of the five spirits", nm, e, *a)
    for pre, i in (("", m.dg), ("Day", m.dg), ("Time", m.tg)):
        mon.eq("clash and baleful direction", tuple(getattr(l, "get" + pre + k)() for k in CH), chong(i), x, pre)
    q("taboo of the stem", "PengZuGan", LU["PENG_ZU_GAN"][m.dg % 10 + 1])
    q("taboo of the branch", "PengZuZhi", LU["PENG_ZU_ZHI"][m.dg % 12 + 1])
    for sect, y, e in ((1, m.yg, m.mg), (2, m.ygl, m.mg), (3, m.ygx, m.mgx)):
        if sect == 3 and m.fuzzy:
            continue
        for a in ((sect,), ()) if sect == 2 else ((sect,),):
            q("year Tai Sui", "YearPositionTaiSui", tb.SUI[y % 12], *a)
            q("year Tai Sui", "YearPositionTaiSuiDesc", tb.DESC[tb.SUI[y % 12]], *a)
            q("month Tai Sui", "MonthPositionTaiSui", tai_sui_month(e), *a)
            q("month Tai Sui", "MonthPositionTaiSuiDesc", tb.DESC[tai_sui_month(e)], *a)
            q("day Tai Sui", "DayPositionTaiSui", tai_sui_day(m.dg, y % 12), *a)
            q("day Tai Sui", "DayPositionTaiSuiDesc", tb.DESC[tai_sui_day(m.dg, y % 12)], *a)
    i = xiu_index(n)
    xi = XIU28[i]
    gong = "东北西南"[i // 7]
    mon.eq("lunar mansion", (l.getXiu(), l.getZheng(), l.getAnimal(), l.getGong(), l.getShou()), (xi, ZHENG7[i % 7], ANI28[i], gong, {"东": "青龙", "北": "玄武", "西": "白虎", "南": "朱雀"}[gong]), x)
    mon.eq("fortune of the mansion", (l.getXiuLuck(), l.getXiuSong()), (LU["XIU_LUCK"][xi], LU["XIU_SONG"][xi]), x)
    mon.eq("day officer", l.getZhiXing(), ZX[(m.dg - m.mg) % 12], x)
    mon.eq("day spirit", (l.getDayTianShen(), l.getDayTianShenType(), l.getDayTianShenLuck()), tian_shen(m.mg % 12, m.dg % 12), x)
    mon.eq("hour spirit", (l.getTimeTianShen(), l.getTimeTianShenType(), l.getTimeTianShenLuck()), tian_shen(m.dg1 % 12, m.tz), x)
    q("foetal god of the day", "DayPositionTai", LU["POSITION_TAI_DAY"][m.dg])
    q("foetal god of the month", "MonthPositionTai", LU["POSITION_TAI_MONTH"][m.lm - 1] if m.lm > 0 else "")
    q("six days", "LiuYao", LIUYAO[(abs(m.lm) + m.ld - 2) % 6])
    q("moon phase", "YueXiang", YUE[m.ld])
    q("day prosperity", "DayLu", lu(m.dg))
    q("season", "Season", SEASON[abs(m.lm)])
    mon.eq("weekday of a lunar date", (l.getWeek(), l.getWeekInChinese()), (m.week, "日一二三四五六"[m.week]), x)
    mon.seen("day sign and month branch", (m.dg, m.mg % 12))
    mon.seen("mansions", i)
    mon.seen("hours", (m.dg1 % 12, m.tz, m.tg % 10))
    mon.seen("lunar day", (m.lm, m.ld))


def c18_sweep(mon, rng, a, b, k):
    memo()
    c = cal()
    for y in range(a, b + 1):
        ds = [rng.randint(jdn(y, 1, 1), jdn(y, 12, 31)) for _ in range(k)] + [c.TD[24 * y + 2 * rng.randint(1, 12) - 1] + rng.randint(-1, 1), c.TD[24 * y + 3] + rng.randint(-1, 1)]
        if rng.random() < 0.4:
            ds += [rng.choice((jdn(y, 1, 1), jdn(y, 12, 31)))]
        lp = c.leap_month(y) if y in c.years else 0
        if lp:
            ds.append(c.lunar_jdn(y, -lp, rng.randint(1, 29)))
        t = c.months[min(c.midx(ds[0]), len(c.months) - 1)]
        ds.append(t[3] + t[2] - 1)
        for n in ds:
            if c.lo <= n <= c.hi:
                mon.run(c18_case, n, rnd_sod(rng))
    mon.sample("day", M(n).ctx(), JZ[M(n).dg], XIU28[xiu_index(n)])


def c18_block(mon, rng, y):
    """60 consecutive days with every double-hour, so that every sign meets every hour"""
    memo()
    n0 = rng.randint(jdn(y, 1, 1), jdn(y, 11, 1))
    for n in range(n0, n0 + 60):
        for h in range(0, 24, 2):
            mon.run(c18_case, n, h * 3600 + rng.randrange(3600))
        mon.run(c18_case, n, 23 * 3600 + rng.randrange(3600))


def c18_plan(tier, seed):
    q = tier == "quick"
    return [("c18_sweep", x + (3 if q else 12,)) for x in year_blocks(40)] + [("c18_block", (y,)) for y in ((1582, 2024) if q else (5, 239, 700, 1200, 1582, 1900, 1985, 2023, 2024, 2033, 5000, 9999))]


# ---- C19 ----------------------------------------------------------------------------------------------------
def sp(s):
    return s.split(" ")


TT = tb.T


def c19_tables(mon, i):
    for j in range(60):
        mon.eq("day lists of every month and day sign", (LunarUtil.getDayYi(JZ[i], JZ[j]), LunarUtil.getDayJi(JZ[i], JZ[j])), (sp(TT["dayYi"][i][j]), sp(TT["dayJi"][i][j])), JZ[i], JZ[j])
        mon.eq("hour lists of every day and hour sign", (LunarUtil.getTimeYi(JZ[i], JZ[j]), LunarUtil.getTimeJi(JZ[i], JZ[j])), (sp(TT["timeYi"][i][j]), sp(TT["timeJi"][i][j])), JZ[i], JZ[j])
        mon.seen("sign pairs", (i, j))
    for mth in range(1, 13):
        for s in (mth, -mth):
            mon.eq("spirits of every month and day sign", (LunarUtil.getDayJiShen(s, JZ[i]), LunarUtil.getDayXiongSha(s, JZ[i])), (sp(TT["jiShen"][mth - 1][i]), sp(TT["xiongSha"][mth - 1][i])), s, JZ[i])
    mon.eq("names are found in their lists", (LunarUtil.find(GAN[i % 10], LunarUtil.GAN, -1), LunarUtil.find(ZHI[i % 12], LunarUtil.ZHI, 0), LunarUtil.find(JZ[i], LunarUtil.JIA_ZI, 5), LunarUtil.find("", LunarUtil.GAN[1:], 0)),
           (i % 10, i % 12 + 1, i + 5, -1), JZ[i])
    mon.eq("place in the cycle", (LunarUtil.getJiaZiIndex(JZ[i]), LunarUtil.getXun(JZ[i]), LunarUtil.getXunKong(JZ[i]), LunarUtil.getXunIndex(JZ[i])), (i, xun(i), kong(i), i // 10), JZ[i])


def c19_case(mon, n, sod):
    m = M(n, sod)
    x = m.ctx()
    l = S(n, sod).getLunar()
    for s, mg in ((1, m.mg), (2, m.mgx), (None, m.mg)):
        if s == 2 and m.fuzzy:
            continue
        a = () if s is None else (s,)
        mon.eq("suitable and avoid of the day", (l.getDayYi(*a), l.getDayJi(*a)), (sp(TT["dayYi"][mg][m.dg]), sp(TT["dayJi"][mg][m.dg])), x, s)
    e = (sp(TT["timeYi"][m.dg1][m.tg]), sp(TT["timeJi"][m.dg1][m.tg]))
    mon.eq("suitable and avoid of the hour", (l.getTimeYi(), l.getTimeJi()), e, x)
    t = l.getTime()
    mon.eq("suitable and avoid of the double-hour object", (t.getYi(), t.getJi()), e, x)
    k = abs(m.lm) - 1
    mon.eq("good and bad spirits of the day", (l.getDayJiShen(), l.getDayXiongSha()), (sp(TT["jiShen"][k][m.dg]), sp(TT["xiongSha"][k][m.dg])), x)
    mon.seen("days asked", (m.mg, m.dg))
    mon.seen("hours asked", (m.dg1, m.tz))


def c19_table_shard(mon, rng, a, b):
    for i in range(a, b):
        mon.run(c19_tables, i)


def c19_sweep(mon, rng, a, b, k):
    memo()
    c = cal()
    for y in range(a, b + 1):
        ds = [rng.randint(jdn(y, 1, 1), jdn(y, 12, 31)) for _ in range(k)] + [c.TD[24 * y + 2 * rng.randint(1, 12) - 1] + rng.randint(-1, 1)]
        lp = c.leap_month(y) if y in c.years else 0
        if lp:
            ds.append(c.lunar_jdn(y, -lp, rng.randint(1, 29)))
        for n in ds:
            if c.lo <= n <= c.hi:
                mon.run(c19_case, n, rnd_sod(rng))
    mon.sample("day", M(n).ctx(), JZ[M(n).mg], JZ[M(n).dg])


def c19_plan(tier, seed):
    return [("c19_table_shard", (i, i + 4)) for i in range(0, 60, 4)] + [("c19_sweep", x + (3 if tier == "quick" else 30,)) for x in year_blocks(60)]


# ---- C27 ----------------------------------------------------------------------------------------------------
def c27_one(mon, l, t, m, x, obj):
    """double-hour object t for the instant m"""
    i = m.tg
    mon.eq("pillar of the double-hour", (t.getGanZhi(), t.getGan(), t.getZhi(), t.getGanIndex(), t.getZhiIndex(), t.toString(), str(t)), (JZ[i], GAN[i % 10], ZHI[i % 12], i % 10, i % 12, JZ[i], JZ[i]), x, obj)
    mon.eq("animal, element and void of the double-hour", (t.getShengXiao(), t.getNaYin(), t.getXun(), t.getXunKong()), (SX[i % 12], NAYIN[JZ[i]], xun(i), kong(i)), x, obj)
    for nm, a, e in tb.five_positions(i % 10, "Position"):
        mon.eq("positions of the double-hour", getattr(t, "get" + nm)(*a), e, x, obj, nm)
    mon.eq("clash of the double-hour", tuple(getattr(t, "get" + k)() for k in CH), chong(i), x, obj)
    mon.eq("spirit of the double-hour", (t.getTianShen(), t.getTianShenType(), t.getTianShenLuck()), tian_shen(m.dg1 % 12, m.tz), x, obj)
    mon.eq("lists of the double-hour", (t.getYi(), t.getJi()), (sp(TT["timeYi"][m.dg1][i]), sp(TT["timeJi"][m.dg1][i])), x, obj)
    star(mon, "star of the double-hour", t.getNineStar(), time_star(m), x, obj)
    if m.h == 0:
        e = ("00:00", "00:59")
    elif m.h == 23:
        e = ("23:00", "23:59")
    else:
        a = (m.h + 1) // 2 * 2 - 1
        e = ("%02d:00" % a, "%02d:59" % (a + 1))
    mon.eq("first and last minute of the double-hour", (t.getMinHm(), t.getMaxHm()), e, x, obj)


def c27_case(mon, n, sod, whole):
    m = M(n, sod)
    x = m.ctx()
    l = S(n, sod).getLunar()
    c27_one(mon, l, l.getTime(), m, x, "getTime")
    c27_one(mon, l, LunarTime.fromYmdHms(m.ly, m.lm, m.ld, m.h, m.mi, m.s), m, x, "fromYmdHms")
    mon.seen("double-hours", (m.dg1, m.tz))
    if whole:
        ts = l.getTimes()
        if mon.eq("a day has thirteen double-hour entries", len(ts), 13, x):
            for k, t in enumerate(ts):
                c27_one(mon, l, t, M(n, 0 if k == 0 else (2 * k - 1) * 3600), x, k)
            mon.eq("entries follow each other through the day", [t.getMinHm() for t in ts], ["00:00"] + ["%02d:00" % h for h in range(1, 24, 2)], x)
            mon.eq("each entry ends where the next begins", [t.getMaxHm() for t in ts], ["00:59"] + ["%02d:59" % h for h in range(2, 23, 2)] + ["23:59"], x)


def c27_hm(mon, h):
    for mi in range(60):
        hm = "%02d:%02d" % (h, mi)
        mon.eq("branch of a clock time", (LunarUtil.getTimeZhiIndex(hm), LunarUtil.convertTime(hm), LunarUtil.getTimeZhiIndex(hm + ":59"), LunarUtil.convertTime(hm + ":00")),
               ((h + 1) // 2 % 12, ZHI[(h + 1) // 2 % 12]) * 2, hm)


def c27_sweep(mon, rng, a, b, k):
    memo()
    for h in range(24):
        mon.run(c27_hm, h)
    for y in range(a, b + 1):
        for _ in range(k):
            n = rng.choice((rng.randint(jdn(y, 1, 1), jdn(y, 12, 31)),) * 4 + (jdn(y, 1, 1), jdn(y, 12, 31), cal().TD[24 * y + 12] + rng.randint(-1, 1), cal().TD[24 * y + 24] + rng.randint(-1, 1)))
            mon.run(c27_case, n, rnd_sod(rng), rng.random() < 0.05)
    mon.sample("double-hour", M(n).ctx())


def c27_plan(tier, seed):
    return [("c27_sweep", x + (3 if tier == "quick" else 20,)) for x in year_blocks(50)]
