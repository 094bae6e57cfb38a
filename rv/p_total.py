# -*- coding: utf-8 -*-
"""C28 every published attribute can be read and is complete; texts are made of the attributes."""
import re
from .lib import *
from .model import *
from . import api, tables as tb
from .api import API, sig
from .p_pillars import S, xun, kong, NAYIN
from .p_fest import solar_fest, lunar_fest, lunar_other, xing_zuo, digits, month_cn, LU, SU
from .p_almanac import chong, XIU28, ZHENG7, ANI28, xiu_index
from .golden import TERMS

JUNK = re.compile(r"None|%[sd]|\{\}|<|object at|\[\]|\(\)")


def parts(s):
    """the set of kinds a signature allows"""
    return set(s[5:-1].split("|")) - {""} if s.startswith(("list[", "dict[")) else {s}


def c28_objects(mon, n, sod, seed):
    import random
    r = random.Random(seed)
    x = M(n, sod).ctx()
    for o in api.objects(n, sod, r):
        k = type(o).__name__
        if k not in API:
            mon.ok("known kind of object", False, x, k)
            continue
        for g, allowed in API[k].items():
            v = getattr(o, g)()
            s = sig(v) if v != "" else "empty"
            if s not in allowed:
                base = s.split("[")[0]
                al = [a for a in allowed if a.split("[")[0] == base]
                ok = bool(al) and parts(s) <= set().union(*(parts(a) for a in al)) and ("[" in s)
                mon.ok("attribute has a value of its kind", ok, x, k, g, s, repr(v)[:80])
            else:
                mon.count("attribute has a value of its kind")
            if isinstance(v, str):
                if JUNK.search(v):
                    mon.ok("text is complete", False, x, k, g, v[:120])
                else:
                    mon.count("text is complete")
        if "toString" in API[k]:
            mon.eq("str() is the text of the object", str(o), o.toString(), x, k)
        mon.seen("kinds of object", k)


def hm(sod):
    return sod // 3600, sod % 3600 // 60, sod % 60


def c28_texts(mon, n, sod, w, full):
    m = M(n, sod)
    x = m.ctx()
    s = S(n, sod)
    yd = "%04d-%02d-%02d" % (m.y, m.m, m.d)
    mon.eq("civil date texts", (s.toYmd(), s.toString(), s.toYmdHms(), s.getWeekInChinese()), (yd, yd, x, "日一二三四五六"[m.week]), x)
    e = x + (" 闰年" if leap(m.y) else "") + " 星期" + "日一二三四五六"[m.week]
    for f in solar_fest(m) + SU["OTHER_FESTIVAL"].get("%d-%d" % (m.m, m.d), []):
        e += " (" + f + ")"
    mon.eq("full civil text", s.toFullString(), e + " " + xing_zuo(m.m, m.d) + "座", x)
    l = s.getLunar()
    t = "%s年%s月%s" % (digits(m.ly), month_cn(m.lm), LU["DAY"][m.ld])
    mon.eq("lunar date texts", (l.getYearInChinese(), l.getMonthInChinese(), l.getDayInChinese(), l.toString(), l.getWeekInChinese()),
           (digits(m.ly), month_cn(m.lm), LU["DAY"][m.ld], t, "日一二三四五六"[m.week]), x)
    if full:
        e = t
        for i, u in ((m.yg, "年"), (m.mg, "月"), (m.dg, "日")):
            e += " %s(%s)%s" % (JZ[i], SX[i % 12], u)
        e += " %s(%s)时" % (ZHI[m.tz], SX[m.tz])
        e += " 纳音[%s]" % " ".join(NAYIN[JZ[i]] for i in (m.yg, m.mg, m.dg, m.tg))
        e += " 星期" + "日一二三四五六"[m.week]
        for f in lunar_fest(m) + lunar_other(m):
            e += " (%s)" % f
        if cal().TD[m.gd] == n:
            e += " [%s]" % TERMS[m.gd % 24]
        i = xiu_index(n)
        go = "东北西南"[i // 7]
        e += " %s方%s" % (go, {"东": "青龙", "北": "玄武", "西": "白虎", "南": "朱雀"}[go])
        e += " 星宿[%s%s%s](%s)" % (XIU28[i], ZHENG7[i % 7], ANI28[i], LU["XIU_LUCK"][XIU28[i]])
        e += " 彭祖百忌[%s %s]" % (LU["PENG_ZU_GAN"][m.dg % 10 + 1], LU["PENG_ZU_ZHI"][m.dg % 12 + 1])
        p = dict((k, v) for k, a, v in tb.five_positions(m.dg % 10, "") if not a)
        for nm, k in (("喜神", "Xi"), ("阳贵神", "YangGui"), ("阴贵神", "YinGui"), ("福神", "Fu"), ("财神", "Cai")):
            e += " %s方位[%s](%s)" % (nm, p[k], p[k + "Desc"])
        c = chong(m.dg)
        e += " 冲[%s] 煞[%s]" % (c[4], c[5])
        mon.eq("full lunar text", l.toFullString(), e, x)
    ly = LunarYear.fromYear(m.ly)
    mon.eq("lunar year texts", (ly.toString(), str(ly), ly.toFullString()), (str(m.ly), str(m.ly), "%d年" % m.ly), x)
    lm = ly.getMonth(m.lm)
    e = "%d年%s月(%d天)" % (m.ly, month_cn(m.lm), m.lmt[2])
    mon.eq("lunar month text", (lm.toString(), str(lm)), (e, e), x)
    wk = SolarWeek.fromYmd(m.y, m.m, m.d, w)
    off = (m.week - w) % 7
    k = 1
    first = (week(jdn(m.y, m.m, 1)) - w) % 7
    k = (n - jdn(m.y, m.m, 1) + first) // 7 + 1
    mon.eq("week texts", (wk.toString(), str(wk), wk.toFullString()), ("%d.%d.%d" % (m.y, m.m, k), "%d.%d.%d" % (m.y, m.m, k), "%d年%d月第%d周" % (m.y, m.m, k)), x, w)
    q, h = (m.m + 2) // 3, (m.m + 5) // 6
    for o, a, b in ((SolarMonth.fromYm(m.y, m.m), "%d-%d" % (m.y, m.m), "%d年%d月" % (m.y, m.m)), (SolarSeason.fromYm(m.y, m.m), "%d.%d" % (m.y, q), "%d年%d季度" % (m.y, q)),
                    (SolarHalfYear.fromYm(m.y, m.m), "%d.%d" % (m.y, h), "%d年%s半年" % (m.y, "上下"[h - 1])), (SolarYear.fromYear(m.y), str(m.y), "%d年" % m.y)):
        mon.eq("texts of months, quarters, half-years and years", (o.toString(), str(o), o.toFullString()), (a, a, b), x)
    for o in (l.getShuJiu(), l.getFu()):
        if o is not None:
            mon.eq("texts of counted days", (o.toString(), str(o), o.toFullString()), (o.getName(), o.getName(), "%s第%d天" % (o.getName(), o.getIndex())), x)
        for k in (ShuJiu, Fu):
            o = k("初伏", 3)
            o.setName("三九")
            o.setIndex(m.d)
            mon.eq("counted days renamed by the user", (o.getName(), o.getIndex(), str(o), o.toFullString()), ("三九", m.d, "三九", "三九第%d天" % m.d), x)
    for o in (l.getPrevJieQi(), l.getNextJieQi()):
        mon.eq("text of a term", (o.toString(), str(o)), (o.getName(),) * 2, x)
    if not m.fuzzy:
        ec = l.getEightChar()
        e = " ".join(JZ[i] for i in (m.ygx, m.mgx, m.dg, m.tg))
        mon.eq("text of the eight characters", (ec.toString(), str(ec)), (e, e), x)
    mon.seen("days rendered", (m.y % 400, m.lm, m.ld, m.week))


def c28_sweep(mon, rng, a, b, k, share):
    memo()
    c = cal()
    for y in range(a, b + 1):
        ds = [rng.randint(jdn(y, 1, 1), jdn(y, 12, 31)) for _ in range(k)]
        ds.append(rng.choice((jdn(y, 1, 1), jdn(y, 12, 31), c.TD[24 * y + rng.randint(1, 24)], jdn(y, 12, 31) - rng.randrange(9))))
        lp = c.leap_month(y) if y in c.years else 0
        if lp:
            ds.append(c.lunar_jdn(y, -lp, rng.randint(1, 29)))
        for n in ds:
            if c.lo <= n <= c.hi:
                mon.run(c28_texts, n, rnd_sod(rng), rng.randrange(7), True)
                if rng.random() < share:
                    mon.run(c28_objects, n, rnd_sod(rng), rng.randrange(1 << 30))
    mon.sample("day", M(n).ctx())


def c28_day(mon, rng, y):
    memo()
    for n in range(jdn(y, 1, 1), jdn(y, 12, 31) + 1):
        if cal().lo <= n <= cal().hi:
            mon.run(c28_texts, n, rnd_sod(rng), rng.randrange(7), True)


def c28_plan(tier, seed):
    import random
    q = tier == "quick"
    r = random.Random(seed)
    ys = sorted({1, 1582, 9999, 2024} | {r.randint(1, 9999) for _ in range(4 if q else 200)})
    return [("c28_sweep", x + ((1, 0.2) if q else (12, 0.35))) for x in year_blocks(40)] + [("c28_day", (y,)) for y in ys]
