# -*- coding: utf-8 -*-
"""The public getters of every kind of object the library hands out, and snapshots of their answers."""
import json, os
from .lib import *
from .model import *

P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "golden", "api.json")
API = {}
if os.path.exists(P):
    with open(P, encoding="utf-8") as _f:
        API = json.load(_f)
PRIM = (str, int, float, bool, type(None))


def objects(n, sod, r):
    """one object of every kind, around an instant"""
    y, m, d = ymd(n)
    s = Solar.fromYmdHms(y, m, d, sod // 3600, sod % 3600 // 60, sod % 60)
    yield s
    l = s.getLunar()
    yield l
    yield l.getTime()
    yield l.getFoto()
    yield l.getTao()
    for f in l.getFoto().getFestivals() + l.getTao().getFestivals():
        yield f
    ly = LunarYear.fromYear(l.getYear())
    yield ly
    yield ly.getMonth(l.getMonth())
    e = l.getEightChar()
    e.setSect(r.randint(1, 2))
    yield e
    if y < 9900:
        q = e.getYun(r.randint(0, 1), r.randint(1, 2))
        yield q
        ds = q.getDaYun()
        k = r.randrange(10)
        da = ds[k]
        yield da
        for a in (da.getLiuNian(), da.getXiaoYun()):
            if a:
                w = r.choice(a)
                yield w
                if hasattr(w, "getLiuYue"):
                    yield r.choice(w.getLiuYue())
    for j in (l.getPrevJieQi(), l.getNextQi(), l.getCurrentJieQi(), l.getShuJiu(), l.getFu()):
        if j is not None:
            yield j
    yield l.getDayNineStar()
    w = r.randrange(7)
    yield SolarWeek.fromYmd(y, m, d, w)
    yield SolarMonth.fromYm(y, m)
    yield SolarSeason.fromYm(y, m)
    yield SolarHalfYear.fromYm(y, m)
    yield SolarYear.fromYear(y)


def sig(v):
    """type signature of an answer"""
    if isinstance(v, (list, tuple)):
        return "list[%s]" % "|".join(sorted({sig(x) for x in v}))
    if isinstance(v, dict):
        return "dict[%s]" % "|".join(sorted({sig(k) + ":" + sig(x) for k, x in v.items()}))
    return type(v).__name__


def plain(v):
    """an answer as plain values: what a caller can observe of it"""
    if isinstance(v, PRIM):
        return v
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return [[plain(k), plain(x)] for k, x in v.items()]
    c = type(v).__name__
    if c == "Solar":
        return [c] + list(sol(v))
    if c == "Lunar":
        return [c, v.getYear(), v.getMonth(), v.getDay(), v.getHour(), v.getMinute(), v.getSecond()] + list(sol(v.getSolar()))
    if c in ("LunarMonth",):
        return [c, v.getYear(), v.getMonth(), v.getDayCount(), v.getFirstJulianDay(), v.getIndex()]
    if c == "SolarWeek":
        return [c, v.getYear(), v.getMonth(), v.getDay(), v.getStart()]
    if c == "LunarTime":
        return [c, v.getGanZhi(), v.getMinHm()]
    if c == "JieQi":
        return [c, v.getName()] + list(sol(v.getSolar()))
    if c == "Holiday":
        return [c, v.toString()]
    if c == "DaYun":
        return [c, v.getIndex(), v.getStartYear(), v.getGanZhi()]
    if c in ("LiuNian", "XiaoYun"):
        return [c, v.getYear(), v.getAge(), v.getGanZhi()]
    if c == "LiuYue":
        return [c, v.getIndex(), v.getGanZhi()]
    if c == "EightChar":
        return [c, v.getSect(), v.toString()]
    if c == "Yun":
        return [c, v.getGender(), v.isForward(), v.getStartYear(), v.getStartMonth(), v.getStartDay(), v.getStartHour()]
    return [c, v.toString()]


def snap(o, names=None):
    t = API[type(o).__name__]
    return [[g, plain(getattr(o, g)())] for g in (names or sorted(t))]
