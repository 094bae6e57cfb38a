# -*- coding: utf-8 -*-
"""C11, C12, C21: solar terms."""
from .lib import *
from .model import *
from .golden import TERMS, TABLE
from . import tables as tb
from . import astro
import random


def S(n, sod=0):
    y, m, d = ymd(n)
    return Solar.fromYmdHms(y, m, d, sod // 3600, sod % 3600 // 60, sod % 60)


def ST(t):
    return S(*divmod(t, 86400))


def tsec(s):
    return secs(*sol(s))


# ---- C11 term table -------------------------------------------------------------------------------------
def c11_year(mon, y, n):
    """the table seen from a date of solar year y"""
    c = cal()
    l = S(n).getLunar()
    tab = l.getJieQiTable()
    mon.eq("table lists the 31 terms around the year in order", list(l.getJieQiList()), list(TABLE), y)
    mon.eq("table has exactly the listed terms", sorted(tab.keys()), sorted(TABLE), y)
    prev = None
    for i, g in enumerate(c.table(y)):
        x = sol(tab[TABLE[i]])
        t = secs(*x)
        mon.ok("term instant (reference calendar)", exists(*x[:3]) and abs(t - c.T[g]) <= 1, str((y, TABLE[i])), str(x), str(from_secs(c.T[g])))
        if prev is not None:
            mon.ok("terms follow each other 14 to 17 days apart", 13.9 * 86400 < t - prev < 16.9 * 86400, str((y, TABLE[i])), t - prev)
        prev = t
        if 100 <= y <= 3000 and TABLE[i] in TERMS:
            k = g % 24
            lon = astro.sun_longitude(astro.beijing_to_jde(t / 86400.0 - 0.5, x[0] + x[1] / 12.0))
            d = (lon - (270 + 15 * k) + 180) % 360 - 180
            # one degree is about a day; 20 minutes is 0.0137 degrees
            mon.ok("sun stands at the term's longitude", abs(d) < 0.0142, str((y, TABLE[i])), round(lon, 4))
        mon.seen("terms", g)
    js = LunarYear.fromYear(y).getJieQiJulianDays()
    mon.eq("year's term Julian days are the same table", [sol(Solar.fromJulianDay(j)) for j in js], [sol(tab[k]) for k in TABLE], y)
    # the reference is exact to the second; 0.01 s is left for the rounding of floating point sums
    for i, g in enumerate(c.table(y)):
        mon.ok("term Julian day to the second", abs((js[i] + 0.5) * 86400 - c.T[g]) <= 0.51, str((y, TABLE[i])), js[i], str(from_secs(c.T[g])))
    # the same table from another date of the year
    a, b = jdn(y, 1, 1), jdn(y, 12, 31)
    m = b if n < (a + b) // 2 else a
    t2 = S(m).getLunar().getJieQiTable()
    mon.eq("every date of a solar year sees the same table", [sol(t2[k]) for k in TABLE], [sol(tab[k]) for k in TABLE], y)


def c11_join(mon, y):
    """tables of adjacent years agree where they overlap"""
    c = cal()
    a = [sol(Solar.fromJulianDay(j)) for j in LunarYear.fromYear(y).getJieQiJulianDays()]
    b = [sol(Solar.fromJulianDay(j)) for j in LunarYear.fromYear(y + 1).getJieQiJulianDays()]
    for i in range(24, 31):
        mon.ok("adjacent years agree on shared terms", abs(secs(*a[i]) - secs(*b[i - 24])) <= 1, str((y, TABLE[i])), str(a[i]), str(b[i - 24]))


def c11_sweep(mon, rng, a, b):
    memo()
    for y in range(a, b + 1):
        mon.run(c11_year, y, rng.choice((jdn(y, 1, 1), rng.randint(jdn(y, 1, 1), jdn(y, 12, 31)))))
        if y < 9999:
            mon.run(c11_join, y)
    mon.sample("table", y, str(sol(ST(cal().T[24 * y]))))


def c11_plan(tier, seed):
    return [("c11_sweep", x) for x in year_blocks(50)]


# ---- C12 queries ------------------------------------------------------------------------------------------
Q = (("JieQi", lambda g: True), ("Jie", lambda g: g % 2 == 1), ("Qi", lambda g: g % 2 == 0))


def find(g, ok, step):
    while not ok(g):
        g += step
    return g


def jq(o):
    return None if o is None else (o.getName(), sol(o.getSolar()))


def c12_case(mon, n, sod):
    c = cal()
    m = M(n, sod)
    l = S(n, sod).getLunar()
    tab = l.getJieQiTable()
    mine = {c.table(m.y)[i]: sol(tab[k]) for i, k in enumerate(TABLE)}
    x = m.ctx()
    for nm, ok in Q:
        for whole in (False, True):
            if not whole and m.fuzzy:
                continue
            base = m.gd if whole else m.gx
            for pre, g in (("Prev", find(base, ok, -1)), ("Next", find(base + 1, ok, 1))):
                f = getattr(l, "get" + pre + nm)
                o = f(whole)
                what = ("previous" if pre == "Prev" else "next") + (" by day" if whole else " by instant")
                e = mine.get(g)
                if e is None:
                    e = from_secs(c.T[g])
                mon.eq(what, jq(o), (TERMS[g % 24], e), x, pre + nm)
                if o is not None:
                    mon.eq("kind of term", (o.isJie(), o.isQi()), (g % 2 == 1, g % 2 == 0), x, pre + nm)
                if not whole:
                    mon.eq("default is by instant", jq(f()), jq(o), x, pre + nm)
    here = m.gd if c.TD[m.gd] == n else None
    mon.eq("term of the day", l.getJieQi(), TERMS[here % 24] if here is not None else "", x)
    mon.eq("jie of the day", l.getJie(), TERMS[here % 24] if here is not None and here % 2 else "", x)
    mon.eq("qi of the day", l.getQi(), TERMS[here % 24] if here is not None and here % 2 == 0 else "", x)
    for nm, ok in Q:
        o = getattr(l, "getCurrent" + nm)()
        if here is None or not ok(here):
            mon.eq("no current term", o, None, x, nm)
        else:
            mon.ok("current term", o is not None and o.getName() == TERMS[here % 24] and sday(o.getSolar()) == ymd(n) and (o.isJie(), o.isQi()) == (here % 2 == 1, here % 2 == 0), x, nm)
            if nm != "JieQi" and o is not None:
                mon.eq("instant of the current term", sol(o.getSolar()), mine[here], x, nm)
    mon.seen("terms around", (m.gx, here is not None))


def c12_edge(mon, y, i):
    """one second around the term instant the library itself publishes"""
    c = cal()
    tab = S(jdn(y, 6, 1)).getLunar().getJieQiTable()
    u = tsec(tab[TABLE[i]])
    name = TERMS[c.table(y)[i] % 24]
    pname = TERMS[(c.table(y)[i] - 1) % 24]
    nname = TERMS[(c.table(y)[i] + 1) % 24]
    kind = "Jie" if c.table(y)[i] % 2 else "Qi"
    if from_secs(u - 1)[0] != y or from_secs(u + 1)[0] != y:
        return
    for dt, p, q in ((-1, pname, name), (0, name, nname), (1, name, nname)):
        l = ST(u + dt).getLunar()
        mon.eq("previous at the instant", l.getPrevJieQi().getName(), p, str(from_secs(u)), dt)
        mon.eq("next at the instant", l.getNextJieQi().getName(), q, str(from_secs(u)), dt)
        if dt < 0:
            mon.eq("next of its kind before the instant", (getattr(l, "getNext" + kind)().getName(), tsec(getattr(l, "getNext" + kind)().getSolar())), (name, u), str(from_secs(u)))
        else:
            mon.eq("previous of its kind from the instant on", (getattr(l, "getPrev" + kind)().getName(), tsec(getattr(l, "getPrev" + kind)().getSolar())), (name, u), str(from_secs(u)))
    mon.seen("edges", c.table(y)[i])


def c12_name(mon, a, b):
    """renaming a term object keeps its kind in step with its name"""
    o = JieQi(TERMS[a], S(cal().lo))
    mon.eq("kind of a named term", (o.getName(), o.isJie(), o.isQi()), (TERMS[a], a % 2 == 1, a % 2 == 0), a)
    o.setName(TERMS[b])
    mon.eq("kind after renaming", (o.getName(), o.isJie(), o.isQi(), o.toString()), (TERMS[b], b % 2 == 1, b % 2 == 0, TERMS[b]), a, b)
    o.setSolar(S(cal().lo + 5))
    mon.eq("date after change", sol(o.getSolar()), sol(S(cal().lo + 5)), a, b)


def c12_sweep(mon, rng, a, b, k):
    memo()
    for y in range(a, b + 1):
        days = [jdn(y, 1, 1), jdn(y, 12, 31)] + [rng.randint(jdn(y, 1, 1), jdn(y, 12, 31)) for _ in range(k)] + \
            [cal().TD[24 * y + rng.randint(1, 23)] + rng.randint(-1, 1) for _ in range(k)]
        for n in days:
            if ymd(n)[0] == y:
                mon.run(c12_case, n, rnd_sod(rng))
        for i in ([rng.randint(2, 24)] if k < 5 else range(1, 26)):
            mon.run(c12_edge, y, i)
    for i in range(24):
        mon.run(c12_name, i, rng.randrange(24))
    mon.sample("queries", y, str(ymd(n)))


def c12_plan(tier, seed):
    return [("c12_sweep", x + (2 if tier == "quick" else 10,)) for x in year_blocks(50)]


# ---- C21 数九 三伏 物候 候 -------------------------------------------------------------------------------------
def c21_expect(n):
    """(数九, 三伏, 物候, 候) of a civil day"""
    c = cal()
    g = c.prev_term_day(n)
    k = g % 24
    w = g - k                               # latest winter solstice on or before the day
    d = n - c.TD[w]
    shu = (tb.NUM[d // 9 + 1] + "九", d % 9 + 1) if d < 81 else None
    y = ymd(n)[0]
    xz, lq = c.TD[24 * y + 12], c.TD[24 * y + 15]
    first = xz + (6 - day_gz(xz)) % 10 + 20       # third 庚 day from the summer solstice on
    last = lq + (6 - day_gz(lq)) % 10             # first 庚 day from 立秋 on
    if n < first or n >= last + 10:
        fu = None
    elif n < first + 10:
        fu = ("初伏", n - first + 1)
    elif n < last:
        fu = ("中伏", n - first - 9)
    else:
        fu = ("末伏", n - last + 1)
    i = min((n - c.TD[g]) // 5, 2)
    return shu, fu, tb.LU["WU_HOU"][(k * 3 + i) % 72], "%s %s" % (TERMS[k], tb.LU["HOU"][i])


def c21_day(mon, n, sod):
    x = M(n, sod).ctx()
    shu, fu, wh, hou = c21_expect(n)
    l = S(n, sod).getLunar()
    o = l.getShuJiu()
    mon.eq("counting nines", None if o is None else (o.getName(), o.getIndex()), shu, x)
    if o is not None:
        mon.eq("nines text", (o.toString(), o.toFullString()), (shu[0], "%s第%d天" % shu), x)
        mon.seen("nines", shu)
    o = l.getFu()
    mon.eq("dog days", None if o is None else (o.getName(), o.getIndex()), fu, x)
    if o is not None:
        mon.eq("dog days text", (o.toString(), o.toFullString()), (fu[0], "%s第%d天" % fu), x)
        mon.seen("dog days", fu)
    mon.eq("pentad phenomenon", l.getWuHou(), wh, x)
    mon.eq("pentad", l.getHou(), hou, x)
    mon.seen("pentads", wh)


def c21_sweep(mon, rng, a, b, k):
    memo()
    c = cal()
    for y in range(a, b + 1):
        w0, w1 = c.TD[24 * y], c.TD[24 * y + 24]
        xz, lq = c.TD[24 * y + 12], c.TD[24 * y + 15]
        ds = {jdn(y, 1, 1), jdn(y, 12, 31), w0 + 80, w0 + 81, w1 - 1, w1, xz + rng.randint(18, 32), xz + rng.randint(28, 42), lq - 1, lq, lq + rng.randint(0, 21)}
        f = xz + (6 - day_gz(xz)) % 10 + 20
        q = lq + (6 - day_gz(lq)) % 10
        ds |= {f - 1, f, f + 9, f + 10, q - 1, q, q + 9, q + 10}
        g = 24 * y + rng.randint(1, 23)
        ds |= {c.TD[g] - 1, c.TD[g] + rng.choice((0, 4, 5, 9, 10, 14, 15))}
        for _ in range(k):
            ds.add(rng.randint(jdn(y, 1, 1), jdn(y, 12, 31)))
        if k > 20:
            ds |= set(range(f - 2, q + 13))
        for n in ds:
            if ymd(n)[0] == y:
                mon.run(c21_day, n, rnd_sod(rng))
    mon.sample("day", str(ymd(n)), str(c21_expect(n)))


def c21_plan(tier, seed):
    return [("c21_sweep", x + (2 if tier == "quick" else 30,)) for x in year_blocks(50)]
