# -*- coding: utf-8 -*-
"""C20 festivals, C22 holiday records, C23 work-day stepping, C24 Buddhist and Taoist calendars."""
from .lib import *
from .model import *
from . import tables as tb
from .p_pillars import S
from .golden import TERMS
import random

LU, SU, FT, TA = tb.LU, tb.SU, tb.T["FotoUtil"], tb.T["TaoUtil"]


# ---- C20 ----------------------------------------------------------------------------------------------------
XZ = ((120, "水瓶"), (219, "双鱼"), (321, "白羊"), (420, "金牛"), (521, "双子"), (622, "巨蟹"), (723, "狮子"), (823, "处女"), (923, "天秤"), (1024, "天蝎"), (1123, "射手"), (1222, "摩羯"))


def xing_zuo(m, d):
    r = "摩羯"
    for a, nm in XZ:
        if m * 100 + d >= a:
            r = nm
    return r


def solar_fest(m):
    k = "%d-%d" % (m.m, m.d)
    r = [SU["FESTIVAL"][k]] if k in SU["FESTIVAL"] else []
    k = "%d-%d-%d" % (m.m, (m.d + 6) // 7, m.week)
    if k in SU["WEEK_FESTIVAL"]:
        r.append(SU["WEEK_FESTIVAL"][k])
    k = "%d-0-%d" % (m.m, m.week)
    if k in SU["WEEK_FESTIVAL"] and m.d + 7 > last_day(m.y, m.m):
        r.append(SU["WEEK_FESTIVAL"][k])
    return r


def lunar_fest(m):
    k = "%d-%d" % (m.lm, m.ld)
    r = [LU["FESTIVAL"][k]] if k in LU["FESTIVAL"] else []
    c = cal()
    i = c.midx(m.n)
    if abs(m.lm) == 12 and m.ld == m.lmt[2] and i + 1 < len(c.months) and c.months[i + 1][0] != m.ly:
        r.append("除夕")
    return r


def she(y, k):
    """fifth 戊 day from the start of spring (k=3) or autumn (k=15)"""
    n = cal().TD[24 * y + k]
    return n + (4 - day_gz(n)) % 10 + 40


def lunar_other(m):
    r = list(LU["OTHER_FESTIVAL"].get("%d-%d" % (m.lm, m.ld), ()))
    if m.n == cal().TD[24 * m.y + 7] - 1:
        r.append("寒食节")
    if m.n == she(m.y, 3):
        r.append("春社")
    if m.n == she(m.y, 15):
        r.append("秋社")
    return r


def c20_case(mon, n, sod):
    m = M(n, sod)
    x = m.ctx()
    s = S(n, sod)
    mon.eq("solar festivals", s.getFestivals(), solar_fest(m), x)
    mon.eq("solar commemorations", s.getOtherFestivals(), SU["OTHER_FESTIVAL"].get("%d-%d" % (m.m, m.d), []), x)
    mon.eq("constellation", s.getXingZuo(), xing_zuo(m.m, m.d), x)
    if n >= cal().lo:
        l = s.getLunar()
        mon.eq("lunar festivals", l.getFestivals(), lunar_fest(m), x)
        o = lunar_other(m)
        mon.eq("lunar commemorations", l.getOtherFestivals(), o, x)
        mon.seen("lunar day", (m.lm, m.ld))
        if "除夕" in lunar_fest(m):
            mon.seen("new year's eve", (m.lm, m.ld))
            mon.count("new year's eve seen")
        for f in o:
            if f in ("寒食节", "春社", "秋社"):
                mon.count(f + " seen")
    mon.seen("solar day", (m.m, m.d, m.week))


def c20_once(mon, y):
    """each named day comes exactly once in a lunar or solar year"""
    c = cal()
    a, b = jdn(y, 1, 1), jdn(y, 12, 31)
    if y < 2 or y > 9997:
        return
    n = {}
    for d in range(she(y, 3) - 12, she(y, 3) + 13):
        for f in S(d).getLunar().getOtherFestivals():
            n[f] = n.get(f, 0) + 1
    t = c.TD[24 * y + 7]
    for d in range(t - 3, t + 3):
        if not she(y, 3) - 12 <= d < she(y, 3) + 13:
            for f in S(d).getLunar().getOtherFestivals():
                n[f] = n.get(f, 0) + 1
    mon.eq("once a year", (n.get("春社", 0), n.get("寒食节", 0)), (1, 1), y)
    ms = c.years[y]
    last = ms[-1]
    e = last[3] + last[2] - 1
    k = [d for d in range(e - 32, e + 32) if "除夕" in S(d).getLunar().getFestivals()]
    mon.eq("one new year's eve, the day before the first of the first month", k, [e], y)
    mon.count("one new year's eve")


def c20_sweep(mon, rng, a, b, k):
    memo()
    c = cal()
    for y in range(a, b + 1):
        ds = [rng.randint(jdn(y, 1, 1), jdn(y, 12, 31)) for _ in range(k)]
        for key in rng.sample(sorted(SU["FESTIVAL"]) + sorted(SU["OTHER_FESTIVAL"]), 1 + k // 6):
            mm, d = map(int, key.split("-"))
            if exists(y, mm, d):
                ds.append(jdn(y, mm, d) + rng.choice((0, 0, 1, -1)))
        for key in rng.sample(sorted(SU["WEEK_FESTIVAL"]), 1 + k // 6):
            mm, w, dw = map(int, key.split("-"))
            p = jdn(y, mm, 1 + 7 * (w - 1) if w else dim(y, mm) - 6) if mm != 10 or y != 1582 else jdn(y, mm, 1)
            for d in range(p, p + 7):
                if week(d) == dw:
                    ds.append(d + rng.choice((0, 0, 7, -7, 1)))
        if y in c.years:
            ms = c.years[y]
            t = rng.choice(ms)
            ds.append(t[3] + rng.randrange(t[2]))
            for key in rng.sample(sorted(LU["FESTIVAL"]) + sorted(LU["OTHER_FESTIVAL"]), 1 + k // 6):
                mm, d = map(int, key.split("-"))
                try:
                    ds.append(c.lunar_jdn(y, mm, d))
                except Exception:
                    pass
            ds.append(ms[-1][3] + ms[-1][2] - 1 - rng.choice((0, 0, 1)))
            lp = c.leap_month(y)
            if lp:
                ds.append(c.lunar_jdn(y, -lp, rng.randint(1, 29)))
        ds.append(c.TD[24 * y + 7] - rng.choice((1, 1, 0, 2)))
        ds.append(she(y, rng.choice((3, 15))) + rng.choice((0, 0, 1, -1, 10, -10)))
        ds.append(jdn(y, 1, 1) + rng.randrange(3))
        for n in ds:
            if n is not None and c.lo <= n <= c.hi:
                mon.run(c20_case, n, rnd_sod(rng))
        if rng.random() < (0.04 if k < 5 else 0.3):
            mon.run(c20_once, y)
    mon.sample("day", M(n).ctx(), solar_fest(M(n)), lunar_fest(M(n)), lunar_other(M(n)))


def c20_zodiac(mon, y):
    n = jdn(y, 1, 1)
    while ymd(n)[0] == y:
        _, mm, d = ymd(n)
        mon.eq("constellation", S(n).getXingZuo(), xing_zuo(mm, d), y, mm, d)
        n += 1


def c20_year(mon, rng, y):
    """every day of one year"""
    memo()
    mon.run(c20_zodiac, y)
    for n in range(jdn(y, 1, 1), jdn(y, 12, 31) + 1):
        mon.run(c20_case, n, 0)


def c20_plan(tier, seed):
    q = tier == "quick"
    r = random.Random(seed)
    ys = sorted({1, 1582, 2024, 2025} | {r.randint(1, 9998) for _ in range(8 if q else 300)})
    return [("c20_sweep", x + (1 if q else 16,)) for x in year_blocks(40)] + [("c20_year", (y,)) for y in ys]


# ---- C22 ----------------------------------------------------------------------------------------------------
NAMES0 = ["元旦节", "春节", "清明节", "劳动节", "端午节", "中秋节", "国庆节", "国庆中秋", "抗战胜利日"]


class Book(object):
    """reference model of the holiday records: an ordered list, changed by corrections"""

    def __init__(self):
        self.names = list(NAMES0)
        self.recs = [[d.replace("-", ""), NAMES0.index(nm), w, t.replace("-", "")] for d, nm, w, t in tb.T["holidays"]]
        self.flags = None

    def fix(self, names, data):
        self.flags = None
        if names is not None:
            self.names = list(names)
        for k in range(0, len(data or "") // 18):
            s = data[18 * k:18 * k + 18]
            i = next((j for j, r in enumerate(self.recs) if r[0] == s[:8]), None)
            if s[8] == "~":
                if i is not None:
                    del self.recs[i]
            else:
                r = [s[:8], ord(s[8]) - 48, s[9] == "0", s[10:]]
                if i is None:
                    self.recs.append(r)
                else:
                    self.recs[i] = r

    def out(self, r):
        return (dash(r[0]), self.names[r[1]], r[2], dash(r[3]))

    def by_day(self, p):
        return [self.out(r) for r in self.recs if r[0].startswith(p)]

    def by_target(self, p):
        return [self.out(r) for r in self.recs if r[3].startswith(p)]

    def work(self, n):
        y, m, d = ymd(n)
        if self.flags is None:
            self.flags = {}
            for r in self.recs:
                self.flags.setdefault(r[0], r[2])
        w = self.flags.get("%04d%02d%02d" % (y, m, d))
        return week(n) not in (0, 6) if w is None else w


def dash(s):
    return s[:4] + "-" + s[4:6] + "-" + s[6:]


def hol(h):
    return None if h is None else (h.getDay(), h.getName(), h.isWork(), h.getTarget())


def hols(a):
    return [hol(h) for h in a]


def c22_query(mon, b, r, y, m, d, tag):
    """all forms of asking about y-m-d"""
    k8 = "%04d%02d%02d" % (y, m, d)
    e = b.by_day(k8)
    one = e[0] if e else None
    for a in ((y, m, d), (dash(k8),), (dash(k8), 0, 0), (str(y) if y > 999 else "%04d" % y, m, d), (k8,)):
        mon.eq("record of a day", hol(HolidayUtil.getHoliday(*a)), one, tag, a)
    e = b.by_day(k8[:6])
    for a in ((y, m), (k8[:4], m), (k8[:4] + "-" + k8[4:6],)):
        mon.eq("records of a month", hols(HolidayUtil.getHolidays(*a)), e, tag, a)
    e = b.by_day(k8[:4])
    for a in ((y,), (y, 0), (k8[:4],)):
        mon.eq("records of a year", hols(HolidayUtil.getHolidays(*a)), e, tag, a)
    mon.eq("records of a day as a list", hols(HolidayUtil.getHolidays(dash(k8))), b.by_day(k8), tag, k8)
    e = b.by_target(k8)
    for a in ((y, m, d), (dash(k8),), (k8[:4], m, d)):
        mon.eq("records of a target day", hols(HolidayUtil.getHolidaysByTarget(*a)), e, tag, a)
    mon.eq("records of a target year", hols(HolidayUtil.getHolidaysByTarget(y)), b.by_target(k8[:4]), tag, y)
    for h in HolidayUtil.getHolidaysByTarget(dash(k8)) or HolidayUtil.getHolidays(y, m):
        w = hol(h)
        mon.eq("text of a record", (h.toString(), str(h)), ("%s %s%s %s" % (w[0], w[1], "调休" if w[2] else "", w[3]),) * 2, tag)


def any_day(r, b):
    u = r.random()
    if b.recs and u < 0.5:
        s = r.choice(b.recs)[r.choice((0, 0, 3))]
    elif u < 0.7:
        y, m, d = ymd(jdn(2001, 12, 1) + r.randrange(8900))
        return y, m, d
    elif u < 0.8 and len(b.recs) > 1:
        # digits that straddle two neighbouring records: text search must not find them
        i = r.randrange(len(b.recs) - 1)
        t = enc(b.recs[i]) + enc(b.recs[i + 1])
        for _ in range(30):
            j = r.randrange(1, 28)
            s = t[j:j + 8]
            if s.isdigit() and exists(int(s[:4]), int(s[4:6]), int(s[6:])):
                return int(s[:4]), int(s[4:6]), int(s[6:])
        return 2020, 1, 1
    else:
        return ymd(jdn(r.choice((1, 100, 999, 1582, 1900, 2030, 9000)), r.randint(1, 12), 1) + r.randrange(28))
    return int(s[:4]), int(s[4:6]), int(s[6:])


def enc(r):
    return r[0] + chr(48 + r[1]) + ("0" if r[2] else "1") + r[3]


def d8(r):
    return "%04d%02d%02d" % ymd(jdn(r.choice((2001, 2010, 2019, 2020, 2024, 2025, 2026, 2026, 2031, 1949, 200, 9)), 1, 1) + r.randrange(365))


def segment(r, b):
    """one correction record: replace, append or remove; digits chosen so that they collide with other records' text"""
    u = r.random()
    if b.recs and u < 0.55:
        q = r.choice(b.recs)
        day, tgt = q[0], r.choice((q[3], q[0], d8(r)))
    elif b.recs and u < 0.7:
        day, tgt = r.choice(b.recs)[3], r.choice(b.recs)[0]
    else:
        day, tgt = d8(r), d8(r)
    if r.random() < 0.3:
        return day + "~" + r.choice("01") + (tgt if r.random() < 0.5 else "00000000")
    return day + chr(48 + r.randrange(len(b.names))) + r.choice("01") + tgt


def c22_history(mon, seed, steps, fixes):
    """one process's history of corrections and queries, compared with the model after every correction"""
    r = random.Random(seed)
    b = Book()
    for q in range(4):
        c22_query(mon, b, r, *any_day(r, b), tag="fresh")
    for st in range(steps):
        if fixes:
            names = None
            u = r.random()
            if u < 0.15:
                names = ["名%d" % i for i in range(max(len(b.names), r.randint(9, 14)))]
            elif u < 0.25:
                names = b.names + ["新%d" % st]
            elif u < 0.3:
                names = tuple(b.names)
            if names is not None:
                b.names = list(names)       # so that new records may use the new names
            segs = ""
            for _ in range(r.choice((0, 1, 1, 1, 2, 3, 8))):
                s = segment(r, b)
                if segs and r.random() < 0.25:
                    # the same day again in one correction
                    i = r.randrange(len(segs) // 18) * 18
                    s = segs[i:i + 8] + s[8:]
                segs += s
            if segs and r.random() < 0.1:
                segs += "2020010"           # incomplete trailing record
            data = segs if segs or r.random() < 0.5 else None
            b.fix(names, data)
            HolidayUtil.fix(names, data)
            mon.seen("correction", (names is not None, len(segs) // 18, "~" in segs))
            mon.count("corrections applied")
            for k in range(0, len(segs) // 18):
                s = segs[18 * k:]
                if r.random() < 0.5:
                    c22_query(mon, b, r, int(s[:4]), int(s[4:6]), int(s[6:8]), tag="step %d" % st)
        c22_query(mon, b, r, *any_day(r, b), tag="step %d" % st)
        if st % 10 == 9 or not fixes:
            y = r.randint(2001, 2026)
            mon.eq("records of a year", hols(HolidayUtil.getHolidays(y)), b.by_day("%04d" % y), st, y)
    for y in range(2001, 2028):
        mon.eq("records of a year", hols(HolidayUtil.getHolidays(y)), b.by_day("%04d" % y), "end", y)
        mon.eq("records of a target year", hols(HolidayUtil.getHolidaysByTarget(y)), b.by_target("%04d" % y), "end", y)
    if fixes:
        tot = sum(len(HolidayUtil.getHolidays("%d" % i)) for i in range(10))
        mon.eq("no record is lost or invented", tot, len(b.recs), seed)


def c22_published(mon, k):
    """every published record, found by day and by target"""
    d, nm, w, t = tb.T["holidays"][k]
    y, m, dd = map(int, d.split("-"))
    mon.eq("published record", hol(HolidayUtil.getHoliday(y, m, dd)), (d, nm, w, t), k)
    mon.ok("published record under its target", (d, nm, w, t) in hols(HolidayUtil.getHolidaysByTarget(t)), k)
    mon.ok("published record in its month", (d, nm, w, t) in hols(HolidayUtil.getHolidays(y, m)), k)


def c22_unlisted(mon, n):
    y, m, d = ymd(n)
    k = "%04d-%02d-%02d" % (y, m, d)
    e = next((tuple(r) for r in tb.T["holidays"] if r[0] == k), None)
    mon.eq("record of a day", hol(HolidayUtil.getHoliday(y, m, d)), e, k)


def c22_object(mon, seed):
    """records built and changed by the user"""
    r = random.Random(seed)
    a, t, a2, t2 = d8(r), d8(r), d8(r), d8(r)
    from lunar_python import Holiday
    h = Holiday(r.choice((a, dash(a))), "甲", bool(r.randrange(2)), r.choice((t, dash(t))))
    mon.eq("record built by the user", (h.getDay(), h.getName(), h.getTarget()), (dash(a), "甲", dash(t)), seed)
    h.setDay(r.choice((a2, dash(a2))))
    h.setTarget(r.choice((t2, dash(t2))))
    w = bool(r.randrange(2))
    h.setWork(w)
    h.setName("乙")
    mon.eq("record changed by the user", (hol(h), h.toString()), ((dash(a2), "乙", w, dash(t2)), "%s 乙%s %s" % (dash(a2), "调休" if w else "", dash(t2))), seed)


def c22_many(mon, seed, n):
    """thousands of records in one correction"""
    r = random.Random(seed)
    b = Book()
    y0 = r.randint(2030, 2060)
    days = [jdn(y0, 1, 1) + i for i in range(n)]
    segs = ["%04d%02d%02d" % ymd(x) + str(r.randrange(9)) + r.choice("01") + "%04d%02d%02d" % ymd(r.choice(days)) for x in days]
    segs += [s[:8] + r.choice("~3") + s[9:] for s in r.sample(segs, n // 3)]
    data = "".join(segs)
    b.fix(None, data)
    HolidayUtil.fix(None, data)
    mon.count("corrections applied")
    mon.seen("correction", ("thousands",))
    for y in sorted({ymd(x)[0] for x in days} | {2020}):
        mon.eq("records of a year", hols(HolidayUtil.getHolidays(y)), b.by_day("%04d" % y), "many", seed, y)
        mon.eq("records of a target year", hols(HolidayUtil.getHolidaysByTarget(y)), b.by_target("%04d" % y), "many", seed, y)
    for x in r.sample(days, 30):
        c22_query(mon, b, r, *ymd(x), tag="many")


def c22_bulk(mon, rng, n):
    mon.run(c22_many, rng.randrange(1 << 30), rng.randint(n, 3 * n))


def c22_shard(mon, rng, steps, fixes):
    mon.run(c22_history, rng.randrange(1 << 30), steps, fixes)


def c22_static(mon, rng, extra):
    for k in range(len(tb.T["holidays"])):
        mon.run(c22_published, k)
    for n in range(jdn(2001, 12, 1), jdn(2026, 12, 31)):
        if extra or n % 3 == 0:
            mon.run(c22_unlisted, n)
    for i in range(200):
        mon.run(c22_object, rng.randrange(1 << 30))
    mon.sample("record", tb.T["holidays"][5])


def c22_plan(tier, seed):
    q = tier == "quick"
    return [("c22_static", (not q,))] + [("c22_bulk", (1100,))] * (3 if q else 12) + [("c22_shard", (60 if q else 300, f)) for i in range(160 if q else 800) for f in ((True,) if i % 8 else (False,))]


# ---- C23 ----------------------------------------------------------------------------------------------------
def step_work(b, n, k):
    d = 1 if k > 0 else -1
    k = abs(k)
    while k:
        n += d
        if b.work(n):
            k -= 1
    return n


def c23_steps(mon, n, sod, ks, seed):
    b = Book()
    if seed is not None:
        r = random.Random(seed)
        segs = ""
        for i in range(12):
            p = "%04d%02d%02d" % ymd(n + r.randint(-40, 40))
            segs += p + r.choice("0123~") + r.choice("01") + p
        b.fix(None, segs)
        HolidayUtil.fix(None, segs)
    s = S(n, sod)
    for k in ks:
        e = step_work(b, n, k)
        got = s.next(k, True)
        mon.eq("the k-th working day", sol(got), ymd(e) + (sod // 3600, sod % 3600 // 60, sod % 60), M(n, sod).ctx(), k, seed)
        if k:
            mon.ok("never lands on a day off", b.work(jdn(*sday(got))) if exists(*sday(got)) else False, M(n, sod).ctx(), k)
            if k > 0:
                mon.eq("working days strictly between", sum(1 for d in range(n + 1, e + 1) if b.work(d)), k, n, k)
        mon.eq("without the restriction every day counts", sol(s.next(k)), ymd(n + k) + (sod // 3600, sod % 3600 // 60, sod % 60), M(n, sod).ctx(), k)
        mon.seen("step", (k, b.work(n), week(n), e - n))
    mon.eq("the date stepped from is unchanged", sol(s), ymd(n) + (sod // 3600, sod % 3600 // 60, sod % 60), n)


def ks(r):
    return [0, 1, -1, r.randint(2, 12), -r.randint(2, 12), r.choice((-1, 1)) * r.randint(13, 60)]


def c23_shard(mon, rng, a, b, k):
    for n in range(a, b):
        for _ in range(k):
            mon.run(c23_steps, n, rnd_sod(rng), ks(rng), None)


def c23_far(mon, rng, k):
    for _ in range(k):
        y = rng.choice((rng.randint(1, 9998), 1582, 2001, 2025, 2026, 1900))
        n = rng.randint(jdn(y, 3, 1), jdn(y, 10, 1)) if y != 1582 else jdn(1582, 10, 15) + rng.randint(-20, 20)
        mon.run(c23_steps, n, rnd_sod(rng), ks(rng), None)
    for _ in range(k // 5):
        # long walks: wholly outside the recorded years, across their edges, and within
        y = rng.choice((rng.randint(4, 9990), rng.randint(1995, 2003), rng.randint(2001, 2026), rng.randint(2024, 2034), rng.randint(1576, 1588)))
        a, w = jdn(y, 1, 1), rng.randrange(7)
        n = rng.randint(a, a + 300)
        n += (w - week(n)) % 7
        mon.run(c23_steps, n, rnd_sod(rng), [rng.choice((-1, 1)) * rng.choice((rng.randint(61, 270), 5 * rng.randint(20, 110), rng.randint(255, 700))) for _ in range(2)], None)
    # very long walks: more steps than a call stack holds
    y = rng.choice((rng.randint(30, 9970), rng.randint(1995, 2026)))
    mon.run(c23_steps, rng.randint(jdn(y, 3, 1), jdn(y, 10, 1)), rnd_sod(rng), [rng.randint(1000, 3500), -rng.randint(1000, 3500)], None)
    mon.sample("steps", ks(rng))


def c23_fixed(mon, rng):
    """one history per process: corrections, then steps across the corrected days"""
    y = rng.choice((2003, 2015, 2024, 2025, 2026, 2030))
    mon.run(c23_steps, rng.randint(jdn(y, 1, 1), jdn(y, 12, 31)), rnd_sod(rng), sum((ks(rng) for _ in range(8)), []), rng.randrange(1 << 30))


def c23_plan(tier, seed):
    q = tier == "quick"
    a, b = jdn(2001, 12, 15), jdn(2026, 1, 20)
    blocks = [(i, min(i + 300, b)) for i in range(a, b, 300)]
    return [("c23_shard", x + (1 if q else 12,)) for x in blocks] + [("c23_far", (150 if q else 2500,)) for _ in range(8)] + [("c23_fixed", ()) for _ in range(40 if q else 300)]


# ---- C24 ----------------------------------------------------------------------------------------------------
def digits(y):
    return "".join(LU["NUMBER"][int(ch)] for ch in str(y))


def month_cn(m):
    return ("闰" if m < 0 else "") + LU["MONTH"][abs(m)]


XIU27 = FT["XIU_27"]


def c24_foto(mon, f, m, x):
    k = "%d-%d" % (m.lm, m.ld)
    fs = FT["FESTIVAL"].get("%d-%d" % (abs(m.lm), m.ld), [])
    mon.eq("Buddhist date", (f.getYear(), f.getMonth(), f.getDay()), (m.ly + 544, m.lm, m.ld), x)
    txt = "%s年%s月%s" % (digits(m.ly + 544), month_cn(m.lm), LU["DAY"][m.ld])
    mon.eq("Buddhist date in Chinese", (f.getYearInChinese(), f.getMonthInChinese(), f.getDayInChinese(), f.toString(), str(f)), (digits(m.ly + 544), month_cn(m.lm), LU["DAY"][m.ld], txt, txt), x)
    got = f.getFestivals()
    mon.eq("Buddhist observances", [[g.getName(), g.getResult(), g.isEveryMonth(), g.getRemark()] for g in got], fs, x)
    mon.eq("text of observances", [(g.toString(), str(g), g.toFullString()) for g in got], [(e[0], e[0], " ".join(p for p in (e[0], e[1], e[3]) if p)) for e in fs], x)
    mon.eq("Buddhist date in full", f.toFullString(), txt + "".join(" (%s)" % e[0] for e in fs), x)
    mon.eq("Buddhist commemorations", f.getOtherFestivals(), FT["OTHER_FESTIVAL"].get(k, []), x)
    d = m.ld
    mon.eq("fasting days", (f.isMonthZhai(), f.isDayZhaiShuoWang(), f.isDayZhaiSix(), f.isDayZhaiTen(), f.isDayZhaiGuanYin(), f.isDayYangGong()),
           (m.lm in (1, 5, 9), d in (1, 15), d in (8, 14, 15, 23, 29, 30) or d == 28 and m.lmt[2] != 30, d in (1, 8, 14, 15, 18, 23, 24, 28, 29, 30),
            k in FT["DAY_ZHAI_GUAN_YIN"], any(e[0] == "杨公忌" for e in fs)), x)
    i = (FT["XIU_OFFSET"][abs(m.lm) - 1] + d - 1) % 27
    xi = XIU27[i]
    go = LU["GONG"][xi]
    mon.eq("mansion of the Buddhist day", (f.getXiu(), f.getXiuLuck(), f.getXiuSong(), f.getZheng(), f.getAnimal(), f.getGong(), f.getShou()),
           (xi, LU["XIU_LUCK"][xi], LU["XIU_SONG"][xi], LU["ZHENG"][xi], LU["ANIMAL"][xi], go, LU["SHOU"][go]), x)


SAN_HUI, SAN_YUAN, WU_LA = ((1, 7), (7, 7), (10, 15)), ((1, 15), (7, 15), (10, 15)), ((1, 1), (5, 5), (7, 7), (10, 1), (12, 8))
AN_WU = "未戌辰寅午子酉申巳亥卯丑"
TIAN_SHE = ("甲子", "戊寅", "甲午", "戊申")


def c24_tao(mon, t, m, x):
    c = cal()
    y = digits(m.ly + 2697)
    mc, dc = month_cn(m.lm), LU["DAY"][m.ld]
    mon.eq("Taoist date", (t.getYear(), t.getMonth(), t.getDay()), (m.ly + 2697, m.lm, m.ld), x)
    txt = "%s年%s月%s" % (y, mc, dc)
    mon.eq("Taoist date in Chinese", (t.getYearInChinese(), t.getMonthInChinese(), t.getDayInChinese(), t.toString(), str(t)), (y, mc, dc, txt, txt), x)
    mon.eq("Taoist date in full", t.toFullString(), "道歷%s年，天运%s年，%s月，%s日。%s月%s日，%s時。" % (y, JZ[m.yg], JZ[m.mg], JZ[m.dg], mc, dc, ZHI[m.tz]), x)
    term = TERMS[m.gd % 24] if c.TD[m.gd] == m.n else ""
    e = [list(p) for p in TA["FESTIVAL"].get("%d-%d" % (m.lm, m.ld), [])]
    if term == "冬至":
        e.append(["元始天尊圣诞", ""])
    elif term == "夏至":
        e.append(["灵宝天尊圣诞", ""])
    if term in TA["BA_JIE"]:
        e.append([TA["BA_JIE"][term], ""])
    if JZ[m.dg] in TA["BA_HUI"]:
        e.append([TA["BA_HUI"][JZ[m.dg]], ""])
    got = t.getFestivals()
    mon.eq("Taoist festivals", [[g.getName(), g.getRemark()] for g in got], e, x)
    mon.eq("text of Taoist festivals", [(g.toString(), str(g), g.toFullString()) for g in got], [(p[0], p[0], p[0] + ("[" + p[1] + "]" if p[1] else "")) for p in e], x)
    md = (m.lm, m.ld)
    mz, dz = m.mg % 12, m.dg % 12
    mon.eq("Taoist days", (t.isDaySanHui(), t.isDaySanYuan(), t.isDayWuLa(), t.isDayBaJie(), t.isDayBaHui()),
           (md in SAN_HUI, md in SAN_YUAN, md in WU_LA, term in TA["BA_JIE"], JZ[m.dg] in TA["BA_HUI"]), x)
    ming, an = m.dg % 10 == 4, ZHI[dz] == AN_WU[abs(m.lm) - 1]
    mon.eq("Wu days", (t.isDayMingWu(), t.isDayAnWu(), t.isDayWu()), (ming, an, ming or an), x)
    season = (mz - 2) % 12 // 3     # 0 spring .. 3 winter
    she_ = JZ[m.dg] == ("戊寅", "甲午", "戊申", "甲子")[season]
    mon.eq("Heaven's Pardon day", t.isDayTianShe(), she_, x)
    if she_:
        mon.count("Heaven's Pardon days seen")
    if term in TA["BA_JIE"]:
        mon.count("eight node days seen")


def c24_case(mon, n, sod):
    m = M(n, sod)
    x = m.ctx()
    l = S(n, sod).getLunar()
    c24_foto(mon, l.getFoto(), m, x)
    c24_tao(mon, l.getTao(), m, x)
    f, t = Foto.fromLunar(l), Tao.fromLunar(l)
    mon.eq("dates made from the lunar date", (f.getLunar() is l, t.getLunar() is l, f.toFullString(), t.toFullString()), (True, True, l.getFoto().toFullString(), l.getTao().toFullString()), x)
    mon.eq("mansion of a lunar month and day", FotoUtil.getXiu(m.lm, m.ld), f.getXiu(), x)
    if m.ly + 544 > 0:
        f = Foto.fromYmdHms(m.ly + 544, m.lm, m.ld, m.h, m.mi, m.s)
        mon.eq("Buddhist date back to civil", sol(f.getLunar().getSolar()), (m.y, m.m, m.d, m.h, m.mi, m.s), x)
        c24_foto(mon, f, m, x)
        t = Tao.fromYmdHms(m.ly + 2697, m.lm, m.ld, m.h, m.mi, m.s)
        mon.eq("Taoist date back to civil", sol(t.getLunar().getSolar()), (m.y, m.m, m.d, m.h, m.mi, m.s), x)
        if sod == 0:
            mon.eq("Buddhist and Taoist date at midnight", (sol(Foto.fromYmd(m.ly + 544, m.lm, m.ld).getLunar().getSolar()), sol(Tao.fromYmd(m.ly + 2697, m.lm, m.ld).getLunar().getSolar())), ((m.y, m.m, m.d, 0, 0, 0),) * 2, x)
        c24_tao(mon, t, m, x)
    mon.seen("lunar day", (m.lm, m.ld, m.lmt[2]))
    mon.seen("day sign and month branch", (m.dg, m.mg % 12))


def c24_sweep(mon, rng, a, b, k):
    memo()
    c = cal()
    for y in range(a, b + 1):
        ds = [rng.randint(jdn(y, 1, 1), jdn(y, 12, 31)) for _ in range(k)]
        ds.append(c.TD[24 * y + 3 * rng.randint(0, 8)] + rng.choice((0, 0, -1, 1)))
        if y in c.years:
            ms = c.years[y]
            t = rng.choice(ms)
            ds.append(t[3] + rng.choice((0, 14, 27, 27, 28, t[2] - 1)))
            for tab in (FT["FESTIVAL"], FT["OTHER_FESTIVAL"], TA["FESTIVAL"], FT["DAY_ZHAI_GUAN_YIN"]):
                if rng.random() < 0.3 + k / 10:
                    mm, d = map(int, rng.choice(sorted(tab)).split("-"))
                    t = next((q for q in ms if q[1] == mm), None)
                    if t and d <= t[2]:
                        ds.append(t[3] + d - 1)
            lp = c.leap_month(y)
            if lp:
                ds.append(c.lunar_jdn(y, -lp, rng.choice((1, 7, 15, 28, rng.randint(1, 29)))))
        # a Heaven's Pardon day
        g = rng.choice(((3, 14), (9, 30), (15, 44), (21, 0)))
        p = c.TD[24 * y + g[0]]
        ds.append(p + (g[1] - day_gz(p)) % 60 + rng.choice((0, 0, 60, -60)))
        for n in ds:
            if c.lo <= n <= c.hi:
                mon.run(c24_case, n, rnd_sod(rng))
    mon.sample("day", M(n).ctx(), M(n).ly + 544, M(n).ly + 2697, M(n).lm, M(n).ld)


def c24_plan(tier, seed):
    return [("c24_sweep", x + (2 if tier == "quick" else 14,)) for x in year_blocks(50)]
