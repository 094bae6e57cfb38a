# -*- coding: utf-8 -*-
"""C25 answers depend on nothing but the question, C26 failed and interrupted calls leave no damage.
No memo here: the library's own caching is what is observed. Cold answers come from one forked child per question, taken
before the worker has asked the library anything."""
import ast, gc, os, pickle, random, signal, subprocess, sys, threading, time
from .lib import *
from .model import *
from . import api, core, tables as tb
from .api import plain, snap, API

LIBDIR = os.path.abspath(os.path.join(REPO, "lunar_python")) + os.sep


# ---- questions ----------------------------------------------------------------------------------------------
def mk(a):
    return Solar.fromYmdHms(*a)


class Raw(object):
    """lists and objects met while answering, so that a caller can tamper with them afterwards"""
    __slots__ = ("items",)

    def __init__(self):
        self.items = []

    def get(self, o, names=None):
        t = API[type(o).__name__]
        out = []
        for g in (names or sorted(t)):
            v = getattr(o, g)()
            out.append([g, plain(v)])
            if isinstance(v, (list, dict)) or type(v).__name__ in ("JieQi", "Holiday", "EightChar", "Fu", "ShuJiu"):
                self.items.append(v)
        return out

    def tamper(self):
        n = 0
        for v in self.items:
            if isinstance(v, list):
                for x in v:
                    if type(x).__name__ == "Holiday":
                        x.setName("改")
                        x.setWork(not x.isWork())
                        x.setDay("20000101")
                if n % 3 == 0:
                    del v[:]
                elif n % 3 == 1:
                    v.reverse()
                else:
                    v.append("改")
            elif isinstance(v, dict):
                v.clear()
            elif type(v).__name__ == "JieQi":
                v.setName("清明")
                v.setSolar(Solar.fromYmd(2000, 1, 1))
            elif type(v).__name__ == "Holiday":
                v.setName("改")
            elif type(v).__name__ == "EightChar":
                v.setSect(1)
            elif type(v).__name__ in ("Fu", "ShuJiu"):
                v.setName("改")
                v.setIndex(99)
            n += 1
        return n


def q_solar(R, a, k):
    s = mk(a)
    return R.get(s) + [plain(s.next(k)), plain(s.nextHour(k)), plain(s.nextMonth(k)), plain(s.nextYear(k % 50)), plain(s.getLunar())]


def q_lunar(R, a, part):
    l = mk(a).getLunar()
    names = sorted(API["Lunar"])
    return R.get(l, names[part::6])


def q_lunar_ymd(R, a):
    l = Lunar.fromYmdHms(*a)
    return [plain(l), l.toString(), l.getBaZi(), l.getTime().getYi()]


def q_getter(R, a, g):
    v = getattr(mk(a).getLunar(), g)()
    if isinstance(v, (list, dict)):
        R.items.append(v)
    return plain(v)


def q_year(R, y):
    o = LunarYear.fromYear(y)
    return R.get(o)


def q_month(R, y, m, k):
    o = LunarMonth.fromYm(y, m)
    return None if o is None else R.get(o) + [plain(o.next(k))]


def q_ec(R, a, sect):
    e = mk(a).getLunar().getEightChar()
    if sect:
        e.setSect(sect)
    return R.get(e)


def q_yun(R, a, gender, sect):
    e = mk(a).getLunar().getEightChar()
    y = e.getYun(gender, sect) if sect else e.getYun(gender)
    out = R.get(y)
    for d in y.getDaYun(4)[1:]:
        out += R.get(d)
        R.items.append(d.getLiuNian())
        out.append(plain(d.getLiuNian(3)[-1].getLiuYue()))
    return out


def q_bazi(R, p, sect, base):
    v = Solar.fromBaZi(*(list(p) + [sect, base]))
    R.items.append(v)
    return plain(v)


def q_week(R, y, m, d, w, k):
    o = SolarWeek.fromYmd(y, m, d, w)
    return R.get(o) + [plain(o.next(k, False)), plain(o.next(k, True)), len(SolarMonth.fromYm(y, m).getWeeks(w))]


def q_units(R, y, m, k):
    out = []
    for o in (SolarMonth.fromYm(y, m), SolarSeason.fromYm(y, m), SolarHalfYear.fromYm(y, m), SolarYear.fromYear(y)):
        out += R.get(o) + [plain(o.next(k))]
    return out


def q_foto(R, a):
    l = mk(a).getLunar()
    f, t = l.getFoto(), l.getTao()
    return R.get(f) + R.get(t) + [plain(x.toFullString()) for x in f.getFestivals()]


def q_time(R, a):
    return R.get(LunarTime.fromYmdHms(*a))


def q_terms(R, a, whole):
    l = mk(a).getLunar()
    out = []
    for g in ("getPrevJie", "getNextJie", "getPrevQi", "getNextQi", "getPrevJieQi", "getNextJieQi"):
        v = getattr(l, g)(whole)
        R.items.append(v)
        out.append(plain(v))
    R.items.append(l.getJieQiTable())
    R.items.append(l.getJieQiList())
    return out


def q_hol(R, y, m, d):
    v = [HolidayUtil.getHoliday(y, m, d), HolidayUtil.getHolidays(y), HolidayUtil.getHolidays(y, m), HolidayUtil.getHolidaysByTarget("%04d-%02d-%02d" % (y, m, d))]
    R.items += v
    return plain(v)


def q_work(R, a, k):
    return plain(mk(a).next(k, True))


def q_util(R, i, j, y, m):
    v = [LunarUtil.getDayYi(JZ[i], JZ[j]), LunarUtil.getDayJi(JZ[i], JZ[j]), LunarUtil.getTimeYi(JZ[i], JZ[j]), LunarUtil.getTimeJi(JZ[i], JZ[j]),
         LunarUtil.getDayJiShen(m, JZ[j]), LunarUtil.getDayXiongSha(m, JZ[j])]
    R.items += v
    return plain(v) + [LunarUtil.getJiaZiIndex(JZ[i]), LunarUtil.getXunKong(JZ[i]), SolarUtil.getDaysOfMonth(y, m), SolarUtil.isLeapYear(y), SolarUtil.getWeeksOfMonth(y, m, i % 7)]


def q_bad(R, k, y):
    """questions that must be refused"""
    f = BAD[k]
    return plain(f(y))


BAD = [
    lambda y: Solar.fromYmd(y, 13, 1), lambda y: Solar.fromYmd(y, 0, 1), lambda y: Solar.fromYmd(y, 2, 32), lambda y: Solar.fromYmd(y, 2, 0), lambda y: Solar.fromYmd(1582, 10, 10),
    lambda y: Solar.fromYmdHms(y, 1, 1, 24, 0, 0), lambda y: Solar.fromYmdHms(y, 1, 1, 0, 60, 0), lambda y: Solar.fromYmdHms(y, 1, 1, 0, 0, -1),
    lambda y: Lunar.fromYmd(y, 13, 1), lambda y: Lunar.fromYmd(y, -13, 1), lambda y: Lunar.fromYmd(y, 1, 31), lambda y: Lunar.fromYmd(y, 1, 0), lambda y: Lunar.fromYmd(y, 0, 5),
    lambda y: [Lunar.fromYmd(y, -m, 30) for m in range(1, 13)], lambda y: [Lunar.fromYmd(y, m, 30) for m in range(1, 13)],
    lambda y: Lunar.fromYmdHms(y, 1, 1, 25, 0, 0), lambda y: LunarTime.fromYmdHms(y, 1, 31, 0, 0, 0), lambda y: LunarMonth.fromYm(y, 14),
    lambda y: LunarYear.fromYear(str(y)).getMonths(), lambda y: LunarYear.fromYear(None), lambda y: LunarYear.fromYear([y]), lambda y: Lunar.fromYmd(str(y), 1, 1), lambda y: Lunar.fromYmd(None, 1, 1),
    lambda y: Solar.fromYmd(str(y), 1, 1).getLunar(), lambda y: Solar.fromYmd(y, None, 1), lambda y: Solar.fromJulianDay(None), lambda y: Solar.fromYmd(y, 1, 1).next("1"),
    lambda y: Solar.fromYmd(y, 1, 1).next(1, True).next(None), lambda y: Solar.fromBaZi("甲子", "甲子", "甲子", ""), lambda y: Solar.fromBaZi("", "", "", ""), lambda y: Solar.fromBaZi("甲子", "丙寅", "甲子", "甲子", 2, "x"),
    lambda y: HolidayUtil.getHoliday("no such day"), lambda y: HolidayUtil.getHolidays(None), lambda y: HolidayUtil.getHolidaysByTarget("-"), lambda y: HolidayUtil.fix(None, ""),
    lambda y: HolidayUtil.fix(None, None), lambda y: LunarUtil.getDayYi("甲", "乙"), lambda y: LunarUtil.getJiaZiIndex("子甲"), lambda y: LunarUtil.getTimeZhiIndex(None),
    lambda y: LunarUtil.getTimeZhiIndex("ab:cd"), lambda y: NineStar.fromIndex(9).toString(), lambda y: NineStar.fromIndex(None).toString(), lambda y: SolarWeek.fromYmd(y, 13, 1, 0).getDays(),
    lambda y: SolarWeek.fromYmd(y, 1, 1, 0).next(None, True), lambda y: SolarMonth.fromYm(y, 13).getDays(), lambda y: SolarMonth.fromYm(y, 1).next("1"), lambda y: Solar.fromYmd(y, 1, 1).subtract(None),
    lambda y: Solar.fromYmd(y, 1, 1).getLunar().getEightChar().getYun(1).getDaYun(10 ** 4)[-1].getLiuNian(), lambda y: Solar.fromYmd(y, 1, 1).getLunar().next("1"),
    lambda y: Solar.fromYmd(y, 1, 1).getLunar().getYearNineStar("9"), lambda y: Foto.fromYmd(y, 13, 1), lambda y: Tao.fromYmd(y + 2697, 1, 31),
]
Q = {"solar": q_solar, "lunar": q_lunar, "lunar_ymd": q_lunar_ymd, "getter": q_getter, "year": q_year, "month": q_month, "ec": q_ec, "yun": q_yun, "bazi": q_bazi, "week": q_week,
     "units": q_units, "foto": q_foto, "time": q_time, "terms": q_terms, "hol": q_hol, "work": q_work, "util": q_util, "bad": q_bad}


def ask(op, R=None):
    """the answer to one question, as plain values; a refusal is an answer too"""
    try:
        return Q[op[0]](R if R is not None else Raw(), *op[1:])
    except Exception as e:
        return ["refused", type(e).__name__]


def questions(r, size, kinds=None):
    """related questions: the same few days, hours, months and years asked in many ways"""
    c = cal()
    y0 = r.choice((r.randint(30, 9900), r.randint(1900, 2100), 1582, 238, 2033))
    ys = [y0, y0, y0 + 1, y0 - 1, r.choice((y0 + 2, y0 + 60, y0 + 10, y0 + 100, y0 - 12, 2024))]
    ys = [y for y in ys if 2 <= y <= 9990]
    days = []
    for y in ys:
        days += [jdn(y, 1, 1), jdn(y, 12, 31), c.years[y][0][3], c.years[y][0][3] - 1, c.TD[24 * y + 3], r.randint(jdn(y, 1, 1), jdn(y, 12, 31))]
        if c.leap_month(y):
            days.append(c.lunar_jdn(y, -c.leap_month(y), r.randint(1, 29)))
    days = r.sample(days, min(6, len(days)))
    days += [n + r.choice((1, -1, 60, 7, 365)) for n in days[:3]]
    hours = [0, 23 * 3600 + 1800, 86399, r.randrange(86400), r.randrange(86400)]
    lnames = sorted(API["Lunar"])
    out = []
    kinds = kinds or (["solar", "lunar", "lunar", "lunar_ymd", "getter", "getter", "getter", "year", "month", "ec", "ec", "yun", "week", "units", "foto", "time", "terms", "hol", "work", "util"] * 3 + ["bazi"])
    seen = set()
    while len(out) < size:
        k = r.choice(kinds)
        m = M(r.choice(days), r.choice(hours))
        a = (m.y, m.m, m.d, m.h, m.mi, m.s)
        b = (m.ly, r.choice((m.lm, m.lm, abs(m.lm))), m.ld, m.h, m.mi, m.s)
        if k == "solar":
            op = (k, a, r.choice((1, -1, 30, -400)))
        elif k == "lunar":
            op = (k, a, r.randrange(6))
        elif k == "lunar_ymd":
            op = (k, b)
        elif k == "getter":
            op = (k, a, r.choice(lnames))
        elif k == "year":
            op = (k, m.ly)
        elif k == "month":
            op = (k, m.ly, b[1], r.choice((1, -1, 12, -13)))
        elif k == "ec":
            op = (k, a, r.choice((0, 1, 2)))
        elif k == "yun":
            op = (k, a, r.randint(0, 1), r.choice((0, 1, 2)))
        elif k == "week":
            op = (k, m.y, m.m, m.d, r.randrange(7), r.choice((1, -1, 5)))
        elif k == "units":
            op = (k, m.y, m.m, r.choice((1, -1, 7)))
        elif k == "foto":
            op = (k, a)
        elif k == "time":
            op = (k, b)
        elif k == "terms":
            op = (k, a, bool(r.randrange(2)))
        elif k == "hol":
            z = r.choice(tb.T["holidays"])[r.choice((0, 3))]
            op = (k,) + tuple(int(p) for p in z.split("-"))
        elif k == "work":
            z = tuple(int(p) for p in r.choice(tb.T["holidays"])[0].split("-"))
            op = (k, r.choice((a, z + (1, 2, 3))), r.choice((1, -1, 4)))
        elif k == "util":
            op = (k, r.randrange(60), r.randrange(60), m.y, m.m)
        elif k == "bazi":
            op = (k, (JZ[m.ygx], JZ[m.mgx], JZ[m.dg], JZ[m.tg]), r.randint(1, 2), max(1, m.y - 30))
            if not 1700 < m.y < 2020:
                continue
        elif k == "bad":
            op = (k, r.randrange(len(BAD)), m.y)
        if op in seen and r.random() < 0.5:
            continue
        seen.add(op)
        out.append(op)
    return out


def child(fn):
    """the result of fn in a forked child; None if it does not come back"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            signal.setitimer(signal.ITIMER_REAL, 150)
            with os.fdopen(wr, "wb") as f:
                pickle.dump(fn(), f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        d = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(d) if d else None


def cold(ops):
    """answers of a process that has asked the library nothing else: one forked child per question"""
    out = []
    gc.collect()
    gc.freeze()
    for op in ops:
        d = child(lambda: [ask(op)])
        out.append(d[0] if d else ["died"])
    return out


def q_series(R, y):
    """the astronomical series and a year made directly, without the library's year cache"""
    x = (y - 2000) * 365.2422
    out = [plain(LunarYear(y).getMonths())]
    for n, k in (("calcQi", 15.2184), ("calcShuo", 29.5306), ("qiAccurate2", 15.2184)):
        f = getattr(ShouXingUtil, n, None)
        if f:
            out.append([f(x + k * i) for i in range(14)])
    return out


Q["series"] = q_series


def q_table(R, k):
    """the corrected terms and new moons of many years of the corrected centuries"""
    out = []
    for y in range(620 + k, 1960, 9):
        x = (y - 2000) * 365.2422
        for i in range(0, 24, 2):
            out.append(ShouXingUtil.calcQi(x + 15.2184 * (i + k % 2)))
            out.append(ShouXingUtil.calcShuo(x + 14.7653 * i))
    return out


if hasattr(ShouXingUtil, "calcQi") and hasattr(ShouXingUtil, "calcShuo"):
    Q["table"] = q_table
else:
    Q["table"] = lambda R, k: [plain(LunarYear(y).getMonths()) for y in range(620 + k, 1960, 60)]


def q_luck(R, a, g, sect):
    y = Solar.fromYmdHms(*a).getLunar().getEightChar().getYun(g, sect)
    return [y.getStartYear(), y.getStartMonth(), y.getStartDay(), y.getStartHour(), plain(y.getStartSolar()), plain(y.getDaYun(3))]


Q["luck"] = q_luck


class Places(object):
    """the library lines a question runs, each with the ordinal of its first execution"""

    def __init__(self):
        self.n = 0
        self.first = {}

    def glob(self, frame, ev, arg):
        return self.loc if frame.f_code.co_filename.startswith(LIBDIR) else None

    def loc(self, frame, ev, arg):
        if ev == "line":
            self.n += 1
            k = (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name, frame.f_lineno)
            if k not in self.first:
                self.first[k] = self.n
        return self.loc


def places(op, r, count):
    """places to stop at while op is the first question ever asked: (ordinal of first execution, place), in random
    order. Half of them are places that are not run when it is asked again: where something is prepared on first use"""
    def f():
        ps = []
        for i in range(2):
            p = Places()
            sys.settrace(p.glob)
            try:
                ask(op)
            finally:
                sys.settrace(None)
            ps.append(p.first)
        return sorted((v, k) for k, v in ps[0].items() if k[1] != "<module>"), set(ps[1])
    pl, again = child(f) or ([], ())
    once = [x for x in pl if x[1] not in again]
    out = r.sample(once, min((count + 1) // 2, len(once)))
    out += r.sample(pl, min(count - len(out), len(pl)))
    return out


def openings(r):
    """first questions, chosen so that every lazily prepared thing of the library is prepared by one of them, with
    questions about the same things to follow"""
    y = r.choice((r.randint(620, 1640), r.randint(1646, 1958), r.randint(1960, 2100), r.randint(2101, 9900), r.randint(1, 600)))
    a = (y, r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))
    if y == 1582:
        y, a = 1583, (1583,) + a[1:]
    h = tuple(int(p) for p in r.choice(tb.T["holidays"])[r.choice((0, 3))].split("-"))
    first = r.choice((("series", y), ("year", y), ("series", r.randint(620, 1900)), ("solar", a, 5), ("lunar_ymd", (y, a[1], a[2]) + a[3:]), ("foto", a), ("time", (y, a[1], a[2]) + a[3:]), ("luck", a, 1, 1),
                      ("hol",) + h, ("work", h + (1, 2, 3), 2), ("util", r.randrange(60), r.randrange(60), y, a[1]), ("ec", a, 1), ("lunar", a, r.randrange(6)), ("terms", a, True)))
    return [first, ("table", r.randrange(9)), ("series", y), ("lunar_ymd", (y, a[1], 1, 0, 0, 0)), ("series", r.randint(620, 1644)), ("series", r.randint(1646, 1958))]


def diff(a, b):
    if a == b:
        return ""
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return "asked alone: %s, now: %s" % (repr(x)[:200], repr(y)[:200])
    return "asked alone: %s, now: %s" % (repr(a)[:200], repr(b)[:200])


def same(mon, what, op, got, exp, *ctx):
    mon.count(what)
    if got != exp:
        mon.bad(what, diff(exp, got), (repr(op),) + ctx)
        return False
    return True


# ---- C25 ----------------------------------------------------------------------------------------------------
def c25_history(mon, seed, size):
    r = random.Random(seed)
    ops = questions(r, size, None)
    ops += questions(r, 4, ["bad"])
    ref = cold(ops)
    mon.count("questions asked alone", len(ops))
    for rnd in range(3):
        order = list(range(len(ops)))
        r.shuffle(order)
        if rnd == 1:
            order = [i for i in order for _ in range(r.choice((1, 1, 2)))]
        prev = None
        for i in order:
            R = Raw()
            got = ask(ops[i], R)
            what = ("same answer after other questions", "same answer when repeated", "same answer after a caller changed what he was handed")[rnd]
            if not same(mon, what, ops[i], got, ref[i], "previous: %r" % (prev,), rnd):
                return
            if rnd == 2:
                mon.count("objects tampered with", R.tamper())
                got = ask(ops[i])
                if not same(mon, what, ops[i], got, ref[i], "just changed", rnd):
                    return
            mon.seen("pairs of question kinds", (prev[0] if prev else "", ops[i][0], rnd))
            prev = ops[i]
    mon.seen("histories", seed)


def c25_object(mon, seed):
    """one object: its answers do not depend on which of its questions came before"""
    r = random.Random(seed)
    y = r.choice((r.randint(2, 9890), r.randint(1900, 2100)))
    n, sod = r.randint(jdn(y, 1, 1), jdn(y, 12, 31)), rnd_sod(r)
    st = r.getstate()
    a = list(api.objects(n, sod, r))
    r.setstate(st)
    b = list(api.objects(n, sod, r))
    if not mon.eq("two objects made alike are alike", [type(o).__name__ for o in a], [type(o).__name__ for o in b], n):
        return
    for o, p in zip(a, b):
        k = type(o).__name__
        if k not in API or k == "Lunar" and r.random() < 0.5:
            continue
        names = sorted(API[k])
        sh = names[:]
        r.shuffle(sh)
        x = dict(snap(o, names))
        z = dict(snap(p, sh))
        w = dict(snap(o, sh[::-1]))
        for g in names:
            if not mon.ok("answers of an object do not depend on their order", x[g] == z[g] == w[g], M(n, sod).ctx(), k, g, repr(x[g])[:150], repr(z[g])[:150], repr(w[g])[:150]):
                return
        mon.seen("kinds of object", k)
    # two eight-character charts of one instant, with different schools, interleaved
    l1, l2, l3 = (Solar.fromYmdHms(*M(n, sod).ctx_parts()).getLunar() for _ in range(3))
    e1, e2, e3 = l1.getEightChar(), l2.getEightChar(), l3.getEightChar()
    d = snap(e3)
    e1.setSect(1)
    e2.setSect(2)
    p1, p2 = snap(e1), snap(e2)
    e1.setSect(2)
    e2.setSect(1)
    mon.ok("charts of two people do not share their school", snap(e1) == p2 and snap(e2) == p1 and snap(e3) == d == p2, M(n, sod).ctx())


ALTS = {"whole_day": (False, True), "sect": (1, 2, 3), "only_work_day": (False, True), "separate_month": (False, True), "gender": (0, 1), "start": range(7), "n": (0, 1, 3, 10, 12), "days": (-400, -31, -1, 0, 1, 2, 33, 400),
        "hours": (-49, -1, 0, 1, 25, 1000), "months": (-14, -1, 0, 1, 2, 25), "years": (-3, -1, 0, 1, 4), "weeks": (-6, -1, 0, 1, 2, 9), "seasons": (-5, -1, 0, 1, 6), "half_years": (-3, -1, 0, 1, 4), "lunar_month": (-6, -2, 1, 2, 6, 12)}
_qs = {}


def variants(c):
    """every public question of a class, with and without each of its options"""
    if c not in _qs:
        import inspect, itertools
        out = []
        for g in sorted(dir(c)):
            if g[0] == "_" or g.startswith("set") or not callable(getattr(c, g)) or isinstance(inspect.getattr_static(c, g), staticmethod):
                continue
            ps = list(inspect.signature(getattr(c, g)).parameters.values())[1:]
            if any(q.name not in ALTS for q in ps):
                continue
            for k in range(len([q for q in ps if q.default is q.empty]), len(ps) + 1):
                for a in itertools.product(*(ALTS[q.name] for q in ps[:k])):
                    out.append((g, a))
        _qs[c] = out
    return _qs[c]


def c25_args(mon, seed):
    """one object asked the same question with different options, in any order: each answer is that of an object asked nothing else"""
    r = random.Random(seed)
    c = cal()
    y = r.choice((r.randint(2, 9890), r.randint(1900, 2100)))
    u = r.random()
    if u < 0.7:      # the day of a term, before and after its instant: here the options differ
        t = c.T[24 * y + r.choice((r.randrange(24), 2, 0, 3))]
        k = r.choice((-1, 1))
        sod = t % 86400 + k * r.choice((3, 60, 3600, 7200))
        n = t // 86400
        if not 0 <= sod < 86400:
            sod = r.choice((0, 86399))
    elif u < 0.85:   # the late rat hour, where the schools differ
        n, sod = r.randint(jdn(y, 1, 1), jdn(y, 12, 31)), r.randint(82800, 86399)
    else:            # between New Year and the start of spring
        n, sod = jdn(y, 1, 15) + r.randrange(36), rnd_sod(r)
    at = M(n, sod).ctx_parts()
    new = lambda: Solar.fromYmdHms(*at)
    w, g, q, j = r.randrange(7), r.randint(0, 1), r.randint(1, 2), r.randrange(1, 9)
    ly = new().getLunar()
    makers = [new, lambda: new().getLunar(), lambda: new().getLunar().getTime(), lambda: LunarYear.fromYear(ly.getYear()), lambda: LunarMonth.fromYm(ly.getYear(), ly.getMonth()),
              lambda: new().getLunar().getEightChar(), lambda: SolarWeek.fromYmd(at[0], at[1], at[2], w), lambda: SolarMonth.fromYm(at[0], at[1]), lambda: SolarSeason.fromYm(at[0], at[1]),
              lambda: SolarHalfYear.fromYm(at[0], at[1]), lambda: SolarYear.fromYear(at[0]), lambda: new().getLunar().getEightChar().getYun(g, q), lambda: new().getLunar().getEightChar().getYun(g, q).getDaYun()[j]]
    for mk1 in [makers[1], makers[5]] + r.sample(makers, 3):
        o = mk1()
        v = [x for x in variants(type(o)) if x[1]]
        v = r.sample(v, min(len(v), 28)) + [(x, ()) for x in sorted({x[0] for x in v}) if (x, ()) in variants(type(o))]
        k = type(o).__name__
        if k == "EightChar":
            v += [(x, ("setSect", z)) for x in r.sample(sorted(API[k]), 12) for z in (1, 2)]

        def put(o, f, a):
            if a[:1] == ("setSect",):
                o.setSect(a[1])
                return plain(getattr(o, f)())
            if k == "EightChar":
                o.setSect(2)
            return plain(getattr(o, f)(*a))
        exp = {x: put(mk1(), *x) for x in v}
        for _ in range(2):
            r.shuffle(v)
            for i, x in enumerate(v):
                got = put(o, *x)
                if not mon.ok("an option of one question does not stick to the next", got == exp[x], M(n, sod).ctx(), k, repr(x), "after %r" % (v[i - 1],), diff(exp[x], got)):
                    return
            mon.seen("orders of options", (k, tuple(v[:3])))
        mon.seen("kinds of object", k)


def handed(n, sod, r):
    for o in api.objects(n, sod, r):
        k = type(o).__name__
        if k == "Yun":
            return
        if k in API:
            yield k, o


def c25_day(mon, seed, n):
    """whatever a caller does to what he is handed on a day, the same day asked again answers as before"""
    r = random.Random(seed)
    sod = rnd_sod(r)
    st = r.getstate()
    R, was = Raw(), []
    for k, o in handed(n, sod, r):
        was.append([k, R.get(o)])
    mon.count("objects tampered with", R.tamper())
    r.setstate(st)
    now = [[k, snap(o)] for k, o in handed(n, sod, r)]
    for a, b in zip(was, now):
        if not mon.ok("a day answers as before after a caller changed what he was handed", a == b, M(n, sod).ctx(), a[0], diff(a[1], b[1])):
            return
    mon.ok("a day answers as before after a caller changed what he was handed", len(was) == len(now), M(n, sod).ctx())
    mon.seen("days changed and asked again", n)


def c25_days(mon, rng, y, part, parts):
    """every day of a year in turn"""
    for n in range(jdn(y, 1, 1) + part, jdn(y, 12, 31) + 1, parts):
        mon.run(c25_day, rng.randrange(1 << 30), n)


def c25_alive(mon, seed):
    """objects of many different instants alive at once: each still says what it said when it was made"""
    r = random.Random(seed)
    made = []
    for _ in range(10):
        y = r.choice((r.randint(2, 9890), r.randint(1900, 2100), 2024, 2025))
        m = M(r.randint(jdn(y, 1, 1), jdn(y, 12, 31)), rnd_sod(r))
        for o in list(api.objects(m.n, m.sod, r)):
            k = type(o).__name__
            if k in API and (k != "Lunar" or r.random() < 0.4):
                names = r.sample(sorted(API[k]), min(len(API[k]), 25))
                made.append((o, k, m, names, snap(o, names)))
    r.shuffle(made)
    for o, k, m, names, was in made:
        now = snap(o, names)
        mon.ok("an object says what it said when it was made, whatever else was made since", now == was, m.ctx(), k, diff(was, now))
        mon.seen("kinds of object", k)


def preempted(a, b, k):
    """in a fresh process thread A asks a and is stopped at its k-th library line until thread B has asked b, or cannot
    go on either; both answers, then both again"""
    res = [None, None]
    paused, go = threading.Event(), threading.Event()
    n = [0]

    def loc(frame, ev, arg):
        if ev == "line":
            n[0] += 1
            if n[0] == k:
                paused.set()
                go.wait(0.15)
        return loc

    def glob(frame, ev, arg):
        return loc if frame.f_code.co_filename.startswith(LIBDIR) else None

    def ra():
        sys.settrace(glob)
        try:
            res[0] = ask(a)
        finally:
            sys.settrace(None)
            paused.set()

    def rb():
        paused.wait(20)
        res[1] = ask(b)
        go.set()
    ts = [threading.Thread(target=f, daemon=True) for f in (ra, rb)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(30)
    return res + [ask(a), ask(b)]


def c25_first(mon, seed, count):
    """the first two questions ever asked, by two threads, one stopped inside the library while the other asks"""
    r = random.Random(seed)
    ops = openings(r)
    if r.random() < 0.4:
        ops[0] = r.choice(ops[1:])
    a, b = ops[0], r.choice(ops[:4] + [ops[1]])
    ref = cold([a, b])
    for k, w in places(a, r, count):
        got = child(lambda: preempted(a, b, k))
        if not mon.ok("first questions of two threads both come back", got is not None, repr(a), repr(b), "first stopped at %s" % (w,)):
            return
        mon.seen("places of preemption", w)
        for i, what in ((0, "stopped thread"), (1, "other thread"), (2, "first question again"), (3, "second question again")):
            if not same(mon, "first questions of two threads are answered as if asked alone", (a, b)[i % 2], got[i], ref[i % 2], what, "first thread stopped at %s" % (w,)):
                return


class Sched(object):
    """tracer that makes threads change places inside the library, and logs where they did"""

    def __init__(self, seed, p):
        self.r = random.Random(seed)
        self.p = p
        self.log = []
        self.last = None

    def glob(self, frame, ev, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(LIBDIR) or fn.endswith(("ShouXingUtil.py",)):
            return None
        name = frame.f_code.co_name
        hot = fn.endswith("LunarYear.py") and name in ("fromYear", "__init__", "getMonth", "getYear")
        if not hot and self.r.random() > 0.02:
            return None
        return self.hot if hot else self.warm

    def hot(self, frame, ev, arg):
        if ev == "line":
            self.step(frame, 0.5)
        return self.hot

    def warm(self, frame, ev, arg):
        if ev == "line":
            self.step(frame, self.p)
        return self.warm

    def step(self, frame, p):
        t = threading.get_ident()
        if t != self.last:
            self.last = t
            self.log.append((frame.f_code.co_name, frame.f_lineno))
        if self.r.random() < p:
            time.sleep(self.r.choice((0, 0, 0, 1e-5, 1e-4)))


def c25_threads(mon, seed, size, nthreads, traced):
    r = random.Random(seed)
    kinds = ["solar", "lunar_ymd", "getter", "getter", "year", "month", "ec", "week", "time", "terms", "foto", "lunar_ymd", "util", "hol"]
    ops = questions(r, size, kinds)
    ref = cold(ops)
    jobs = []
    for _ in range(nthreads):
        o = list(range(len(ops)))
        r.shuffle(o)
        jobs.append(o)
    wrong = []
    done = [0] * nthreads
    sch = Sched(seed, 0.05)
    start = threading.Barrier(nthreads)
    old = sys.getswitchinterval()
    sys.setswitchinterval(r.choice((1e-6, 1e-5, 1e-4)))

    def run(t):
        try:
            if traced:
                sys.settrace(sch.glob)
            start.wait(30)
            for i in jobs[t]:
                if wrong:
                    break
                got = ask(ops[i])
                if got != ref[i]:
                    wrong.append((i, got))
                done[t] += 1
        except BaseException as e:
            wrong.append((-1, repr(e)))
        finally:
            sys.settrace(None)
    ts = [threading.Thread(target=run, args=(t,), daemon=True) for t in range(nthreads)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    sys.setswitchinterval(old)
    mon.count("same answer while other threads ask", sum(done))
    for i, got in wrong[:2]:
        if i < 0:
            mon.bad("same answer while other threads ask", "thread failed: %s" % got, (seed,))
        else:
            mon.bad("same answer while other threads ask", diff(ref[i], got), (repr(ops[i]), nthreads))
    if traced:
        mon.count("thread changes observed inside the library", len(sch.log))
        for a, b in zip(sch.log, sch.log[1:]):
            mon.seen("thread changes (from line, to line)", (a, b))
    mon.seen("thread histories", seed)


def c25_shard(mon, rng, what, args):
    core.CPU_BUDGET = 200.0     # one case is a whole history
    for i in range(args[0]):
        mon.run(globals()[what], rng.randrange(1 << 30), *args[1:])


ENVS = (("PYTHONHASHSEED", lambda r: str(r.randrange(1, 4000000))), ("TZ", lambda r: r.choice(("Asia/Shanghai", "America/New_York", "UTC-14", "UTC+12", "XST-3:30XDT,M3.2.0,M11.1.0"))),
        ("LC_ALL", lambda r: r.choice(("C", "C.UTF-8", "POSIX"))), ("PYTHONOPTIMIZE", lambda r: r.choice(("1", "2"))), ("PYTHONUTF8", lambda r: r.choice(("0", "1"))),
        ("PYTHONDEVMODE", lambda r: "1"), ("PYTHONMALLOC", lambda r: "debug"))


def c25_env(mon, seed, size):
    """the same questions put to a process with another hash seed, time zone, locale, optimisation level, clock and import order"""
    r = random.Random(seed)
    ops = questions(r, size, ["solar", "lunar", "lunar_ymd", "getter", "year", "month", "ec", "yun", "week", "units", "time", "terms", "foto", "hol", "work", "util"])
    ref = cold(ops)
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONHASHSEED", "TZ", "LC_ALL", "LANG")}
    env.update(VERIF_REPO=REPO, RV_CLOCK=str(r.choice((1950, 2000, 2037, 2100, 5000))), RV_FIRST=r.choice(FIRST))
    env["PYTHONPATH"] = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    on = [n for n, f in ENVS if r.random() < 0.5] + ["PYTHONHASHSEED"]
    for n, f in ENVS:
        if n in on:
            env[n] = f(r)
    desc = {k: env[k] for k in sorted(set(on) | {"RV_CLOCK", "RV_FIRST"})}
    o = subprocess.run([sys.executable, "-B", "-m", "rv.envchild"], cwd=r.choice(("/", "/tmp", REPO)), env=env, input=pickle.dumps(ops), capture_output=True, timeout=300)
    got = pickle.loads(o.stdout) if o.returncode == 0 else None
    if not mon.ok("the library works in another environment", got is not None, desc, o.stderr.decode(errors="replace")[-400:]):
        return
    for n in on:
        mon.seen("environments", (n, env[n]))
    mon.count("questions asked in another environment", len(ops))
    for op, g, e in zip(ops, got, ref):
        if not same(mon, "same answer in another environment", op, g, e, desc):
            return


FIRST = ("lunar_python", "lunar_python.util", "lunar_python.eightchar", "lunar_python.Lunar", "lunar_python.EightChar", "lunar_python.util.HolidayUtil", "lunar_python.LunarMonth")


def c25_plan(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(24 if q else 400):
        out.append(("c25_shard", ("c25_history", (1, 50 if q else 70))))
    for i in range(16 if q else 160):
        out.append(("c25_shard", ("c25_object", (12 if q else 60,))))
    for i in range(16 if q else 160):
        out.append(("c25_shard", ("c25_args", (10 if q else 100,))))
    r = random.Random(seed)
    for y in [r.choice((r.randint(2, 9890), r.randint(1900, 2100), 2024)) for _ in range(1 if q else 8)]:
        out += [("c25_days", (y, i, 16)) for i in range(16)]
    for i in range(8 if q else 80):
        out.append(("c25_shard", ("c25_alive", (4 if q else 20,))))
    for i in range(32 if q else 320):
        out.append(("c25_shard", ("c25_env", (1, 40 if q else 80))))
    for i in range(40 if q else 400):
        out.append(("c25_shard", ("c25_first", (1, 40 if q else 250))))
    for i in range(24 if q else 240):
        out.append(("c25_shard", ("c25_threads", (1, 24 if q else 30, 2 + i % 4, i % 4 != 3))))
    return out


# ---- C26 ----------------------------------------------------------------------------------------------------
class Interrupt(BaseException):
    """stands for whatever a signal handler may raise in the middle of a call"""


class InterruptE(Exception):
    """an ordinary exception at the same places (a time limit, memory)"""


_guarded = {}


def guarded(code):
    """does this function take care of something (with, try)? A line event can fall between the end of its block and its
    clean-up, where the interpreter itself never handles a signal, so no interruption is made at its own lines; the functions
    it calls are interrupted"""
    f = code.co_filename
    if f not in _guarded:
        s = set()
        with open(f, encoding="utf-8") as src:
            tree = ast.parse(src.read())
        for fn in ast.walk(tree):
            if isinstance(fn, (ast.FunctionDef, ast.Lambda)) and any(
                    isinstance(x, (ast.With, ast.Try)) or isinstance(x, ast.Attribute) and x.attr in ("acquire", "release", "__enter__", "__exit__") for x in ast.walk(fn)):
                s.add(fn.name if isinstance(fn, ast.FunctionDef) else "<lambda>")
        _guarded[f] = s
    return code.co_name in _guarded[f]


class Injector(object):
    """raises at the k-th line executed inside the library"""

    def __init__(self, k, exc, place=None):
        self.k = k
        self.place = place
        self.exc = exc
        self.n = 0
        self.where = None

    def glob(self, frame, ev, arg):
        if frame.f_code.co_filename.startswith(LIBDIR) and not guarded(frame.f_code):
            return self.loc
        return None

    def loc(self, frame, ev, arg):
        if ev == "line" and self.where is None:
            self.n += 1
            if self.n >= self.k or self.place and self.place[2] == frame.f_lineno and self.place[1] == frame.f_code.co_name and self.place[0] == os.path.basename(frame.f_code.co_filename):
                self.where = (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name, frame.f_lineno)
                raise self.exc()
        return self.loc


def interrupted(op, k, exc):
    """ask and be interrupted at the k-th line; returns (place or None, lines run)"""
    j = Injector(k, exc)
    sys.settrace(j.glob)
    try:
        Q[op[0]](Raw(), *op[1:])
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
    finally:
        sys.settrace(None)
    return j.where, j.n


def lines(op, cap):
    """how many library lines this question executes"""
    w, n = interrupted(op, 1 << 60, Interrupt)
    return min(n, cap)


def c26_history(mon, seed, size, rounds):
    r = random.Random(seed)
    ops = questions(r, size, ["solar", "lunar_ymd", "getter", "year", "month", "ec", "yun", "week", "units", "time", "terms", "foto", "hol", "work", "util"])
    bad = questions(r, size // 2, ["bad"])
    ref = cold(ops + bad)
    allops = ops + bad
    mon.count("questions asked alone", len(allops))
    for i, op in enumerate(bad):
        mon.seen("refusals", (op[1], str(ref[len(ops) + i])[:60]))
    for st in range(rounds):
        u = r.random()
        i = r.randrange(len(allops))
        op = allops[i]
        ctx = None
        if u < 0.45:
            j = len(ops) + r.randrange(len(bad))
            ctx = "after %r" % (allops[j],)
            got = ask(allops[j])
            mon.count("refused calls made")
            if not same(mon, "a refused call is refused again the same way", allops[j], got, ref[j], "step %d" % st):
                return
        else:
            v = r.choice(ops)
            exc = r.choice((Interrupt, InterruptE, KeyErrorLike))
            k = r.choice((r.randint(1, 30), r.randint(1, 300), r.randint(1, 6000)))
            w, n = interrupted(v, k, exc)
            if w is None:
                w, n = interrupted(v, r.randint(1, max(1, n)), exc)
            ctx = "after %r was interrupted at %s" % (v, w)
            if w:
                mon.count("calls interrupted inside the library")
                mon.seen("places of interruption", w)
            op = r.choice((op, v))
            i = allops.index(op)
        got = ask(op)
        if not same(mon, "answers after a failed or interrupted call are unaffected", op, got, ref[i], ctx, "step %d" % st):
            return
    for i, op in enumerate(allops):
        if not same(mon, "answers after a failed or interrupted call are unaffected", op, ask(op), ref[i], "end", seed):
            return
    # another thread is not kept out either
    res = []
    t = threading.Thread(target=lambda: res.append(ask(ops[0])), daemon=True)
    t.start()
    t.join(60)
    mon.ok("another thread is not kept out", res and res[0] == ref[0], seed)


class KeyErrorLike(KeyError):
    pass


def c26_first(mon, seed, count):
    """the first question ever asked is interrupted, once at each place; later questions are not harmed"""
    r = random.Random(seed)
    ops = openings(r)
    ref = cold(ops)
    # the injector leaves some functions out, so it numbers the lines differently: interrupt by place
    for k, w in places(ops[0], r, count):
        exc = r.choice((Interrupt, InterruptE, KeyErrorLike))

        def f():
            j = Injector(1 << 60, exc, w)
            sys.settrace(j.glob)
            try:
                Q[ops[0][0]](Raw(), *ops[0][1:])
            except BaseException:
                pass
            finally:
                sys.settrace(None)
            return j.where, [ask(op) for op in ops]
        got = child(f)
        if not mon.ok("the library still answers after its first question was interrupted", got is not None, repr(ops[0]), "interrupted at %s" % (w,)):
            return
        if got[0]:
            mon.count("first questions interrupted")
            mon.seen("places of interruption", w)
        for op, g, e in zip(ops, got[1], ref):
            if not same(mon, "answers after the first question was interrupted are unaffected", op, g, e, "%r interrupted at %s" % (ops[0], w)):
                return


def c26_fix(mon, seed, rounds):
    """a correction of the holiday records interrupted at each place: the records are those of some number of its corrections, each whole"""
    from . import p_fest as pf
    r = random.Random(seed)
    b0 = pf.Book()
    for _ in range(rounds):
        segs, t = [], pf.Book()
        for k in range(r.randint(1, 4)):
            day = r.choice(t.recs)[0] if t.recs and r.random() < 0.75 else pf.d8(r)
            seg = day + ("~0" + pf.d8(r) if r.random() < 0.3 else chr(48 + r.randrange(9)) + r.choice("01") + r.choice((day, pf.d8(r))))
            segs.append(seg)
            t.fix(None, seg)
        names = r.choice((None, None, ["名%d" % i for i in range(10)]))
        allowed = []
        for nm in (None, names) if names else (None,):
            for k in range(len(segs) + 1):
                b = pf.Book()
                b.fix(nm, "".join(segs[:k]))
                allowed.append(sorted(b.by_day("")))
        days = [s[:8] for s in segs] + [r.choice(b0.recs)[0] for _ in range(3)]
        years = sorted({d[:4] for d in days} | {x[0][:4] for x in b0.recs})
        exc = r.choice((Interrupt, InterruptE, KeyErrorLike))

        def f(k):
            j = Injector(k, exc)
            sys.settrace(j.glob)
            try:
                HolidayUtil.fix(names, "".join(segs))
            except BaseException:
                pass
            finally:
                sys.settrace(None)
            one = sorted(x for y in years for x in pf.hols(HolidayUtil.getHolidays(y)))
            per = [pf.hol(HolidayUtil.getHoliday(d)) for d in days]
            HolidayUtil.fix(None, "".join(segs))
            return j.where, one, per, sorted(x for y in years for x in pf.hols(HolidayUtil.getHolidays(y)))
        k = 0
        while k < 120:
            k += 1
            got = child(lambda: f(k))
            if not mon.ok("the records can still be read after a correction was interrupted", got is not None, segs, names, k):
                return
            w, one, per, after = got
            if w is None:
                break
            mon.count("corrections interrupted")
            mon.seen("places of interruption", w)
            if not mon.ok("an interrupted correction has put in place some of its records, each whole", one in allowed, segs, names, "interrupted at %s" % (w,), recdiff(one, allowed[0])):
                return
            by = {x[0]: x for x in one}
            mon.ok("an interrupted correction has put in place some of its records, each whole", all(p == by.get(pf.dash(d)) for p, d in zip(per, days)), segs, names, "day by day", w)
            # applying it once more completes it; which records it held already decides what is left
            ends = []
            for nm in (None, names) if names else (None,):
                for n in range(len(segs) + 1):
                    b = pf.Book()
                    b.fix(nm, "".join(segs[:n]))
                    b.fix(None, "".join(segs))
                    ends.append(sorted(b.by_day("")))
            if not mon.ok("an interrupted correction can be applied again", after in ends, segs, names, "interrupted at %s" % (w,), recdiff(after, ends[0])):
                return


def recdiff(a, b):
    a, b = set(a), set(b)
    return "missing %s, more %s" % (sorted(b - a)[:3], sorted(a - b)[:3])


def c26_year(mon, seed, k0, k1):
    """a year's computation interrupted at every line between k0 and k1 in turn, then asked for again"""
    r = random.Random(seed)
    y = r.choice((2024, 2033, r.randint(30, 9900)))
    op = ("year", y)
    other = ("year", y + 1)
    ref = cold([op, other])
    for k in range(k0, k1, 1):
        ask(other)
        w, n = interrupted(("year1", y), k, r.choice((Interrupt, InterruptE)))
        if w is None:
            break
        mon.seen("places of interruption", w)
        mon.count("calls interrupted inside the library")
        if not same(mon, "answers after a failed or interrupted call are unaffected", op, ask(op), ref[0], "interrupted at %s" % (w,), k):
            return
        if not same(mon, "answers after a failed or interrupted call are unaffected", other, ask(other), ref[1], "interrupted at %s" % (w,), k):
            return


def q_year1(R, y):
    return LunarYear.fromYear(y).getYear()


Q["year1"] = q_year1


def c26_shard(mon, rng, what, args):
    core.CPU_BUDGET = 200.0
    mon.run(globals()[what], rng.randrange(1 << 30), *args)


def c26_plan(tier, seed):
    q = tier == "quick"
    r = random.Random(seed)
    out = [("c26_shard", ("c26_history", (24, 120 if q else 250))) for _ in range(32 if q else 300)]
    out += [("c26_shard", ("c26_first", (60 if q else 400,))) for _ in range(40 if q else 300)]
    out += [("c26_shard", ("c26_fix", (4 if q else 30,))) for _ in range(16 if q else 160)]
    out += [("c26_shard", ("c26_year", (k, k + 40))) for k in list(range(1, 400, 40)) + [r.randrange(400, 20000) for _ in range(6 if q else 200)]]
    return out
