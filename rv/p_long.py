# -*- coding: utf-8 -*-
"""C31 long use: memory and work per question stay what they were, however many questions were asked before."""
import gc, random, sys
from .lib import *
from .model import *
from . import core, p_state as ps
from . import p_fest as pf


def blocks():
    gc.collect()
    gc.collect()
    return sys.getallocatedblocks()


class Work(object):
    """library lines executed while answering"""

    def __init__(self):
        self.n = 0

    def glob(self, frame, ev, arg):
        return self.loc if frame.f_code.co_filename.startswith(ps.LIBDIR) else None

    def loc(self, frame, ev, arg):
        self.n += 1
        return self.loc


def work(op):
    w = Work()
    sys.settrace(w.glob)
    try:
        ps.Q[op[0]](ps.Raw(), *op[1:])
    except Exception:
        pass
    finally:
        sys.settrace(None)
    return w.n


ROUNDS = 10

KINDS = {
    "dates": ["solar", "lunar", "lunar_ymd"],
    "attributes": ["getter"],
    "charts": ["ec", "yun"],
    "years and months": ["year", "month"],
    "weeks and units": ["week", "units"],
    "counted days and hours": ["time", "terms", "foto"],
    "holidays and tables": ["hol", "work", "util"],
    "refused": ["bad"],
    "mixed": ["solar", "lunar", "lunar_ymd", "getter", "ec", "yun", "year", "month", "week", "units", "time", "terms", "foto", "hol", "work", "util", "bad"],
}


def quiet(op):
    try:
        ps.Q[op[0]](ps.Raw(), *op[1:])
    except Exception:
        pass


def warm():
    """run everything once, so that what the interpreter itself keeps per function is there"""
    r = random.Random(7)
    for name in sorted(ps.API["Lunar"]):
        for a in ((2023, 3, 25, 23, 30, 0), (1999, 12, 31, 0, 0, 0), (755, 2, 3, 11, 0, 0)):
            quiet(("getter", a, name))
    for op in ps.questions(r, 120, KINDS["mixed"]):
        quiet(op)
    for y in range(9000, 9300):     # fills a cache of years, if there is one
        LunarYear.fromYear(y)


def measure(ask, rounds):
    """allocated blocks after each of the rounds"""
    out = []
    warm()
    for k in range(rounds):
        ask(k)
        out.append(blocks())
    return out


def judge(mon, what, b, per, *ctx):
    """growth that goes on, round after round, is a leak; a cache that fills up is not"""
    d = [y - x for x, y in zip(b, b[1:])]
    leak = min(d[-6:])
    mon.count("rounds measured", len(b))
    mon.seen("growth", (ctx[0], min(max(leak, -50), 50)))
    mon.ok(what, leak < max(40, per), ctx[0], ctx[1:], "allocated blocks after each round: %s" % b)


def c31_same(mon, seed, name, n):
    """new questions about the same few years, in rounds"""
    r = random.Random(seed)
    ops = []
    for k in range(ROUNDS):
        ops.append(ps.questions(r, n, KINDS[name]))

    def ask(k):
        for op in ops[k]:
            quiet(op)
    judge(mon, "memory does not grow with the questions asked", measure(ask, ROUNDS), n * 0.8, name, seed)


def c31_repeat(mon, seed, name, n):
    """the same questions again and again"""
    r = random.Random(seed)
    ops = ps.questions(r, n, KINDS[name])

    def ask(k):
        for op in ops:
            quiet(op)
    cold = {op: ps.child(lambda: work(op)) for op in ops[:12]}
    judge(mon, "memory does not grow with the questions asked", measure(ask, ROUNDS), n * 0.8, name, seed)
    for op, c in cold.items():
        w = min(work(op) for i in range(4))     # what a small cache happens to hold or to drop is not growth
        mon.ok("answering takes no more work after many questions", c is not None and w <= c * 1.5 + 200, name, repr(op), "lines run: %s in a fresh process, %d now" % (c, w))


def c31_years(mon, seed, n):
    """ever other years"""
    r = random.Random(seed)
    ys = r.sample(range(2, 9990), ROUNDS * n)

    def ask(k):
        for y in ys[k * n:(k + 1) * n]:
            LunarYear.fromYear(y).getLeapMonth()
            l = Solar.fromYmdHms(y, 3, 1 + y % 28, 5, 6, 7).getLunar()
            l.getEightChar().getYun(y % 2).getStartSolar()
            l.getNextJieQi()
            Lunar.fromYmd(y, 1 + y % 12, 1).next(1)
    judge(mon, "memory does not grow with the years asked about", measure(ask, ROUNDS), n * 0.8, "years", seed)


def c31_fix(mon, seed, n):
    """the same corrections again and again; failing calls among them"""
    r = random.Random(seed)
    b = pf.Book()
    segs = [r.choice(b.recs)[0] + "%d%s%s" % (r.randrange(9), r.choice("01"), pf.d8(r)) for _ in range(8)]
    new = [pf.d8(r) for _ in range(4)]

    def ask(k):
        for i in range(n):
            HolidayUtil.fix(None, "".join(segs))
            d = new[i % 4]
            HolidayUtil.fix(None, d + "30" + d)
            HolidayUtil.getHolidays(d[:4])
            HolidayUtil.fix(None, d + "~00000000000")
            HolidayUtil.fix(list(HolidayUtil.NAMES), None)
    judge(mon, "memory does not grow with corrections repeated", measure(ask, ROUNDS), n * 0.8, "corrections", seed)
    w0 = work(("hol", 2024, 5, 1))
    ask(0)
    w1 = min(work(("hol", 2024, 5, 1)) for i in range(4))
    mon.ok("answering takes no more work after many questions", w1 <= w0 * 1.3 + 50, "corrections", seed, w0, w1)


# ---- every attribute and every step by itself ------------------------------------------------------------------------

def at(r):
    """an instant nobody asked about before: a day of a few years, any second"""
    return (1990 + r.randrange(8), r.randint(1, 12), r.randint(1, 28), r.randrange(24), r.randrange(60), r.randrange(60))


def far(r):
    return (r.randint(2, 9800), r.randint(1, 12), r.randint(1, 4), r.randrange(24), r.randrange(60), r.randrange(60))


def S(a): return Solar.fromYmdHms(*a)
def L(a): return S(a).getLunar()
def yun(a): return L(a).getEightChar().getYun(a[5] % 2, 1 + a[4] % 2)
def decade(a): return yun(a).getDaYun()[1 + a[5] % 5]


MAKE = {
    "Solar": S, "Lunar": L, "LunarTime": lambda a: L(a).getTime(), "Foto": lambda a: L(a).getFoto(), "Tao": lambda a: L(a).getTao(),
    "EightChar": lambda a: L(a).getEightChar(), "Yun": yun, "DaYun": decade, "LiuNian": lambda a: decade(a).getLiuNian()[3],
    "XiaoYun": lambda a: decade(a).getXiaoYun()[3], "LiuYue": lambda a: decade(a).getLiuNian()[2].getLiuYue()[5],
    "LunarYear": lambda a: LunarYear.fromYear(a[0]), "LunarMonth": lambda a: LunarMonth.fromYm(a[0], a[1]),
    "SolarWeek": lambda a: SolarWeek.fromYmd(a[0], a[1], a[2], a[5] % 7), "SolarMonth": lambda a: SolarMonth.fromYm(a[0], a[1]),
    "SolarSeason": lambda a: SolarSeason.fromYm(a[0], a[1]), "SolarHalfYear": lambda a: SolarHalfYear.fromYm(a[0], a[1]),
    "SolarYear": lambda a: SolarYear.fromYear(a[0]), "JieQi": lambda a: L(a).getPrevJieQi(), "NineStar": lambda a: L(a).getDayNineStar(),
    "ShuJiu": lambda a: Solar.fromYmd(a[0], 1, 1 + a[5] % 28).getLunar().getShuJiu(), "Fu": lambda a: Solar.fromYmd(a[0], 7, 25 + a[5] % 6).getLunar().getFu(),
    "Holiday": lambda a: HolidayUtil.getHoliday(2002 + a[5] % 20, 5, 1),
    "FotoFestival": lambda a: Foto.fromYmd(a[0] + 543, 1, 1).getFestivals()[0], "TaoFestival": lambda a: Tao.fromYmd(a[0] + 2697, 1, 1).getFestivals()[0],
}
WIDE = ("LunarYear", "LunarMonth", "SolarWeek", "SolarMonth", "SolarSeason", "SolarHalfYear", "SolarYear")
STEPS = {
    "text of a date": lambda a: (str(S(a)), S(a).toFullString(), str(L(a)), L(a).toFullString()),
    "Solar.next": lambda a: S(a).next(a[5] * 40 - 900), "Solar.next work day": lambda a: S((2015,) + a[1:]).next(a[5] - 30, True),
    "Solar.nextMonth": lambda a: S(a).nextMonth(a[5] - 30), "Solar.nextYear": lambda a: S(a).nextYear(a[5] - 30), "Solar.nextHour": lambda a: S(a).nextHour(a[5] * 20 - 600),
    "Solar.subtract": lambda a: (S(a).subtract(S(a).next(a[5])), S(a).subtractMinute(S(a).nextHour(a[4]))),
    "Solar.isAfter": lambda a: (S(a).isAfter(S(a).next(1)), S(a).isBefore(S(a).next(1))),
    "Solar.fromJulianDay": lambda a: Solar.fromJulianDay(2440000.5 + a[0] * 7 + a[2] + a[5] / 60.0), "Solar.fromDate": lambda a: Solar.fromDate(__import__("datetime").datetime(*a)),
    "Solar.fromBaZi": lambda a: Solar.fromBaZi(*L(a).getBaZi(), 2, 1980),
    "Lunar.fromYmdHms": lambda a: Lunar.fromYmdHms(*a), "Lunar.fromDate": lambda a: Lunar.fromDate(__import__("datetime").datetime(*a)), "Lunar.next": lambda a: L(a).next(a[5] * 20 - 600),
    "LunarMonth.next": lambda a: LunarMonth.fromYm(a[0], a[1]).next(a[5] - 30), "LunarYear.next": lambda a: LunarYear.fromYear(a[0]).next(a[5] - 30),
    "LunarYear.getMonth": lambda a: LunarYear.fromYear(a[0]).getMonth(a[1]),
    "SolarWeek.next": lambda a: (SolarWeek.fromYmd(a[0], a[1], a[2], 1).next(a[5] % 9 - 4, False), SolarWeek.fromYmd(a[0], a[1], a[2], 1).next(a[5] % 9 - 4, True)),
    "SolarMonth.getWeeks": lambda a: SolarMonth.fromYm(a[0], a[1]).getWeeks(a[5] % 7), "SolarMonth.next": lambda a: SolarMonth.fromYm(a[0], a[1]).next(a[5] - 30),
    "SolarSeason.next": lambda a: (SolarSeason.fromYm(a[0], a[1]).next(a[5] - 30), SolarHalfYear.fromYm(a[0], a[1]).next(a[5] - 30), SolarYear.fromYear(a[0]).next(3)),
    "Foto.fromYmdHms": lambda a: Foto.fromYmdHms(a[0] + 543, *a[1:]), "Tao.fromYmdHms": lambda a: Tao.fromYmdHms(a[0] + 2697, *a[1:]),
    "LunarTime.fromYmdHms": lambda a: LunarTime.fromYmdHms(*a), "NineStar.fromIndex": lambda a: str(NineStar.fromIndex(a[5] % 9)),
    "Lunar terms": lambda a: (L(a).getPrevJie(True), L(a).getNextJie(True), L(a).getPrevQi(True), L(a).getNextQi(True), L(a).getPrevJieQi(True), L(a).getNextJieQi(True)),
    "Lunar spirits by option": lambda a: [getattr(L(a), f)(1 + a[5] % 2) for f in ("getDayPositionFu", "getDayPositionTaiSui", "getDayYi", "getDayJi", "getYearNineStar", "getMonthNineStar")],
    "EightChar.setSect": lambda a: L(a).getEightChar().setSect(1 + a[5] % 2),
    "luck in full": lambda a: [(x.getGanZhi(), x.getLiuYue()[a[4] % 12].getXun()) for x in decade(a).getLiuNian(2)] + [x.getGanZhi() for x in decade(a).getXiaoYun(2)],
    "HolidayUtil.getHoliday": lambda a: (HolidayUtil.getHoliday(a[0] + 20, a[1], a[2]), HolidayUtil.getHoliday("%04d-%02d-%02d" % (a[0] + 20, a[1], a[2])), HolidayUtil.getHoliday(a[0] + 20, 10, 1)),
    "HolidayUtil.getHolidays": lambda a: (HolidayUtil.getHolidays(a[0] + 20, a[1]), HolidayUtil.getHolidays(2005 + a[5] % 15), HolidayUtil.getHolidays("2010-%02d" % a[1])),
    "HolidayUtil.getHolidaysByTarget": lambda a: (HolidayUtil.getHolidaysByTarget(2010, 5, 1), HolidayUtil.getHolidaysByTarget(a[0] + 20, a[1], a[2])),
    "SolarUtil": lambda a: (SolarUtil.isLeapYear(a[0]), SolarUtil.getDaysOfYear(a[0]), SolarUtil.getDaysOfMonth(a[0], a[1]), SolarUtil.getDaysInYear(*a[:3]), SolarUtil.getWeeksOfMonth(a[0], a[1], a[5] % 7),
                            SolarUtil.getDaysBetween(a[0], a[1], a[2], 2000, 1, 1)),
    "LunarUtil": lambda a: (LunarUtil.getTimeZhiIndex("%02d:%02d" % a[3:5]), LunarUtil.convertTime("%02d:%02d" % a[3:5]), LunarUtil.getXun("甲子"), LunarUtil.getXunKong("乙丑"), LunarUtil.getJiaZiIndex("丙寅"),
                            LunarUtil.nextMonth(a[0], a[1]) if hasattr(LunarUtil, "nextMonth") else 0),
    "refused dates": lambda a: [refused(f) for f in (lambda: Solar.fromYmd(a[0], 13, a[2]), lambda: Solar.fromYmd(a[0], a[1], 40 + a[5]), lambda: Solar.fromYmdHms(a[0], 1, 1, 24 + a[5], 0, 0), lambda: Solar.fromYmd(1582, 10, 5 + a[5] % 10),
                                                     lambda: Lunar.fromYmd(a[0], a[1], 31 + a[5]), lambda: Lunar.fromYmd(a[0], -13, 1), lambda: LunarMonth.fromYm(a[0], 13 + a[5]), lambda: Solar.fromYmdHms(a[0], 1, 1, 1, 60 + a[5], 0),
                                                     lambda: Solar.fromYmdHms(a[0], 1, 1, 1, 1, 60 + a[5]), lambda: Lunar.fromYmd(a[0], a[1], -a[5]))],
    "refused questions": lambda a: [refused(f) for f in (lambda: HolidayUtil.getHoliday("%d" % a[5]), lambda: HolidayUtil.getHolidays("x%d" % a[5]), lambda: LunarUtil.getXun("x%d" % a[5]), lambda: LunarYear.fromYear("%d" % a[0]),
                                                         lambda: Solar.fromBaZi("甲子", "甲子", "甲子", "x%d" % a[5]), lambda: LunarUtil.convertTime("x%d" % a[5]), lambda: NineStar.fromIndex(90 + a[5]).getName())],
}


def refused(f):
    try:
        return f()
    except Exception:
        return None


def kept():
    """elements of every container that can be reached from the library's modules"""
    import types
    todo = [m for k, m in list(sys.modules.items()) if k == "lunar_python" or k.startswith("lunar_python.")]
    seen = set(map(id, todo))
    n = 0
    while todo:
        o = todo.pop()
        if isinstance(o, (list, tuple, dict, set, frozenset)):
            n += len(o)
        for x in gc.get_referents(o):
            if id(x) in seen or isinstance(x, (int, float, types.CodeType, types.BuiltinFunctionType)):
                continue
            seen.add(id(x))
            if isinstance(x, str):
                n += len(x)
                continue
            if isinstance(x, types.ModuleType) or isinstance(x, type) and not x.__module__.startswith("lunar_python"):
                continue
            if isinstance(x, types.FunctionType):       # its defaults and what it closes over, not its globals
                for y in (x.__defaults__, x.__kwdefaults__, x.__closure__, x.__dict__):
                    if y and id(y) not in seen:
                        seen.add(id(y))
                        todo.append(y)
                continue
            if isinstance(x, dict) and "__builtins__" in x and x.get("__name__") == "builtins":
                continue
            todo.append(x)
    return n


def c31_each(mon, seed, kind, name, n, rounds):
    """one attribute or one step, asked of ever other objects"""
    r = random.Random(seed)
    when = far if kind in WIDE or name in WIDE else at
    if kind == "step":
        f = STEPS[name]
    else:
        make = MAKE[kind]
        f = lambda a: getattr(make(a), name)()

    def go():
        for i in range(n):
            f(when(r))
        gc.collect()
        return sys.getallocatedblocks(), kept()
    for i in range(3):
        f(when(r))
    b = [go() for k in range(rounds)]
    # what grows is asked about for longer: a table or cache that fills up, does; only a leak goes on
    t0 = core._cpu()
    more = 0
    while growing(b, n) and more < 600 and core._cpu() - t0 < 40:
        b += [go() for k in range(6)]
        more += 6
    mon.count("rounds measured", len(b))
    mon.count("attributes and steps measured")
    mon.seen("asked alone", (kind, name))
    mon.ok("memory does not grow with one question asked again and again", not growing(b, n), kind, name, "allocated blocks and elements kept after each round of %d: %s" % (n, b[-8:]))


def growing(b, n):
    d = [(y[0] - x[0], y[1] - x[1]) for x, y in zip(b[-6:], b[-5:])]
    return min(x[0] for x in d) >= 0.5 * n or min(x[1] for x in d) >= 0.5 * n


def c31_eachs(mon, rng, what, n, rounds):
    core.CPU_BUDGET = 400.0
    gc.collect()
    gc.freeze()
    for kind, name in what:
        mon.run(c31_each, rng.randrange(1 << 30), kind, name, n, rounds)
        if mon.bad_list:
            return


def c31_names():
    return [(k, g) for k in sorted(MAKE) for g in sorted(ps.API[k])] + [("step", s) for s in sorted(STEPS)]


def c31_shard(mon, rng, what, args):
    core.CPU_BUDGET = 400.0     # one case is hundreds of questions
    mon.run(globals()[what], rng.randrange(1 << 30), *args)


def c31_plan(tier, seed):
    k = 1 if tier == "quick" else 6
    out = []
    for name in KINDS:
        out += [("c31_shard", ("c31_same", (name, 20 if name == "charts" else 70)))] * (2 * k) + [("c31_shard", ("c31_repeat", (name, 20 if name == "charts" else 60)))] * (2 * k)
    names = c31_names()
    random.Random(seed).shuffle(names)
    out += [("c31_eachs", (names[i::48], 24 if tier == "quick" else 60, 7)) for i in range(48)]
    return out + [("c31_shard", ("c31_years", (60,)))] * (6 * k) + [("c31_shard", ("c31_fix", (60,)))] * (4 * k)
