# -*- coding: utf-8 -*-
"""C32 answering does nothing else: no output, warnings, files, sockets, processes, threads, changed settings or changed arguments."""
import atexit, builtins, decimal, gc, importlib, io, locale, os, pickle, random, signal, socket, subprocess, sys, tempfile, threading, time, warnings
from .lib import *
from .model import *
from . import core, p_state as ps, tables as tb
from . import p_fest as pf

ROOT = core.ROOT
ARMED = [False]
SEEN = []
PUT = []            # what was written to the standard streams
WARNED = []
FDS = []
_ready = [False]
WATCH = ("open", "os.", "socket.", "subprocess.", "shutil.", "ctypes.", "sqlite3.", "tempfile.", "ftplib.", "http.", "urllib.", "smtplib.", "webbrowser.", "mmap.", "fcntl.", "pty.",
         "syslog.", "time.sleep", "_thread.start_new_thread", "signal.", "resource.", "sys.settrace", "sys.setprofile", "sys.addaudithook", "pathlib.", "glob.", "builtins.input",
         "cpython.run_", "exec", "compile", "import_", "msvcrt.", "winreg.")
SKIP = ("os.fwalk",)


def importing():
    f = sys._getframe(2)
    while f is not None:
        n = f.f_code.co_filename
        if n.startswith("<frozen importlib") or n.endswith("importlib/__init__.py"):
            return True
        f = f.f_back
    return False


def hook(event, args):
    if not ARMED[0] or not event.startswith(WATCH):
        return
    if event == "open" and isinstance(args[0], str) and args[0].startswith(ROOT) and args[1] in ("r", "rb", None):
        return      # the harness's own reference data
    if importing():
        return
    if len(SEEN) < 20:
        SEEN.append((event, repr(args)[:120]))


class Rec(io.TextIOBase):
    def write(self, s):
        PUT.append(s[:80])
        return len(s)


def ready():
    """once per worker process: the standard streams lead to a recorder, and an audit hook listens"""
    if _ready[0]:
        return
    _ready[0] = True
    cal()
    tb.T["holidays"]
    fd = os.memfd_create("streams")
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    FDS.append(fd)
    sys.stdout = sys.__stdout__ = Rec()
    sys.stderr = sys.__stderr__ = Rec()
    warnings.simplefilter("always")
    warnings.showwarning = lambda *a, **k: WARNED.append(repr(a[:2])[:150])
    sys.addaudithook(hook)


def settings():
    """the interpreter's and the process's settings"""
    c = decimal.getcontext()
    return {
        "random generator": hash(random.getstate()), "decimal context": (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, tuple(sorted(k.__name__ for k, v in c.traps.items() if v))),
        "locale": locale.setlocale(locale.LC_ALL), "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(), "working directory": os.getcwd(),
        "environment": tuple(sorted(os.environ.items())), "time zone": (time.tzname, time.timezone), "warning filters": repr(warnings.filters), "tracing": (sys.gettrace(), sys.getprofile()),
        "garbage collection": (gc.isenabled(), gc.get_threshold(), len(gc.callbacks), gc.get_debug()), "threads": threading.active_count(),
        "signal handlers": tuple(str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPROF, signal.SIGUSR1, signal.SIGCHLD, signal.SIGPIPE)),
        "import path": tuple(sys.path), "hooks": (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook, warnings.showwarning), "streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "builtins": tuple(builtins.__dict__), "exit functions": atexit._ncallbacks(), "socket timeout": socket.getdefaulttimeout(), "integer text limit": sys.get_int_max_str_digits(),
        "bytecode": sys.dont_write_bytecode,
    }


def files():
    return tuple(sorted(os.listdir("/proc/self/fd"))) + tuple(sorted(os.listdir(".")))


class Deaf(core.Mon):
    """lets a workload of another property run; what its oracles think is not asked here"""

    def __init__(self):
        core.Mon.__init__(self, "C32")

    def bad(self, *a):
        pass

    def run(self, fn, *args):
        fn(self, *args)


def watch(mon, fn, ctx, deep=False):
    """run fn and see what else it did"""
    ready()
    before = settings()
    ff = files() if deep else None
    del SEEN[:], PUT[:], WARNED[:]
    size = os.fstat(FDS[0]).st_size
    ARMED[0] = True
    try:
        fn()
    except Exception:
        pass
    finally:
        ARMED[0] = False
    after = settings()
    mon.ok("no files, sockets, processes, threads or system calls", not SEEN, ctx, SEEN[:3])
    mon.ok("nothing is written to the standard streams", not PUT and os.fstat(FDS[0]).st_size == size, ctx, PUT[:3], os.fstat(FDS[0]).st_size - size)
    mon.ok("no warnings", not WARNED, ctx, WARNED[:3])
    ch = [k for k in before if before[k] != after[k]]
    mon.ok("settings of interpreter and process stay as they were", not ch, ctx, ch, [(str(before[k])[:80], str(after[k])[:80]) for k in ch[:2]])
    if deep:
        mon.eq("no file is left open or left behind", files(), ff, ctx)


def c32_case(mon, module, name, args):
    """one case of another property's workload"""
    f = getattr(importlib.import_module(module), name)
    watch(mon, lambda: f(Deaf(), *args), (name, repr(args)[:200]))
    mon.seen("kinds of case", name)


class Drive(Deaf):
    def __init__(self, mon, until):
        Deaf.__init__(self)
        self.mon = mon
        self.until = until

    def run(self, fn, *args):
        self.mon.run(c32_case, fn.__module__, fn.__name__, args)
        if time.time() > self.until:
            raise core.Stop()


def c32_drive(mon, rng, module, name, args, secs):
    ready()
    mod = importlib.import_module(module)
    d = Drive(mon, time.time() + secs)
    try:
        getattr(mod, name)(d, rng, *args)
    except core.Stop:
        if mon.bad_list:
            raise


ASKED = ["solar", "lunar", "lunar_ymd", "getter", "year", "month", "ec", "yun", "week", "units", "time", "terms", "foto", "hol", "work", "util", "bad", "bazi"]


def c32_asked(mon, seed, n):
    """questions of every kind, refused ones among them"""
    r = random.Random(seed)
    for op in ps.questions(r, n, ASKED):
        watch(mon, lambda: ps.ask(op), repr(op)[:200], deep=True)
        mon.seen("kinds of question", op[0])


def c32_long(mon, seed):
    """very long steps and lists, and arguments off the beaten track"""
    r = random.Random(seed)
    y, m, d = r.randint(1000, 9000), r.randint(1, 12), r.randint(16, 28)
    k = r.choice((-1, 1)) * r.randint(601, 9000)
    w = r.choice((-1, 1)) * r.randint(1001, 2500)
    s = Solar.fromYmdHms(y, m, d, r.randrange(24), r.randrange(60), r.randrange(60))
    l = s.getLunar()
    n = r.choice((13, 62, 130))
    acts = {
        "lunar months": lambda: LunarMonth.fromYm(y, m).next(k), "lunar years": lambda: LunarYear.fromYear(y).next(k // 10), "days": lambda: s.next(k * 100), "lunar days": lambda: l.next(k * 30),
        "months": lambda: s.nextMonth(k), "years": lambda: s.nextYear(k // 10), "hours": lambda: s.nextHour(k * 1000), "working days": lambda: s.next(w, True),
        "weeks": lambda: SolarWeek.fromYmd(y, m, d, r.randrange(7)).next(k, False), "cut weeks": lambda: SolarWeek.fromYmd(y, m, d, r.randrange(7)).next(w, True),
        "civil months": lambda: SolarMonth.fromYm(y, m).next(k), "quarters": lambda: SolarSeason.fromYm(y, m).next(k // 3), "half-years": lambda: SolarHalfYear.fromYm(y, m).next(k // 6),
        "civil years": lambda: SolarYear.fromYear(y).next(k // 10), "distance": lambda: (s.subtract(Solar.fromYmd(max(1, y + k // 10), 1, 1)), s.subtractMinute(Solar.fromYmd(max(1, y - 900), 1, 1))),
        "luck": lambda: [(q.getGanZhi(), q.getXunKong(), [v.getGanZhi() for v in q.getLiuNian(n)][-1], [v.getGanZhi() for v in q.getXiaoYun(n)][-1]) for q in l.getEightChar().getYun(r.randrange(2), r.choice((1, 2))).getDaYun(n)[-2:]],
        "pillars": lambda: Solar.fromBaZi(l.getYearInGanZhiExact(), l.getMonthInGanZhiExact(), l.getDayInGanZhiExact(), l.getTimeInGanZhi(), r.choice((1, 2)), r.choice((1, 1000, 1900))),
        "contradictory pillars": lambda: Solar.fromBaZi(r.choice(ps.JZ), r.choice(ps.JZ), r.choice(ps.JZ), r.choice(ps.JZ)),
        "Julian days": lambda: [Solar.fromJulianDay(r.uniform(1721424, 5373484)) for _ in range(30)],
        "conversions": lambda: (LunarUtil.convertTime("%02d:%02d:00" % (r.randrange(30), r.randrange(70))), LunarUtil.getTimeZhiIndex(None), LunarUtil.getXun("甲"), LunarUtil.getJiaZiIndex("")),
        "all of a lunar year": lambda: [(x.toString(), x.getNineStar().toFullString(), x.getPositionTaiSuiDesc()) for x in LunarYear.fromYear(y).getMonths()],
        "lists": lambda: ([t.toFullString() if hasattr(t, "toFullString") else t.toString() for t in l.getTimes()], l.getFoto().toFullString(), l.getTao().toFullString(), l.toFullString(), s.toFullString()),
    }
    for name in r.sample(sorted(acts), len(acts)):
        watch(mon, acts[name], (name, y, m, d, k, w), deep=name == "lists")
        mon.seen("kinds of case", name)


def c32_names(mon, seed):
    """corrections; the list of names stays as it was"""
    r = random.Random(seed)
    names = ["名%d" % i for i in range(12)]
    keep = list(names)
    b = pf.Book()
    data = "".join(pf.segment(r, b) for _ in range(r.randint(1, 6)))

    def f():
        HolidayUtil.fix(names, data)
        HolidayUtil.getHolidays(2020)
        HolidayUtil.fix(None, data)
        HolidayUtil.getHolidaysByTarget(2020)
        ps.ask(("work", (2020, 5, 1, 1, 2, 3), 3))
    watch(mon, f, ("corrections", seed), deep=True)
    mon.eq("the caller's list is as it was", names, keep, seed)
    g = ["甲", "乙"]
    LunarUtil.find("乙", g, 0)
    mon.eq("the caller's list is as it was", g, ["甲", "乙"], seed)


FLAGS = ("-Werror", "-bb", "-Xdev", "-I", "-O", "-OO", "-Xutf8=0", "-Xwarn_default_encoding")
STRICT = """
import sys
sys.path.insert(0, %r); sys.path.insert(0, %r)
sys.dont_write_bytecode = True
import importlib
importlib.import_module(%r)
n0 = set(sys.modules)
"""


def c32_strict(mon, seed, size):
    """a process of its own, started with warnings as errors, isolated, optimised ...; its output is the answers and nothing else"""
    r = random.Random(seed)
    ops = ps.questions(r, size, ASKED[:-2])
    ref = ps.cold(ops)
    fl = [f for f in FLAGS if r.random() < 0.5]
    if not {"-Werror"} & set(fl):
        fl.append("-Werror")
    d = tempfile.mkdtemp(prefix="rv_c32_")
    try:
        first = r.choice(ps.FIRST)
        code = STRICT % (REPO, ROOT, first) + (
            "import pickle\nfrom rv import p_state\nops = pickle.load(sys.stdin.buffer)\nout = [p_state.ask(op) for op in ops]\n"
            "sys.stdout.buffer.write(b'@' + pickle.dumps(out))\n")
        # the library alone, first: importing it says nothing
        o = subprocess.run([sys.executable] + fl + ["-c", STRICT % (REPO, ROOT, first)], cwd=d, capture_output=True, stdin=subprocess.DEVNULL, timeout=100)
        mon.ok("importing the library is silent", o.returncode == 0 and not o.stdout and not o.stderr, fl, first, o.stdout[-200:], o.stderr.decode(errors="replace")[-300:])
        env = dict(os.environ, VERIF_REPO=REPO, HOME=d, TMPDIR=d)
        o = subprocess.run([sys.executable] + [f for f in fl if f not in ("-I",)] + ["-c", code], cwd=d, env=env, input=pickle.dumps(ops), capture_output=True, timeout=200)
        mon.ok("a strict interpreter hears nothing but the answers", o.returncode == 0 and o.stdout[:1] == b"@" and not o.stderr, fl, o.stdout[:80], o.stderr.decode(errors="replace")[-300:])
        if o.returncode == 0 and o.stdout[:1] == b"@":
            mon.ok("a strict interpreter gives the same answers", pickle.loads(o.stdout[1:]) == ref, fl, seed)
        mon.eq("no file is left open or left behind", os.listdir(d), [], fl, seed)
        for f in fl:
            mon.seen("interpreter options", f)
    finally:
        for x in os.listdir(d):
            if os.path.isfile(os.path.join(d, x)):
                os.unlink(os.path.join(d, x))
        try:
            os.rmdir(d)
        except OSError:
            pass


def c32_shard(mon, rng, what, args, k):
    for _ in range(k):
        mon.run(globals()[what], rng.randrange(1 << 30), *args)


NOT = ("c14_clock", "c22_shard", "c22_bulk", "c22_static", "c23_fixed")      # processes of their own, or histories that other cases would feel


def c32_plan(tier, seed):
    from . import registry
    q = tier == "quick"
    r = random.Random(seed)
    out = []
    for p in sorted(registry.SPECS):
        if p in ("C25", "C26", "C31", "C32"):
            continue
        s = registry.SPECS[p]()
        by = {}
        for f, a in s["plan"]("quick", seed):
            if f not in NOT:
                by.setdefault(f, []).append(a)
        for f in sorted(by):
            for a in r.sample(by[f], min(len(by[f]), 3 if q else 10)):
                out.append(("c32_drive", (s["module"], f, a, 2.5 if q else 4)))
    r.shuffle(out)
    out += [("c32_shard", ("c32_asked", (120,), 2 if q else 12))] * (16 if q else 48)
    out += [("c32_shard", ("c32_long", (), 4))] * (16 if q else 120)
    out += [("c32_shard", ("c32_names", (), 10))] * (8 if q else 32)
    out += [("c32_shard", ("c32_strict", (40 if q else 100,), 1))] * (16 if q else 160)
    return out
