# -*- coding: utf-8 -*-
"""Monitoring harness: runs a property's workload in worker processes, feeds observed calls to oracles, counts
what the oracles saw, records violations with a replayable case, writes evidence."""
import importlib, json, multiprocessing, os, random, signal, sys, time, traceback, zlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY = os.path.join(ROOT, "evidence", "replay")
CPU_BUDGET = 60.0       # CPU seconds one case may burn (a normal case takes milliseconds)
MAXBAD = 12             # violations kept per shard


PLAIN = [False]         # this piece of the workload runs without the harness's own accelerations


class Runaway(BaseException):
    """a case burnt its CPU budget: the call under test does not terminate"""


class Blocked(BaseException):
    """a case made no CPU progress for BLOCK_WALL seconds: the call under test waits for ever"""


class Stop(BaseException):
    pass


BLOCK_WALL = 60.0
WALL = 820.0        # a check has 900 s: past this, what is left of the workload is dropped, and the evidence says so
_cpu0 = [0.0]


def _cpu():
    """CPU time of this process, of the children it has waited for and of those still at work"""
    t = os.times()
    c = t.user + t.system + t.children_user + t.children_system
    try:
        for k in os.listdir("/proc/self/task"):
            with open("/proc/self/task/%s/children" % k) as f:
                for pid in f.read().split():
                    with open("/proc/%s/stat" % pid) as g:
                        w = g.read().rsplit(")", 1)[1].split()
                    c += (int(w[11]) + int(w[12])) / float(os.sysconf("SC_CLK_TCK"))
    except (OSError, IndexError, ValueError):
        pass
    return c


def _prof(sig, frame):
    raise Runaway()


def _real(sig, frame):
    c = _cpu()
    if abs(c - _cpu0[0]) < 0.5:
        raise Blocked()
    _cpu0[0] = c


def arm():
    t = os.times()
    _cpu0[0] = t.user + t.system + t.children_user + t.children_system
    signal.setitimer(signal.ITIMER_PROF, CPU_BUDGET)
    signal.setitimer(signal.ITIMER_REAL, BLOCK_WALL, BLOCK_WALL)


def disarm():
    signal.setitimer(signal.ITIMER_PROF, 0)
    signal.setitimer(signal.ITIMER_REAL, 0)


def from_library(tb):
    """does the traceback pass through the code under test?"""
    return "lunar_python" in tb


def brief(tb):
    ls = tb.strip().splitlines()
    return (ls[-1] + " | " + " < ".join(l.strip() for l in ls if l.strip().startswith("File")))[-1200:]


class Mon(object):
    """oracle side of one shard: counters, distinct states, violations"""

    def __init__(self, prop, known=()):
        self.prop = prop
        self.n = {}             # oracle name -> evaluations
        self.sets = {}          # kind -> set of distinct observed states
        self.bad_list = []
        self.known = known
        self.known_hit = {}
        self.slow = 0.0
        self.samples = []
        self.case = None
        self.cases = 0

    # --- oracles -------------------------------------------------------------------------------
    def eq(self, what, got, exp, *ctx):
        self.n[what] = self.n.get(what, 0) + 1
        if got != exp or type(got) is not type(exp) and not (isinstance(got, (int, float)) and isinstance(exp, (int, float)) and not isinstance(got, bool) and not isinstance(exp, bool)):
            self.bad(what, "expected %r, observed %r" % (exp, got), ctx)
            return False
        return True

    def ok(self, what, cond, *ctx):
        self.n[what] = self.n.get(what, 0) + 1
        if not cond:
            self.bad(what, "condition does not hold", ctx)
            return False
        return True

    def count(self, what, k=1):
        self.n[what] = self.n.get(what, 0) + k

    def seen(self, kind, key):
        s = self.sets.get(kind)
        if s is None:
            s = self.sets[kind] = set()
        s.add(key)

    def sample(self, *x):
        if len(self.samples) < 3:
            self.samples.append([repr(v) if not isinstance(v, (int, str, float, list, tuple)) else v for v in x])

    def bad(self, what, msg, ctx=()):
        ctx = [repr(c) if not isinstance(c, (int, str, float)) else c for c in ctx]
        v = {"oracle": what, "message": msg, "context": ctx, "case": self.case}
        for i, k in enumerate(self.known):
            if k["oracle"] == what and ctx and str(ctx[0]) in k["inputs"]:
                self.known_hit.setdefault(i, []).append(v)
                return
        self.bad_list.append(v)
        if len(self.bad_list) >= MAXBAD:
            raise Stop()

    # --- execution -----------------------------------------------------------------------------
    def run(self, fn, *args):
        """run one case under the CPU budget; anything the library throws out of it is a violation"""
        self.case = {"fn": fn.__module__ + ":" + fn.__name__, "args": args}
        self.cases += 1
        c0 = time.process_time()
        arm()
        try:
            fn(self, *args)
        except Runaway:
            disarm()
            self.bad("terminates", "no result after %d s of CPU time" % CPU_BUDGET, args)
            raise Stop()
        except Blocked:
            disarm()
            self.bad("does not block", "no CPU progress for %d s: the call waits for ever" % BLOCK_WALL, args)
            raise Stop()
        except Exception:
            disarm()
            self.bad("no unexpected exception", brief(traceback.format_exc()), args)
        finally:
            disarm()
            c0 = time.process_time() - c0
            if c0 > self.slow:
                self.slow = c0

    def dump(self):
        return (self.n, self.sets, self.bad_list, self.known_hit, self.samples, self.cases, self.slow)


_lines = {}
LIB = os.sep + "lunar_python" + os.sep


def _line(code, no):
    f = code.co_filename
    if LIB in f:
        _lines.setdefault(f[f.index(LIB) + len(LIB):] + ":" + code.co_qualname, set()).add(no)
    return sys.monitoring.DISABLE


def reach():
    """record which lines of the library are executed (each reported once per process, then switched off)"""
    m = sys.monitoring
    try:
        m.use_tool_id(4, "reach")
    except ValueError:
        return
    m.register_callback(4, m.events.LINE, _line)
    m.set_events(4, m.events.LINE)


def _work(job):
    reach()
    _lines.clear()
    r = _work1(job)
    return r + ({k: set(v) for k, v in _lines.items()},)


def _work1(job):
    modname, fname, args, seed, idx, prop, known, plain = job
    signal.signal(signal.SIGPROF, _prof)
    signal.signal(signal.SIGALRM, _real)
    mod = importlib.import_module(modname)
    mon = Mon(prop, known)
    rng = random.Random("%s/%s/%d" % (seed, prop, idx))
    t = time.time()
    err = None
    PLAIN[0] = idx % plain == 5
    try:
        getattr(mod, fname)(mon, rng, *args)
    except Stop:
        pass
    except BaseException:
        err = traceback.format_exc()
        if from_library(err):
            try:
                mon.bad("no unexpected exception", brief(err), args)
            except Stop:
                pass
            err = None
    for v in mon.bad_list:
        v["shard"] = {"fn": modname + ":" + fname, "args": args, "index": idx}
    return mon.dump(), err, time.time() - t, (fname, args)


def load_known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    out = []
    for f in json.load(open(p, encoding="utf-8"))["findings"]:
        if f["property"] == prop:
            f = dict(f)
            f["inputs"] = set(str(x) for x in f["inputs"])
            out.append(f)
    return out


def run_property(prop, spec, tier, seed):
    """spec: dict(module, plan(tier, seed)->[(shard fn name, args)], need=[oracle names that must have fired],
    rule, distinct=[set kinds], assumptions, level)"""
    t0 = time.time()
    known = load_known(prop)
    shards = spec["plan"](tier, seed)
    part = int(os.environ.get("RV_PART", 1))        # development: every part-th piece of the workload only
    if part > 1:
        random.Random(seed).shuffle(shards)
        shards = shards[:max(1, len(shards) // part)]
    jobs = [(spec["module"], f, a, seed, i, prop, known, spec.get("plain", 6)) for i, (f, a) in enumerate(shards)]
    n = {}
    sets = {}
    bad = []
    hits = {}
    samples = []
    cases = 0
    errs = []
    lines = {}
    ncpu = int(os.environ.get("RV_PROCS", 0)) or min(os.cpu_count() or 1, 8)
    slow = (0, None)
    slowest = 0.0
    done = 0
    stopped = False
    with multiprocessing.get_context("fork").Pool(ncpu, maxtasksperchild=spec.get("maxtasks")) as pool:
        it = pool.imap_unordered(_work, jobs, 1)
        while True:
            try:
                d, err, dt, who, ln = it.next(max(1.0, WALL - (time.time() - t0)))
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                pool.terminate()
                break
            done += 1
            for k, v in ln.items():
                lines.setdefault(k, set()).update(v)
            if err:
                errs.append((who, err))
            if dt > slow[0]:
                slow = (dt, who)
            for k, v in d[0].items():
                n[k] = n.get(k, 0) + v
            for k, v in d[1].items():
                sets.setdefault(k, set()).update(v)
            bad += d[2]
            for k, v in d[3].items():
                hits.setdefault(k, []).extend(v)
            samples += d[4]
            cases += d[5]
            slowest = max(slowest, d[6])
            if len(bad) >= 3 * MAXBAD or any(v["oracle"] in ("does not block", "terminates") for v in d[2]):
                stopped = True
                pool.terminate()
                break
    wall = time.time() - t0
    missing = [w for w in spec["need"] if not n.get(w)]
    dk = spec.get("distinct")
    distinct = sum(len(v) for k, v in sets.items() if dk is None or k in dk)
    random.Random(seed).shuffle(samples)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": sum(n.values()),
            "distinct_nontrivial": distinct,
            "rule": spec["rule"],
            "cases": cases,
            "oracle_evaluations": dict(sorted(n.items())),
            "distinct_states": {k: len(v) for k, v in sorted(sets.items())},
            "library_functions_reached": len([k for k in lines if not k.endswith("<module>")]),
            "library_lines_reached": sum(len(v) for v in lines.values()),
            "shards": len(jobs), "shards_completed": done, "slowest_shard_s": round(slow[0], 1), "slowest_case_cpu_s": round(slowest, 1),
            "samples": samples[:12],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(bad),
    }
    if spec.get("exhaustive", {}).get(tier):
        ev["coverage"]["exhaustive_part"] = spec["exhaustive"][tier]
    if os.environ.get("RV_LINES"):
        json.dump({k: sorted(v) for k, v in lines.items()}, open(os.path.join(os.environ["RV_LINES"], prop), "w"))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if part > 1:
        os.makedirs("/tmp/rv_part", exist_ok=True)
    json.dump(ev, open("/dev/null" if part > 1 else os.path.join(ROOT, "evidence", prop + ".json"), "w", encoding="utf-8"), ensure_ascii=False, indent=1)
    for i, k in enumerate(known):
        if hits.get(i):
            print("KNOWN-FINDING: property=%s %s (%d observations)" % (prop, k["what"], len(hits[i])))
        else:
            print("KNOWN-FINDING: property=%s %s (not exercised in this run)" % (prop, k["what"]))
    print("%s %s seed=%s: %d cases, %d oracle evaluations, %d distinct, %.1fs wall, slowest case %.1fs" % (prop, tier, seed, cases, ev["coverage"]["evaluations"], distinct, wall, slowest))
    if bad:
        os.makedirs(REPLAY, exist_ok=True)
        seen = set()
        for i, v in enumerate(bad):
            if v["oracle"] in seen and i > 5:
                continue
            seen.add(v["oracle"])
            p = os.path.join(REPLAY, "%s-%d.json" % (prop, i))
            v.update({"property": prop, "seed": seed, "tier": tier, "plain": spec.get("plain", 6)})
            json.dump(v, open(p, "w", encoding="utf-8"), ensure_ascii=False, indent=1, default=repr)
            print("VIOLATION property=%s replay=%s" % (prop, p))
            print("  oracle %r: %s  %s" % (v["oracle"], v["message"], v["context"]))
        return 1
    if errs:
        print("ERROR harness failure in %d shard(s): %s\n%s" % (len(errs), errs[0][0], errs[0][1]))
        return 2
    if missing and not stopped and part == 1:
        print("INCONCLUSIVE: oracles never reached: %s" % missing)
        return 2
    return 0


def replay(path):
    v = json.load(open(path, encoding="utf-8"))
    signal.signal(signal.SIGPROF, _prof)
    signal.signal(signal.SIGALRM, _real)
    if v["case"]:
        m, f = v["case"]["fn"].split(":")
        mod = importlib.import_module(m)
        mon = Mon(v["property"])

        def tup(x):
            return tuple(tup(i) for i in x) if isinstance(x, list) else x
        try:
            mon.run(getattr(mod, f), *tup(v["case"]["args"]))
        except Stop:
            pass
        for b in mon.bad_list:
            print("REPRODUCED oracle %r: %s  %s" % (b["oracle"], b["message"], b["context"]))
        if mon.bad_list:
            return 1
    sh = v["shard"]
    m, f = sh["fn"].split(":")
    (d, err, _, _, _) = _work((m, f, sh["args"], v["seed"], sh["index"], v["property"], (), v.get("plain", 6)))
    for b in d[2]:
        print("REPRODUCED (whole shard) oracle %r: %s  %s" % (b["oracle"], b["message"], b["context"]))
    return 1 if d[2] else 0
