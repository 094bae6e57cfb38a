"""How many distinct questions (method, receiver, arguments) a check puts to each public method of the library, asked by
the check itself and not by the library (development only).  reach.py ID [tier] -> lines "count class.method" """
import sys, os, types, functools, json, tempfile, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from rv import core, lib, registry
import lunar_python, inspect, importlib
SEEN = {}
PR = (int, str, float, bool)
KEEP = 400000


def key(o, d=0):
    if isinstance(o, PR) or o is None:
        return o
    if isinstance(o, (list, tuple)):
        return tuple(key(x, d) for x in o[:8])
    v = getattr(o, "__dict__", None)
    if v is None or d > 2:
        return type(o).__name__
    return (type(o).__name__,) + tuple(key(x, d + 1) for k, x in sorted(v.items()) if not isinstance(x, (dict, list)))


def wrap(name, f):
    @functools.wraps(f)
    def g(*a, **k):
        if "/rv/" in sys._getframe(1).f_code.co_filename:
            s = SEEN.setdefault(name, set())
            if len(s) < KEEP:
                try:
                    s.add(hash((key(a[0]),) + tuple(key(x) for x in a[1:]) + tuple(sorted(k.items()))) if a else 0)
                except Exception:
                    s.add(0)
        return f(*a, **k)
    return g


def patch():
    mods = [m for n, m in list(sys.modules.items()) if n.startswith("lunar_python")]
    done = set()
    for m in mods:
        for c in vars(m).values():
            if inspect.isclass(c) and c.__module__.startswith("lunar_python") and c not in done:
                done.add(c)
                for n, f in list(vars(c).items()):
                    if n.startswith("_"):
                        continue
                    nm = c.__name__ + "." + n
                    if isinstance(f, types.FunctionType):
                        setattr(c, n, wrap(nm, f))
                    elif isinstance(f, staticmethod):
                        setattr(c, n, staticmethod(wrap(nm, f.__func__)))


D = tempfile.mkdtemp(prefix="reach")
orig = core._work1


def work1(job):
    SEEN.clear()
    r = orig(job)
    with open(os.path.join(D, "%d.json" % job[4]), "w") as f:
        json.dump({k: len(v) for k, v in SEEN.items()}, f)
    return r


if __name__ == "__main__":
    pid, tier = sys.argv[1], (sys.argv[2:] or ["quick"])[0]
    spec = registry.SPECS[pid]()
    importlib.import_module(spec["module"])
    patch()
    core._work1 = work1
    os.environ["RV_EVID"] = D
    core.run_property(pid, spec, tier, 1)
    tot = {}
    for p in glob.glob(D + "/*.json"):
        if os.path.basename(p)[0].isdigit():
            for k, v in json.load(open(p)).items():
                tot[k] = tot.get(k, 0) + v
    for k, v in sorted(tot.items(), key=lambda x: (x[1], x[0])):
        print("%8d %s" % (v, k))
