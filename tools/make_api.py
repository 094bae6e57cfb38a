# -*- coding: utf-8 -*-
"""Development-time: records the public getters without required arguments of the pinned tree and the types they return
(golden/api.json). Never run by a check."""
import inspect, json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv.lib import *
from rv import api
from rv.model import *
memo()


def getters(cls):
    out = []
    for k, f in inspect.getmembers(cls, inspect.isfunction):
        if k.startswith("_") or isinstance(inspect.getattr_static(cls, k), staticmethod) or not k.startswith(("get", "is", "to")):
            continue
        ps = list(inspect.signature(f).parameters.values())[1:]
        if all(p.default is not p.empty for p in ps):
            out.append(k)
    return sorted(out)


T = {}


def visit(o):
    c = type(o).__name__
    t = T.setdefault(c, {})
    if not t:
        for g in getters(type(o)):
            t[g] = set()
    for g in t:
        v = getattr(o, g)()
        t[g].add(api.sig(v) if v != "" else "empty")


r = random.Random(5)
for i in range(int(sys.argv[1]) if len(sys.argv) > 1 else 3000):
    y = r.choice((r.randint(2, 9997), r.randint(1990, 2030), 1582, 238))
    n = r.randint(jdn(y, 1, 1), jdn(y, 12, 31))
    for o in api.objects(n, rnd_sod(r), r):
        visit(o)
for h in HolidayUtil.getHolidays(2020):
    visit(h)
json.dump({c: {g: sorted(s) for g, s in t.items()} for c, t in sorted(T.items())}, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "golden", "api.json"), "w", encoding="utf-8"), indent=1, ensure_ascii=False)
for c in sorted(T):
    print(c, len(T[c]), [g for g in T[c] if len(T[c][g]) > 1][:12])
