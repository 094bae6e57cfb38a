# -*- coding: utf-8 -*-
"""Development-time: snapshot the almanac's reference tables from the (audited) library into golden/tables.xz.
Never run by a check."""
import json, lzma, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv.lib import *
from rv.civil import JZ


def plain(c):
    out = {}
    for k in dir(c):
        v = getattr(c, k)
        if k.isupper() and not k.startswith("_") and isinstance(v, (tuple, list, dict, str, int)):
            try:
                json.dumps(v)
            except TypeError:
                continue
            out[k] = v
    return out


def ff(f):
    return [f.getName(), f.getResult(), f.isEveryMonth(), f.getRemark()]


T = {c.__name__: plain(c) for c in (LunarUtil, SolarUtil, FotoUtil, TaoUtil, EightChar, NineStar, LunarYear)}
T["FotoUtil"]["FESTIVAL"] = {k: [ff(f) for f in v] for k, v in FotoUtil.FESTIVAL.items()}
T["TaoUtil"]["FESTIVAL"] = {k: [[f.getName(), f.getRemark()] for f in v] for k, v in TaoUtil.FESTIVAL.items()}
T["dayYi"] = [["%s" % " ".join(LunarUtil.getDayYi(m, d)) for d in JZ] for m in JZ]
T["dayJi"] = [["%s" % " ".join(LunarUtil.getDayJi(m, d)) for d in JZ] for m in JZ]
T["timeYi"] = [[" ".join(LunarUtil.getTimeYi(d, t)) for t in JZ] for d in JZ]
T["timeJi"] = [[" ".join(LunarUtil.getTimeJi(d, t)) for t in JZ] for d in JZ]
T["jiShen"] = [[" ".join(LunarUtil.getDayJiShen(m, d)) for d in JZ] for m in range(1, 13)]
T["xiongSha"] = [[" ".join(LunarUtil.getDayXiongSha(m, d)) for d in JZ] for m in range(1, 13)]
T["holidays"] = [[str(h.getDay()), h.getName(), h.isWork(), h.getTarget()] for y in range(1990, 2040) for h in HolidayUtil.getHolidays(y)]
b = lzma.compress(json.dumps(T, ensure_ascii=False, separators=(",", ":"), sort_keys=True).encode(), preset=9 | lzma.PRESET_EXTREME)
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "golden", "tables.xz"), "wb").write(b)
print(len(b), {k: (list(v) if isinstance(v, dict) else len(v)) for k, v in T.items()})
