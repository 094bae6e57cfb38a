# -*- coding: utf-8 -*-
"""Development-time cross-validation of golden/calendar.xz against sources the library has no part in:
ICU's Chinese calendar (node Intl) and rv/astro.py.  Not run by any check."""
import os, sys, subprocess
sys.dont_write_bytecode = True
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from rv.golden import *
c = cal()
a, b = jdn(1645, 2, 1), jdn(2300, 12, 1)
out = subprocess.run(['node', R + '/tools/icu.js', str(a), str(b)], capture_output=True, text=True).stdout
icu = {}
for l in out.splitlines():
    n, y, m = l.split()
    icu[int(n)] = (int(y), -int(m[:-3]) if m.endswith('bis') else int(m))
mine = {t[3]: (t[0], t[1]) for t in c.months if a <= t[3] <= b}
diff = sorted(k for k in set(icu) | set(mine) if icu.get(k) != mine.get(k))
print('months ICU', len(icu), 'golden', len(mine), 'different', len(diff))
for k in diff[:400]:
    print(ymd(k), 'icu', icu.get(k), 'golden', mine.get(k))
