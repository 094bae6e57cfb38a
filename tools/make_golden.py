# -*- coding: utf-8 -*-
"""Development-time recorder (not run by any check): records, from the pinned tree, the month list and the
solar-term instants of every lunar year 0..10000 into golden/calendar.xz.  tools/validate_golden.py then
checks the record against sources the library has no part in."""
import sys, lzma, json, array, os
sys.dont_write_bytecode = True
sys.path.insert(0, '/repo')
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lunar_python import LunarYear
from multiprocessing import Pool

def one(y):
    ly = LunarYear(y)
    return y, [(m.getYear(), m.getMonth(), m.getDayCount(), int(m.getFirstJulianDay()), m.getIndex()) for m in ly.getMonths()], list(ly.getJieQiJulianDays())

def main():
    with Pool(8) as p:
        rows = p.map(one, range(0, 10001), 50)
    months = []   # contiguous months from lunar (0,1) to (10000, 12)
    for y, ms, jq in rows:
        for m in ms:
            if m[0] == y:
                months.append(m)
    for a, b in zip(months, months[1:]):
        assert a[3] + a[2] == b[3], (a, b)
    first = months[0][3]
    # one line per lunar year: labels+lengths
    years = {}
    for m in months:
        years.setdefault(m[0], []).append((m[1], m[2]))
    terms = []    # 24 per year: from winter solstice of y-1 (index 0) to great snow (index 23) of y
    for y, ms, jq in rows:
        for i in range(1, 25):
            terms.append(jq[i])
    # plus the great snow before the first solstice and the 6 after
    S = [round((j + 0.5) * 86400) for j in terms]
    base = S[0]
    P = (S[-1] - S[0]) / (len(S) - 1)
    res = array.array('i', [s - base - round(P * i) for i, s in enumerate(S)])
    d = [res[0]] + [res[i] - res[i-1] for i in range(1, 24)]
    # delta against the same term one year earlier compresses well
    dd = array.array('i', [res[i] - (res[i - 24] if i >= 24 else 0) for i in range(len(res))])
    out = dict(first=first, years=[[y, years[y]] for y in sorted(years)], base=base, period=P, n=len(S))
    blob = json.dumps(out, separators=(',', ':')).encode() + b'\n' + dd.tobytes()
    open('/verif/golden/calendar.xz', 'wb').write(lzma.compress(blob, preset=9))
    print(len(months), len(S), os.path.getsize('/verif/golden/calendar.xz'))

main()
