# -*- coding: utf-8 -*-
"""Development-time: writes known_findings.json. Never run by a check."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from day_star_years import years
PROP = {"LunarYear lock": "C26", "solar days above 31": "C10", "Julian day up": "C06", "LunarTime.getNineStar": "C17", "己 days": "C18", "getWeeksOfMonth": "C09",
        "SolarWeek.getIndex": "C09", "JieQi.setName": "C12", "year and month pillars": "C13", "Solar.fromBaZi misses": "C14", "holiday lookups": "C22", "compare instants numerically": "C13",
        "Foto.getYear": "C24", "0019-01-25": "C03", "LunarMonth.next": "C29", "stepping weeks back": "C09", "fromBaZi reads the term table": "C14",
        "eve of lunar year 236": "C20", "corrupted the cached year": "C25", "list of hidden stems": "C25", "decades of luck": "C16"}


def late_months():
    """years with a leap month whose late months head the next year's list without that leap month in between"""
    from rv.golden import cal
    c = cal()
    # 238 also repeats in the reform years 237 and 238; of the other reform years those with a leap month
    return [y for y in range(1, 9999) if y in (237, 238) or 0 < c.leap_month(y) < 11]


out = []
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"]).decode().splitlines()
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        p = [v for k, v in PROP.items() if k in s]
        assert len(p) == 1, (s, p)
        out.append("fixed: property=%s %s %s" % (p[0], h, s[5:]))
f = [{"property": "C17", "oracle": "day star runs on over New Year",
      "what": "the day nine star jumps between 31 December and 1 January in the 777 listed years: the descending run that starts at the 甲子 day nearest the summer solstice lasts 240 days there, "
              "and Lunar.getDayNineStar counts January days back from the coming winter 甲子 as if it lasted 180",
      "inputs": years()},
     {"property": "C03", "oracle": "late months keep their place after a leap month",
      "what": "in the list LunarYear.getMonths() gives for the year after each of the 3308 listed lunar years, the last one or two months of the listed year carry an ordinal (getIndex, getZhiIndex, getGanZhi) "
              "one lower than in that year itself: the count starts from the month's number and leaves out the leap month before it (in 237, a year the calendar reform left without a third month, one higher)",
      "inputs": late_months()}]
json.dump({"findings": f, "fixed": out}, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"), "w", encoding="utf-8"), ensure_ascii=False, indent=1)
print("\n".join(out))
