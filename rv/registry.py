# -*- coding: utf-8 -*-
"""What each check runs: module, plan, the oracles that must have fired, and how evidence is described."""


def _spec(module, plan, need, rule, assumptions=(), **kw):
    def make():
        import importlib
        mod = importlib.import_module("rv." + module)
        d = {"module": "rv." + module, "plan": getattr(mod, plan), "need": list(need), "rule": rule, "assumptions": list(assumptions)}
        d.update(kw)
        return d
    return make


CIV = "the reference civil calendar (Julian to 1582-10-04, Gregorian from 1582-10-15) is computed independently"
SPECS = {
    "C05": _spec("p_civil", "c05_plan",
                 ["next(1) is the following civil day", "next(-1) is the preceding civil day", "weekday", "day of year", "leap year",
                  "days of month", "next(k) is k days later, same time of day", "subtract inverts next", "days between"],
                 "every civil day of years 1..9999 (successor, predecessor, weekday, day of year) plus random (day, time, step) triples; "
                 "distinct = different year/month kinds and (day, step) pairs", [CIV]),
    "C06": _spec("p_civil", "c06_plan", ["Julian day value", "Julian day round trip", "nearest second", "Julian days keep the order"],
                 "every civil day at midnight and seeded seconds of the day, plus random fractional Julian days; distinct = instants", [CIV]),
    "C07": _spec("p_civil", "c07_plan", ["nextMonth keeps the day, clamped to the month", "nextYear keeps month and day, clamped to the month",
                 "nextHour is exact", "subtractMinute counts minutes", "isAfter", "isBefore"],
                 "month ends of every year stepped by months and years, plus random instants and steps, a share aimed at October 1582; "
                 "distinct = (month, target month, day, landed day) and hour-step classes", [CIV]),
    "C08": _spec("p_civil", "c08_plan", ["month lists exactly its days", "month step", "quarter step", "half-year step", "year step", "quarter months"],
                 "every month of every year 1..9999; distinct = months", [CIV]),
    "C09": _spec("p_civil", "c09_plan", ["number of weeks in the month", "week lists the seven days from its start", "index in month", "index in year",
                 "whole-week step", "month-separated step"],
                 "every month of every year with a seeded week start (all seven for reform and century years); distinct = (start, first weekday, month length, day)", [CIV]),
    "C10": _spec("p_civil", "c10_plan", ["invalid civil date is refused", "valid civil date is accepted unchanged", "nonexistent lunar date is refused",
                 "valid lunar date is accepted unchanged", "every produced solar date exists"],
                 "random valid and invalid civil and lunar components; API workloads with a monitor on solar date construction; distinct = dates accepted, refused, produced",
                 [CIV, "civil dates a user builds with a day that its month lacks but at most 31 (such as 30 February) are outside the property: the library accepts them by design"]),
    "C01": _spec("p_lunar", "c01_plan", ["solar -> lunar -> solar", "lunar -> solar -> lunar", "time of day is kept", "lunar components -> solar", "conversion from a datetime agrees"],
                 "first, last and random days of every lunar month of every year 1..9998, plus random instants of every solar year (thorough: every civil day); distinct = lunar dates", [CIV]),
    "C02": _spec("p_lunar", "c02_plan", ["next day in the same lunar month", "first day of the following lunar month", "stepping a lunar date moves the same number of civil days", "stepping back returns"],
                 "consecutive days around every lunar month turn of every year, whole years in the reform windows and a seeded 1% (thorough: every day), random lunar steps; distinct = month turns and (day, step) pairs", [CIV]),
    "C03": _spec("p_lunar", "c03_plan", ["twelve months, or thirteen with one leap month", "months are contiguous", "next year starts when this one ends", "adjacent years agree on shared months",
                 "leap month number", "month lookup", "absent month is not found"],
                 "every lunar year 1..9998; distinct = (year, month)", ["month labels of lunar years 7-24 and 235-240 follow the calendar reforms of Wang Mang and Emperor Ming and are exempt from the numbering rules"]),
    "C04": _spec("p_lunar", "c04_plan", ["months of the year (reference calendar)", "lunar date of the day (reference calendar)", "month starts on the day of new moon", "leap month holds no mid-month term", "winter solstice falls in month 11"],
                 "every lunar year's month list, month-boundary and random days of every solar year (thorough: every day) against the reference calendar; 1735-3000 against independent astronomy (1921-2400 to the day); distinct = different year shapes",
                 ["the reference calendar in golden/ was cross-checked against ICU, independent astronomy and published tables when it was made", "astronomical new moons within 30 minutes of midnight are judged to a day"]),
    "C29": _spec("p_lunar", "c29_plan", ["k months later", "stepped month equals the month its year lists", "stepping back returns", "year step"],
                 "seeded months of every lunar year 2..9997 stepped both ways, all months and steps within +-30 in the reform years; distinct = (from leap, to leap, month, target month, step)", ["reference calendar in golden/"]),
    "C30": _spec("p_lunar", "c30_plan", ["year attribute", "month attribute", "year nine star", "month nine star"],
                 "every lunar year 1..9998, two months of each (all months in a seeded share; thorough: all); distinct = position in the 180-year cycle, new-year day signs, (year sign, month)", ["reference calendar in golden/"]),
    "C11": _spec("p_terms", "c11_plan", ["term instant (reference calendar)", "term Julian day to the second", "terms follow each other 14 to 17 days apart", "sun stands at the term's longitude",
                 "every date of a solar year sees the same table", "adjacent years agree on shared terms"],
                 "the 31-term table of every solar year 1..9999 from two dates of the year; distinct = terms", ["reference instants in golden/ (to the second)", "independent solar longitude is judged to 20 minutes for years 100-3000"]),
    "C12": _spec("p_terms", "c12_plan", ["previous by instant", "previous by day", "next by instant", "next by day", "kind of term", "term of the day", "no current term", "current term",
                 "instant of the current term", "previous at the instant", "next at the instant", "kind after renaming"],
                 "first, last, random and term days of every solar year at seeded times, one second either side of published instants; distinct = (last term, term day or not) and edges", ["reference instants in golden/; random times within 3 s of a term are judged only against the published table"]),
    "C21": _spec("p_terms", "c21_plan", ["counting nines", "dog days", "pentad phenomenon", "pentad"],
                 "edges of every period of every solar year plus random days; distinct = (period, day of period) and pentads", ["reference calendar in golden/"]),
    "C13": _spec("p_pillars", "c13_plan",
                 ["year pillar", "year pillar by instant", "year pillar by day of spring", "month pillar", "month pillar by instant", "day pillar", "day pillar by instant", "time pillar",
                  "month pillar turns at the jie instant", "year pillar turns at the start of spring", "month stem follows from the year stem", "double-hour stem follows from the day stem",
                  "ten-day group and its void branches", "zodiac animal of the pillar"],
                 "New Year, lunar new year, start of spring, jie days and random days of every solar year at seeded seconds; one second either side of published jie instants; every double-hour boundary of random days; "
                 "distinct = (day sign, double-hour), (year sign, month sign), jie instants", ["reference calendar in golden/; the day cycle is anchored on the Julian day number"]),
    "C14": _spec("p_pillars", "c14_plan",
                 ["look-ups with another present", "every result has the asked pillars", "the birth itself is found", "every matching double-hour is found exactly once", "contradictory pillars have no date", "every result lies in a matching double-hour"],
                 "births in years 1..2023 (a share within two hours of a jie, around midnight, in early January) and random pillar combinations, both schools, many base years; distinct = pillar quadruples asked",
                 ["the search runs up to the current year of the machine's clock, so matches after 2022 are not required"]),
    "C15": _spec("p_pillars", "c15_plan",
                 ["four pillars", "hidden stems", "ten gods of the stem", "ten gods of the branch", "twelve stages", "conception pillar", "breath pillar", "life palace", "body palace", "lists on the lunar date"],
                 "instants of every solar year under both schools, switched back and forth; distinct = (day stem, pillar) and (year stem, month branch, double-hour)",
                 ["derivation rules written from the published tables; the body palace stem for the 丑 palace counts from the start of the year"]),
    "C16": _spec("p_fate", "c16_plan",
                 ["direction", "age at the start of luck", "date of the start of luck", "years and ages of the decade", "decade pillar", "year pillar is that year's", "minor luck pillar", "month pillar of that year",
                  "years of the decade are listed"],
                 "births of years 1..9980, both genders, both schools, a share within a day of a jie and at month ends, and births whose luck starts around October 1582; distinct = charts and start ages",
                 ["births within 3 s of a term are not judged; the bounding jie is the one the library publishes (C11 and C12 judge it)"], plain=40),
    "C17": _spec("p_almanac", "c17_plan",
                 ["year star by lunar year", "year star by start of spring", "year star by instant", "month star by lunar year", "month star by start of spring", "month star by instant", "day star", "time star",
                  "time star of the double-hour", "star attribute", "day star runs on over New Year"],
                 "days around both solstices, the nearest 甲子 days, New Year and start of spring of every solar year, plus random days, at seeded hours; distinct = (day sign, star), (branch, hour, star), position in the 180-year cycle",
                 ["reference calendar in golden/; days of January before the winter 甲子 count on to it, as the code documents"], plain=40),
    "C18": _spec("p_almanac", "c18_plan",
                 ["positions of the five spirits", "clash and baleful direction", "year Tai Sui", "month Tai Sui", "day Tai Sui", "lunar mansion", "day officer", "day spirit", "hour spirit",
                  "foetal god of the day", "foetal god of the month", "six days", "moon phase", "day prosperity", "season"],
                 "random, jie, New Year, month-end and leap-month days of every solar year and whole 60-day cycles with every double-hour; distinct = (day sign, month branch), mansions, (day branch, hour, stem), lunar days",
                 ["reference calendar in golden/; attribute tables written from the published tables"]),
    "C19": _spec("p_almanac", "c19_plan",
                 ["day lists of every month and day sign", "hour lists of every day and hour sign", "spirits of every month and day sign", "suitable and avoid of the day", "suitable and avoid of the hour", "good and bad spirits of the day"],
                 "all 3600 pairs of month and day signs, all 3600 pairs of day and hour signs, all months and day signs; days and hours of every solar year; distinct = sign pairs asked",
                 ["reference lists in golden/tables.xz, decoded independently when they were made"], exhaustive={"quick": "all 60x60 sign pairs", "thorough": "all 60x60 sign pairs"}),
    "C27": _spec("p_almanac", "c27_plan",
                 ["pillar of the double-hour", "positions of the double-hour", "clash of the double-hour", "spirit of the double-hour", "lists of the double-hour", "star of the double-hour",
                  "first and last minute of the double-hour", "a day has thirteen double-hour entries", "branch of a clock time"],
                 "instants of every solar year and whole-day lists; every minute of the day for the clock conversion; distinct = (day sign, double-hour)", ["reference calendar in golden/"]),
    "C20": _spec("p_fest", "c20_plan",
                 ["solar festivals", "solar commemorations", "constellation", "lunar festivals", "lunar commemorations", "once a year", "one new year's eve",
                  "new year's eve seen", "寒食节 seen", "春社 seen", "秋社 seen"],
                 "named days and their neighbours, last days of the lunar year, leap months, days around Qingming, the fifth 戊 days and random days of every solar year; whole seeded years day by day; "
                 "distinct = (month, day, weekday) and lunar days", ["reference calendar in golden/; festival names from the published tables"]),
    "C22": _spec("p_fest", "c22_plan",
                 ["record of a day", "records of a month", "records of a year", "records of a target day", "records of a target year", "published record", "corrections applied",
                  "no record is lost or invented", "record changed by the user"],
                 "every published record and day of 2001-2026; random histories of corrections (replace, append, remove, rename) in fresh processes, the record store compared with a model after each; "
                 "distinct = kinds of correction", ["published records as of the pinned tree"], maxtasks=1),
    "C23": _spec("p_fest", "c23_plan",
                 ["the k-th working day", "never lands on a day off", "working days strictly between", "without the restriction every day counts", "the date stepped from is unchanged"],
                 "steps from every day of 2001-12 to 2026-01, from days of other centuries and October 1582, and after random corrections of the records; distinct = (step, day kind, days moved)",
                 ["published records as of the pinned tree"], maxtasks=1),
    "C24": _spec("p_fest", "c24_plan",
                 ["Buddhist date", "Buddhist date in Chinese", "Buddhist observances", "Buddhist commemorations", "fasting days", "mansion of the Buddhist day", "Buddhist date back to civil",
                  "Taoist date", "Taoist date in full", "Taoist festivals", "Taoist days", "Wu days", "Heaven's Pardon day", "Heaven's Pardon days seen", "eight node days seen", "Taoist date back to civil"],
                 "festival, fasting, month-end, leap-month, eight-node, pardon and random days of every solar year; distinct = lunar days and (day sign, month branch)",
                 ["reference calendar in golden/; observance tables as published"]),
    "C25": _spec("p_state", "c25_plan",
                 ["questions asked in another environment", "same answer in another environment", "questions asked alone", "same answer after other questions", "same answer when repeated", "same answer after a caller changed what he was handed", "objects tampered with",
                  "answers of an object do not depend on their order", "charts of two people do not share their school", "same answer while other threads ask", "thread changes observed inside the library",
                  "an object says what it said when it was made, whatever else was made since", "first questions of two threads are answered as if asked alone",
                  "an option of one question does not stick to the next", "a day answers as before after a caller changed what he was handed"],
                 "sets of related questions (same days, neighbouring years, all kinds of object) answered alone in a forked process each, then in shuffled, repeated and tampered histories in one process, and by 2-5 threads "
                 "that a tracer makes change places inside the library; distinct = histories, pairs of question kinds, thread changes (line to line)",
                 ["threads are observed under the interpreter's global lock, with forced switches; not every interleaving is reached"], maxtasks=1),
    "C31": _spec("p_long", "c31_plan",
                 ["memory does not grow with the questions asked", "memory does not grow with the years asked about", "memory does not grow with corrections repeated",
                  "answering takes no more work after many questions", "rounds measured",
                  "memory does not grow with one question asked again and again"],
                 "ten rounds of ever new questions about the same years, of the same questions, of ever new years, and of the same corrections, in a process of its own; each attribute, step and refusal by itself on ever new objects; the interpreter's allocated blocks are read after each "
                 "round, and the library lines run by a question are counted before and after; distinct = kinds of question with the growth seen in the last rounds",
                 ["growth is judged over the last six of ten rounds; a leak of less than one block a question is not seen"], maxtasks=1),
    "C32": _spec("p_quiet", "c32_plan",
                 ["no files, sockets, processes, threads or system calls", "nothing is written to the standard streams", "no warnings", "settings of interpreter and process stay as they were",
                  "no file is left open or left behind", "the caller's list is as it was", "importing the library is silent", "a strict interpreter hears nothing but the answers",
                  "a strict interpreter gives the same answers"],
                 "pieces of the workloads of C01-C24 and C27-C30, questions of every kind (refused ones among them) and corrections, each watched by an audit hook, recorders in place of the standard streams "
                 "and of warnings, and a comparison of the process's settings before and after; processes started with warnings as errors, isolated or optimised; distinct = kinds of case, of question, of option",
                 ["system calls the interpreter does not report to audit hooks are not seen"], maxtasks=1),
    "C33": _spec("p_same", "c33_plan",
                 ["an instant is the same however it was reached", "facts offered in two places agree", "civil facts offered in two places agree"],
                 "instants of every year (term days about the instant, the weeks between the two new years, leap months and their ends, the hours about midnight): six of sixteen routes to the date compared over sampled or all "
                 "attributes of the date and of what hangs on it, and some two hundred facts asked for in two places; distinct = route by civil and lunar month, kind of day",
                 []),
    "C26": _spec("p_state", "c26_plan",
                 ["questions asked alone", "a refused call is refused again the same way", "refused calls made", "calls interrupted inside the library", "answers after a failed or interrupted call are unaffected",
                  "another thread is not kept out", "corrections interrupted", "an interrupted correction has put in place some of its records, each whole", "an interrupted correction can be applied again",
                  "first questions interrupted", "answers after the first question was interrupted are unaffected"],
                 "histories of refused calls and of calls interrupted by an exception raised at a chosen line inside the library, each followed by questions whose answers were taken alone in a forked process; "
                 "distinct = places of interruption, kinds of refusal", ["interruptions are raised at line starts"], maxtasks=1),
    "C28": _spec("p_total", "c28_plan",
                 ["attribute has a value of its kind", "text is complete", "str() is the text of the object", "civil date texts", "full civil text", "lunar date texts", "full lunar text", "lunar year texts",
                  "lunar month text", "week texts", "texts of months, quarters, half-years and years", "texts of counted days", "text of a term", "text of the eight characters"],
                 "every public attribute of one object of every kind at seeded instants of all years, and the exact texts of random, New Year, term and leap-month days of every solar year; "
                 "distinct = kinds of object, days rendered", ["the attributes and their kinds are those of the pinned tree (golden/api.json)"]),
}
