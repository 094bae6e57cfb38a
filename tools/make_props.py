# -*- coding: utf-8 -*-
"""Development-time: writes properties.jsonl and MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "lunar_python/"
P = []


def p(id, title, statement, over, text, why, files, mech, level_note, technique="runtime monitoring: reference-model oracle over observed calls", observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[D + f for f in files], mech=mech, note=level_note, technique=technique, observe=observe))


p("C01", "Civil and lunar dates convert into each other without loss",
  "Every civil date from lunar 0001-01-01 to 9999-12-31 converts to exactly one lunar date, and converting that lunar date back gives the same civil date; every day of every lunar month (leap months included) converts to a civil date and back to itself. "
  "The hour, minute and second are kept in both directions, and a date made from a Python datetime agrees with one made from the same components.",
  ["inputs"], "all 3.6 million civil days of years 1-9999 and all lunar days of lunar years 1-9998, at any time of day",
  "tests convert a few dozen dates, nearly all of 1900-2100; a loss at a month turn, leap month, the 1582 gap or year end shows only on the days concerned",
  ["Lunar.py", "Solar.py", "LunarYear.py"], [("solar to lunar: month lookup by first Julian day", "Lunar.py Lunar.fromSolar"), ("lunar to solar: first day of month plus offset", "Lunar.py Lunar.__init__/fromYmdHms"), ("conversion", "Solar.py Solar.getLunar")],
  "all month boundaries of all years plus seeded days (thorough: every civil day); components compared exactly")
p("C02", "Lunar dates follow each other day by day with no gap or repeat",
  "The lunar date of the next civil day is the next day of the same lunar month or the first day of the month that follows it, and never anything else. Moving a lunar date by n days moves its civil date by exactly n days, and moving back returns to the start.",
  ["inputs"], "every pair of neighbouring civil days of years 1-9999; every start date and step",
  "a test compares isolated dates; succession is a statement about every neighbouring pair, and breaks at single month turns",
  ["Lunar.py", "LunarYear.py", "LunarMonth.py"], [("stepping a lunar date", "Lunar.py Lunar.next"), ("months of a year", "LunarYear.py LunarYear.compute")],
  "all month turns of all years, whole years in the reform windows and a seeded share (thorough: every neighbouring pair)")
p("C03", "Every lunar year is a well-formed chain of months",
  "A lunar year consists of twelve months numbered in order, or of thirteen with exactly one leap month standing directly after the month whose number it repeats (historical calendar-reform years 7-24 and 235-240 may number differently). Its months have 29 or 30 days (28 once, in 236), are contiguous, the next year begins on the day after its last day, and neighbouring years describe the months they share identically (name, length, first day, and place in the year). "
  "Leap month number, days in the year, the list of months in the year and lookup of a month by number all agree with that chain, and months that do not exist are reported absent.",
  ["inputs"], "every lunar year 1-9998 and every month of it",
  "tests look at a handful of years; leap placement and joins between years are statements about every year",
  ["LunarYear.py", "LunarMonth.py"], [("month chain", "LunarYear.py LunarYear.compute"), ("lookups", "LunarYear.py getMonth/getLeapMonth/getDayCount/getMonthsInYear"), ("month by number", "LunarMonth.py LunarMonth.fromYm")],
  "all lunar years, exhaustive in both tiers")
p("C04", "Lunar months and leap months follow the published historical and modern calendar",
  "The lunar date of every civil day equals that of the published Chinese calendar the library implements (historical calendars with their reforms up to 1644, astronomical rules since). Since 1735 each month begins on the civil day (Beijing time) of the new moon, the winter solstice lies in the eleventh month, and a leap month is the first month without a principal term in a winter-solstice year of thirteen months.",
  ["inputs"], "every lunar month of lunar years 0-9999 and every civil day",
  "a wrong correction entry or astronomical term shifts single months somewhere in ten thousand years; tests pin about a hundred dates",
  ["LunarYear.py", "util/ShouXingUtil.py", "Lunar.py"], [("new moon and term days with historical corrections", "util/ShouXingUtil.py calcShuo/calcQi"), ("leap rules and reform years", "LunarYear.py compute")],
  "every year's month list against the committed reference calendar; independent solar and lunar theory 1735-3000; reference data were cross-checked against ICU and published tables when made",
  "runtime monitoring: differential oracle (reference calendar, independent astronomy) over observed calendars")
p("C05", "Civil day arithmetic is exact, including across October 1582",
  "Moving a civil date by n days gives the date n days later in the civil calendar (Julian to 1582-10-04, then 1582-10-15 Gregorian) at the same time of day; subtraction, days between two dates and day-of-year are its exact inverses and counts. The weekday advances by one each day, and leap years, days of a month and days of a year match the calendar.",
  ["inputs"], "every civil day 0001-01-01 to 9999-12-31 and every step that stays in range",
  "tests sample a few dates around 1582 and century years; the law is for every date and every step",
  ["Solar.py", "util/SolarUtil.py"], [("stepping days", "Solar.py nextDay/next"), ("differences", "Solar.py subtract, util/SolarUtil.py getDaysBetween"), ("day counts", "util/SolarUtil.py getDaysOfMonth/getDaysInYear/isLeapYear"), ("weekday", "Solar.py getWeek")],
  "every civil day stepped one day both ways, seeded long steps and pairs, weighted to 1582 and century years")
p("C06", "Julian day numbers and civil instants correspond one to one",
  "The Julian day of a civil instant equals the astronomical definition to well below a second, increases strictly with time, and converting it back gives the same instant to the second. Any fractional Julian day converts to the nearest valid civil second.",
  ["inputs"], "every instant to the second of years 1-9999 and every fractional Julian day in that span",
  "rounding carries (59.9 s, midnight, month ends, 1582) show on rare instants only",
  ["Solar.py"], [("to Julian day", "Solar.py getJulianDay"), ("from Julian day with carry", "Solar.py fromJulianDay")],
  "every civil day at midnight plus seeded instants, instants just before and after second boundaries")
p("C07", "Hour, month and year steps and time comparisons obey the calendar",
  "Moving a date by months or years lands in the month that many months later, on the same day or, where it has no such day, on the month's last day (a day falling into the October 1582 gap goes ten days on); moving by hours is exact to the hour across days. Earlier/later comparisons and minute differences agree with the order and distance of instants, October 1582 included.",
  ["inputs"], "every date, time and signed step within years 1-9999",
  "month-end clamping, negative steps and the 1582 gap combine in more ways than samples reach",
  ["Solar.py", "SolarMonth.py"], [("steps", "Solar.py nextHour/nextMonth/nextYear"), ("order", "Solar.py isBefore/isAfter"), ("differences", "Solar.py subtractMinute")],
  "month ends of every year stepped both ways; seeded instants and pairs")
p("C08", "Months, quarters, half-years and years list exactly their days and months",
  "A civil month lists exactly its existing days in order, a quarter its three months, a half-year its six and a year its twelve. Stepping any of them by k moves by exactly k units in either direction, and its ordinal in the year matches its months.",
  ["inputs"], "every month, quarter, half-year and year of 1-9999 and every step",
  "negative steps across year ends and the 21-day October 1582 are rarely sampled",
  ["SolarMonth.py", "SolarSeason.py", "SolarHalfYear.py", "SolarYear.py"], [("days", "SolarMonth.py getDays/next"), ("units", "SolarSeason.py, SolarHalfYear.py, SolarYear.py")],
  "every month of every year, exhaustive over months in both tiers")
p("C09", "Weeks partition the calendar for every choice of first weekday",
  "For any first weekday a week lists seven consecutive days beginning on that weekday and containing its date; the weeks of a month cover it exactly once and their count matches. The week's ordinal in its month and year counts weeks from the one holding the first day, and stepping weeks by k moves k weeks, or, when weeks are divided at month ends, passes each divided week once.",
  ["inputs", "configurations"], "every date of years 1-9999, every first weekday (0-6), every step, both ways of treating month ends",
  "tests use two week starts and a few months; the interplay of start, month length and first weekday has many more cases",
  ["SolarWeek.py", "SolarMonth.py", "util/SolarUtil.py"], [("weeks", "SolarWeek.py getFirstDay/getDays/getIndex/getIndexInYear/next"), ("weeks of a month", "SolarMonth.py getWeeks, util/SolarUtil.py getWeeksOfMonth")],
  "every month of every year with seeded week starts (all seven in reform and century years)")
p("C10", "Impossible dates are refused and never produced",
  "Constructing a civil or lunar date whose month, day, hour, minute or second does not exist (a month outside 1-12, a day above 31 or below 1, 5-14 October 1582, an absent leap month, a 30th day of a 29-day lunar month, hour 24) raises an error; valid components are always accepted unchanged. No operation of the library, started from valid dates, ever yields a civil date that does not exist.",
  ["inputs", "programs"], "all combinations of components, and all dates produced by any sequence of library operations from valid dates",
  "tests check a few invalid inputs; that nothing invalid is ever produced concerns every operation's every result",
  ["Solar.py", "Lunar.py", "LunarTime.py"], [("validation", "Solar.py __init__, Lunar.py fromYmdHms/__init__, LunarTime.py"), ("every date construction", "Solar.py __init__ (observed)")],
  "random valid and invalid components; a monitor on date construction during API workloads", "runtime monitoring: construction monitor and acceptance oracle",
  [("Solar.__init__", "every civil date built during the workload")])
p("C11", "Solar terms fall at the sun's true longitudes, in order, for every year",
  "For every solar year the table of 31 terms (from major snow before the year to waking of insects after it) is in time order with 14-17 days between neighbours, each term's instant equals the published one to the second and, for years 100-3000, the sun's apparent longitude at it is the term's. All dates of a year see the same table, and neighbouring years agree on the terms they share.",
  ["inputs"], "all terms of solar years 1-9999, seen from any date of the year",
  "tests pin some dozens of term instants; a change of a series coefficient or correction shifts others",
  ["Lunar.py", "LunarYear.py", "util/ShouXingUtil.py", "JieQi.py"], [("term table", "Lunar.py __computeJieQi/getJieQiTable"), ("term instants", "util/ShouXingUtil.py qiAccurate2, LunarYear.py compute")],
  "every term of every year against committed reference instants; independent solar longitude 100-3000", "runtime monitoring: differential oracle (reference instants, independent solar theory)")
p("C12", "Previous, next and current term queries agree with the term table",
  "For any instant, the previous term (of any kind, minor or principal, by instant or by whole day) is the last one not after it, and the next is the first one after it; the term of a day is reported on exactly the civil days that hold a term. Each reported term carries its own name, kind and instant.",
  ["inputs"], "every instant of years 1-9999, to the second, for every kind and both granularities",
  "off-by-one behaviour at the second or day of a term is reached only when instants are aimed at it",
  ["Lunar.py", "JieQi.py"], [("search", "Lunar.py __getNearJieQi/getPrevJie/getNextJie/getPrevQi/getNextQi/getPrevJieQi/getNextJieQi"), ("day terms", "Lunar.py getJie/getQi/getJieQi/getCurrentJieQi"), ("kinds", "JieQi.py")],
  "term days, one second either side of published instants, year ends and random instants of every year")
p("C13", "Year, month, day and hour pillars run through the sixty-fold cycle",
  "Day pillars advance by one every civil day (the late-hour variant from 23:00); year pillars change at lunar new year, on the day or at the instant of the start of spring according to the variant asked; month pillars change on the day or at the instant of each minor term. The month stem follows from the year stem and the hour stem from the day stem, and group, void branches, animal and melodic element of every pillar match its place in the cycle.",
  ["inputs", "configurations"], "every instant of years 1-9999 and every variant",
  "the variants differ only around term instants, new year and 23:00; samples rarely fall there",
  ["Lunar.py", "util/LunarUtil.py", "LunarTime.py"], [("pillars", "Lunar.py __computeYear/__computeMonth/__computeDay/__computeTime"), ("cycle tables", "util/LunarUtil.py getXun/getXunKong/NAYIN")],
  "new year, start of spring, minor terms (one second either side) and random days of every year; every double-hour boundary of random days")
p("C14", "Eight characters lead back to exactly the dates that have them",
  "Looking up dates for four pillars returns only instants that have these four pillars under the school asked, once each and in range, and returns one in every matching double-hour from the base year to the present. Pillars that contradict each other (month stem against year stem, hour stem against day stem) give no dates.",
  ["inputs", "configurations"], "all pillar quadruples, both schools, all base years 1 to the present",
  "tests look up about ten quadruples; completeness concerns births near term instants, around midnight and in early January",
  ["Solar.py", "EightChar.py"], [("search", "Solar.py fromBaZi"), ("pillars compared", "EightChar.py")],
  "births of years 1-2023 looked up under both schools with many base years; results verified by the reference pillars")
p("C15", "Eight-character attributes derive from the pillars by the fixed rules",
  "For every birth and school the four pillars, hidden stems, ten gods, twelve stages, elements, melodic elements, void branches, conception pillars, life palace and body palace are those the rules give for the birth's pillars. Choosing the school affects only the late-hour day pillar and what derives from it, and can be switched back and forth.",
  ["inputs", "configurations"], "every birth instant of years 1-9999, both schools",
  "120x60 combinations of stems and branches per rule and the 23:00 split cannot be covered by examples",
  ["EightChar.py", "Lunar.py", "util/LunarUtil.py"], [("derivations", "EightChar.py"), ("lists", "Lunar.py getBaZi*")],
  "instants of every year under both schools, switched back and forth, against independently written rules")
p("C16", "Luck cycles start at the right age and enumerate consecutive years",
  "Direction follows from gender and the year stem; the age at which luck starts is the time to the next (or from the previous) minor term converted by the school's scale, and its date is the birth date moved by that age. Decades, their years, minor luck and months then enumerate consecutive years and ages with the pillars of those years, counting from birth without gap or overlap.",
  ["inputs", "configurations"], "every birth of years 1-9980, both genders, both schools, every decade, year and month listed",
  "tests check a few charts; births near a minor term, at month ends and around 1582 behave differently",
  ["eightchar/Yun.py", "eightchar/DaYun.py", "eightchar/LiuNian.py", "eightchar/LiuYue.py", "eightchar/XiaoYun.py"], [("start of luck", "eightchar/Yun.py"), ("decades and years", "eightchar/DaYun.py, LiuNian.py, XiaoYun.py, LiuYue.py")],
  "births of every year, a share within a day of a minor term and at month ends")
p("C17", "Nine stars of year, month, day and hour follow their cycles",
  "The year star descends by one each year (from lunar new year or the start of spring, by the variant), the month star descends by one each month from the year branch's first star, the day star ascends from the sixty-day cycle nearest the winter solstice and descends from the one nearest the summer solstice, and the hour star runs within the day in the half-year's direction. Each star's number, colour, element, position and names are those of its place among the nine.",
  ["inputs", "configurations"], "every instant of years 1-9999, every variant",
  "the day star turns at dates that move by up to 30 days each year; samples miss most turns",
  ["Lunar.py", "NineStar.py", "LunarYear.py", "LunarMonth.py", "LunarTime.py"], [("stars", "Lunar.py getYearNineStar/getMonthNineStar/getDayNineStar/getTimeNineStar"), ("attributes", "NineStar.py")],
  "turning days, new year, start of spring and random days of every year; 777 years with a day-star jump at New Year are listed as a known finding")
p("C18", "Almanac attributes of the day and hour follow from their pillars",
  "Directions of the spirits, clash and baleful direction, Tai Sui positions, lunar mansion, day officer, day and hour spirits, foetal gods, six-day luck, moon phase, stem prosperity and season of every day are the ones the almanac rules assign to its pillars, weekday, month and lunar date.",
  ["inputs", "configurations"], "every day and double-hour of years 1-9999",
  "each attribute is a function of combinations (60 day signs x 12 months x 12 hours) of which tests see few",
  ["Lunar.py", "util/LunarUtil.py"], [("attributes", "Lunar.py getPosition*/getDay*/getTime*/getChong*/getXiu/getZhiXing"), ("tables", "util/LunarUtil.py")],
  "random, minor-term, new-year, month-end and leap-month days of every year; 60-day blocks with every double-hour")
p("C19", "Suitable and avoided activities and day spirits match the almanac",
  "For every pair of month and day pillars, and of day and hour pillars, the lists of suitable and avoided activities equal the published almanac's, and so do the good and bad spirits of every month and day pillar. The lists a date reports are those of its own pillars, including leap months and both month variants.",
  ["inputs"], "all 3600 + 3600 pillar pairs, 720 month-day combinations, and every date",
  "the data are packed strings decoded by search; one damaged entry or misplaced match changes pairs no test asks about",
  ["util/LunarUtil.py", "Lunar.py"], [("decoding", "util/LunarUtil.py getDayYi/getDayJi/getTimeYi/getTimeJi/getDayJiShen/getDayXiongSha"), ("use", "Lunar.py getDayYi/...")],
  "all pillar pairs exhaustively; dates of every year", "runtime monitoring: differential oracle over all pillar pairs and sampled dates")
p("C20", "Festivals and commemorations fall on their days, once each",
  "Every civil and lunar festival and commemoration appears on its fixed date, on its nth weekday, on the last day of the lunar year (New Year's Eve), the day before Qingming (Cold Food), or the fifth wu day after the start of spring and autumn (She days), and on no other day; leap months carry no fixed lunar festivals. The zodiac constellation changes on its fixed dates.",
  ["inputs"], "every day of years 1-9999",
  "eve on the 29th or 30th or in a leap twelfth month, She days and nth weekdays move each year",
  ["Lunar.py", "Solar.py", "util/SolarUtil.py", "util/LunarUtil.py"], [("festivals", "Solar.py getFestivals/getOtherFestivals/getXingZuo, Lunar.py getFestivals/getOtherFestivals"), ("tables", "util/SolarUtil.py, util/LunarUtil.py")],
  "named days and their neighbours of every year; seeded whole years day by day")
p("C21", "Nines of winter, dog days and pentads cover exactly their days",
  "The nine nines run for 81 days from the winter solstice and the dog days begin on the third geng day after the summer solstice (middle on the fourth, last on the first geng day after the start of autumn), each day numbered consecutively and no other day reported. Every day belongs to exactly one pentad of its term: the first five days, the next five, and the rest.",
  ["inputs"], "every day of years 1-9999",
  "the dog days last 30 or 40 days and the nines cross the year end; boundaries move yearly",
  ["Lunar.py", "ShuJiu.py", "Fu.py"], [("counting", "Lunar.py getShuJiu/getFu/getHou/getWuHou")],
  "edges of every period of every year plus random days")
p("C22", "Holiday records answer every query exactly, also after corrections",
  "Queries by day, month, year or target day, in number or text form, return exactly the matching records in stored order, each with its date, name, work flag and target. After any sequence of corrections a record is replaced in place, removed, or appended exactly as the correction says, other records are untouched, and renamed holiday types apply to all records.",
  ["inputs", "histories"], "every query, after every sequence of corrections",
  "the store is one packed string searched by text; false matches depend on neighbouring records, and corrections accumulate",
  ["util/HolidayUtil.py", "Holiday.py"], [("lookup", "util/HolidayUtil.py getHoliday/getHolidays/getHolidaysByTarget"), ("correction", "util/HolidayUtil.py fix")],
  "random correction histories in fresh processes compared with a list model after each step; all published records", "runtime monitoring: model-based history checking", )
p("C23", "Work-day stepping visits exactly the working days",
  "Moving a date by n working days lands on the n-th day, forwards or backwards, that is a make-up working day or an ordinary weekday not listed as a holiday, at the same time of day; moving by zero leaves the date unchanged, also when it is a day off. Corrections to the holiday records are honoured at once.",
  ["inputs", "histories"], "every start date, signed step and holiday record state",
  "long holidays, make-up weekends and negative steps combine; tests check a few",
  ["Solar.py", "util/HolidayUtil.py"], [("stepping", "Solar.py next(days, onlyWorkday)")],
  "steps from every day of 2001-2026 and from other centuries, also after random corrections")
p("C24", "Buddhist and Taoist dates, observances and fasts follow the lunar date",
  "The Buddhist year is the lunar year plus 544 and the Taoist year plus 2697, month and day are the lunar ones, and dates given in either calendar convert back to the same day. Observances, fasting days, mansions, assembly, node, wu and pardon days are reported on exactly the days their rules give, including in leap months and 29-day months.",
  ["inputs"], "every day of lunar years 1-9998",
  "leap months, 28th of short months and term-dependent days are rare in samples",
  ["Foto.py", "Tao.py", "util/FotoUtil.py", "util/TaoUtil.py", "FotoFestival.py", "TaoFestival.py"], [("Buddhist calendar", "Foto.py, util/FotoUtil.py"), ("Taoist calendar", "Tao.py, util/TaoUtil.py")],
  "festival, fasting, month-end, leap-month, node and random days of every year")
p("C25", "Answers depend only on the question: not on history, aliasing or threads",
  "Every query gives the same answer whatever was asked before, how often it is repeated, in which order an object's attributes are read, what other threads ask at the same time, and in what environment the process runs (hash seed, time zone, locale, optimisation level, the clock - except that looking up dates by pillars ends at the present). Changing a list or object that was handed out changes no later answer to anyone, and two objects for the same instant do not share their settings.",
  ["histories", "schedules", "inputs"], "all sequences and interleavings of queries by one or several threads",
  "the year cache is shared state: staleness, aliasing and races need particular orders and interleavings that single-call tests never make",
  ["LunarYear.py", "Lunar.py", "EightChar.py", "util/LunarUtil.py", "util/HolidayUtil.py"], [("year cache", "LunarYear.py fromYear"), ("shared tables", "util/LunarUtil.py, util/FotoUtil.py, util/TaoUtil.py"), ("lazily kept chart", "Lunar.py getEightChar")],
  "cold answers from forked processes against shuffled, repeated, tampered and multi-threaded histories; thread switches forced inside the library", "runtime monitoring: history independence against cold-process answers; forced thread switching",
  [("line events inside the library", "thread changes and their places are logged by a tracer")])
p("C26", "Refused or interrupted calls leave no damage and no lock behind",
  "A call that fails (invalid dates, wrong types, unknown names) fails again the same way and changes no later answer. A call interrupted by an exception at any point, in any thread, leaves the library able to answer every later question correctly, and never leaves it waiting for ever. A correction of the holiday records that is interrupted has put some of its records in place, each of them whole, and lost no other.",
  ["fault_sequences", "histories"], "all sequences of failing and interrupted calls, interruption at any line inside the library",
  "tests never interrupt a call, and a half-filled cache or a held lock shows only afterwards",
  ["LunarYear.py", "Lunar.py", "Solar.py", "util/HolidayUtil.py"], [("year cache and its lock", "LunarYear.py fromYear"), ("corrections", "util/HolidayUtil.py fix"), ("validation", "Solar.py, Lunar.py, LunarTime.py")],
  "exceptions injected at chosen lines; every line of the first 400 of a year's computation in turn; answers compared with cold ones", "runtime monitoring with fault injection: interrupted-call histories",
  [("line events inside the library", "a tracer raises at the chosen line")])
p("C31", "Long use neither grows memory nor slows answers",
  "However many questions were asked before - new instants, the same ones again, ever new years, failing calls, corrections of the holiday records - the memory the library holds stays bounded, and answering a question takes no more work than in a fresh process.",
  ["histories"], "all long histories of questions and corrections in one process",
  "a test asks a few questions and ends; a leak or a list that grows shows only over thousands",
  ["LunarYear.py", "Lunar.py", "EightChar.py", "util/HolidayUtil.py", "util/ShouXingUtil.py"], [("year cache", "LunarYear.py fromYear"), ("record store", "util/HolidayUtil.py fix")],
  "rounds of questions with the allocated blocks read after each, library lines counted per question", "runtime monitoring: memory and work meters over long histories",
  [("interpreter", "allocated blocks after a collection; line events inside the library")])
p("C32", "Answering does nothing else",
  "Importing the library and asking it anything has no other effect: nothing is written to standard output or error, no warning is raised (also when warnings are errors), no file, socket, process or thread is opened or left behind, and the settings of interpreter and process (random generator, decimal context, locale, recursion limit, garbage collection, signal handlers, working directory, environment, import path) and the arguments the caller passed in stay as they were.",
  ["inputs", "histories"], "all questions, corrections and refused calls",
  "a test looks at answers; a side effect on a rare path shows only to someone watching the process",
  ["LunarYear.py", "Lunar.py", "Solar.py", "LunarMonth.py", "eightchar/Yun.py", "util/HolidayUtil.py", "util/ShouXingUtil.py"], [("pure computation", "all modules")],
  "pieces of all other workloads, questions of every kind, very long steps and lists, corrections, strict interpreters", "runtime monitoring: audit hooks, stream and warning recorders, process state compared before and after",
  [("interpreter", "audit events during calls; settings of the process before and after")])
p("C33", "Every way of reaching a fact gives the same fact",
  "An instant answers every question alike however it was obtained: converted from a civil date, a datetime or a Julian day, given as lunar, Buddhist or Taoist date, stepped away and back (days, hours, zero steps), or taken back from its eight characters, luck cycle, Buddhist or Taoist date. Facts the library offers in several places agree: short names with the day's, the hour on the date and on its double-hour (alone or in the day's list), the year on the date and on its lunar year, pillars whole and in pieces and by index, "
  "the chart with the date's lists, directions with their descriptions, methods with the static helpers, lists with the members that claim to be in them, terms by kind with terms of any kind.",
  ["inputs"], "every instant of years 1-9999, every public route and every pair of places",
  "a test asks one place, one way; that two of them drift apart on some days shows only when both are asked on every kind of day",
  ["Lunar.py", "Solar.py", "LunarTime.py", "LunarYear.py", "EightChar.py", "Foto.py", "Tao.py", "SolarWeek.py", "util/LunarUtil.py", "util/SolarUtil.py"],
  [("constructors and conversions", "all of Lunar.py, Solar.py, Foto.py, Tao.py"), ("double-hours", "LunarTime.py, Lunar.py"), ("helpers", "util/SolarUtil.py, util/LunarUtil.py")],
  "instants of every year by sixteen routes; two hundred pairs of places")
p("C27", "Double-hours divide the day and carry the attributes of their pillar",
  "Every clock time belongs to the double-hour of its branch (zi from 23:00 to 00:59), whose first and last minute enclose it; a day lists thirteen entries, the early and the late zi among them. Each double-hour's pillar, spirits, directions, clash, lists and star are those of its own hour and day, the late zi hour taking the next day's stem.",
  ["inputs"], "every minute of the day on every day of years 1-9999",
  "the late zi hour and hour boundaries are rarely sampled",
  ["LunarTime.py", "Lunar.py", "util/LunarUtil.py"], [("double-hour", "LunarTime.py"), ("clock conversion", "util/LunarUtil.py getTimeZhiIndex/convertTime"), ("list", "Lunar.py getTimes")],
  "instants of every year, whole-day lists, every minute for the clock conversion")
p("C28", "Every attribute of a valid date can be read and texts are complete",
  "For every valid date every published attribute returns a value of its documented kind without an error, and no text contains gaps or placeholders. The short and full texts of dates, months, weeks, years, terms and charts are composed of exactly the object's own attributes, in fixed formats.",
  ["inputs"], "every public attribute of every object at every instant of years 1-9999",
  "lookups fail only for combinations missing from a table; tests read most attributes on one or two dates",
  ["Lunar.py", "Solar.py", "LunarYear.py", "LunarMonth.py", "SolarWeek.py", "EightChar.py", "Foto.py", "Tao.py"], [("texts", "Lunar.py toString/toFullString, Solar.py toYmd/toYmdHms/toFullString"), ("attributes", "all public getters")],
  "every attribute of every kind of object at seeded instants of all years; exact texts against the reference model")
p("C29", "Lunar month and year steps move by exactly that many months",
  "Stepping a lunar month by k gives the month k places later in the unbroken chain of months, leap months counted, identical to the one its own year lists; stepping back returns. Stepping a lunar year by k gives the year k later.",
  ["inputs"], "every lunar month of years 2-9997 and every step that stays in range, both directions",
  "crossing leap months and year ends in both directions has many cases; tests try a few steps",
  ["LunarMonth.py", "LunarYear.py"], [("stepping", "LunarMonth.py next, LunarYear.py next")],
  "months of every year stepped both ways; all months and steps within 30 in the reform years")
p("C30", "Attributes of lunar years and months follow from their place in the cycle",
  "A lunar year's pillar, era and cycle, star, spirit directions and the traditional counts of its first month (dragons, oxen, mice and so on) are those of its place in the sixty-year cycle and of the first days of its first month. A lunar month's pillar, star and directions follow from its year and number.",
  ["inputs"], "every lunar year 1-9998 and every month",
  "tests check single years; each count depends on the day pillars of that year's first month",
  ["LunarYear.py", "LunarMonth.py"], [("year attributes", "LunarYear.py"), ("month attributes", "LunarMonth.py")],
  "every lunar year; months of every year")

with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as f:
    for q in sorted(P, key=lambda q: q["id"]):
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        a = {"files": q["files"], "mechanism": [{"name": n, "where": w if w.startswith("all") else "; ".join(D + x.strip() if x.strip()[0:1].isalpha() and ".py" in x else x.strip() for x in w.split(","))} for n, w in q["mech"]]}
        if q["observe"]:
            a["observe_at"] = ["%s: %s" % (n, w) for n, w in q["observe"]]
        a["hook_needed"] = None
        f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"], "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"], "anchors": a}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "./check selftest", "checks": [
    {"property": q["id"], "quick_cmd": "./check %s quick" % q["id"], "thorough_cmd": "./check %s thorough" % q["id"], "technique": q["technique"], "level": "exploration", "level_note": q["note"]}
    for q in sorted(P, key=lambda q: q["id"])], "not_applicable": []}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8"), ensure_ascii=False, indent=1)
