From 12d70281b944f8db996f2a7a602c6ca31dfdc274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:10 +0000
Subject: [PATCH 01/21] fix: release the LunarYear lock when building a year
 fails

---
 lunar_python/LunarYear.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/lunar_python/LunarYear.py b/lunar_python/LunarYear.py
index a4f7bf2..27feb0a 100644
--- a/lunar_python/LunarYear.py
+++ b/lunar_python/LunarYear.py
@@ -41,13 +41,12 @@ class LunarYear:
 
     @staticmethod
     def fromYear(lunar_year):
-        LunarYear.__lock.acquire()
-        if LunarYear.__CACHE_YEAR is None or LunarYear.__CACHE_YEAR.getYear() != lunar_year:
-            y = LunarYear(lunar_year)
-            LunarYear.__CACHE_YEAR = y
-        else:
-            y = LunarYear.__CACHE_YEAR
-        LunarYear.__lock.release()
+        with LunarYear.__lock:
+            if LunarYear.__CACHE_YEAR is None or LunarYear.__CACHE_YEAR.getYear() != lunar_year:
+                y = LunarYear(lunar_year)
+                LunarYear.__CACHE_YEAR = y
+            else:
+                y = LunarYear.__CACHE_YEAR
         return y
 
     def compute(self):
-- 
2.43.0


From ebc022bce7b187f30b77d7b89aa9269dc2eac147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:10 +0000
Subject: [PATCH 02/21] fix: reject solar days above 31

---
 lunar_python/Solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lunar_python/Solar.py b/lunar_python/Solar.py
index d3be6b0..ede06c1 100644
--- a/lunar_python/Solar.py
+++ b/lunar_python/Solar.py
@@ -19,7 +19,7 @@ class Solar:
                 raise Exception("wrong solar year %d month %d day %d" % (year, month, day))
         if month < 1 or month > 12:
             raise Exception("wrong month %d" % month)
-        if day < 1 or month > 31:
+        if day < 1 or day > 31:
             raise Exception("wrong day %d" % day)
         if hour < 0 or hour > 23:
             raise Exception("wrong hour %d" % hour)
-- 
2.43.0


From bef140c8cc6adf190c4d9d693a6349b13c20009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:10 +0000
Subject: [PATCH 03/21] fix: roll the month over when rounding a Julian day up
 to the next midnight

---
 lunar_python/Solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lunar_python/Solar.py b/lunar_python/Solar.py
index ede06c1..de91866 100644
--- a/lunar_python/Solar.py
+++ b/lunar_python/Solar.py
@@ -75,7 +75,7 @@ class Solar:
             hour += 1
         if hour > 23:
             hour -= 24
-            day += 1
+            return Solar(year, month, day, hour, minute, second).nextDay(1)
         return Solar(year, month, day, hour, minute, second)
 
     @staticmethod
-- 
2.43.0


From d3e4ad71d4f5b47e6d042852dd75c53a46cd15a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:10 +0000
Subject: [PATCH 04/21] fix: LunarTime.getNineStar compares dates, and agrees
 with Lunar.getTimeNineStar

---
 lunar_python/LunarTime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lunar_python/LunarTime.py b/lunar_python/LunarTime.py
index 98716ac..8b462b1 100644
--- a/lunar_python/LunarTime.py
+++ b/lunar_python/LunarTime.py
@@ -112,7 +112,9 @@ class LunarTime:
         solar_ymd = self.__lunar.getSolar().toYmd()
         jie_qi = self.__lunar.getJieQiTable()
         asc = False
-        if jie_qi["冬至"] <= solar_ymd < jie_qi["夏至"]:
+        if jie_qi["冬至"].toYmd() <= solar_ymd < jie_qi["夏至"].toYmd():
+            asc = True
+        elif solar_ymd >= jie_qi["DONG_ZHI"].toYmd():
             asc = True
         start = 7 if asc else 3
         day_zhi = self.__lunar.getDayZhi()
-- 
2.43.0


From e43d97477e9fb38bf7afaa568f6394222d55db15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:10 +0000
Subject: [PATCH 05/21] =?UTF-8?q?fix:=20day=20Tai=20Sui=20position=20of=20?=
 =?UTF-8?q?the=20=E5=B7=B1=20days=20(=E5=B7=B1=20was=20mistyped=20?=
 =?UTF-8?q?=E5=B7=B2)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 lunar_python/Lunar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lunar_python/Lunar.py b/lunar_python/Lunar.py
index 7ad6a7d..b2eed1a 100644
--- a/lunar_python/Lunar.py
+++ b/lunar_python/Lunar.py
@@ -450,11 +450,11 @@ class Lunar:
         return LunarUtil.POSITION_DESC[self.getMonthPositionTaiSui(sect)]
 
     def __getDayPositionTaiSui(self, day_in_gan_zhi, year_zhi_index):
-        if day_in_gan_zhi in "甲子,乙丑,丙寅,丁卯,戊辰,已巳":
+        if day_in_gan_zhi in "甲子,乙丑,丙寅,丁卯,戊辰,己巳":
             p = "震"
-        elif day_in_gan_zhi in "丙子,丁丑,戊寅,已卯,庚辰,辛巳":
+        elif day_in_gan_zhi in "丙子,丁丑,戊寅,己卯,庚辰,辛巳":
             p = "离"
-        elif day_in_gan_zhi in "戊子,已丑,庚寅,辛卯,壬辰,癸巳":
+        elif day_in_gan_zhi in "戊子,己丑,庚寅,辛卯,壬辰,癸巳":
             p = "中"
         elif day_in_gan_zhi in "庚子,辛丑,壬寅,癸卯,甲辰,乙巳":
             p = "兑"
-- 
2.43.0


From 51d3a2016e803303aca82de23ce92c225e5d57bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:10 +0000
Subject: [PATCH 06/21] fix: SolarUtil.getWeeksOfMonth when the month starts
 before the week start

---
 lunar_python/util/SolarUtil.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lunar_python/util/SolarUtil.py b/lunar_python/util/SolarUtil.py
index 5d608b6..161cf94 100644
--- a/lunar_python/util/SolarUtil.py
+++ b/lunar_python/util/SolarUtil.py
@@ -252,7 +252,10 @@ class SolarUtil:
         :return: 天数
         """
         from .. import Solar
-        return int(ceil((SolarUtil.getDaysOfMonth(year, month) + Solar.fromYmd(year, month, 1).getWeek() - start) * 1.0 / len(SolarUtil.WEEK)))
+        offset = Solar.fromYmd(year, month, 1).getWeek() - start
+        if offset < 0:
+            offset += 7
+        return int(ceil((SolarUtil.getDaysOfMonth(year, month) + offset) * 1.0 / len(SolarUtil.WEEK)))
 
     @staticmethod
     def getDaysBetween(ay: int, am: int, ad: int, by: int, bm: int, bd: int):
-- 
2.43.0


From 10039ed309091a6704bf2e9f17ad1859b483947b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:10 +0000
Subject: [PATCH 07/21] fix: SolarWeek.getIndex after the ten days skipped in
 October 1582

---
 lunar_python/SolarWeek.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lunar_python/SolarWeek.py b/lunar_python/SolarWeek.py
index 7f24a18..26c64a4 100644
--- a/lunar_python/SolarWeek.py
+++ b/lunar_python/SolarWeek.py
@@ -60,7 +60,10 @@ class SolarWeek:
         offset = Solar.fromYmd(self.__year, self.__month, 1).getWeek() - self.__start
         if offset < 0:
             offset += 7
-        return int(ceil((self.__day + offset) * 1.0 / 7))
+        day = self.__day
+        if 1582 == self.__year and 10 == self.__month and day >= 15:
+            day -= 10
+        return int(ceil((day + offset) * 1.0 / 7))
 
     def getIndexInYear(self):
         """
-- 
2.43.0


From f201dc86c631a009bdd50241eaffbbf3411ea1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:10 +0000
Subject: [PATCH 08/21] fix: JieQi.setName resets the jie and qi flags

---
 lunar_python/JieQi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lunar_python/JieQi.py b/lunar_python/JieQi.py
index 24250e2..bba5082 100644
--- a/lunar_python/JieQi.py
+++ b/lunar_python/JieQi.py
@@ -27,6 +27,8 @@ class JieQi:
         """
         from . import Lunar
         self.__name = name
+        self.__jie = False
+        self.__qi = False
         for i in range(0, len(Lunar.JIE_QI)):
             if name == Lunar.JIE_QI[i]:
                 if i % 2 == 0:
-- 
2.43.0


From 137d59e84626af5cff3b37a481c96d8ef950ead8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:10 +0000
Subject: [PATCH 09/21] fix: year and month pillars when the lunar year starts
 before the solar year

---
 lunar_python/Lunar.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lunar_python/Lunar.py b/lunar_python/Lunar.py
index b2eed1a..c3d77b4 100644
--- a/lunar_python/Lunar.py
+++ b/lunar_python/Lunar.py
@@ -99,6 +99,12 @@ class Lunar:
             if solar_ymd_hms >= li_chun_ymd_hms:
                 g_exact += 1
                 z_exact += 1
+        else:
+            # 建丑、建子的年份，正月初一可能早于公历元旦
+            g -= 1
+            z -= 1
+            g_exact -= 1
+            z_exact -= 1
 
         self.__yearGanIndex = year_gan_index
         self.__yearZhiIndex = year_zhi_index
-- 
2.43.0


From 12129a4b227a4034c456592328d41c21814991b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:10 +0000
Subject: [PATCH 10/21] fix: Solar.fromBaZi misses births before a jie inside
 their double-hour, and early January of the base year

---
 lunar_python/Solar.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lunar_python/Solar.py b/lunar_python/Solar.py
index de91866..280c3d9 100644
--- a/lunar_python/Solar.py
+++ b/lunar_python/Solar.py
@@ -121,7 +121,7 @@ class Solar:
                 jie_qi_table = Lunar.fromYmd(y, 1, 1).getJieQiTable()
                 # 节令推移，年干支和月干支就都匹配上了
                 solar_time = jie_qi_table[Lunar.JIE_QI_IN_USE[4 + m]]
-                if solar_time.getYear() >= base_year:
+                if solar_time.getYear() >= start_year:
                     # 日干支和节令干支的偏移值
                     d = LunarUtil.getJiaZiIndex(day_gan_zhi) - LunarUtil.getJiaZiIndex(solar_time.getLunar().getDayInGanZhiExact2())
                     if d < 0:
@@ -138,10 +138,15 @@ class Solar:
                             s = solar_time.getSecond()
                         # 验证一下
                         solar = Solar.fromYmdHms(solar_time.getYear(), solar_time.getMonth(), solar_time.getDay(), hour, mi, s)
-                        lunar = solar.getLunar()
-                        dgz = lunar.getDayInGanZhiExact2() if 2 == sect else lunar.getDayInGanZhiExact()
-                        if lunar.getYearInGanZhiExact() == year_gan_zhi and lunar.getMonthInGanZhiExact() == month_gan_zhi and dgz == day_gan_zhi and lunar.getTimeInGanZhi() == time_gan_zhi:
-                            solar_list.append(solar)
+                        # 如果时辰中途交节，偶数整点可能已属下一节令，再验证该时辰的起始时刻
+                        for solar in (solar, solar.nextHour(-1)):
+                            if solar.getYear() < base_year:
+                                continue
+                            lunar = solar.getLunar()
+                            dgz = lunar.getDayInGanZhiExact2() if 2 == sect else lunar.getDayInGanZhiExact()
+                            if lunar.getYearInGanZhiExact() == year_gan_zhi and lunar.getMonthInGanZhiExact() == month_gan_zhi and dgz == day_gan_zhi and lunar.getTimeInGanZhi() == time_gan_zhi:
+                                solar_list.append(solar)
+                                break
             y += 60
         return solar_list
 
-- 
2.43.0


From ef78ae4d59506d2fdede47110a073d6f82a9f315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:10 +0000
Subject: [PATCH 11/21] fix: holiday lookups find every record by aligned
 position; fix() keeps one record per day

---
 lunar_python/util/HolidayUtil.py | 114 ++++++++++---------------------
 1 file changed, 36 insertions(+), 78 deletions(-)

diff --git a/lunar_python/util/HolidayUtil.py b/lunar_python/util/HolidayUtil.py
index f7043b5..ce88e78 100644
--- a/lunar_python/util/HolidayUtil.py
+++ b/lunar_python/util/HolidayUtil.py
@@ -23,7 +23,11 @@ class HolidayUtil:
         return ("0" if n < 10 else "") + str(n)
 
     @staticmethod
-    def __buildHolidayForward(s):
+    def __year(year):
+        return "%04d" % year if isinstance(year, int) else str(year).replace("-", "")
+
+    @staticmethod
+    def __build(s):
         day = s[0:8]
         name = HolidayUtil.__NAMES_IN_USE[ord(s[8:9]) - HolidayUtil.__ZERO]
         work = ord(s[9:10]) == HolidayUtil.__ZERO
@@ -32,95 +36,59 @@ class HolidayUtil:
         return Holiday(day, name, work, target)
 
     @staticmethod
-    def __buildHolidayBackward(s):
-        size = len(s)
-        day = s[size - 18:size - 10]
-        name = HolidayUtil.__NAMES_IN_USE[ord(s[size - 10:size - 9]) - HolidayUtil.__ZERO]
-        work = ord(s[size - 9:size - 8]) == HolidayUtil.__ZERO
-        target = s[size - 8:]
-        from .. import Holiday
-        return Holiday(day, name, work, target)
-
-    @staticmethod
-    def __findForward(key):
+    def __findIndexes(key, offset):
+        """
+        查找所有匹配的记录在数据中的起始位置
+        :param key: 关键字
+        :param offset: 关键字在记录中的偏移，0为当天，10为节假日当天
+        :return: 起始位置列表
+        """
+        arr = []
         start = HolidayUtil.__DATA_IN_USE.find(key)
-        if start < 0:
-            return None
-        right = HolidayUtil.__DATA_IN_USE[start:]
-        n = len(right) % HolidayUtil.__SIZE
-        if n > 0:
-            right = right[n:]
-        while not right.startswith(key) and len(right) >= HolidayUtil.__SIZE:
-            right = right[HolidayUtil.__SIZE:]
-        return right
+        while start > -1:
+            if start % HolidayUtil.__SIZE == offset:
+                arr.append(start - offset)
+            start = HolidayUtil.__DATA_IN_USE.find(key, start + 1)
+        return arr
 
     @staticmethod
-    def __findBackward(key):
-        start = HolidayUtil.__DATA_IN_USE.rfind(key)
-        if start < 0:
-            return None
-        key_size = len(key)
-        left = HolidayUtil.__DATA_IN_USE[0:start + key_size]
-        size = len(left)
-        n = size % HolidayUtil.__SIZE
-        if n > 0:
-            left = left[0:size - n]
-        size = len(left)
-        while size - key_size != left.rfind(key) and size >= HolidayUtil.__SIZE:
-            left = left[0:size - HolidayUtil.__SIZE]
-            size = len(left)
-        return left
+    def __findHolidays(key, offset):
+        arr = []
+        for start in HolidayUtil.__findIndexes(key, offset):
+            arr.append(HolidayUtil.__build(HolidayUtil.__DATA_IN_USE[start:start + HolidayUtil.__SIZE]))
+        return arr
 
     @staticmethod
     def __findHolidaysForward(key):
-        arr = []
-        s = HolidayUtil.__findForward(key)
-        if s is None:
-            return arr
-        while s.startswith(key):
-            arr.append(HolidayUtil.__buildHolidayForward(s))
-            s = s[HolidayUtil.__SIZE:]
-        return arr
+        return HolidayUtil.__findHolidays(key, 0)
 
     @staticmethod
     def __findHolidaysBackward(key):
-        arr = []
-        s = HolidayUtil.__findBackward(key)
-        if s is None:
-            return arr
-        size = len(s)
-        key_size = len(key)
-
-        while size - key_size == s.rfind(key):
-            arr.append(HolidayUtil.__buildHolidayBackward(s))
-            s = s[0:size - HolidayUtil.__SIZE:]
-            size = len(s)
-        arr.reverse()
-        return arr
+        return HolidayUtil.__findHolidays(key, 10)
 
     @staticmethod
     def __getHoliday(year, month=0, day=0):
-        y = str(year)
+        y = HolidayUtil.__year(year)
         if month == 0 or day == 0:
-            arr = HolidayUtil.__findHolidaysForward(y.replace("-", ""))
+            arr = HolidayUtil.__findHolidaysForward(y)
         else:
             arr = HolidayUtil.__findHolidaysForward(y + HolidayUtil.__padding(month) + HolidayUtil.__padding(day))
         return None if len(arr) < 1 else arr[0]
 
     @staticmethod
     def __getHolidays(year, month=0):
-        y = str(year)
+        y = HolidayUtil.__year(year)
         if month == 0:
-            arr = HolidayUtil.__findHolidaysForward(y.replace("-", ""))
+            arr = HolidayUtil.__findHolidaysForward(y)
         else:
             arr = HolidayUtil.__findHolidaysForward(y + HolidayUtil.__padding(month))
         return arr
 
     @staticmethod
     def __getHolidaysByTarget(year, month=0, day=0):
-        y = str(year)
+        y = HolidayUtil.__year(year)
         if month == 0 or day == 0:
-            arr = HolidayUtil.__findHolidaysBackward(y.replace("-", ""))
+            arr = HolidayUtil.__findHolidaysBackward(y)
         else:
             arr = HolidayUtil.__findHolidaysBackward(y + HolidayUtil.__padding(month) + HolidayUtil.__padding(day))
         return arr
@@ -156,24 +124,14 @@ class HolidayUtil:
             HolidayUtil.__NAMES_IN_USE = names
         if data is None:
             return
-        append = ""
         while len(data) >= HolidayUtil.__SIZE:
             segment = data[:HolidayUtil.__SIZE]
-            day = segment[:8]
             remove = HolidayUtil.__TAG_REMOVE == segment[8:9]
-            holiday = HolidayUtil.getHoliday(day)
-            if holiday is None:
+            indexes = HolidayUtil.__findIndexes(segment[:8], 0)
+            if len(indexes) < 1:
                 if not remove:
-                    append += segment
+                    HolidayUtil.__DATA_IN_USE += segment
             else:
-                name_index = -1
-                for i in range(0, len(HolidayUtil.__NAMES_IN_USE)):
-                    if HolidayUtil.__NAMES_IN_USE[i] == holiday.getName():
-                        name_index = i
-                        break
-                if name_index > -1:
-                    old = day + chr(name_index + HolidayUtil.__ZERO) + ("0" if holiday.isWork() else "1") + holiday.getTarget().replace("-", "")
-                    HolidayUtil.__DATA_IN_USE = HolidayUtil.__DATA_IN_USE.replace(old, "" if remove else segment)
+                start = indexes[0]
+                HolidayUtil.__DATA_IN_USE = HolidayUtil.__DATA_IN_USE[:start] + ("" if remove else segment) + HolidayUtil.__DATA_IN_USE[start + HolidayUtil.__SIZE:]
             data = data[HolidayUtil.__SIZE:]
-        if len(append) > 0:
-            HolidayUtil.__DATA_IN_USE += append
-- 
2.43.0


From 229d546709ebd5db8a39aa61781220e07569486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:46 +0000
Subject: [PATCH 12/21] fix: compare instants numerically so the end of year
 9999 gets the right month pillar, terms and day star

---
 lunar_python/Lunar.py | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/lunar_python/Lunar.py b/lunar_python/Lunar.py
index c3d77b4..8451de4 100644
--- a/lunar_python/Lunar.py
+++ b/lunar_python/Lunar.py
@@ -115,9 +115,18 @@ class Lunar:
         self.__yearGanIndexExact = (g_exact + 10 if g_exact < 0 else g_exact) % 10
         self.__yearZhiIndexExact = (z_exact + 12 if z_exact < 0 else z_exact) % 12
 
+    @staticmethod
+    def __ymd(solar):
+        # 用于比较先后，年份超过4位时字符串比较会出错
+        return solar.getYear(), solar.getMonth(), solar.getDay()
+
+    @staticmethod
+    def __ymdHms(solar):
+        return Lunar.__ymd(solar) + (solar.getHour(), solar.getMinute(), solar.getSecond())
+
     def __computeMonth(self):
-        ymd = self.__solar.toYmd()
-        time = self.__solar.toYmdHms()
+        ymd = Lunar.__ymd(self.__solar)
+        time = Lunar.__ymdHms(self.__solar)
         size = len(Lunar.JIE_QI_IN_USE)
 
         # 序号：大雪以前-3，大雪到小寒之间-2，小寒到立春之间-1，立春之后0
@@ -125,8 +134,8 @@ class Lunar:
         start = None
         for i in range(0, size, 2):
             end = self.__jieQi[Lunar.JIE_QI_IN_USE[i]]
-            symd = ymd if start is None else start.toYmd()
-            if symd <= ymd < end.toYmd():
+            symd = ymd if start is None else Lunar.__ymd(start)
+            if symd <= ymd < Lunar.__ymd(end):
                 break
             start = end
             index += 1
@@ -139,8 +148,8 @@ class Lunar:
         start = None
         for i in range(0, size, 2):
             end = self.__jieQi[Lunar.JIE_QI_IN_USE[i]]
-            stime = time if start is None else start.toYmdHms()
-            if stime <= time < end.toYmdHms():
+            stime = time if start is None else Lunar.__ymdHms(start)
+            if stime <= time < Lunar.__ymdHms(end):
                 break
             start = end
             index += 1
@@ -861,7 +870,7 @@ class Lunar:
         return self.__getMonthNineStar(year_zhi_index, month_zhi_index)
 
     def getDayNineStar(self):
-        solar_ymd = self.__solar.toYmd()
+        solar_ymd = Lunar.__ymd(self.__solar)
         dong_zhi = self.__jieQi["冬至"]
         dong_zhi2 = self.__jieQi["DONG_ZHI"]
         xia_zhi = self.__jieQi["夏至"]
@@ -874,17 +883,17 @@ class Lunar:
             solar_shun_bai = dong_zhi.next(60 - dong_zhi_index)
         else:
             solar_shun_bai = dong_zhi.next(-dong_zhi_index)
-        solar_shun_bai_ymd = solar_shun_bai.toYmd()
+        solar_shun_bai_ymd = Lunar.__ymd(solar_shun_bai)
         if dong_zhi_index2 > 29:
             solar_shun_bai2 = dong_zhi2.next(60 - dong_zhi_index2)
         else:
             solar_shun_bai2 = dong_zhi2.next(-dong_zhi_index2)
-        solar_shun_bai_ymd2 = solar_shun_bai2.toYmd()
+        solar_shun_bai_ymd2 = Lunar.__ymd(solar_shun_bai2)
         if xia_zhi_index > 29:
             solar_ni_zi = xia_zhi.next(60 - xia_zhi_index)
         else:
             solar_ni_zi = xia_zhi.next(-xia_zhi_index)
-        solar_ni_zi_ymd = solar_ni_zi.toYmd()
+        solar_ni_zi_ymd = Lunar.__ymd(solar_ni_zi)
         offset = 0
         if solar_shun_bai_ymd <= solar_ymd < solar_ni_zi_ymd:
             offset = self.__solar.subtract(solar_shun_bai) % 9
@@ -1047,13 +1056,13 @@ class Lunar:
             for cond in conditions:
                 filters.add(cond)
         is_filter = len(filters) > 0
-        today = self.__solar.toYmd() if whole_day else self.__solar.toYmdHms()
+        today = Lunar.__ymd(self.__solar) if whole_day else Lunar.__ymdHms(self.__solar)
         for key in self.JIE_QI_IN_USE:
             jq = self.__convertJieQi(key)
             if is_filter and not filters.__contains__(jq):
                 continue
             solar = self.__jieQi[key]
-            day = solar.toYmd() if whole_day else solar.toYmdHms()
+            day = Lunar.__ymd(solar) if whole_day else Lunar.__ymdHms(solar)
             if forward:
                 if day <= today:
                     continue
@@ -1061,7 +1070,7 @@ class Lunar:
                     name = jq
                     near = solar
                 else:
-                    near_day = near.toYmd() if whole_day else near.toYmdHms()
+                    near_day = Lunar.__ymd(near) if whole_day else Lunar.__ymdHms(near)
                     if day < near_day:
                         name = jq
                         near = solar
@@ -1072,7 +1081,7 @@ class Lunar:
                     name = jq
                     near = solar
                 else:
-                    near_day = near.toYmd() if whole_day else near.toYmdHms()
+                    near_day = Lunar.__ymd(near) if whole_day else Lunar.__ymdHms(near)
                     if day > near_day:
                         name = jq
                         near = solar
-- 
2.43.0


From e310376e2e1ea622db824aeb797ac7f6584b42b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:06 +0000
Subject: [PATCH 13/21] fix: Foto.getYear agrees with Foto.fromYmd when the
 lunar year starts before the solar year

---
 lunar_python/Foto.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lunar_python/Foto.py b/lunar_python/Foto.py
index aa31ede..2e62564 100644
--- a/lunar_python/Foto.py
+++ b/lunar_python/Foto.py
@@ -29,11 +29,7 @@ class Foto:
         return self.__lunar
 
     def getYear(self):
-        sy = self.__lunar.getSolar().getYear()
-        y = sy - Foto.DEAD_YEAR
-        if sy == self.__lunar.getYear():
-            y += 1
-        return y
+        return self.__lunar.getYear() - Foto.DEAD_YEAR + 1
 
     def getMonth(self):
         return self.__lunar.getMonth()
-- 
2.43.0


From 3394557519a64087ef39cd0f9c192303bf477a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:08 +0000
Subject: [PATCH 14/21] fix: the month starting 0019-01-25 is leap month 1 in
 both lunar years that list it

---
 lunar_python/LunarYear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lunar_python/LunarYear.py b/lunar_python/LunarYear.py
index 27feb0a..a6e911e 100644
--- a/lunar_python/LunarYear.py
+++ b/lunar_python/LunarYear.py
@@ -17,7 +17,7 @@ class LunarYear:
     __LEAP_11 = (75, 94, 170, 265, 322, 398, 469, 553, 583, 610, 678, 735, 754, 773, 849, 887, 936, 1050, 1069, 1126, 1145, 1164, 1183, 1259, 1278, 1308, 1373, 1403, 1441, 1460, 1498, 1555, 1593, 1612, 1631, 1642, 2033, 2128, 2147, 2242, 2614, 2728, 2910, 3062, 3244, 3339, 3616, 3711, 3730, 3825, 4007, 4159, 4197, 4322, 4341, 4379, 4417, 4531, 4599, 4694, 4713, 4789, 4808, 4971, 5085, 5104, 5161, 5180, 5199, 5294, 5305, 5476, 5677, 5696, 5772, 5791, 5848, 5886, 6049, 6068, 6144, 6163, 6258, 6402, 6440, 6497, 6516, 6630, 6641, 6660, 6679, 6736, 6774, 6850, 6869, 6899, 6918, 6994, 7013, 7032, 7051, 7070, 7089, 7108, 7127, 7146, 7222, 7271, 7290, 7309, 7366, 7385, 7404, 7442, 7461, 7480, 7491, 7499, 7594, 7624, 7643, 7662, 7681, 7719, 7738, 7814, 7863, 7882, 7901, 7939, 7958, 7977, 7996,
                  8034, 8053, 8072, 8091, 8121, 8159, 8186, 8216, 8235, 8254, 8273, 8311, 8330, 8341, 8349, 8368, 8444, 8463, 8474, 8493, 8531, 8569, 8588, 8626, 8664, 8683, 8694, 8702, 8713, 8721, 8751, 8789, 8808, 8816, 8827, 8846, 8884, 8903, 8922, 8941, 8971, 9036, 9066, 9085, 9104, 9123, 9142, 9161, 9180, 9199, 9218, 9256, 9294, 9313, 9324, 9343, 9362, 9381, 9419, 9438, 9476, 9514, 9533, 9544, 9552, 9563, 9571, 9582, 9601, 9639, 9658, 9666, 9677, 9696, 9734, 9753, 9772, 9791, 9802, 9821, 9886, 9897, 9916, 9935, 9954, 9973, 9992)
 
-    __LEAP_12 = (37, 56, 113, 132, 151, 189, 208, 227, 246, 284, 303, 341, 360, 379, 417, 436, 458, 477, 496, 515, 534, 572, 591, 629, 648, 667, 697, 716, 792, 811, 830, 868, 906, 925, 944, 963, 982, 1001, 1020, 1039, 1058, 1088, 1153, 1202, 1221, 1240, 1297, 1335, 1392, 1411, 1422, 1430, 1517, 1525, 1536, 1574, 3358, 3472, 3806, 3988, 4751, 4941, 5066, 5123, 5275, 5343, 5438, 5457, 5495, 5533, 5552, 5715, 5810, 5829, 5905, 5924, 6421, 6535, 6793, 6812, 6888, 6907, 7002, 7184, 7260, 7279, 7374, 7556, 7746, 7757, 7776, 7833, 7852, 7871, 7966, 8015, 8110, 8129, 8148, 8224, 8243, 8338, 8406, 8425, 8482, 8501, 8520, 8558, 8596, 8607, 8615, 8645, 8740, 8778, 8835, 8865, 8930, 8960, 8979, 8998, 9017, 9055, 9074, 9093, 9112, 9150, 9188, 9237, 9275, 9332, 9351, 9370, 9408, 9427, 9446, 9457, 9465,
+    __LEAP_12 = (18, 37, 56, 113, 132, 151, 189, 208, 227, 246, 284, 303, 341, 360, 379, 417, 436, 458, 477, 496, 515, 534, 572, 591, 629, 648, 667, 697, 716, 792, 811, 830, 868, 906, 925, 944, 963, 982, 1001, 1020, 1039, 1058, 1088, 1153, 1202, 1221, 1240, 1297, 1335, 1392, 1411, 1422, 1430, 1517, 1525, 1536, 1574, 3358, 3472, 3806, 3988, 4751, 4941, 5066, 5123, 5275, 5343, 5438, 5457, 5495, 5533, 5552, 5715, 5810, 5829, 5905, 5924, 6421, 6535, 6793, 6812, 6888, 6907, 7002, 7184, 7260, 7279, 7374, 7556, 7746, 7757, 7776, 7833, 7852, 7871, 7966, 8015, 8110, 8129, 8148, 8224, 8243, 8338, 8406, 8425, 8482, 8501, 8520, 8558, 8596, 8607, 8615, 8645, 8740, 8778, 8835, 8865, 8930, 8960, 8979, 8998, 9017, 9055, 9074, 9093, 9112, 9150, 9188, 9237, 9275, 9332, 9351, 9370, 9408, 9427, 9446, 9457, 9465,
                  9495, 9560, 9590, 9628, 9647, 9685, 9715, 9742, 9780, 9810, 9818, 9829, 9848, 9867, 9905, 9924, 9943, 9962, 10000)
 
     __CACHE_YEAR = None
-- 
2.43.0


From 58a9242b80927faf0ca3ddf336402d7c7a198e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:11 +0000
Subject: [PATCH 15/21] fix: LunarMonth.next returns the month as its own year
 lists it, with the right index

---
 lunar_python/LunarMonth.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lunar_python/LunarMonth.py b/lunar_python/LunarMonth.py
index 3cf414f..c265ec4 100644
--- a/lunar_python/LunarMonth.py
+++ b/lunar_python/LunarMonth.py
@@ -147,7 +147,7 @@ class LunarMonth:
                 im = last_month.getMonth()
                 ny += 1
                 months = LunarYear.fromYear(ny).getMonths()
-            return months[index + rest]
+            m = months[index + rest]
         else:
             rest = -n
             ny = self.__year
@@ -170,4 +170,5 @@ class LunarMonth:
                 im = first_month.getMonth()
                 ny -= 1
                 months = LunarYear.fromYear(ny).getMonths()
-            return months[index - rest]
+            m = months[index - rest]
+        return LunarMonth.fromYm(m.getYear(), m.getMonth())
-- 
2.43.0


From 3c6061bccb043edec71b190ad1ba91464d9cbf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:36 +0000
Subject: [PATCH 16/21] fix: stepping weeks back by month into October 1582
 starts from its last day, the 31st

---
 lunar_python/SolarWeek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lunar_python/SolarWeek.py b/lunar_python/SolarWeek.py
index 26c64a4..3641be2 100644
--- a/lunar_python/SolarWeek.py
+++ b/lunar_python/SolarWeek.py
@@ -155,7 +155,7 @@ class SolarWeek:
                             week = SolarWeek.fromYmd(last_day.getYear(), last_day.getMonth(), last_day.getDay(), self.__start)
                             week_month = week.getMonth()
                         else:
-                            solar = Solar.fromYmd(week.getYear(), week.getMonth(), SolarUtil.getDaysOfMonth(week.getYear(), week.getMonth()))
+                            solar = Solar.fromYmd(week.getYear(), week.getMonth(), 1).next(SolarUtil.getDaysOfMonth(week.getYear(), week.getMonth()) - 1)
                             week = SolarWeek.fromYmd(solar.getYear(), solar.getMonth(), solar.getDay(), self.__start)
                     month = week_month
                 n -= 1 if plus else -1
-- 
2.43.0


From fd9e50eb4beaf8c82be52b0509bd5646fb2bfb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:42 +0000
Subject: [PATCH 17/21] fix: fromBaZi reads the term table of the solar year
 when the lunar year starts before it

---
 lunar_python/Solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lunar_python/Solar.py b/lunar_python/Solar.py
index 280c3d9..e427e31 100644
--- a/lunar_python/Solar.py
+++ b/lunar_python/Solar.py
@@ -118,7 +118,7 @@ class Solar:
         while y <= end_year:
             if y >= start_year:
                 # 立春为寅月的开始
-                jie_qi_table = Lunar.fromYmd(y, 1, 1).getJieQiTable()
+                jie_qi_table = Solar.fromYmd(y, 6, 1).getLunar().getJieQiTable()
                 # 节令推移，年干支和月干支就都匹配上了
                 solar_time = jie_qi_table[Lunar.JIE_QI_IN_USE[4 + m]]
                 if solar_time.getYear() >= start_year:
-- 
2.43.0


From 333e31ef5f46be6950160771a71769ca26488d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 18/21] fix: new year's eve of lunar year 236, whose last month
 has 28 days

---
 lunar_python/Lunar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lunar_python/Lunar.py b/lunar_python/Lunar.py
index 8451de4..8767d02 100644
--- a/lunar_python/Lunar.py
+++ b/lunar_python/Lunar.py
@@ -668,7 +668,7 @@ class Lunar:
         md = "%d-%d" % (self.__month, self.__day)
         if md in LunarUtil.FESTIVAL:
             fs.append(LunarUtil.FESTIVAL[md])
-        if abs(self.__month) == 12 and self.__day >= 29 and self.__year != self.next(1).getYear():
+        if abs(self.__month) == 12 and self.__day >= 28 and self.__year != self.next(1).getYear():
             fs.append("除夕")
         return fs
 
-- 
2.43.0


From 72e01a7439b6132f9c0173517dd613776b80faf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:44 +0000
Subject: [PATCH 19/21] fix: changing the lists a lunar year hands out
 corrupted the cached year

---
 lunar_python/LunarYear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lunar_python/LunarYear.py b/lunar_python/LunarYear.py
index a6e911e..7a336fb 100644
--- a/lunar_python/LunarYear.py
+++ b/lunar_python/LunarYear.py
@@ -177,10 +177,10 @@ class LunarYear:
         return months
 
     def getMonths(self):
-        return self.__months
+        return self.__months[:]
 
     def getJieQiJulianDays(self):
-        return self.__jieQiJulianDays
+        return self.__jieQiJulianDays[:]
 
     def getLeapMonth(self):
         """
-- 
2.43.0


From 328008503a53fc0f76a6f8c13ee55fd4421b74e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:04 +0000
Subject: [PATCH 20/21] fix: changing a list of hidden stems changed the shared
 table

---
 lunar_python/EightChar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lunar_python/EightChar.py b/lunar_python/EightChar.py
index d1dbc6a..2eb535e 100644
--- a/lunar_python/EightChar.py
+++ b/lunar_python/EightChar.py
@@ -70,7 +70,7 @@ class EightChar:
         获取年柱地支藏干，由于藏干分主气、余气、杂气，所以返回结果可能为1到3个元素
         :return: 天干
         """
-        return LunarUtil.ZHI_HIDE_GAN.get(self.getYearZhi())
+        return LunarUtil.ZHI_HIDE_GAN.get(self.getYearZhi())[:]
 
     def getYearWuXing(self):
         """
@@ -154,7 +154,7 @@ class EightChar:
         获取月柱地支藏干，由于藏干分主气、余气、杂气，所以返回结果可能为1到3个元素
         :return: 天干
         """
-        return LunarUtil.ZHI_HIDE_GAN.get(self.getMonthZhi())
+        return LunarUtil.ZHI_HIDE_GAN.get(self.getMonthZhi())[:]
 
     def getMonthWuXing(self):
         """
@@ -217,7 +217,7 @@ class EightChar:
         获取日柱地支藏干，由于藏干分主气、余气、杂气，所以返回结果可能为1到3个元素
         :return: 天干
         """
-        return LunarUtil.ZHI_HIDE_GAN.get(self.getDayZhi())
+        return LunarUtil.ZHI_HIDE_GAN.get(self.getDayZhi())[:]
 
     def getDayWuXing(self):
         """
@@ -280,7 +280,7 @@ class EightChar:
         获取时柱地支藏干，由于藏干分主气、余气、杂气，所以返回结果可能为1到3个元素
         :return: 天干
         """
-        return LunarUtil.ZHI_HIDE_GAN.get(self.getTimeZhi())
+        return LunarUtil.ZHI_HIDE_GAN.get(self.getTimeZhi())[:]
 
     def getTimeWuXing(self):
         """
-- 
2.43.0


From 818be0877139cee8bc8d6cdb463e372432231e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:43 +0000
Subject: [PATCH 21/21] fix: reading the pillars of more than sixty decades of
 luck raised an IndexError

---
 lunar_python/eightchar/DaYun.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/lunar_python/eightchar/DaYun.py b/lunar_python/eightchar/DaYun.py
index 277ff71..daeb4ce 100644
--- a/lunar_python/eightchar/DaYun.py
+++ b/lunar_python/eightchar/DaYun.py
@@ -53,12 +53,7 @@ class DaYun:
             return ""
         offset = LunarUtil.getJiaZiIndex(self.__lunar.getMonthInGanZhiExact())
         offset += self.__index if self.__yun.isForward() else -self.__index
-        size = len(LunarUtil.JIA_ZI)
-        if offset >= size:
-            offset -= size
-        if offset < 0:
-            offset += size
-        return LunarUtil.JIA_ZI[offset]
+        return LunarUtil.JIA_ZI[offset % len(LunarUtil.JIA_ZI)]
 
     def getXun(self):
         """
-- 
2.43.0

