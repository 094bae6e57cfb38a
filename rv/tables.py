# -*- coding: utf-8 -*-
"""Reference tables (golden/tables.xz, see tools/make_tables.py)."""
import json, lzma, os

with lzma.open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "golden", "tables.xz")) as _f:
    T = json.loads(_f.read().decode())
LU = T["LunarUtil"]
SU = T["SolarUtil"]
DESC = {"坎": "正北", "艮": "东北", "震": "正东", "巽": "东南", "离": "正南", "坤": "西南", "兑": "正西", "乾": "西北", "中": "中宫"}
# positions by day/time/year/month stem 甲..癸
XI = "艮乾坤离巽艮乾坤离巽"
YANG = "坤坤兑乾艮坎离艮震巽"
YIN = "艮坎乾兑坤坤艮离巽震"
FU1 = "巽巽震震坎离坤坤乾兑"
FU2 = "坎坤乾巽艮坎坤乾巽艮"
CAI = "艮艮坤坤坎坎震震离离"
SUI = "坎艮艮震巽巽离坤坤兑坎坎"
GANPOS = "震震离离中中兑兑坎坎"
NUM = ("〇", "一", "二", "三", "四", "五", "六", "七", "八", "九", "十", "十一", "十二")


def five_positions(gan, prefix):
    """[(getter name, expected)] of the five joy/noble/fortune/wealth positions for a stem"""
    out = []
    for nm, tab in (("Xi", XI), ("YangGui", YANG), ("YinGui", YIN), ("Cai", CAI)):
        out.append((prefix + nm, (), tab[gan]))
        out.append((prefix + nm + "Desc", (), DESC[tab[gan]]))
    for sect, tab in ((1, FU1), (2, FU2)):
        out.append((prefix + "Fu", (sect,), tab[gan]))
        out.append((prefix + "FuDesc", (sect,), DESC[tab[gan]]))
    out.append((prefix + "Fu", (), FU2[gan]))
    out.append((prefix + "FuDesc", (), DESC[FU2[gan]]))
    return out
