# -*- coding: utf-8 -*-
"""The code under test, imported from /repo's working tree, and the boundary instrumentation."""
from . import core
import os, sys
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
import lunar_python
assert os.path.abspath(lunar_python.__file__).startswith(os.path.abspath(REPO) + os.sep), lunar_python.__file__
from lunar_python import *
from lunar_python import (Solar, Lunar, LunarYear, LunarMonth, LunarTime, SolarWeek, SolarMonth, SolarSeason,
                          SolarHalfYear, SolarYear, Foto, Tao, EightChar, NineStar, JieQi, Holiday, ShuJiu, Fu)
from lunar_python.util import SolarUtil, LunarUtil, HolidayUtil, FotoUtil, TaoUtil, ShouXingUtil

_real_from_year = LunarYear.fromYear
_memo = {}
_order = []


def _from_year(y):
    r = _memo.get(y)
    if r is None:
        r = _real_from_year(y)
        _memo[y] = r
        _order.append(y)
        if len(_order) > 96:
            del _memo[_order.pop(0)]
    return r


def memo():
    """Accelerate sweeps: LunarYear.fromYear is answered from a small per-process memo of its own earlier answers.
    Checks that are about caching, history or concurrency do not call this, and every sixth piece of a workload (fewer where a case
    asks for many years) does without it."""
    if core.PLAIN[0]:
        unmemo()
        return
    LunarYear.fromYear = staticmethod(_from_year)


def unmemo():
    LunarYear.fromYear = staticmethod(_real_from_year)
    _memo.clear()
    del _order[:]


def sol(s):
    return (s.getYear(), s.getMonth(), s.getDay(), s.getHour(), s.getMinute(), s.getSecond())


def sday(s):
    return (s.getYear(), s.getMonth(), s.getDay())


def lun(l):
    return (l.getYear(), l.getMonth(), l.getDay())
