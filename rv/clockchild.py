# -*- coding: utf-8 -*-
"""Runs in a process of its own: dates looked up by their pillars while the machine's clock shows a chosen year.
Input (stdin, pickled): [(year shown, pillars, school, base year)...]; output: the dates found, or the error."""
import datetime as _dt
import os, pickle, sys, time as _t

NOW = [2000]
_date, _datetime, _time, _local, _gm = _dt.date, _dt.datetime, _t.time, _t.localtime, _t.gmtime


def shown():
    return (_datetime(NOW[0], 7, 1, 12, 0, 0) - _datetime(1970, 1, 1)).total_seconds()


class Date(_date):
    @classmethod
    def today(cls):
        return cls(NOW[0], 7, 1)


class Datetime(_datetime):
    @classmethod
    def now(cls, tz=None):
        return cls(NOW[0], 7, 1, 12, 0, 0, tzinfo=tz)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        return cls.now()


def main():
    jobs = pickle.load(sys.stdin.buffer)
    NOW[0] = jobs[0][0]
    _dt.date, _dt.datetime = Date, Datetime
    _t.time = shown
    _t.localtime = lambda *a: _local(a[0] if a and a[0] is not None else shown())
    _t.gmtime = lambda *a: _gm(a[0] if a and a[0] is not None else shown())
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    from lunar_python import Solar
    out = []
    for year, p, sect, base in jobs:
        NOW[0] = year
        try:
            out.append([(s.getYear(), s.getMonth(), s.getDay(), s.getHour(), s.getMinute(), s.getSecond()) for s in Solar.fromBaZi(*(tuple(p) + (sect, base)))])
        except Exception as e:
            out.append(repr(e))
    sys.stdout.buffer.write(pickle.dumps(out))


if __name__ == "__main__":
    main()
