# -*- coding: utf-8 -*-
"""Runs in a process of its own, in another environment (hash seed, zone, locale, optimisation, clock, first import): answers the pickled questions."""
import importlib, os, pickle, sys
from . import clockchild as cc
import datetime as _dt
import time as _t


def main():
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.environ["VERIF_REPO"])
    cc.NOW[0] = int(os.environ["RV_CLOCK"])
    real = _dt.datetime, _dt.date, _t.time, _t.localtime, _t.gmtime
    _dt.date, _dt.datetime = cc.Date, cc.Datetime
    _t.time = cc.shown
    _t.localtime = lambda *a: cc._local(a[0] if a and a[0] is not None else cc.shown())
    _t.gmtime = lambda *a: cc._gm(a[0] if a and a[0] is not None else cc.shown())
    importlib.import_module(os.environ["RV_FIRST"])
    from . import p_state
    ops = pickle.load(sys.stdin.buffer)
    out = [p_state.ask(op) for op in ops]
    sys.stdout.buffer.write(pickle.dumps(out))


if __name__ == "__main__":
    main()
