# -*- coding: utf-8 -*-
import os, sys
from . import core


def selftest():
    """the reference data load and are themselves consistent; an oracle that should fire fires"""
    from .golden import cal, TERMS
    from .civil import jdn, ymd, JZ, day_gz
    from . import tables, api, registry
    c = cal()
    assert c.lunar(jdn(2024, 2, 10))[:3] == (2024, 1, 1), c.lunar(jdn(2024, 2, 10))
    assert c.leap_month(2033) == 11 and c.leap_month(2023) == 2 and c.leap_month(2024) == 0
    assert JZ[day_gz(jdn(2000, 1, 1))] == "戊午"
    assert all(c.starts[i + 1] - c.starts[i] in (28, 29, 30) for i in range(len(c.starts) - 1))
    assert all(ymd(jdn(*ymd(n))) == ymd(n) for n in range(2299000, 2299400))
    assert len(tables.T["holidays"]) > 800 and len(api.API) > 20
    m = core.Mon("SELF")
    m.eq("x", 1, 2)
    m.eq("x", True, 1)
    m.eq("x", 2, 2)
    assert len(m.bad_list) == 2 and m.n["x"] == 3
    for k in registry.SPECS:
        s = registry.SPECS[k]()
        assert s["plan"]("quick", 1) and s["need"], k
    print("selftest ok: %d properties, %d months, %d terms" % (len(registry.SPECS), len(c.months), len(c.T)))
    return 0


def main():
    if sys.argv[1] == "replay":
        return core.replay(sys.argv[2])
    if sys.argv[1] == "selftest":
        return selftest()
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from . import registry
    return core.run_property(prop, registry.SPECS[prop](), tier, seed)


if __name__ == "__main__":
    sys.exit(main())
