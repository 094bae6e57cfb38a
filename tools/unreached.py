"""Which library lines no check reached (development only). usage: RV_LINES=dir set while checks ran; unreached.py dir"""
import json, os, sys, types
L = {}
for f in os.listdir(sys.argv[1]):
    for k, v in json.load(open(os.path.join(sys.argv[1], f))).items():
        L.setdefault(k, set()).update(v)
base = "/repo/lunar_python/"
tot = miss = 0


def walk(c, rel):
    global tot, miss
    for k in c.co_consts:
        if isinstance(k, types.CodeType):
            if k.co_name not in ("<listcomp>",) and not k.co_name[0].isupper():
                ls = {l for _, _, l in k.co_lines() if l and l != k.co_firstlineno}
                un = sorted(ls - L.get(rel + ":" + k.co_qualname, set()))
                tot += len(ls)
                miss += len(un)
                if un:
                    print(rel, k.co_qualname, "ALL" if len(un) == len(ls) else un)
            walk(k, rel)


for d, _, fs in os.walk(base):
    for f in sorted(fs):
        if f.endswith(".py"):
            p = os.path.join(d, f)
            walk(compile(open(p, encoding="utf-8").read(), p, "exec"), os.path.relpath(p, base))
print(tot, "lines", miss, "unreached")
