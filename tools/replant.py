"""Run every kept planted bug against its property's quick check (development only); one line per bug.
usage: replant.py [ID...]"""
import json, os, shutil, subprocess, sys
S = "/verif/seeded"
for i in sorted(sys.argv[1:] or os.listdir(S)):
    wt = "/tmp/rp_" + i
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", wt], check=True)
    a = subprocess.run(["git", "apply", os.path.join(S, i, "patch.diff")], cwd=wt, capture_output=True, text=True)
    p = json.load(open(os.path.join(S, i, "meta.json")))["property"]
    if a.returncode:
        print(i, p, "DOES NOT APPLY", a.stderr[:100], flush=True)
    else:
        d = subprocess.run(["bash", os.path.join(S, i, "demo.sh")], cwd=wt, capture_output=True)
        o = subprocess.run(["./check", p, "quick"], cwd="/verif", capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=wt, VERIF_SEED="1")).stdout
        print(i, p, "demo=%d" % d.returncode, "CAUGHT" if "VIOLATION property=" + p in o else "MISSED", flush=True)
    shutil.rmtree(wt, ignore_errors=True)
