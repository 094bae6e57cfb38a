"""Plant a bug (development only).

usage: plant.py SPEC.py [--check] [--force]
SPEC.py defines: ID, PROPERTY, EDITS=[(file, old, new)], DEMO (python text), NEEDS, BREAKS.
Everything happens in a copy of /repo under /tmp; a spec that survives (tests pass, demo 0 on
clean and nonzero when patched) is saved in /verif/seeded/ID.
"""
import json, os, shutil, subprocess, sys, runpy, tempfile

def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, errors='replace', timeout=timeout)
    return p.returncode, p.stdout + p.stderr

DEMO_SH = '#!/bin/bash\nset -u\nd="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1\nexport PYTHONPATH="$PWD"\npy=/opt/venv/bin/python\n[ -x "$py" ] || py=python3\nexec timeout 250 "$py" "$d/demo.py"\n'

def main():
    spec = runpy.run_path(sys.argv[1])
    out = '/verif/seeded/' + spec['ID']
    wt = tempfile.mkdtemp(prefix='wt_', dir='/tmp')
    shutil.rmtree(wt)
    try:
        sh('cp -a /repo %s' % wt)
        for f, old, new in spec['EDITS']:
            p = os.path.join(wt, f)
            s = open(p, encoding='utf-8', newline='').read()
            n = s.count(old)
            if n != 1:
                print('EDIT matches %d times in %s: %r' % (n, f, old[:80])); return 2
            open(p, 'w', encoding='utf-8', newline='').write(s.replace(old, new))
        rc, diff = sh('git diff', cwd=wt)
        # which lines are original?
        for f in set(e[0] for e in spec['EDITS']):
            rc, base = sh('git show ea15b86:%s' % f, cwd=wt)
            bl = set(base.splitlines())
            _, d1 = sh('git diff -- %s' % f, cwd=wt)
            for l in d1.splitlines():
                if l.startswith('-') and not l.startswith('---') and l[1:].rstrip('\r') not in bl:
                    print('NOTE not an original line:', l[:120])
        dd = tempfile.mkdtemp(prefix='demo_', dir='/tmp')
        open(dd + '/demo.py', 'w').write(spec['DEMO'])
        open(dd + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(dd + '/demo.sh', 0o755)
        r0, o0 = sh('bash %s/demo.sh' % dd, cwd='/repo')
        r1, o1 = sh('bash %s/demo.sh' % dd, cwd=wt)
        print('demo clean rc=%d %s' % (r0, o0.strip()[-200:]))
        print('demo patched rc=%d %s' % (r1, o1.strip()[-200:]))
        rt, ot = sh('PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s timeout 300 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --rootdir=%s -o "python_files=*Test.py test_*.py *_test.py" test 2>&1 | tail -4' % (wt, wt), cwd=wt)
        print('tests:', ot.strip()[-160:])
        ok = r0 == 0 and r1 != 0 and 'passed' in ot and 'failed' not in ot and 'error' not in ot
        if ok:
            os.makedirs(out, exist_ok=True)
            open(out + '/patch.diff', 'w').write(diff)
            for n in ('demo.py', 'demo.sh'):
                shutil.copy(dd + '/' + n, out + '/' + n)
            json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']},
                      open(out + '/meta.json', 'w'), indent=1, ensure_ascii=False)
        print('KEPT' if ok else 'REJECTED', spec['ID'])
        shutil.rmtree(dd)
        if ok and '--check' in sys.argv:
            for p in spec['PROPERTY'].split(','):
                rc, o = sh('VERIF_REPO=%s VERIF_SEED=1 ./check %s quick | grep -v "^KNOWN" | tail -2 | cut -c1-260' % (wt, p), cwd='/verif')
                print('CHECK', p, 'CAUGHT' if 'VIOLATION property=' + p in o else 'MISSED', o.strip())
        return 0 if ok else 1
    finally:
        shutil.rmtree(wt, ignore_errors=True)

sys.exit(main())
