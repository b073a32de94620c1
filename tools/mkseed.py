#!/usr/bin/env python3
"""mkseed.py <dir with seed.py>...: creates and validates planted bugs.

A seed description is a python file defining
  ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], SOURCES (of the demo), DEMO (C++ text)
The change is applied to /repo, built, tested, the demo run, and undone."""
import json
import os
import subprocess
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken.  Run with cwd /repo.
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
flags="-std=c++17 -O1 -DEIGEN_NO_DEBUG -DNDEBUG -DEIGEN_MPL2_ONLY -DEIGEN_MAX_ALIGN_BYTES=64 -w -iquote $PWD -isystem /usr/include/eigen3 %(flags)s"
i=0
for s in %(sources)s; do
  g++ $flags -c "$s" -o "$d/$i.o" & i=$((i+1))
done
g++ $flags -c "$here/demo.cc" -o "$d/demo.o" || exit 9
wait
g++ -o "$d/demo" "$d"/*.o -lpthread || exit 9
cd "$d"
timeout 120 "$d/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def failed_tests():
    out = '/tmp/mkseed-out.json'
    p = sh('bash /opt/vp/test.sh ' + out)
    d = json.load(open(out))
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return [t for t in base if t not in d['passed']], p.stdout.decode(errors='replace')[-800:]


def main():
    assert sh('git -C /repo status --porcelain').stdout.decode().strip() == '', 'repo not clean'
    for spec in sys.argv[1:]:
        g = {}
        exec(open(spec).read(), g)
        d = os.path.join(VERIF, 'seeded', g['ID'])
        os.makedirs(d, exist_ok=True)
        ok = True
        srcs = g['SOURCES']
        if srcs == 'ALL':
            srcs = 'conex/*.cc'
        open(os.path.join(d, 'demo.cc'), 'w').write(g['DEMO'])
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH % {'sources': srcs, 'flags': g.get('FLAGS', '')})
        json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        clean = sh('bash %s/demo.sh' % d, cwd=REPO)
        if clean.returncode != 0:
            print(g['ID'], 'REJECTED: demo fails on the unchanged tree', clean.returncode, clean.stdout.decode(errors='replace')[-1500:])
            ok = False
        try:
            for f, old, new in g['EDITS']:
                p = os.path.join(REPO, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(g['ID'], 'REJECTED: edit matches %d times in %s: %r' % (s.count(old), f, old[:80]))
                    ok = False
                    break
                open(p, 'w').write(s.replace(old, new))
            if ok:
                diff = sh('git -C /repo diff').stdout
                open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
                bad, log = failed_tests()
                if bad:
                    print(g['ID'], 'REJECTED: existing tests notice it:', bad[:6], log if len(bad) > 90 else '')
                    ok = False
                dm = sh('bash %s/demo.sh' % d, cwd=REPO)
                if dm.returncode == 0:
                    print(g['ID'], 'REJECTED: demo passes with the change', dm.stdout.decode(errors='replace')[-500:])
                    ok = False
                elif dm.returncode == 9:
                    print(g['ID'], 'REJECTED: demo does not build', dm.stdout.decode(errors='replace')[-800:])
                    ok = False
                else:
                    msg = dm.stdout.decode(errors='replace')[-300:]
                if ok:
                    c = sh('python3-vt vcgen/run.py %s' % g['PROPERTY'], cwd=VERIF)
                    o = c.stdout.decode(errors='replace')
                    lines = [l for l in o.split('\n') if l.strip()]
                    ded = [l.strip() for l in lines if l.strip().startswith(('REFUTED', 'FAILED', 'UNDECIDED', 'NOT DECIDED'))]
                    print(g['ID'], g['PROPERTY'], 'KEPT', 'CAUGHT' if c.returncode == 1 else 'MISSED (exit %d)' % c.returncode,
                          '|', lines[0], '|', '; '.join(x[:110] for x in ded[:5]), '|',
                          [l for l in lines if 'FAILING INPUT' in l or 'VIOLATION' in l][:2])
        finally:
            sh('git -C /repo checkout -- .')
        if not ok:
            sh('rm -rf %s' % d)
        sys.stdout.flush()


main()
