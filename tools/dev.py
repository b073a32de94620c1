"""Development: run the contracts of a property whose name matches, one by one, with times and tracebacks.
usage: python3-vt tools/dev.py C06 [regex] [-v]"""
import os, re, sys, time, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'vcgen'), os.path.join(V, 'contracts')]
import importlib
import api, cast, terms
import exec as X
prop = sys.argv[1]
pat = sys.argv[2] if len(sys.argv) > 2 else '.'
importlib.import_module(prop.lower())
tus = {}
for c in api.REG[prop]:
    if not re.search(pat, c.name):
        continue
    t0 = time.time()
    for s in c.specs:
        if s not in tus:
            tus[s] = cast.load(*s)
    ex = X.Executor([tus[s] for s in c.specs], c.name)
    ex.deadline = time.time() + c.budget
    err = None
    try:
        if c.setup:
            c.setup(ex)
        ex.explore(c.fn)
    except Exception:
        err = traceback.format_exc()
    n = {}
    for o in ex.obls.values():
        n[o.status] = n.get(o.status, 0) + 1
    print('%-40s %6.1f s  paths %s %s %s' % (c.name, time.time() - t0, ex.paths, n, 'ERROR' if err else ''), flush=True)
    if err:
        print('\n'.join(err.splitlines()[-int(os.environ.get('TB', '3')):]))
    for o in ex.obls.values():
        if o.status != 'discharged':
            print('   ', o.status, o.name, '|', (o.detail or '')[:int(os.environ.get('W', '300'))])
    if '-v' in sys.argv:
        for o in ex.obls.values():
            print('     ', o.status, o.name, o.how)
