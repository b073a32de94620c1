#!/usr/bin/env python3-vt
"""Decides one property: generates the proof obligations of its contracts from
/repo's current source, discharges them, runs the bounded replay harness, and
writes the evidence file.

  run.py <property> [--thorough]
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'contracts'))
sys.setrecursionlimit(20000)

GXX = ['g++', '-std=c++17', '-O1', '-fPIC', '-DEIGEN_NO_DEBUG', '-DEIGEN_MPL2_ONLY', '-DNDEBUG',
       '-DEIGEN_MAX_ALIGN_BYTES=64', '-w', '-iquote', REPO, '-isystem', '/usr/include/eigen3']


# ---------------------------------------------------------------- contracts
def run_contract(args):
    mod, idx, tier = args
    t0 = time.time()
    import api
    import cast
    import terms
    import exec as X
    from values import Unsupported
    from terms import Undecided
    c = api.REG[mod][idx]
    res = {'name': c.name, 'obligations': [], 'error': None, 'executed': [], 'used': [], 'assumptions': []}
    if isinstance(c.error, str):
        res['error'] = c.error
        res['errkind'] = 'extraction'
        return res
    ex = X.Executor(c.tus, c.name)
    ex.deadline = t0 + c.budget * (3 if tier == 'thorough' else 1)
    terms.Stats.z3_queries = 0
    terms.Stats.z3_time = 0.0

    def alarm(*a):
        raise Undecided('time budget exhausted')
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(c.budget * (3 if tier == 'thorough' else 1)) + 10)
    try:
        if c.setup:
            c.setup(ex)
        ex.explore(c.fn)
    except cast.ExtractError as e:
        res['error'], res['errkind'] = str(e)[:600], 'extraction'
    except Unsupported as e:
        res['error'], res['errkind'] = str(e)[:600], 'unsupported'
    except Undecided as e:
        res['error'], res['errkind'] = str(e)[:600], 'undecided'
    except RecursionError:
        res['error'], res['errkind'] = 'recursion limit', 'undecided'
    except Exception as e:
        res['error'], res['errkind'] = traceback.format_exc()[-1500:], 'internal'
    finally:
        signal.alarm(0)
    for o in ex.obls.values():
        res['obligations'].append({'name': '%s / %s' % (c.name, o.name), 'kind': o.kind, 'status': o.status,
                                   'paths': o.ok + o.bad + o.fail + o.und, 'how': o.how, 'detail': o.detail})
    res['executed'] = sorted(ex.executed)
    res['used'] = sorted(x for x in ex.used_contracts if x)
    res['assumptions'] = sorted(ex.assumptions)
    res['paths'] = ex.paths
    res['completed'] = getattr(ex, 'completed', 0)
    res['cut'] = getattr(ex, 'cut', 0)
    res['bounds_trivial'] = getattr(ex, 'bounds_ok', 0)
    res['z3_queries'] = terms.Stats.z3_queries
    res['z3_time'] = round(terms.Stats.z3_time, 3)
    res['wall'] = round(time.time() - t0, 2)
    return res


def all_contracts(prop, tier):
    import api
    import cast
    importlib.import_module(prop.lower())
    cs = api.REG.get(prop, [])
    specs = sorted({s for c in cs for s in c.specs})
    errs = {}
    tus = {}
    from concurrent.futures import ThreadPoolExecutor

    def ld(s):
        try:
            tus[s] = cast.load(*s)
        except Exception as e:
            errs[s] = 'cannot read %s: %s' % (s[0], str(e)[:500])
    with ThreadPoolExecutor(max_workers=8) as p:
        list(p.map(ld, specs))
    for c in cs:
        bad = [errs[s] for s in c.specs if s in errs]
        c.error = bad[0] if bad else None
        c.tus = [tus[s] for s in c.specs if s in tus]
    todo = [(prop, i, tier) for i, c in enumerate(cs) if tier == 'thorough' or not c.thorough]
    if not todo:
        return []
    out = []
    if os.environ.get('VERIF_SERIAL'):
        return [run_contract(t) for t in todo]
    with mp.get_context('fork').Pool(min(8, len(todo)), maxtasksperchild=1) as pool:
        rs = [(t, pool.apply_async(run_contract, (t,))) for t in todo]
        for t, r in rs:
            c = cs[t[1]]
            try:
                out.append(r.get(timeout=(c.budget * (3 if tier == 'thorough' else 1)) + 400))
            except Exception as e:
                out.append({'name': c.name, 'obligations': [], 'error': 'no answer: %s' % e, 'errkind': 'undecided',
                            'executed': [], 'used': [], 'assumptions': []})
        pool.terminate()
    return out


# ---------------------------------------------------------------- harness
class Harness:
    """bounded replay of the property on the compiled code"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.src = os.path.join(VERIF, 'harness', prop.lower() + '.cc')
        self.res = {'ran': False}
        self.th = None

    def start(self):
        if not os.path.exists(self.src):
            return
        self.dir = tempfile.mkdtemp(prefix='conex-verif-')
        self.th = threading.Thread(target=self.work)
        self.th.start()

    def work(self):
        try:
            self.build()
            if self.res.get('error'):
                return
            self.run(5)
        except Exception as e:
            self.res['error'] = 'harness: %s' % str(e)[:300]

    def build(self):
        head = open(self.src).read()
        m = re.search(r'^// SOURCES:(.*)$', head, re.M)
        srcs = m.group(1).split() if m else []
        if srcs == ['ALL']:
            srcs = ['conex/' + f for f in sorted(os.listdir(os.path.join(REPO, 'conex'))) if f.endswith('.cc')]
        if '// INTERFACE' in head:
            srcs.append('interfaces/conex.cc')
        m = re.search(r'^// FLAGS:(.*)$', head, re.M)
        extra = m.group(1).split() if m else []
        jobs = []
        objs = []
        sem = threading.Semaphore(8)
        errs = []

        def comp(s, o):
            with sem:
                p = subprocess.run(GXX + extra + ['-I', os.path.join(VERIF, 'harness'), '-c', s, '-o', o],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                if p.returncode:
                    errs.append(p.stdout.decode(errors='replace')[-1500:])
        for s in srcs + [self.src]:
            o = os.path.join(self.dir, hashlib.md5(s.encode()).hexdigest() + '.o')
            objs.append(o)
            t = threading.Thread(target=comp, args=(s if os.path.isabs(s) else os.path.join(REPO, s), o))
            t.start()
            jobs.append(t)
        for t in jobs:
            t.join()
        if errs:
            self.res['error'] = 'harness does not compile: ' + errs[0]
            return
        self.exe = os.path.join(self.dir, 'h')
        p = subprocess.run(['g++'] + extra + ['-o', self.exe] + objs + ['-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            self.res['error'] = 'harness does not link: ' + p.stdout.decode(errors='replace')[-1500:]

    def run(self, scale):
        t0 = time.time()
        env = dict(os.environ, VERIF_SEED=str(self.seed), VERIF_SCALE=str(scale * (8 if self.tier == 'thorough' else 1)),
                   ASAN_OPTIONS='detect_leaks=0', UBSAN_OPTIONS='print_stacktrace=0')
        env.pop('CONEX_STRESS', None)
        tmo, cpu = (240, 120) if self.tier == 'quick' else (2400, 1200)

        def limit():
            import resource
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        try:
            p = subprocess.run([self.exe], preexec_fn=limit, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=tmo, cwd=self.dir)
            out = p.stdout.decode(errors='replace')
            rc = p.returncode
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b'').decode(errors='replace')
            rc = None
        r = self.res
        r['ran'] = True
        r['rc'] = rc
        r['evals'] = sum(int(x) for x in re.findall(r'^EVALS (\d+)', out, re.M))
        r['nontrivial'] = sum(int(x) for x in re.findall(r'^NONTRIVIAL (\d+)', out, re.M))
        r['fails'] = re.findall(r'^FAIL (.*)$', out, re.M)
        r['known'] = re.findall(r'^KNOWN (.*)$', out, re.M)
        r['samples'] = re.findall(r'^SAMPLE (.*)$', out, re.M)[:5]
        r['scope'] = re.findall(r'^SCOPE (.*)$', out, re.M)
        r['wall'] = round(time.time() - t0, 2)
        if rc == -signal.SIGXCPU:
            # a few seconds on the unchanged tree: does not terminate
            last = re.findall(r'^CASE (.*)$', out, re.M)
            r['fails'].append('does not terminate within %d s of processor time %s' % (cpu, last[-1] if last else ''))
        if rc not in (0, 1, None) and not r['fails']:
            last = re.findall(r'^CASE (.*)$', out, re.M)
            r['fails'] = ['crash (exit %s) %s: %s' % (rc, last[-1] if last else '', out[-600:].replace('\n', ' | '))]
        if rc == 1 and not r['fails']:
            r['fails'] = ['exit 1: ' + out[-600:].replace('\n', ' | ')]
        if rc is None:
            last = re.findall(r'^CASE (.*)$', out, re.M)
            r['error'] = 'harness timed out %s' % (last[-1] if last else '')
        r['out'] = out[-20000:]

    def join(self):
        if self.th:
            self.th.join()

    def done(self):
        d = getattr(self, 'dir', None)
        if d and d.startswith(tempfile.gettempdir() + os.sep + 'conex-verif-'):
            shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- findings
def findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key="(.*?)" (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


TRUSTED = [
    'the verification condition generator in /verif/vcgen (symbolic execution of the clang AST, loop summaries by induction, normal forms)',
    'clang 18 (parser and AST of the code that is compiled; instantiated templates)',
    'z3 (integer side conditions, real arithmetic leaves)',
    'models of Eigen and the C++ standard library in vcgen/eig.py and vcgen/stdmodel.py',
]
ASSUME = [
    'double arithmetic is treated as real arithmetic (no rounding, overflow or NaN)',
    'machine integers are mathematical integers except for conversions to unsigned types, which wrap',
    'Eigen and libstdc++ behave as modelled; heap allocation succeeds',
]


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    hs = Harness(prop, tier, seed)
    hs.start()
    rs = all_contracts(prop, tier)
    hs.join()
    H = hs.res
    obs = [o for r in rs for o in r['obligations']]
    kf = findings(prop)

    def is_known(text):
        for k, what in kf:
            if k in text:
                return what
        return None
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof'}
    disch = [o for o in obs if o['status'] == 'discharged']
    refuted = [o for o in obs if o['status'] == 'refuted']
    failed = [o for o in obs if o['status'] == 'failed']
    undec = [o for o in obs if o['status'] == 'undecided']
    vac = [r['name'] for r in rs if not r.get('error') and (not r['obligations'] or not (r.get('completed') or r.get('cut')))]
    errs = [{'contract': r['name'], 'kind': r.get('errkind'), 'what': r['error']} for r in rs if r.get('error')]
    known = []
    for f in H.get('known', []):
        known.append(f)
    bad = []
    for o in refuted + failed:
        w = is_known(o['name'])
        if w:
            known.append(w)
        else:
            bad.append(o)
    hfail = []
    for f in H.get('fails', []):
        w = is_known(f)
        if w:
            known.append(w)
        else:
            hfail.append(f)
    # a failed proof: look harder for a concrete input
    if bad and not hfail and H.get('ran') and not H.get('error') and time.time() - t0 < 400:
        try:
            hs.run(20)
            H = hs.res
            hfail = [f for f in H.get('fails', []) if not is_known(f)]
        except Exception:
            pass
    hs.done()
    violation = bool(bad or hfail)
    how = {}
    for o in obs:
        for k, n in o['how'].items():
            how[k] = how.get(k, 0) + n
    mod = sys.modules.get(prop.lower())
    ev['coverage'] = {
        'obligations': len(obs),
        'discharged': len(disch),
        'checker_cmd': 'python3-vt vcgen/run.py %s' % prop + (' --thorough' if tier == 'thorough' else ''),
        'trusted_base': TRUSTED,
        'contracts': [{k: r.get(k) for k in ('name', 'paths', 'completed', 'cut', 'wall', 'z3_queries', 'z3_time', 'error')} |
                      {'obligations': len(r['obligations']),
                       'discharged': len([o for o in r['obligations'] if o['status'] == 'discharged'])} for r in rs],
        'functions_under_contract': sorted({f for r in rs for f in r['executed']}),
        'callee_contracts_used': sorted({f for r in rs for f in r['used']}),
        'back_ends': how,
        'bounds_obligations_by_evaluation': sum(r.get('bounds_trivial', 0) for r in rs),
        'solver_queries': sum(r.get('z3_queries', 0) for r in rs),
        'solver_time_s': round(sum(r.get('z3_time', 0) for r in rs), 2),
        'obligation_list': [{'name': o['name'], 'status': o['status'], 'paths': o['paths']} for o in obs],
        'not_discharged': [{'name': o['name'], 'status': o['status'], 'detail': o['detail'][:400]} for o in obs if o['status'] != 'discharged'],
        'contracts_not_decided': errs,
        'vacuous_contracts': vac,
        'bounded_stand_in': {k: H.get(k) for k in ('ran', 'evals', 'nontrivial', 'scope', 'samples', 'wall', 'error')} |
                            {'note': 'bounded execution of the compiled code against an independent oracle; never counted as proved'},
    }
    ev['assumptions'] = ASSUME + sorted({a for r in rs for a in r['assumptions']}) + list(getattr(mod, 'ASSUMPTIONS', []))
    ev['wall_s'] = round(time.time() - t0, 2)
    ev['violations'] = len(bad) + len(hfail)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d refuted, %d failed, %d undecided, %d contracts not decided; harness %s; %.1f s' %
          (prop, len(obs), len(disch), len(refuted), len(failed), len(undec), len(errs),
           ('ran %s cases' % H.get('evals')) if H.get('ran') else ('not available: %s' % str(H.get('error'))[:300] if H.get('error') else 'none'),
           time.time() - t0))
    for o in obs:
        if o['status'] != 'discharged':
            print('  %s: %s\n      %s' % (o['status'].upper(), o['name'], o['detail'].replace('\n', '\n      ')[:1500]))
    for e in errs:
        print('  NOT DECIDED (%s): %s: %s' % (e['kind'], e['contract'], e['what'][:1500]))
    for v in vac:
        print('  VACUOUS: %s' % v)
    if H.get('error'):
        print('  HARNESS: %s' % H['error'][:1500])
    for k in sorted(set(known)):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if violation:
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        rp = os.path.join(VERIF, 'evidence', 'replay', prop + '.txt')
        with open(rp, 'w') as f:
            f.write('property %s\n\n' % prop)
            for o in bad:
                f.write('failed obligation: %s (%s)\n%s\n\n' % (o['name'], o['status'], o['detail']))
            if hfail:
                f.write('failing inputs on the compiled code (harness/%s.cc, VERIF_SEED=%d):\n' % (prop.lower(), seed))
                for x in hfail[:20]:
                    f.write('  ' + x + '\n')
                f.write('\noutput:\n' + H.get('out', '')[-6000:])
        for x in hfail[:5]:
            print('  FAILING INPUT: %s' % x[:600])
        print('VIOLATION property=%s replay=%s%s' % (prop, os.path.relpath(rp, VERIF), '' if hfail else ' no-failing-input-found'))
        return 1
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
