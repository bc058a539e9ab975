#!/usr/bin/env python3
"""Checks one property: regenerates and discharges every obligation of the functions it depends on from /repo's source.

usage: run.py Cxx [--tier quick|thorough] [--repo DIR]      exit 0: holds; exit 1: VIOLATION line printed
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/veriftools/pyvenv/bin/python3'
if not os.path.exists(PY):
    PY = shutil.which('python3-vt') or sys.executable
if os.environ.get('WVC_INNER') != '1':
    os.environ['WVC_INNER'] = '1'
    os.environ.setdefault('PYTHONHASHSEED', '0')
    os.execv(PY, [PY] + [os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)


def hard_kinds(o, prop, direct):
    """does this obligation decide the property?"""
    if prop in o['tags']:
        return True
    return False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--no-replay', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='wvc-%s-' % a.prop)
    try:
        return check(a, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def known_findings():
    out = []
    try:
        with open(os.path.join(HERE, 'known-findings.txt')) as f:
            for l in f:
                l = l.strip()
                if l and not l.startswith('#') and not l.startswith('fixed:'):
                    out.append(l)
    except OSError:
        pass
    return out


def check(a, t0, scratch):
    import pickle
    from wvc import load, spec
    import wvc.specs.all
    prop = a.prop
    thorough = a.tier == 'thorough'
    total = 780 if not thorough else 5400
    fnlimit = 600 if not thorough else 2400
    err = None
    results = {}
    try:
        prog = load.compile_all(a.repo, scratch)
    except Exception as e:
        err = 'the source does not compile for verification: %s' % e
        prog = None
    direct = [n for n, c in spec.CONTRACTS.items() if not n.startswith('*') and (prop in c.tags or prop in c.safety or prop in getattr(c, 'extra', ()))]
    failures = []
    if prog is not None:
        # a helper that is gone is verified as part of the functions that used it
        direct = [n for n in direct if prog.find(n) is not None or not spec.CONTRACTS[n].opts.get('helper')]
        sys.setrecursionlimit(20000)
        pf = os.path.join(scratch, 'prog.pickle')
        with open(pf, 'wb') as f:
            pickle.dump(prog, f)
        todo = sorted(direct, key=lambda n: -spec.CONTRACTS[n].opts.get('cost', 1))
        seen = set(todo)
        running = {}
        while todo or running:
            while todo and len(running) < a.jobs:
                n = todo.pop(0)
                out = os.path.join(scratch, n + '.json')
                left = max(20, total - (time.time() - t0))
                lim = min(fnlimit, left)
                p = subprocess.Popen([PY, os.path.join(HERE, 'wvc', 'worker.py'), pf, n, out, str(lim * 0.8)],
                                     stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'w'))
                running[n] = (p, time.time(), lim, out)
            time.sleep(0.02)
            for n, (p, ts, lim, out) in list(running.items()):
                rc = p.poll()
                if rc is None and time.time() - ts > lim:
                    p.kill()
                    p.wait()
                    rc = 'timeout'
                if rc is None:
                    continue
                del running[n]
                if os.path.exists(out):
                    with open(out) as f:
                        results[n] = json.load(f)
                else:
                    with open(out + '.err') as f:
                        e = f.read()[-800:]
                    results[n] = {'function': n, 'obls': [], 'error': 'verifier stopped (%s) %s' % (rc, e), 'used': [], 'inlined': [], 'trusted': [],
                                  'gen_s': 0, 'solve_s': 0, 'loop_s': 0, 'cover': '', 'loops': []}
                results[n]['wall'] = round(time.time() - ts, 2)
                if a.v:
                    print('#', n, results[n]['wall'], results[n].get('error') or '', flush=True)
                # contracts its obligations rest on are discharged in the same run
                for u in results[n].get('used', []):
                    if u not in seen and u in spec.CONTRACTS and not u.startswith('*'):
                        seen.add(u)
                        todo.append(u)
    nob = ndis = 0
    perfn = {}
    for n, r in sorted(results.items()):
        isdirect = n in direct
        mine = []
        for o in r['obls']:
            if isdirect and prop not in o['tags'] and prop in spec.CONTRACTS[n].tags | spec.CONTRACTS[n].safety and o['tags']:
                continue
            if not isdirect and o['kind'] == 'memory':
                continue
            mine.append(o)
        bad = [o for o in mine if o['status'] != 'proved']
        nob += len(mine)
        ndis += len(mine) - len(bad)
        for o in bad:
            failures.append((n, o))
        if r['error']:
            failures.append((n, {'name': 'every obligation of %s is generated' % n, 'where': r.get('src', n), 'kind': 'generation', 'detail': r['error'],
                                 'goal': r.get('trace', ''), 'status': 'not generated', 's': 0}))
        elif r.get('cover') == 'contradictory':
            failures.append((n, {'name': 'the contract of %s is not vacuous' % n, 'where': n, 'kind': 'vacuity', 'detail': 'preconditions or facts contradict each other',
                                 'goal': '', 'status': 'vacuous', 's': 0}))
        elif isdirect and not mine:
            failures.append((n, {'name': '%s generates obligations' % n, 'where': n, 'kind': 'vacuity', 'detail': 'no obligation', 'goal': '', 'status': 'vacuous', 's': 0}))
        kinds = {}
        for o in mine:
            kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
        perfn[n] = {'obligations': len(mine), 'discharged': len(mine) - len(bad), 'kinds': kinds, 'direct': isdirect, 'solver_s': round(r.get('solve_s', 0) + r.get('loop_s', 0), 2),
                    'wall_s': r.get('wall'), 'inlined': r.get('inlined', []), 'callee_contracts': r.get('used', []), 'cover': r.get('cover')}
    if err:
        failures.append(('-', {'name': 'the program is translated', 'where': '-', 'kind': 'generation', 'detail': err, 'goal': '', 'status': 'not generated', 's': 0}))
    if not direct:
        failures.append(('-', {'name': 'the property has contracts', 'where': '-', 'kind': 'vacuity', 'detail': 'none', 'goal': '', 'status': 'vacuous', 's': 0}))
    from wvc import lemmas
    for nm, ok, dt, why in lemmas.prove():
        nob += 1
        ndis += ok
        if not ok:
            failures.append(('theory', {'name': 'lemma ' + nm, 'where': 'wvc/theory.py', 'kind': 'lemma', 'detail': why, 'goal': '', 'status': 'unknown', 's': dt}))
    trusted = sorted(set(x for r in results.values() for x in r.get('trusted', [])))
    backends = {}
    for r in results.values():
        for o in r['obls']:
            if o['status'] == 'proved':
                d = o['detail'] or 'trivial'
                backends[d] = backends.get(d, 0) + 1
    import z3
    from wvc import props
    viol = []
    replaypath = None
    ran = None
    if failures:
        rdir = os.path.join(HERE, 'replay-out')
        os.makedirs(rdir, exist_ok=True)
        replaypath = os.path.join(rdir, '%s.txt' % prop)
        found = None
        if not a.no_replay:
            try:
                from replay import drive
                found, ran = drive.search(prop, failures, a.repo, scratch, max(60, min(240, 840 - (time.time() - t0))))
            except Exception as e:
                ran = 'replay harness: %s: %s' % (type(e).__name__, e)
        with open(replaypath, 'w') as f:
            f.write('property %s\n\n' % prop)
            if found:
                f.write('FAILING INPUT, executed against the code in %s\n%s\n\n' % (a.repo, found))
            elif ran:
                f.write('no failing input found (%s)\n\n' % ran)
            f.write('%d failed obligation(s)\n' % len(failures))
            for n, o in failures[:60]:
                f.write('\n* %s: %s\n  function %s, at %s, kind %s, solver: %s %s\n  goal: %s\n' % (
                    o['status'], o['name'], n, o['where'], o['kind'], o['status'], o['detail'], o['goal']))
        viol.append('VIOLATION property=%s replay=%s%s' % (prop, replaypath, '' if found else ' no-failing-input-found'))
    kf = [l for l in known_findings() if 'property=%s ' % prop in l]
    ev = {
        'property': prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'proof',
        'coverage': {
            'obligations': nob, 'discharged': ndis,
            'checker_cmd': 'run.py %s --tier %s (wvc: clang-18 LLVM IR of /repo -> contracts -> z3 %s)' % (prop, a.tier, z3.get_version_string()),
            'trusted_base': ['wvc verification condition generator', 'z3 %s' % z3.get_version_string(), 'clang 18 front end (IR at -O0)',
                             'axioms of wvc/theory.py'] + ['assumed contract of external %s' % x for x in trusted],
            'functions_under_contract': perfn,
            'discharged_by': backends,
            'solver_s': round(sum(r.get('solve_s', 0) + r.get('loop_s', 0) for r in results.values()), 2),
            'loop_invariants': sum(len(r.get('loops', [])) for r in results.values()),
            'failed': [{'function': n, 'name': o['name'], 'where': o['where'], 'detail': str(o['detail'])[:200]} for n, o in failures[:20]],
        },
        'assumptions': props.ASSUMPTIONS + props.PER.get(prop, []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    s = json.dumps(ev, indent=1)
    if len(s) > 60000:
        for n in perfn.values():
            n.pop('kinds', None)
        s = json.dumps(ev)
    with open(os.path.join(HERE, 'evidence', '%s.json' % prop), 'w') as f:
        f.write(s)
    for l in kf:
        print('KNOWN-FINDING: ' + l)
    print('%s: %d obligations, %d discharged, %d functions, %.1f s' % (prop, nob, ndis, len(perfn), time.time() - t0))
    for n, o in failures[:12]:
        print('  %s: %s [%s] %s %s' % (n, o['name'], o['where'], o['status'], str(o['detail'])[:160]))
    for v in viol:
        print(v)
    return 1 if viol else 0


if __name__ == '__main__':
    sys.exit(main())
