"""Verifies one function of the program and writes the outcome as JSON."""
import json
import os
import pickle
import resource
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)


def find(prog, c):
    f = prog.find(c.name)
    return f


def main():
    progfile, name, out, deadline = sys.argv[1:5]
    want = frozenset(sys.argv[5].split(',')) if len(sys.argv) > 5 and sys.argv[5] else None
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    from wvc import spec, discharge, engine
    from wvc.libc import LIBC
    import wvc.specs.all
    t0 = time.time()
    with open(progfile, 'rb') as f:
        prog = pickle.load(f)
    c = spec.CONTRACTS[name]
    res = {'function': name, 'obls': [], 'error': None}
    try:
        f = prog.find(name)
        if f is None:
            raise engine.Unsupported('the program has no function %s' % name)
        ex = engine.Ex(prog, dict(spec.CONTRACTS), LIBC, dict(spec.OPTS))
        ex.deadline = t0 + float(deadline)
        err = None
        try:
            ex.verify(f, c)
        except (engine.Unsupported, AttributeError, TypeError, ValueError, KeyError, IndexError, AssertionError, RecursionError) as e:
            err = '%s: %s @ %s' % (type(e).__name__, e, ex.where())
            res['trace'] = traceback.format_exc()[-1500:]
        t1 = time.time()
        obls = discharge.discharge(ex, None, 10000, t0 + float(deadline))
        cov = 'not reached' if err else discharge.cover(ex, 3000)
        res.update(error=err, gen_s=t1 - t0, solve_s=time.time() - t1, loop_queries=ex.queries, loop_s=ex.solver_time, cover=cov,
                   used=sorted(ex.used_contracts), inlined=sorted(ex.inlined), trusted=sorted(ex.trusted), loops=ex.loopinfo,
                   file=f.mod.name, src='%s.c' % f.mod.name)
        for o in obls:
            res['obls'].append({'name': o.name, 'where': o.where, 'kind': o.kind, 'tags': sorted(o.tags), 'status': o.status,
                                'detail': o.detail, 's': round(o.time, 3), 'goal': str(o.goal)[:600] if o.status != 'proved' else ''})
    except Exception as e:
        res['error'] = '%s: %s' % (type(e).__name__, e)
        res['trace'] = traceback.format_exc()[-1500:]
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f)
    os.rename(out + '.tmp', out)


if __name__ == '__main__':
    main()
