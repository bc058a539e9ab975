import sys, time, importlib, os
sys.path.insert(0, '/verif')
import z3
from wvc import load, spec, discharge, engine
from wvc.libc import LIBC
import wvc.specs.all
def main():
    prog = load.compile_all(os.environ.get('REPO', '/repo'))
    names = sys.argv[1:]
    for n in names:
        c = spec.CONTRACTS[n]
        f = prog.find(n)
        t = time.time()
        ex = engine.Ex(prog, {k: v for k, v in spec.CONTRACTS.items()}, LIBC, spec.OPTS)
        try:
            ex.verify(f, c)
        except engine.Unsupported as e:
            print('UNSUPPORTED', n, e, ex.where()); 
            if os.environ.get('TB'): raise
            continue
        t1 = time.time()
        os_ = discharge.discharge(ex, None, 10000)
        bad = [o for o in os_ if o.status != 'proved']
        print(n, 'obls', len(os_), 'bad', len(bad), 'facts', len(ex.facts), 'gen %.1fs solve %.1fs' % (t1 - t, time.time() - t1), 'loopq', ex.queries, 'cover', discharge.cover(ex, 3000))
        for o in bad:
            print('   FAIL', o.kind, o.name, '@', o.where, o.detail, '%.1fs' % o.time)
            if os.environ.get('GO'): print('      GOAL', str(o.goal)[:3000])
            if os.environ.get('DBG'):
                discharge.explain(ex, o)
        for o in os_:
            if o.time > 1 and os.environ.get('TS'):
                print('   slow', o.kind, o.name, '@', o.where, o.detail, '%.1fs' % o.time)
        for l in ex.loopinfo if os.environ.get('LI') else []:
            print('   ', l)
if __name__ == '__main__':
    main()
