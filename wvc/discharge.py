"""Discharging obligations with z3 (second opinions: other seeds, cvc5)."""
import time
import z3
from . import theory as T
from .val import B
from .engine import EAGER


def mksolver(timeout, seed=0, mbqi=False, extra=None):
    s = z3.Solver()
    s.set('auto_config', False)
    s.set('mbqi', mbqi)
    T.limit(s, timeout)
    s.set('random_seed', seed)
    s.set('smt.random_seed', seed)
    s.set('smt.qi.eager_threshold', EAGER)
    for k, v in (extra or {}).items():
        s.set(k, v)
    for a in T.axioms():
        s.add(a)
    return s


def discharge(ex, want=None, timeout=10000, deadline=None, log=None):
    """decide every obligation of ex whose tags meet `want`; returns the list of decided obligations"""
    todo = [o for o in ex.lemmaobls + ex.obls if want is None or (o.tags & want)]
    pend = [o for o in todo if o.status is None]
    s = mksolver(timeout)
    for f in ex.facts0:
        s.add(f)
    done = 0
    hard = []
    for o in pend:
        while done < o.n:
            s.add(ex.facts[done])
            done += 1
        t = time.time()
        s.push()
        s.add(B(o.pc))
        s.add(z3.Not(B(o.goal)))
        T.limit(s, min(timeout, 3000))
        r = s.check()
        o.time = time.time() - t
        if r == z3.unsat:
            o.status = 'proved'
            o.detail = 'z3'
        else:
            hard.append(o)
            o.detail = str(r) + ' ' + (s.reason_unknown() if r == z3.unknown else '')
        s.pop()
    # second round: a fresh solver for each, only facts before it
    for o in hard:
        if deadline is not None and time.time() > deadline:
            o.status = 'unknown'
            continue
        for seed, opts in ((0, {}), (5, {'smt.qi.eager_threshold': 10.0}), (7, {'smt.case_split': 3}), (3, {'smt.arith.solver': 2})):
            t = time.time()
            s = mksolver(timeout, seed, extra=opts)
            for f in ex.facts0:
                s.add(f)
            for f in ex.facts[:o.n]:
                s.add(f)
            s.add(B(o.pc))
            s.add(z3.Not(B(o.goal)))
            r = s.check()
            o.time += time.time() - t
            if r == z3.unsat:
                o.status = 'proved'
                o.detail = 'z3 seed %d' % seed
                break
            o.detail = str(r) + ' ' + (s.reason_unknown() if r == z3.unknown else '')
            if deadline is not None and time.time() > deadline:
                break
        if o.status is None:
            o.status = 'unknown'
    return todo


def cover(ex, timeout=5000):
    """vacuity guard: the facts at the end of the function must not be contradictory"""
    if not hasattr(ex, 'cover'):
        return 'no exit'
    s = mksolver(timeout)
    for f in ex.facts0:
        s.add(f)
    for f in ex.facts[:ex.cover[0]]:
        s.add(f)
    s.add(B(ex.cover[1]))
    r = s.check()
    return 'contradictory' if r == z3.unsat else 'ok'


def conjuncts(g):
    if z3.is_and(g):
        return [y for x in g.children() for y in conjuncts(x)]
    if z3.is_implies(g):
        return [z3.Implies(g.arg(0), y) for y in conjuncts(g.arg(1))]
    return [g]


def explain(ex, o):
    """debugging aid: which conjunct fails, and a candidate model"""
    s = mksolver(5000)
    for f in ex.facts0:
        s.add(f)
    for f in ex.facts[:o.n]:
        s.add(f)
    s.add(B(o.pc))
    for c in conjuncts(B(o.goal)):
        s.push()
        s.add(z3.Not(c))
        r = s.check()
        print('     ', r, str(c).replace('\n', ' ')[:1500])
        if r != z3.unsat:
            try:
                m = s.model()
                for d in sorted(m.decls(), key=lambda d: d.name()):
                    v = m[d]
                    if d.arity() == 0 and (z3.is_int_value(v) or z3.is_true(v) or z3.is_false(v)):
                        print('         ', d.name(), '=', v)
            except z3.Z3Exception as e:
                print('no model', e)
            s.pop()
            break
        s.pop()
