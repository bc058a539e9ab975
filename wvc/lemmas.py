"""Proves the lemmas of theory.py from its axioms (earlier lemmas may be used by later ones)."""
import time
import z3
from . import theory as T


def induction(nm, vs, body, k, known, timeout):
    """body at 0 and, from body at k >= 0, at k+1 (the lemma claims nothing for negative k)"""
    t = time.time()
    rs = []
    sk = [(v, z3.Const('sk_%s' % v, v.sort())) for v in vs]
    kk = dict((str(v), c) for v, c in sk)[str(k)]
    at = lambda x: z3.substitute(z3.substitute(body, *[(v, c) for v, c in sk if not z3.eq(v, k)]), (k, x))
    for hyp, goal in ((z3.BoolVal(True), at(z3.IntVal(0))), (z3.And(kk >= 0, at(kk)), at(kk + 1))):
        s = z3.Solver()
        s.set('auto_config', False)
        s.set('mbqi', False)
        T.limit(s, timeout)
        for a in known:
            s.add(a)
        s.add(hyp)
        s.add(T.Emul(8)(kk) == 8 * kk)
        s.add(z3.Not(goal))
        rs.append(s.check())
    return nm + ' (induction)', all(r == z3.unsat for r in rs), time.time() - t, str(rs)


def sums(timeout):
    """the two lemmas about sums, by induction: their witnesses at k+1 are among the ones at k and k itself"""
    out = []
    A, B = z3.Consts('sA sB', T.ASort)
    k, d1, d2, e = z3.Ints('sk sd1 sd2 se')

    def body(k, d1, d2):
        diff = lambda d: z3.And(0 <= d, d < k, T.sel(A, d) != T.sel(B, d))
        return z3.Or(T.tsum(A, k) == T.tsum(B, k), z3.And(diff(d1), z3.Or(T.tsum(B, k) - T.tsum(A, k) == T.sel(B, d1) - T.sel(A, d1), z3.And(d1 != d2, diff(d2)))))

    def bound(k, e):
        return z3.Or(z3.And(0 <= T.tsum(A, k), T.tsum(A, k) <= k), z3.And(0 <= e, e < k, T.sel(A, e) != 0, T.sel(A, e) != 1))

    def zero(k, e):
        return z3.Or(T.tsum(A, k) == 0, z3.And(0 <= e, e < k, T.sel(A, e) != 0))
    assert z3.eq(z3.simplify(body(k, T.td1(A, B, k), T.td2(A, B, k))), z3.simplify(T.tsumlemma(A, B, k)))
    assert z3.eq(z3.simplify(bound(k, T.te1(A, k))), z3.simplify(T.tsumbound(A, k)))
    z = z3.IntVal(0)
    assert z3.eq(z3.simplify(zero(k, T.te0(A, k))), z3.simplify(T.tsumzero(A, k)))
    for nm, base, hyp, step in (('difference of sums', body(z, d1, d2), body(k, d1, d2), [body(k + 1, a, b) for a, b in ((d1, d2), (d1, k), (k, d1))]),
                                ('bound of sums', bound(z, e), bound(k, e), [bound(k + 1, x) for x in (e, k)]), ('sum of nothing', zero(z, e), zero(k, e), [zero(k + 1, x) for x in (e, k)])):
        t = time.time()
        rs = []
        for h, g in ((z3.BoolVal(True), base), (z3.And(k >= 0, hyp, T.E1(k) == k), z3.Or(*step))):
            s = z3.Solver()
            T.limit(s, timeout)
            for a in T.tsumaxioms():
                s.add(a)
            s.add(h, z3.Not(g))
            rs.append(s.check())
        out.append((nm + ' (induction)', all(r == z3.unsat for r in rs), time.time() - t, str(rs)))
    return out


def prove(timeout=20000):
    base = T.axioms(False)
    out = []
    done = []
    for nm, vs, body, pats, *ind in T.lemmas() + T.optional_lemmas():
        if ind:
            out.append(induction(nm, vs, body, ind[0], base + done, timeout))
            done.append(z3.ForAll(vs, body, patterns=pats))
            continue
        s = z3.Solver()
        s.set('auto_config', False)
        s.set('mbqi', False)
        T.limit(s, timeout)
        for a in base + done:
            s.add(a)
        sk = [z3.Const('sk_%s' % v, v.sort()) for v in vs]
        s.add(z3.Not(z3.substitute(body, *zip(vs, sk))))
        t = time.time()
        r = s.check()
        out.append((nm, r == z3.unsat, time.time() - t, str(r)))
        done.append(z3.ForAll(vs, body, patterns=pats))
    return out + sums(timeout)


if __name__ == '__main__':
    for x in prove():
        print(x)
