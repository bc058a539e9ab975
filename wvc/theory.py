"""Mathematical vocabulary of the contracts: C strings over Int-indexed arrays, with trigger-directed axioms.

Every function below is total and the axioms state its definition only (they are satisfiable in the standard
model: slen(A,p) is the distance from p to the first zero at or after p, -1 if there is none, and so on).
"""
import z3

Int = z3.IntSort()
Bool = z3.BoolSort()
ASort = z3.DeclareSort('Mem')                 # contents of an object, indexed by byte offset
F = z3.Function
sel = F('sel', ASort, Int, Int)
put = F('put', ASort, Int, Int, ASort)
constarr = F('constarr', Int, ASort)

slen = F('slen', ASort, Int, Int)            # length of the C string at p, -1 if unterminated
cidx = F('cidx', ASort, Int, Int, Int)       # distance to the first element equal to c or 0
ridx = F('ridx', ASort, Int, Int, Int)       # offset of the last c in the string at p, relative; -1 if none
wsl = F('wsl', ASort, Int, Int)              # number of leading white space characters
rte = F('rte', ASort, Int, Int, Int)         # greatest t in [p,e] with t==p or A[t-1] not white space
wse = F('wse', ASort, Int, Int, Int)         # least t in [p,e] with t==e or A[t] not white space
wend = F('wend', ASort, Int, Int, Int)       # least t in [p,e] with t==e or A[t] white space
eqn = F('eqn', ASort, Int, ASort, Int, Int, Bool)   # A[p..p+n) == B[q..q+n)
neq = F('neq', ASort, Int, ASort, Int, Int, Int)    # witness of a difference
eqi = F('eqi', ASort, Int, ASort, Int, Int, Bool)   # the same ignoring ASCII case
nei = F('nei', ASort, Int, ASort, Int, Int, Int)
fnd = F('fnd', ASort, ASort, Int, Int, Int, Int)  # fnd(A,B,q,s,e): first i in [s,e) at which the string B,q occurs in A; -1 if none
fndi = F('fndi', ASort, ASort, Int, Int, Int, Int)  # the same ignoring ASCII case
atoi = F('atoi', ASort, Int, Int)             # value atoi gives
osize = F('osize', Int, Int)                 # size of an object in bytes
oheap = F('oheap', Int, Bool)                # object came from malloc & co
oro = F('oro', Int, Bool)                    # object is read-only (string literal, const)
paddr = F('paddr', Int, Int)                 # base address of an object
band = F('band', Int, Int, Int)
bor = F('bor', Int, Int, Int)
bxor = F('bxor', Int, Int, Int)
declen = F('declen', Int, Int)               # number of characters of the decimal form
u8, u16, u32, u64 = (F('u%d' % b, Int, Int) for b in (8, 16, 32, 64))  # unsigned reading of a signed value
UNS = {8: u8, 16: u16, 32: u32, 64: u64}
md5b = F('md5b', ASort, Int, Int, Int)       # i-th byte of the MD5 of A[0..n)
decat = F('decat', Int, ASort)               # the characters of the decimal form (offset 0)
hexarr = F('hexarr', Int, ASort)             # lower-case hexadecimal digits of a byte, two of them
catpos = F('catpos', ASort, Int, Int, Int)   # catpos(L,d,k): sum over i<k with L[i]>=0 of L[i]+d
MAXOBJ = 2 ** 40
tsum = F('tsum', ASort, Int, Int)              # sum of the first k elements
td1 = F('td1', ASort, ASort, Int, Int)        # places at which two arrays may differ
td2 = F('td2', ASort, ASort, Int, Int)
te1 = F('te1', ASort, Int, Int)
te0 = F('te0', ASort, Int, Int)


def tsumaxioms():
    """sums: definition only, loaded where needed"""
    A, B = z3.Consts('A B', ASort)
    k = z3.Int('k')
    w = E1
    return [z3.ForAll([A], tsum(A, 0) == 0, patterns=[tsum(A, 0)], qid='tsum0'),
            z3.ForAll([A, k], z3.Implies(k >= 0, tsum(A, k + 1) == tsum(A, k) + sel(A, k)), patterns=[z3.MultiPattern(tsum(A, k), w(k))], qid='tsum'),
            z3.ForAll([k], w(k) == k, patterns=[w(k)], qid='E1')]


def tsumfacts(zero=False):
    A, B = z3.Consts('A B', ASort)
    k = z3.Int('k')
    if zero:
        return [z3.ForAll([A, k], z3.Implies(k >= 0, tsumzero(A, k)), patterns=[tsum(A, k)], qid='tsumz')]
    return tsumaxioms() + [z3.ForAll([A, B, k], z3.Implies(k >= 0, tsumlemma(A, B, k)), patterns=[z3.MultiPattern(tsum(A, k), tsum(B, k))], qid='tsumd'),
                           z3.ForAll([A, k], z3.Implies(k >= 0, tsumbound(A, k)), patterns=[tsum(A, k)], qid='tsumb')]


def tsumlemma(A, B, k):
    d1, d2 = td1(A, B, k), td2(A, B, k)
    diff = lambda d: z3.And(0 <= d, d < k, sel(A, d) != sel(B, d))
    return z3.Or(tsum(A, k) == tsum(B, k), z3.And(diff(d1), z3.Or(tsum(B, k) - tsum(A, k) == sel(B, d1) - sel(A, d1), z3.And(d1 != d2, diff(d2)))))


def tsumbound(A, k):
    e = te1(A, k)
    return z3.Or(z3.And(0 <= tsum(A, k), tsum(A, k) <= k), z3.And(0 <= e, e < k, sel(A, e) != 0, sel(A, e) != 1))


def tsumzero(A, k):
    z = te0(A, k)
    return z3.Or(tsum(A, k) == 0, z3.And(0 <= z, z < k, sel(A, z) != 0))


E1 = F('E1', Int, Int)                       # marks an index at which a sum is taken apart
TSort = z3.DeclareSort('Text')               # a text: the content of A[p..p+n), whatever memory it lies in
text = F('text', ASort, Int, Int, TSort)
tr = F('tr', TSort, TSort)                   # the text without the white space around it
trl = F('trl', TSort, Int)                   # its length
cut = F('cut', TSort, Int, TSort)              # the first m characters of a text
vatoi = F('vatoi', TSort, Int)               # the value atoi gives for a string that is this text


def textaxioms(unfold):
    """texts are equal when their characters are; with unfold, what trimming is"""
    A, B = z3.Consts('A B', ASort)
    p, q, n, p2, q2, m, m2 = z3.Ints('p q n p2 q2 m m2')
    ax = [z3.ForAll([A, p, B, q, n, p2, q2, m, m2], z3.Implies(z3.And(eqn(A, p, B, q, n), p <= p2, p2 + m <= p + n, q2 - q == p2 - p, m == m2), text(A, p2, m) == text(B, q2, m2)),
                    patterns=[z3.MultiPattern(eqn(A, p, B, q, n), text(A, p2, m), text(B, q2, m2))], qid='text'),
          z3.ForAll([A, p, B, q, n, p2, m], z3.Implies(z3.And(eqn(A, p, B, q, n), p <= p2, p2 + m <= p + n), text(A, p2, m) == text(B, p2 - p + q, m)),
                    patterns=[z3.MultiPattern(eqn(A, p, B, q, n), text(A, p2, m))], qid='text2')]
    ax.append(z3.ForAll([A, p, n, m], z3.Implies(z3.And(0 <= m, m <= n), cut(text(A, p, n), m) == text(A, p, m)), patterns=[cut(text(A, p, n), m)], qid='cut'))
    if unfold:
        s = wse(A, p, p + n)
        e = rte(A, s, p + n)
        ax.append(z3.ForAll([A, p, n], z3.And(tr(text(A, p, n)) == text(A, s, e - s), trl(text(A, p, n)) == e - s), patterns=[tr(text(A, p, n)), trl(text(A, p, n))], qid='tr'))
    return ax


def space(c):
    return z3.Or(c == 32, z3.And(c >= 9, c <= 13))


def lower(c):
    return z3.If(z3.And(c >= 65, c <= 90), c + 32, c)


def alnum(c):
    return z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122))


_E = {}


def Emul(c):
    """E_c(k) = c*k, a named product so that quantifiers over array elements have a trigger"""
    if c not in _E:
        _E[c] = F('E%d' % c, Int, Int)
    return _E[c]


_AX = {}


def axioms(lem=True):
    key = (lem, frozenset(_E))
    if key not in _AX:
        _AX[key] = make_axioms(lem)
        key = (lem, frozenset(_E))
    if key not in _AX:
        _AX[key] = make_axioms(lem)
    return _AX[key]


def addall(s, fs):
    """s.add for many formulas"""
    c, x = s.ctx.ref(), s.solver
    for f in fs:
        z3.Z3_solver_assert(c, x, f.ast) if isinstance(f, z3.BoolRef) else s.add(f)


def make_axioms(lem=True):
    A, B = z3.Consts('A B', ASort)
    p, q, n, j, c, e, o, s = z3.Ints('p q n j c e o s')
    v = z3.Int('v')
    FA = z3.ForAll
    And, Or, Not, Imp = z3.And, z3.Or, z3.Not, z3.Implies
    MP = z3.MultiPattern
    ax = []

    def fa(vs, body, *pats, name=None):
        ax.append(FA(vs, body, patterns=list(pats), qid=name or ''))
    # sel/put
    fa([A, p, v], sel(put(A, p, v), p) == v, put(A, p, v), name='put1')
    fa([A, p, v, j], Or(j == p, sel(put(A, p, v), j) == sel(A, j)), sel(put(A, p, v), j), MP(put(A, p, v), sel(A, j)), name='put2')
    fa([v, j], sel(constarr(v), j) == v, sel(constarr(v), j), name='constarr')
    # slen
    fa([A, p], And(slen(A, p) >= -1, Imp(slen(A, p) >= 0, sel(A, p + slen(A, p)) == 0)), slen(A, p), name='slen1')
    fa([A, p, j], Imp(p <= j, And(Imp(sel(A, j) == 0, And(slen(A, p) >= 0, slen(A, p) <= j - p)),
                                  Imp(j < p + slen(A, p), sel(A, j) != 0))), MP(slen(A, p), sel(A, j)), name='slen2')
    # cidx: first c or 0 (only meaningful when there is one: total value -1 otherwise)
    fa([A, p, c], And(cidx(A, p, c) >= -1, Imp(cidx(A, p, c) >= 0, Or(sel(A, p + cidx(A, p, c)) == 0,
                                                                     sel(A, p + cidx(A, p, c)) == c)),
                      Imp(slen(A, p) >= 0, And(cidx(A, p, c) >= 0, cidx(A, p, c) <= slen(A, p)))),
       cidx(A, p, c), name='cidx1')
    fa([A, p, c, j], Imp(p <= j, And(Imp(Or(sel(A, j) == 0, sel(A, j) == c), And(cidx(A, p, c) >= 0, cidx(A, p, c) <= j - p)),
                                     Imp(j < p + cidx(A, p, c), And(sel(A, j) != 0, sel(A, j) != c)))),
       MP(cidx(A, p, c), sel(A, j)), name='cidx2')
    # ridx
    fa([A, p, c], And(ridx(A, p, c) >= -1, Imp(ridx(A, p, c) >= 0, And(sel(A, p + ridx(A, p, c)) == c,
                                                                      ridx(A, p, c) <= slen(A, p)))),
       ridx(A, p, c), name='ridx1')
    fa([A, p, c, j], Imp(And(p <= j, j <= p + slen(A, p), sel(A, j) == c), ridx(A, p, c) >= j - p),
       MP(ridx(A, p, c), sel(A, j)), name='ridx2')
    # wsl
    fa([A, p], And(wsl(A, p) >= -1, Imp(wsl(A, p) >= 0, Not(space(sel(A, p + wsl(A, p))))),
                   Imp(slen(A, p) >= 0, And(wsl(A, p) >= 0, wsl(A, p) <= slen(A, p)))), wsl(A, p), name='wsl1')
    fa([A, p, j], Imp(p <= j, And(Imp(Not(space(sel(A, j))), And(wsl(A, p) >= 0, wsl(A, p) <= j - p)),
                                  Imp(j < p + wsl(A, p), space(sel(A, j))))), MP(wsl(A, p), sel(A, j)), name='wsl2')
    # rte
    fa([A, p, e], Imp(p <= e, And(p <= rte(A, p, e), rte(A, p, e) <= e,
                                  Or(rte(A, p, e) == p, Not(space(sel(A, rte(A, p, e) - 1)))))), rte(A, p, e), name='rte1')
    fa([A, p, e, j], Imp(And(p <= j, j < e), And(Imp(Not(space(sel(A, j))), rte(A, p, e) >= j + 1),
                                                 Imp(j >= rte(A, p, e), space(sel(A, j))))),
       MP(rte(A, p, e), sel(A, j)), name='rte2')
    # wse
    fa([A, p, e], Imp(p <= e, And(p <= wse(A, p, e), wse(A, p, e) <= e,
                                  Or(wse(A, p, e) == e, Not(space(sel(A, wse(A, p, e))))))), wse(A, p, e), name='wse1')
    fa([A, p, e, j], Imp(And(p <= j, j < e), And(Imp(Not(space(sel(A, j))), wse(A, p, e) <= j),
                                                 Imp(j < wse(A, p, e), space(sel(A, j))))),
       MP(wse(A, p, e), sel(A, j)), name='wse2')
    # wend
    fa([A, p, e], Imp(p <= e, And(p <= wend(A, p, e), wend(A, p, e) <= e,
                                  Or(wend(A, p, e) == e, space(sel(A, wend(A, p, e)))))), wend(A, p, e), name='wend1')
    fa([A, p, e, j], Imp(And(p <= j, j < e), And(Imp(space(sel(A, j)), wend(A, p, e) <= j),
                                                 Imp(j < wend(A, p, e), Not(space(sel(A, j)))))),
       MP(wend(A, p, e), sel(A, j)), name='wend2')
    # eqn
    for (f, w, h) in ((eqn, neq, lambda x: x), (eqi, nei, lower)):
        fa([A, p, B, q, n], Imp(Not(f(A, p, B, q, n)), And(0 <= w(A, p, B, q, n), w(A, p, B, q, n) < n,
                                h(sel(A, p + w(A, p, B, q, n))) != h(sel(B, q + w(A, p, B, q, n))))),
           f(A, p, B, q, n), name='eqn1')
        fa([A, p, B, q, n, j], Imp(And(f(A, p, B, q, n), p <= j, j < p + n), h(sel(A, j)) == h(sel(B, q + (j - p)))),
           MP(f(A, p, B, q, n), sel(A, j)), name='eqn2')
        fa([A, p, B, q, n, j], Imp(And(f(A, p, B, q, n), q <= j, j < q + n), h(sel(A, p + (j - q))) == h(sel(B, j))),
           MP(f(A, p, B, q, n), sel(B, j)), name='eqn3')
    # fnd: first i in [s,e) where the string B,q occurs at i
    nn = slen(B, q)
    for fn, eqf in ((fnd, eqn), (fndi, eqi)):
        r = fn(A, B, q, s, e)
        fa([A, B, q, s, e], And(r >= -1, Imp(r >= 0, And(s <= r, r < e, eqf(A, r, B, q, nn)))), r, name='fnd1')
        fa([A, B, q, s, e, j], Imp(And(s <= j, j < e, eqf(A, j, B, q, nn)), And(r >= 0, r <= j)),
           MP(r, eqf(A, j, B, q, nn)), name='fnd2')
    # objects
    fa([o], And(osize(o) >= 0, osize(o) <= MAXOBJ), osize(o), name='osize')
    ax.append(osize(0) == 0)
    # decimal forms
    fa([n], And(declen(n) >= 1, declen(n) <= 20, Imp(And(n >= -2 ** 31, n < 2 ** 31), declen(n) <= 11),
                Imp(And(n >= 0, n < 2 ** 32), declen(n) <= 10)), declen(n), name='declen')
    fa([n, j], Imp(And(0 <= j, j < declen(n)), Or(And(sel(decat(n), j) >= 48, sel(decat(n), j) <= 57),
                                                  And(j == 0, sel(decat(n), j) == 45))), sel(decat(n), j), name='decat')
    fa([n, j], Imp(And(0 <= j, j < 2), Or(And(sel(hexarr(n), j) >= 48, sel(hexarr(n), j) <= 57),
                                          And(sel(hexarr(n), j) >= 97, sel(hexarr(n), j) <= 102))), sel(hexarr(n), j), name='hexarr')
    E8 = Emul(8)
    fa([A, n, j], Imp(j >= 0, catpos(A, n, j + 1) == catpos(A, n, j) + z3.If(sel(A, j) >= 0, sel(A, j) + n, 0)),
       MP(catpos(A, n, j), E8(j)), MP(catpos(A, n, j), Emul(4)(j)), name='catpos')
    fa([A, n], catpos(A, n, 0) == 0, MP(catpos(A, n, 0)), name='catpos0')
    for b, f in UNS.items():
        fa([n], f(n) == z3.If(n < 0, n + 2 ** b, n), f(n), name='u%d' % b)
    fa([A, n, j], And(md5b(A, n, j) >= 0, md5b(A, n, j) < 256), md5b(A, n, j), name='md5b')
    # band with constant masks used as flags
    fa([n, c], Imp(c >= 0, And(band(n, c) >= 0, band(n, c) <= c)), band(n, c), name='band')
    for cc in sorted(_E):
        f = _E[cc]
        fa([j], f(j) == cc * j, f(j), name='E%d' % cc)
    if lem:
        for nm, vs, body, pats, *_ in lemmas():
            fa(vs, body, *pats, name='L' + nm)
    return ax


def lemmas():
    """consequences of the axioms, each proved by wvc/lemmas.py on every run: (name, variables, body, patterns)"""
    A, B = z3.Consts('A B', ASort)
    p, q, n, j, c, e, t, t2, e2 = z3.Ints('p q n j c e t t2 e2')
    MP, And, Imp, If = z3.MultiPattern, z3.And, z3.Implies, z3.If
    mn = lambda x, y: If(x < y, x, y)
    out = []
    out.append(('rte of equal text', [A, p, B, q, n, t, e, t2, e2], Imp(And(eqn(B, q, A, p, n), q <= t, t <= e, e <= q + n, t2 == t - q + p, e2 == e - q + p),
                rte(B, t, e) - q == rte(A, t2, e2) - p), [MP(eqn(B, q, A, p, n), rte(B, t, e), rte(A, t2, e2))]))
    out.append(('wsl of equal text', [A, p, B, q, n], Imp(And(eqn(B, q, A, p, n), n >= 0, wsl(B, q) >= 0, wsl(A, p) >= 0), mn(wsl(B, q), n) == mn(wsl(A, p), n)),
                [MP(eqn(B, q, A, p, n), wsl(B, q), wsl(A, p))]))
    out.append(('wse of equal text', [A, p, B, q, n, e], Imp(And(eqn(B, q, A, p, n), 0 <= slen(B, q), slen(B, q) <= n, e == p + slen(B, q)), wse(A, p, e) - p == wsl(B, q)),
                [MP(eqn(B, q, A, p, n), wsl(B, q), wse(A, p, e))]))
    # by induction on k (marked with the induction variable)
    k = z3.Int('k')
    out.append(('cat positive', [A, n, k], Imp(And(k >= 0, n >= 0), catpos(A, n, k) >= 0), [catpos(A, n, k)], k))
    out.append(('cat bound', [A, n, k], Imp(And(k >= 0, n >= 0), And(0 <= catpos(A, 0, k), catpos(A, 0, k) <= catpos(A, n, k), catpos(A, n, k) <= catpos(A, 0, k) + k * n)),
                [MP(catpos(A, n, k), catpos(A, 0, k))], k))
    return out


def optional_lemmas():
    """the same, loaded only where they are needed"""
    A, B = z3.Consts('A B', ASort)
    n, j, k = z3.Ints('n j k')
    return [('cat of equal arrays', [A, B, n, k], z3.Implies(k >= 0, z3.Or(catpos(A, n, k) == catpos(B, n, k), z3.Not(eqn(A, 0, B, 0, k)))),
             [z3.MultiPattern(catpos(A, n, k), catpos(B, n, k))], k),
            ('cat grows', [A, n, j, k], z3.Implies(z3.And(0 <= j, j <= k, n >= 0), catpos(A, n, j) <= catpos(A, n, k)), [z3.MultiPattern(catpos(A, n, j), catpos(A, n, k))], k)]


RATE = 2000


def limit(s, ms):
    """bound a query by solver steps, worth about ms milliseconds, so that the answer does not depend on the load of the machine"""
    s.set('rlimit', int(ms * RATE))
    s.set('timeout', int(ms * 10))


def gaveup(reason):
    return 'timeout' in reason or 'cancel' in reason or 'resource' in reason
