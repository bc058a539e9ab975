"""Assumed contracts of the C library, OpenSSL and pthread functions the program calls.

Everything in this file is trusted: it states what the manual pages state, and the preconditions stated here become
obligations of the callers.
"""
import z3
from . import theory as T
from .val import *
from .val import Ptr, NULL, UNDEF
from .engine import KINDS, View, Arr, PArr, Unsupported, PI, strip0, stripptr

LIBC = {}


def lib(*names):
    def d(f):
        for n in names:
            LIBC[n] = f
        return f
    return d


def V(ex, st):
    return View(ex, st)


def argstr(ex, st, p, fn, what='argument'):
    """p must be a string; returns (pointer, array expression, length)"""
    v = V(ex, st)
    ok = v.isstr(p)
    ex.prove(st, ok, '%s: %s is a terminated string' % (fn, what), ex.safety, 'memory')
    p = stripptr(p)
    n = v.slen(p)
    if not isinstance(n, int):
        ex.lockcheck(st, p.o, 'read')
    return p, ex.named(st, ex.rd(st, '8', p.o)), n


def argbuf(ex, st, p, n, fn, what='buffer', write=True):
    if isinstance(n, int) and n == 0:
        return stripptr(p)
    w = '%s: %s is valid memory' % (fn, what)
    if isinstance(n, int):
        (ex.wcheck if write else ex.valid)(st, p, n, w)
    else:
        s2 = st
        ok = And(ne0(p.o), ex.rdlive(st, strip0(p.o)), ge(p.f, 0), le(add(p.f, n), ex.size(strip0(p.o))))
        ex.prove(s2, Or(eq(n, 0), ok), w, ex.safety, 'memory')
        if write:
            ex.wperm(st, stripptr(p), w)
    return stripptr(p)


def ne0(o):
    return Not(eq(o, 0))


def isnull(p):
    return eq(p.o, 0)


def size_arg(ex, st, n, fn):
    if isinstance(n, PI):
        n = n.num()
    if isinstance(n, int):
        if n < 0:
            ex.prove(st, False, '%s: size is not negative' % fn, ex.safety, 'memory')
        return n
    r = ex.rng.get(n)
    if r[0] < 0:
        ex.prove(st, ge(n, 0), '%s: size is not negative' % fn, ex.safety, 'memory')
    return n


def nooverlap(ex, st, d, nd, s, ns, fn):
    if ex.distinct(d.o, s.o):
        return
    c = Or(Not(eq(d.o, s.o)), le(add(d.f, nd), s.f), le(add(s.f, ns), d.f), eq(nd, 0), eq(ns, 0))
    ex.prove(st, c, '%s: source and target do not overlap' % fn, ex.safety, 'memory')


# ------------------------------------------------------------------ memory
def zero_arrays(ex, st, o, n):
    for k in KINDS:
        if k == 'P':
            a = PArr(Arr(zeroarr(ex)), Arr(zeroarr(ex)))
            ex._arrage[a.o.base.get_id()] = (a.o.base, 0)
        else:
            a = Arr(zeroarr(ex))
        ex.setarr(st, k, o, a)


def zeroarr(ex):
    a = ex.farr('zero')
    j = z3.Int('?j')
    ex.fact(z3.ForAll([j], T.sel(a, j) == 0, patterns=[T.sel(a, j)], qid='zero'))
    ex.fact(T.sel(a, z3.IntVal(0)) == 0)
    ex.fact(T.slen(a, z3.IntVal(0)) == 0)
    return a


@lib('malloc')
def malloc(ex, st, a, ins):
    n = size_arg(ex, st, a[0], 'malloc')
    return Ptr(ex.newobj(st, n, True, 'malloc'), 0)


@lib('calloc')
def calloc(ex, st, a, ins):
    x, y = size_arg(ex, st, a[0], 'calloc'), size_arg(ex, st, a[1], 'calloc')
    o = ex.newobj(st, mul(x, y), True, 'calloc', init=False)
    zero_arrays(ex, st, o, None)
    return Ptr(o, 0)


@lib('free')
def free(ex, st, a, ins):
    p = a[0]
    nul = isnull(p)
    if nul is True:
        return None
    o = strip0(p.o)
    ok = And(ex.rdlive(st, o), eq(p.f, 0), T.oheap(I(o)), eq(o, p.o))
    if isinstance(o, int):
        ok = False
    ex.prove(st, Or(nul, ok), 'free: releases a live heap block at its start', ex.safety, 'memory')
    if isinstance(o, int):
        return None
    ex.framecheck(st, 'V', o, None, None, nul)
    ex.lockcheck(st, o, 'write')
    ex.setlive(st, o, If(nul, ex.rdlive(st, o), False))
    return None


@lib('realloc')
def realloc(ex, st, a, ins):
    p, n = a[0], size_arg(ex, st, a[1], 'realloc')
    nul = isnull(p)
    o = strip0(p.o)
    new = ex.newobj(st, n, True, 'realloc')
    if nul is not True:
        for k in KINDS:
            src = ex.rd(st, k, o)
            dst = ex.rd(st, k, new)
            m = If(lt(ex.size(o), n), ex.size(o), n)
            s2 = st.copy()
            s2.pc = And(st.pc, Not(nul))
            if k == 'P':
                ex.assume(st, Imp(Not(nul), T.eqn(dst.o.expr(), z3.IntVal(0), ex.named(st, src.o), z3.IntVal(0), I(m))))
                ex.assume(st, Imp(Not(nul), T.eqn(dst.f.expr(), z3.IntVal(0), ex.named(st, src.f), z3.IntVal(0), I(m))))
            else:
                ex.assume(st, Imp(Not(nul), T.eqn(dst.expr(), z3.IntVal(0), ex.named(st, src), z3.IntVal(0), I(m))))
        free(ex, st, [p], ins)
    return Ptr(new, 0)


def copy(ex, st, d, s, n, ins, fn, move):
    s = argbuf(ex, st, s, n, fn, 'source', write=False)
    d = argbuf(ex, st, d, n, fn, 'target')
    if not move:
        nooverlap(ex, st, d, n, s, n, fn)
    # memory is typed: bytes that belong to a string are only ever read as characters
    sl = V(ex, st).slen(s)
    kinds = ('8',) if not isinstance(n, int) and (same(n, sl) or same(n, add(sl, 1))) else KINDS
    for k in kinds:
        src = ex.rd(st, k, s.o)
        if k == 'P':
            so, sf = ex.named(st, src.o), ex.named(st, src.f)
        else:
            se = ex.named(st, src)
        old, new = ex.region(st, k, d.o, d.f, add(d.f, n), 'cp')
        if k == 'P':
            ex.copyfacts(st, new.o.expr(), d.f, so, s.f, n)
            ex.copyfacts(st, new.f.expr(), d.f, sf, s.f, n)
        else:
            ex.copyfacts(st, new.expr(), d.f, se, s.f, n)
            if k == '8' and not isinstance(n, int):
                # what stands behind the copy decides whether it is a string
                e = I(add(d.f, n))
                ex.assume(st, T.sel(new.expr(), e) == T.sel(ex.named(st, old), e))
    return d


@lib('memcpy')
def memcpy(ex, st, a, ins):
    n = size_arg(ex, st, a[2], 'memcpy')
    copy(ex, st, a[0], a[1], n, ins, 'memcpy', False)
    return a[0]


@lib('memmove')
def memmove(ex, st, a, ins):
    n = size_arg(ex, st, a[2], 'memmove')
    copy(ex, st, a[0], a[1], n, ins, 'memmove', True)
    return a[0]


@lib('memset')
def memset(ex, st, a, ins):
    n = size_arg(ex, st, a[2], 'memset')
    d = argbuf(ex, st, a[0], n, 'memset')
    if n == 0 and isinstance(n, int):
        return a[0]
    c = ex.wrap(a[1], 8)
    j = z3.Int('?j')
    whole = same(d.f, 0) and same(n, ex.size(d.o)) and c == 0 and isinstance(c, int)
    for k in KINDS:
        if whole:
            ex.framecheck(st, k, d.o, 0, n)
            continue
        old, new = ex.region(st, k, d.o, d.f, add(d.f, n), 'ms')
        es = [new.o.expr(), new.f.expr()] if k == 'P' else [new.expr()]
        for e in es:
            if k == '8':
                val = I(c)
            elif isinstance(c, int) and c == 0:
                val = z3.IntVal(0)
            else:
                continue
            ex.assume(st, z3.ForAll([j], z3.Implies(z3.And(I(d.f) <= j, j < I(add(d.f, n))), T.sel(e, j) == val),
                                    patterns=[T.sel(e, j)], qid='memset'))
            if k == '8':
                ex.assume(st, Imp(gt(n, 0), T.sel(e, I(d.f)) == val))
    if whole:
        zero_arrays(ex, st, d.o, n)
    return a[0]


@lib('memcmp')
def memcmp(ex, st, a, ins):
    n = size_arg(ex, st, a[2], 'memcmp')
    p = argbuf(ex, st, a[0], n, 'memcmp', write=False)
    q = argbuf(ex, st, a[1], n, 'memcmp', write=False)
    r = ex.fint('memcmp', -2 ** 31, 2 ** 31 - 1)
    A, B_ = ex.named(st, ex.rd(st, '8', p.o)), ex.named(st, ex.rd(st, '8', q.o))
    ex.assume(st, (r == 0) == T.eqn(A, I(p.f), B_, I(q.f), I(n)))
    return r


@lib('memchr')
def memchr(ex, st, a, ins):
    n = size_arg(ex, st, a[2], 'memchr')
    p = argbuf(ex, st, a[0], n, 'memchr', write=False)
    A = ex.named(st, ex.rd(st, '8', p.o))
    c = ex.wrap(a[1], 8)
    k = ex.fint('memchr', -1, 2 ** 40)
    j = z3.Int('?j')
    ex.assume(st, z3.And(k < I(n), z3.Implies(k >= 0, T.sel(A, I(p.f) + k) == I(c))))
    ex.assume(st, z3.ForAll([j], z3.Implies(z3.And(I(p.f) <= j, j < I(p.f) + z3.If(k >= 0, k, I(n))), T.sel(A, j) != I(c)),
                            patterns=[T.sel(A, j)]))
    return Ptr(If(k >= 0, p.o, 0), If(k >= 0, add(p.f, k), 0))


# ------------------------------------------------------------------ strings
@lib('strlen')
def strlen(ex, st, a, ins):
    p, A, n = argstr(ex, st, a[0], 'strlen')
    return n


@lib('strnlen')
def strnlen(ex, st, a, ins):
    p, A, n = argstr(ex, st, a[0], 'strnlen')
    return If(lt(n, ex.uns(a[1], 64)), n, a[1])


def put_text(ex, st, d, A, s, n):
    """write A[s..s+n) and a terminator at d"""
    old, new = ex.region(st, '8', d.o, d.f, add(add(d.f, n), 1), 'st')
    e = new.expr()
    ex.copyfacts(st, e, d.f, A, s, n)
    ex.assume(st, T.sel(e, I(add(d.f, n))) == 0)
    return e


@lib('strcpy', 'stpcpy')
def strcpy(ex, st, a, ins, name='strcpy'):
    s, A, n = argstr(ex, st, a[1], name, 'source')
    d = argbuf(ex, st, a[0], add(n, 1), name, 'target')
    nooverlap(ex, st, d, add(n, 1), s, add(n, 1), name)
    e = put_text(ex, st, d, A, s.f, n)
    ex.assume(st, T.slen(e, I(d.f)) == I(n))
    return a[0]


@lib('strncpy')
def strncpy(ex, st, a, ins):
    n = size_arg(ex, st, a[2], 'strncpy')
    s = a[1]
    v = V(ex, st)
    so = strip0(s.o)
    ok = Or(v.isstr(s), And(ne0(s.o), v.live(so), ge(s.f, 0), le(add(s.f, n), ex.size(so))))
    ex.prove(st, ok, 'strncpy: source is readable', ex.safety, 'memory')
    s = stripptr(s)
    A = ex.named(st, ex.rd(st, '8', s.o))
    L = v.slen(s)
    d = argbuf(ex, st, a[0], n, 'strncpy', 'target')
    nooverlap(ex, st, d, n, s, n, 'strncpy')
    shorter = And(ge(L, 0), lt(L, n))
    m = If(shorter, L, n)
    old, new = ex.region(st, '8', d.o, d.f, add(d.f, n), 'sn')
    e = new.expr()
    ex.copyfacts(st, e, d.f, A, s.f, m)
    j = z3.Int('?j')
    ex.assume(st, z3.ForAll([j], z3.Implies(z3.And(I(add(d.f, m)) <= j, j < I(add(d.f, n))), T.sel(e, j) == 0),
                            patterns=[T.sel(e, j)], qid='strncpy0'))
    ex.assume(st, Imp(shorter, z3.And(T.sel(e, I(add(d.f, L))) == 0, T.slen(e, I(d.f)) == I(L))))
    # what stands behind the copy decides whether it is a string
    end = I(add(d.f, n))
    ex.assume(st, Imp(Not(shorter), z3.And(T.sel(e, end) == T.sel(ex.named(st, old), end), Imp(T.sel(ex.named(st, old), end) == 0, T.slen(e, I(d.f)) == I(n)))))
    return a[0]


@lib('strcat')
def strcat(ex, st, a, ins):
    d, D, m = argstr(ex, st, a[0], 'strcat', 'target')
    s, A, n = argstr(ex, st, a[1], 'strcat', 'source')
    end = Ptr(d.o, add(d.f, m))
    argbuf(ex, st, end, add(n, 1), 'strcat', 'target')
    nooverlap(ex, st, end, add(n, 1), s, add(n, 1), 'strcat')
    e = put_text(ex, st, end, A, s.f, n)
    ex.assume(st, T.slen(e, I(d.f)) == I(add(m, n)))
    ex.assume(st, T.eqn(e, I(d.f), D, I(d.f), I(m)))
    return a[0]


@lib('strncat')
def strncat(ex, st, a, ins):
    d, D, m = argstr(ex, st, a[0], 'strncat', 'target')
    s, A, n = argstr(ex, st, a[1], 'strncat', 'source')
    k = size_arg(ex, st, a[2], 'strncat')
    n = If(lt(n, k), n, k)
    end = Ptr(d.o, add(d.f, m))
    argbuf(ex, st, end, add(n, 1), 'strncat', 'target')
    nooverlap(ex, st, end, add(n, 1), s, n, 'strncat')
    e = put_text(ex, st, end, A, s.f, n)
    ex.assume(st, T.slen(e, I(d.f)) == I(add(m, n)))
    ex.assume(st, T.eqn(e, I(d.f), D, I(d.f), I(m)))
    return a[0]


def newstr(ex, st, A, s, n, name='str'):
    """a fresh heap string with the n characters A[s..]"""
    o = ex.newobj(st, add(n, 1), True, name)
    e = ex.rd(st, '8', o).expr()
    ex.copyfacts(st, e, 0, A, s, n)
    ex.assume(st, z3.And(T.sel(e, I(n)) == 0, T.slen(e, z3.IntVal(0)) == I(n)))
    return Ptr(o, 0)


@lib('strdup')
def strdup(ex, st, a, ins):
    s, A, n = argstr(ex, st, a[0], 'strdup')
    return newstr(ex, st, A, s.f, n, 'strdup')


@lib('strndup')
def strndup(ex, st, a, ins):
    s, A, n = argstr(ex, st, a[0], 'strndup')
    k = size_arg(ex, st, a[1], 'strndup')
    return newstr(ex, st, A, s.f, If(lt(n, k), n, k), 'strndup')


def chars(ex, p):
    lit = ex.literal(p)
    if lit is None or b'\0' not in lit:
        return None
    return lit[:lit.index(b'\0')]


def sc(c):
    return c if c < 128 else c - 256


def streq(ex, st, a, b, fn, fold=False, n=None):
    """condition under which strings a and b compare equal (in the first n characters)"""
    la, lb = chars(ex, a), chars(ex, b)
    v = V(ex, st)
    if la is not None and lb is None:
        a, b, la, lb = b, a, lb, la
    h = (lambda x: T.lower(x)) if fold else (lambda x: x)

    def low(x):
        return x + 32 if fold and 65 <= x <= 90 else sc(x)
    if lb is not None and (n is None or isinstance(n, int)):
        k = len(lb) if n is None else min(len(lb), n)
        full = n is None or n > len(lb)
        p, A, m = argstr(ex, st, a, fn) if la is None else (a, None, len(la))
        if la is not None:
            x = la if n is None else la[:n]
            y = lb if n is None else lb[:n]
            return (x.lower() == y.lower()) if fold else x == y
        arr = ex.rd(st, '8', p.o)
        cs = [eq(h(I(arr.get(add(p.f, i)))), low(c)) for i, c in enumerate(lb[:k])]
        if full:
            cs.append(eq(arr.get(add(p.f, k)), 0))
        c = And(*cs)
        if full:
            ex.assume(st, Imp(c, eq(m, k)))
        else:
            ex.assume(st, Imp(c, ge(m, k)))
        return c
    p, A, x = argstr(ex, st, a, fn)
    q, B_, y = argstr(ex, st, b, fn)
    f = T.eqi if fold else T.eqn
    if n is None:
        return And(eq(x, y), f(A, I(p.f), B_, I(q.f), I(x)))
    n = size_arg(ex, st, n, fn)
    return Or(And(le(n, x), le(n, y), f(A, I(p.f), B_, I(q.f), I(n))),
              And(eq(x, y), lt(x, n), f(A, I(p.f), B_, I(q.f), I(x))))


def cmpres(ex, st, c, name):
    r = ex.fint(name, -2 ** 31, 2 ** 31 - 1)
    ex.assume(st, Iff(r == 0, c))
    return z3.If(B(c), z3.IntVal(0), ex.nz(st)) if False else r


@lib('strcmp')
def strcmp(ex, st, a, ins):
    return cmpres(ex, st, streq(ex, st, a[0], a[1], 'strcmp'), 'strcmp')


@lib('strncmp')
def strncmp(ex, st, a, ins):
    return cmpres(ex, st, streq(ex, st, a[0], a[1], 'strncmp', n=a[2]), 'strncmp')


@lib('strcasecmp')
def strcasecmp(ex, st, a, ins):
    return cmpres(ex, st, streq(ex, st, a[0], a[1], 'strcasecmp', True), 'strcasecmp')


@lib('strncasecmp')
def strncasecmp(ex, st, a, ins):
    return cmpres(ex, st, streq(ex, st, a[0], a[1], 'strncasecmp', True, n=a[2]), 'strncasecmp')


@lib('strchr')
def strchr(ex, st, a, ins):
    p, A, n = argstr(ex, st, a[0], 'strchr')
    c = ex.wrap(a[1], 8)
    k = T.cidx(A, I(p.f), I(c))
    ex.rng.set(k, -1, 2 ** 40)
    f = T.sel(A, I(p.f) + k) == I(c)
    ex.assume(st, z3.And(k >= 0, k <= I(n)))
    return Ptr(If(f, p.o, 0), If(f, add(p.f, k), 0))


@lib('strrchr')
def strrchr(ex, st, a, ins):
    p, A, n = argstr(ex, st, a[0], 'strrchr')
    c = ex.wrap(a[1], 8)
    k = T.ridx(A, I(p.f), I(c))
    ex.rng.set(k, -1, 2 ** 40)
    ex.assume(st, k <= I(n))
    f = k >= 0
    return Ptr(If(f, p.o, 0), If(f, add(p.f, k), 0))


@lib('strstr')
def strstr(ex, st, a, ins):
    p, A, n = argstr(ex, st, a[0], 'strstr', 'haystack')
    lit = chars(ex, a[1])
    if lit is not None and len(lit) == 1:
        return LIBC['strchr'](ex, st, [a[0], lit[0]], ins)
    q, B_, m = argstr(ex, st, a[1], 'strstr', 'needle')
    k = T.fnd(A, B_, I(q.f), I(p.f), I(add(add(p.f, n), 1)))
    ex.rng.set(k, -1, 2 ** 41)
    f = k >= 0
    ex.assume(st, Imp(f, And(ge(k, p.f), le(add(k, m), add(p.f, n)))))
    if lit is not None and len(lit) == 2:
        # what it means for a needle of two characters
        x = z3.Int('?x')
        here = lambda i: And(*[eq(T.sel(A, I(add(i, d))), sc(ch)) for d, ch in enumerate(lit)])
        ex.assume(st, Imp(f, here(k)))
        ex.assume(st, z3.ForAll([x], z3.Implies(z3.And(I(p.f) <= x, x < I(If(f, k, add(p.f, n)))), z3.Not(B(here(x)))), patterns=[T.sel(A, x)]))
    return Ptr(If(f, p.o, 0), If(f, k, 0))


@lib('strcasestr')
def strcasestr(ex, st, a, ins):
    p, A, n = argstr(ex, st, a[0], 'strcasestr', 'haystack')
    q, B_, m = argstr(ex, st, a[1], 'strcasestr', 'needle')
    k = T.fndi(A, B_, I(q.f), I(p.f), I(add(add(p.f, n), 1)))
    ex.rng.set(k, -1, 2 ** 41)
    f = k >= 0
    ex.assume(st, Imp(f, And(ge(k, p.f), le(add(k, m), add(p.f, n)))))
    return Ptr(If(f, p.o, 0), If(f, k, 0))


class CharSet:
    """a set of characters given as a string: membership, spans and tokens as mathematical functions"""

    def __init__(self, ex, st, p, fn='set', cs=None):
        cs = chars(ex, p) if cs is None else cs
        self.cs = cs
        if cs is not None:
            self.key = 'set_' + bytes(sorted(set(cs))).hex()
            self.extra = ()
        else:
            q, B_, m = argstr(ex, st, p, fn, 'set of characters')
            self.key = 'set'
            self.extra = (B_, I(q.f))
        xs = [T.ASort, z3.IntSort()] if self.extra else []
        I_ = z3.IntSort()
        self.fspn = z3.Function('spn_' + self.key, *(xs + [T.ASort, I_, I_]))
        self.fcsp = z3.Function('csp_' + self.key, *(xs + [T.ASort, I_, I_]))
        self.frest = z3.Function('rest_' + self.key, *(xs + [T.ASort, I_, I_, I_]))
        if self.key not in ex._defs:
            ex._defs[self.key] = True
            ax = self.axioms()
            ex.facts0 += ax
            for nm, vs, body, pats in self.lemmas():
                ex.lemma('%s of %s' % (nm, self.key), vs, body, pats, ax)

    def member(self, x, extra=None):
        if self.cs is not None:
            return z3.Or(*[x == sc(c) for c in sorted(set(self.cs))]) if self.cs else z3.BoolVal(False)
        D, d = extra or self.extra
        return z3.And(x != 0, T.sel(D, d + T.cidx(D, d, x)) == x)

    def axioms(self):
        A, D = z3.Consts('A D', T.ASort)
        p, d, j, k = z3.Ints('p d j k')
        xs = [] if self.cs is not None else [D, d]
        spn, csp, rest = self.fspn(*(xs + [A, p])), self.fcsp(*(xs + [A, p])), self.frest(*(xs + [A, p, k]))
        mem = lambda x: self.member(x, (D, d))
        vs = xs + [A, p]
        n = T.slen(A, p)
        ax = []

        def fa(v, body, *pats):
            ax.append(z3.ForAll(v, body, patterns=list(pats), qid='charset'))
        MP = z3.MultiPattern
        s = T.sel
        for f, inside in ((spn, True), (csp, False)):
            test = mem if inside else (lambda x: z3.Not(mem(x)))
            fa(vs, z3.And(f >= -1, z3.Implies(n >= 0, z3.And(f >= 0, f <= n)), z3.Implies(f >= 0, z3.Or(s(A, p + f) == 0, z3.Not(test(s(A, p + f)))))), f)
            fa(vs + [j], z3.Implies(z3.And(p <= j, j < p + f), z3.And(s(A, j) != 0, test(s(A, j)))), MP(f, s(A, j)))
            fa(vs + [j], z3.Implies(z3.And(p <= j, z3.Or(s(A, j) == 0, z3.Not(test(s(A, j))))), z3.And(f >= 0, f <= j - p)), MP(f, s(A, j)))
        E8 = T.Emul(8)
        r0 = self.frest(*(xs + [A, p, z3.IntVal(0)]))
        fa(vs, r0 == p, r0)
        ts = rest + self.fspn(*(xs + [A, rest]))
        te = ts + self.fcsp(*(xs + [A, ts]))
        fa(vs + [k], z3.Implies(k >= 0, self.frest(*(xs + [A, p, k + 1])) == te + z3.If(s(A, te) != 0, 1, 0)), MP(rest, E8(k)))
        return ax

    def lemmas(self):
        A, B_, D = z3.Consts('A B D', T.ASort)
        p, q, n, d, t, t2 = z3.Ints('p q n d t t2')
        xs = [] if self.cs is not None else [D, d]
        out = []
        for nm, f in (('span', self.fspn), ('other span', self.fcsp)):
            x, y = f(*(xs + [B_, t])), f(*(xs + [A, t2]))
            out.append((nm + ' of equal text', xs + [A, p, B_, q, n, t, t2], z3.Implies(z3.And(T.eqn(B_, q, A, p, n), q <= t, t2 == t - q + p, z3.Or(
                z3.And(x >= 0, t + x < q + n), z3.And(y >= 0, t2 + y < p + n))), x == y), [z3.MultiPattern(T.eqn(B_, q, A, p, n), x, y)]))
        return out

    def spn(self, A, p):
        return self.fspn(*(self.extra + (A, I(p))))

    def csp(self, A, p):
        if self.cs is not None and len(set(self.cs)) == 1 and False:
            return T.cidx(A, I(p), z3.IntVal(sc(self.cs[0])))
        return self.fcsp(*(self.extra + (A, I(p))))

    def rest(self, A, p, k):
        """offset where the search for token k of the string at p starts"""
        return self.frest(*(self.extra + (A, I(p), I(k))))

    def start(self, A, p, k):
        r = self.rest(A, p, k)
        return r + self.spn(A, r)

    def unfold(self, ex, A, p, k):
        """the definition of rest at k + 1, as a fact"""
        p, k = I(p), I(k)
        ts = self.start(A, p, k)
        te = ts + self.csp(A, ts)
        if z3.is_int_value(k) and k.as_long() == 0:
            ex.fact(self.rest(A, p, 0) == p)
        ex.fact(z3.Implies(k >= 0, self.rest(A, p, k + 1 if not z3.is_int_value(k) else z3.IntVal(k.as_long() + 1)) == te + z3.If(T.sel(A, te) != 0, z3.IntVal(1), z3.IntVal(0))))

    def toklen(self, A, p, k):
        return self.csp(A, self.start(A, p, k))


@lib('strcspn')
def strcspn(ex, st, a, ins):
    p, A, n = argstr(ex, st, a[0], 'strcspn')
    cs = chars(ex, a[1])
    if cs is not None and len(cs) == 1:
        k = T.cidx(A, I(p.f), z3.IntVal(sc(cs[0])))
        ex.rng.set(k, -1, 2 ** 40)
        ex.assume(st, z3.And(k >= 0, k <= I(n)))
        return k
    k = CharSet(ex, st, a[1], 'strcspn').csp(A, p.f)
    ex.assume(st, z3.And(k >= 0, k <= I(n)))
    return k


@lib('strspn')
def strspn(ex, st, a, ins):
    p, A, n = argstr(ex, st, a[0], 'strspn')
    k = CharSet(ex, st, a[1], 'strspn').spn(A, p.f)
    ex.assume(st, z3.And(k >= 0, k <= I(n)))
    return k


@lib('strpbrk')
def strpbrk(ex, st, a, ins):
    p, A, n = argstr(ex, st, a[0], 'strpbrk')
    k = CharSet(ex, st, a[1], 'strpbrk').csp(A, p.f)
    ex.assume(st, z3.And(k >= 0, k <= I(n)))
    f = lt(k, n)
    return Ptr(If(f, p.o, 0), If(f, add(p.f, k), 0))


def tokenize(ex, st, p, delim, fn):
    """one strtok step from string pointer p (not null): (token or NULL, new save pointer)"""
    p, A, n = argstr(ex, st, p, fn)
    cset = CharSet(ex, st, delim, fn)
    k = cset.spn(A, p.f)
    m = cset.csp(A, add(p.f, k))
    for x in (k, m):
        ex.rng.set(x, -1, 2 ** 40)
    ex.assume(st, z3.And(k >= 0, k <= I(n), m >= 0, I(add(k, m)) <= I(n)))
    ex.assume(st, T.slen(A, I(add(p.f, k))) == I(sub(n, k)))
    none = eq(T.sel(A, I(add(p.f, k))), 0)
    ex.assume(st, none == (I(k) == I(n)))
    e = add(add(p.f, k), m)
    atend = eq(T.sel(A, I(e)), 0)
    ex.assume(st, atend == (I(add(k, m)) == I(n)))
    # terminate the token
    ex.wperm(st, p, fn)
    old, new = ex.region(st, '8', p.o, add(p.f, k), add(e, 1), 'tok')
    ne = new.expr()
    ex.assume(st, T.eqn(ne, I(add(p.f, k)), A, I(add(p.f, k)), I(m)))
    ex.assume(st, T.sel(ne, I(e)) == 0)
    ex.assume(st, Imp(Not(none), T.slen(ne, I(add(p.f, k))) == I(m)))
    sv = add(e, If(atend, 0, 1))
    # the rest of the string is still a string
    ex.assume(st, T.slen(ne, I(sv)) == I(sub(add(p.f, n), sv)))
    return Ptr(If(none, 0, p.o), If(none, 0, add(p.f, k))), Ptr(p.o, sv)


@lib('strtok_r')
def strtok_r(ex, st, a, ins):
    p, d, sp = a
    argbuf(ex, st, sp, 8, 'strtok_r', 'save pointer')
    sp = stripptr(sp)
    if isnull(p) is True:
        p = ex.rd(st, 'P', sp.o).get(sp.f)
        ex.bound_ptr(st, p)
    elif isnull(p) is not False:
        ex.prove(st, ne0(p.o), 'strtok_r: string is not null', ex.safety, 'memory')
    r, sv = tokenize(ex, st, p, d, 'strtok_r')
    ex.framecheck(st, 'P', sp.o, sp.f, add(sp.f, 8))
    ex.setarr(st, 'P', sp.o, ex.rd(st, 'P', sp.o).put(sp.f, sv))
    return r


@lib('strtok')
def strtok(ex, st, a, ins):
    p, d = a
    if isnull(p) is True:
        p = Ptr(st.g['tok.o'], st.g['tok.f'])
        if z3.is_expr(p.o) and p.o.get_id() not in ex.born:
            ex.bnd[p.o.get_id()] = (p.o, st.age)
    elif isnull(p) is not False:
        ex.prove(st, ne0(p.o), 'strtok: string is not null', ex.safety, 'memory')
    r, sv = tokenize(ex, st, p, d, 'strtok')
    st.g['tok.o'], st.g['tok.f'] = I(sv.o), I(sv.f)
    return r


# ------------------------------------------------------------------ characters and numbers
def pred(name, f):
    def h(ex, st, a, ins):
        c = a[0]
        r = ex.rng.get(c)
        if r[0] < -128 or r[1] > 255:
            ex.prove(st, And(ge(c, -128), le(c, 255)), '%s: argument is a character' % name, ex.safety, 'memory')
        r = ex.fint(name, -2 ** 31, 2 ** 31 - 1)
        ex.assume(st, (r != 0) == f(I(c)))
        return r
    LIBC[name] = h


pred('isspace', lambda c: T.space(c))
pred('isalnum', lambda c: T.alnum(c))
pred('isdigit', lambda c: z3.And(c >= 48, c <= 57))
pred('isalpha', lambda c: z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122)))
pred('isupper', lambda c: z3.And(c >= 65, c <= 90))
pred('islower', lambda c: z3.And(c >= 97, c <= 122))


@lib('tolower')
def tolower(ex, st, a, ins):
    return If(And(ge(a[0], 65), le(a[0], 90)), add(a[0], 32), a[0])


@lib('toupper')
def toupper(ex, st, a, ins):
    return If(And(ge(a[0], 97), le(a[0], 122)), sub(a[0], 32), a[0])


@lib('atoi')
def atoi(ex, st, a, ins):
    p, A, n = argstr(ex, st, a[0], 'atoi')
    r = T.atoi(A, I(p.f))
    ex.assume(st, z3.And(r >= -2 ** 31, r < 2 ** 31, r == T.vatoi(T.text(A, I(p.f), I(n)))))
    ex.rng.set(r, -2 ** 31, 2 ** 31 - 1)
    return r


@lib('atol', 'atoll')
def atol(ex, st, a, ins):
    p, A, n = argstr(ex, st, a[0], 'atol')
    return ex.fint('atol', -2 ** 63, 2 ** 63 - 1)


@lib('strtol', 'strtoll', 'strtoul')
def strtol(ex, st, a, ins):
    p, A, n = argstr(ex, st, a[0], 'strtol')
    if isnull(a[1]) is not True:
        raise Unsupported('strtol with an end pointer')
    return ex.fint('strtol', -2 ** 63, 2 ** 63 - 1)


@lib('abs')
def abs_(ex, st, a, ins):
    return If(lt(a[0], 0), neg(a[0]), a[0])


@lib('htons', 'ntohs')
def htons(ex, st, a, ins):
    return ex.fint('htons', -2 ** 15, 2 ** 15 - 1)


# ------------------------------------------------------------------ formatted output
class Seg:
    """a piece of formatted text: n characters of array `a` from offset `f`, or raw (unknown non-zero characters)"""

    def __init__(self, n, a=None, f=0, lit=None):
        self.n, self.a, self.f, self.lit = n, a, f, lit


def format_segs(ex, st, fmt, args, fn):
    text = chars(ex, fmt)
    if text is None:
        ex.prove(st, False, '%s: the format is a constant' % fn, ex.safety | ex.all_tags, 'unsupported')
        return None
    segs = []
    i = 0
    k = 0
    cur = b''

    def flush():
        nonlocal cur
        if cur:
            segs.append(Seg(len(cur), lit=cur))
        cur = b''
    bad = False
    while i < len(text):
        c = text[i:i + 1]
        if c != b'%':
            cur += c
            i += 1
            continue
        i += 1
        flags = b''
        while i < len(text) and text[i:i + 1] in b'-+ #0':
            flags += text[i:i + 1]
            i += 1
        width = None
        prec = None
        if text[i:i + 1] == b'*':
            width = args[k] if k < len(args) else 0
            k += 1
            i += 1
        else:
            w = b''
            while text[i:i + 1].isdigit():
                w += text[i:i + 1]
                i += 1
            width = int(w) if w else None
        if text[i:i + 1] == b'.':
            i += 1
            if text[i:i + 1] == b'*':
                prec = args[k] if k < len(args) else 0
                k += 1
                i += 1
            else:
                w = b''
                while text[i:i + 1].isdigit():
                    w += text[i:i + 1]
                    i += 1
                prec = int(w) if w else 0
        ln = b''
        while text[i:i + 1] in (b'l', b'h', b'z', b'j', b't', b'q'):
            ln += text[i:i + 1]
            i += 1
        cv = text[i:i + 1]
        i += 1
        if cv == b'%':
            cur += b'%'
            continue
        if k >= len(args):
            ex.prove(st, False, '%s: every conversion has an argument' % fn, ex.safety, 'memory')
            return None
        a = args[k]
        k += 1
        flush()
        simple = width is None and prec is None and not flags
        if cv == b's':
            if not isinstance(a, Ptr):
                ex.prove(st, False, '%s: %%s gets a string' % fn, ex.safety, 'memory')
                return None
            if prec is not None:
                v = V(ex, st)
                ao = strip0(a.o)
                ok = Or(v.isstr(a), And(ne0(a.o), v.live(ao), ge(a.f, 0), le(add(a.f, prec), ex.size(ao)), ge(prec, 0)))
                ex.prove(st, ok, '%s: argument of %%.*s is readable' % fn, ex.safety, 'memory')
                a = stripptr(a)
                A = ex.named(st, ex.rd(st, '8', a.o))
                n = v.slen(a)
                n = If(And(ge(prec, 0), Or(lt(n, 0), lt(prec, n))), prec, n)
                if width is not None:
                    segs.append(Seg(rawlen(ex, st, 0, 2 ** 31)))
                else:
                    segs.append(Seg(n, A, a.f))
            else:
                p, A, n = argstr(ex, st, a, fn, 'argument of %s')
                lit = chars(ex, p)
                if width is not None:
                    segs.append(Seg(rawlen(ex, st, 0, 2 ** 41)))
                elif lit is not None:
                    if lit:
                        segs.append(Seg(len(lit), lit=lit))
                else:
                    segs.append(Seg(n, A, p.f))
        elif cv in (b'd', b'i', b'u'):
            if isinstance(a, (Ptr,)) or a is UNDEF:
                ex.prove(st, False, '%s: %%d gets a number' % fn, ex.safety, 'memory')
                return None
            bits = 64 if ln in (b'l', b'z', b'll', b'j') else 32
            v = ex.wrap(a, bits) if not isinstance(a, PI) else a.num()
            if cv == b'u':
                v = ex.uns(v, bits)
            if simple:
                if isinstance(v, int):
                    t = str(v).encode()
                    segs.append(Seg(len(t), lit=t))
                else:
                    segs.append(Seg(T.declen(v), T.decat(v), 0))
            else:
                lo = max(width if isinstance(width, int) else 1, prec if isinstance(prec, int) else 1, 1)
                segs.append(Seg(rawlen(ex, st, lo, max(lo, 21) + 1)))
        elif cv in (b'x', b'X'):
            if ln == b'' and cv == b'x' and flags == b'0' and width == 2 and prec is None and \
                    (isinstance(a, int) and 0 <= a < 256 or not isinstance(a, int) and ex.rng.get(a)[0] >= 0 and ex.rng.get(a)[1] < 256):
                segs.append(Seg(2, T.hexarr(I(a)), 0))
            else:
                lo = width if isinstance(width, int) else 1
                segs.append(Seg(rawlen(ex, st, lo, max(lo, 16))))
        elif cv == b'c':
            segs.append(Seg(1, T.constarr(I(ex.wrap(a, 8))), 0))
            ex.prove(st, Not(eq(ex.wrap(a, 8), 0)), '%s: %%c prints a character' % fn, ex.safety, 'memory')
        elif cv in (b'p',):
            segs.append(Seg(rawlen(ex, st, 1, 18)))
        elif cv in (b'f', b'g', b'e', b'F'):
            segs.append(Seg(rawlen(ex, st, 1, 400)))
        else:
            ex.prove(st, False, '%s: conversion %r is known' % (fn, cv), ex.safety | ex.all_tags, 'unsupported')
            return None
    flush()
    # join neighbouring literals
    out = []
    for s in segs:
        if out and s.lit is not None and out[-1].lit is not None:
            out[-1] = Seg(out[-1].n + s.n, lit=out[-1].lit + s.lit)
        else:
            out.append(s)
    return out


def rawlen(ex, st, lo, hi):
    return ex.fint('fmtlen', lo, hi)


def total(segs):
    n = 0
    for s in segs:
        n = add(n, s.n)
    return n


def segfacts(ex, st, A, p, segs):
    """A[p..] is the concatenation of segs followed by 0"""
    off = p
    j = z3.Int('?j')
    for s in segs:
        if s.lit is not None:
            for i, c in enumerate(s.lit):
                ex.assume(st, T.sel(A, I(add(off, i))) == sc(c))
        elif s.a is not None:
            ex.copyfacts(st, A, off, s.a, s.f, s.n)
        else:
            ex.assume(st, z3.ForAll([j], z3.Implies(z3.And(I(off) <= j, j < I(add(off, s.n))), T.sel(A, j) != 0),
                                    patterns=[T.sel(A, j)]))
        off = add(off, s.n)
    ex.assume(st, T.sel(A, I(off)) == 0)
    ex.assume(st, T.slen(A, I(p)) == I(sub(off, p)))


@lib('sprintf')
def sprintf(ex, st, a, ins):
    segs = format_segs(ex, st, a[1], a[2:], 'sprintf')
    if segs is None:
        return ex.fint('sprintf', 0, 2 ** 31 - 1)
    L = total(segs)
    d = argbuf(ex, st, a[0], add(L, 1), 'sprintf', 'target')
    for x in a[2:]:
        if isinstance(x, Ptr) and not ex.distinct(strip0(x.o), d.o):
            ex.prove(st, Or(Not(eq(x.o, d.o)), eq(add(L, 1), 0)), 'sprintf: arguments do not overlap the target', ex.safety, 'memory')
    old, new = ex.region(st, '8', d.o, d.f, add(add(d.f, L), 1), 'sp')
    segfacts(ex, st, new.expr(), d.f, segs)
    return L


@lib('snprintf')
def snprintf(ex, st, a, ins):
    segs = format_segs(ex, st, a[2], a[3:], 'snprintf')
    n = size_arg(ex, st, a[1], 'snprintf')
    if segs is None:
        return ex.fint('snprintf', 0, 2 ** 31 - 1)
    L = total(segs)
    # the target must hold what is written, not the size that is claimed
    fits = lt(L, n)
    w = If(fits, add(L, 1), n)
    d = argbuf(ex, st, a[0], w, 'snprintf', 'target')
    for x in a[3:]:
        if isinstance(x, Ptr) and not ex.distinct(strip0(x.o), d.o):
            ex.prove(st, Not(eq(x.o, d.o)), 'snprintf: arguments do not overlap the target', ex.safety, 'memory')
    old, new = ex.region(st, '8', d.o, d.f, add(d.f, w), 'sn')
    e = new.expr()
    if fits is True:
        segfacts(ex, st, e, d.f, segs)
        return L
    A = ex.farr('fmt')
    segfacts(ex, st, A, 0, segs)
    m = If(fits, L, sub(n, 1))
    ex.assume(st, Imp(gt(n, 0), z3.And(T.eqn(e, I(d.f), A, z3.IntVal(0), I(m)), T.sel(e, I(add(d.f, m))) == 0,
                                       T.slen(e, I(d.f)) == I(m))))
    return L


@lib('asprintf')
def asprintf(ex, st, a, ins):
    segs = format_segs(ex, st, a[1], a[2:], 'asprintf')
    d = argbuf(ex, st, a[0], 8, 'asprintf', 'result pointer')
    L = total(segs) if segs is not None else ex.fint('asprintf', 0, 2 ** 31 - 1)
    o = ex.newobj(st, add(L, 1), True, 'asprintf')
    if segs is not None:
        segfacts(ex, st, ex.rd(st, '8', o).expr(), 0, segs)
    ex.framecheck(st, 'P', d.o, d.f, add(d.f, 8))
    ex.lockcheck(st, d.o, 'write')
    ex.setarr(st, 'P', d.o, ex.rd(st, 'P', d.o).put(d.f, Ptr(o, 0)))
    return L


@lib('printf')
def printf(ex, st, a, ins):
    segs = format_segs(ex, st, a[0], a[1:], 'printf')
    return total(segs) if segs is not None else ex.fint('printf', 0, 2 ** 31 - 1)


@lib('puts')
def puts(ex, st, a, ins):
    argstr(ex, st, a[0], 'puts')
    return ex.fint('puts', -1, 2 ** 31 - 1)


@lib('putchar', 'fflush')
def putchar(ex, st, a, ins):
    return ex.fint('io', -1, 2 ** 31 - 1)


@lib('perror')
def perror(ex, st, a, ins):
    if isnull(a[0]) is not True:
        argstr(ex, st, a[0], 'perror')
    return None


@lib('exit', '_exit', 'abort')
def exit_(ex, st, a, ins):
    for f, tags in ex.exitcond:
        ex.prove(st, f(V(ex, st)), 'the process ends only when it should', tags, 'ensures')
    st.dead = True
    return None


@lib('getenv')
def getenv(ex, st, a, ins):
    return NULL


@lib('__errno_location')
def errno(ex, st, a, ins):
    o = ex.newobj(st, 4, False, 'errno')
    return Ptr(o, 0)


# ------------------------------------------------------------------ OpenSSL digests
@lib('EVP_MD_CTX_new')
def evp_new(ex, st, a, ins):
    o = ex.newobj(st, 64, False, 'mdctx')
    st.g['md.n'] = z3.IntVal(-1)
    st.g['md.ctx'] = o
    return Ptr(o, 0)


@lib('EVP_md5')
def evp_md5(ex, st, a, ins):
    return Ptr(-7, 0)


@lib('EVP_MD_get_size', 'EVP_MD_size')
def evp_size(ex, st, a, ins):
    if a[0].o == -7:
        return 16
    return ex.fint('mdsize', 1, 64)


@lib('EVP_DigestInit_ex', 'EVP_DigestInit')
def evp_init(ex, st, a, ins):
    ex.prove(st, And(ne0(a[0].o), eq(a[0].o, st.g['md.ctx']), eq(a[1].o, -7)), 'EVP_DigestInit: MD5 on a live context', ex.safety | ex.all_tags, 'memory')
    st.g['md.n'] = z3.IntVal(0)
    return 1


@lib('EVP_DigestUpdate')
def evp_update(ex, st, a, ins):
    n = size_arg(ex, st, a[2], 'EVP_DigestUpdate')
    p = argbuf(ex, st, a[1], n, 'EVP_DigestUpdate', 'data', write=False)
    ex.prove(st, And(eq(a[0].o, st.g['md.ctx']), ge(st.g['md.n'], 0)), 'EVP_DigestUpdate: initialised context', ex.safety | ex.all_tags, 'memory')
    A = ex.named(st, ex.rd(st, '8', p.o))
    old, m = st.g['md.fed'], st.g['md.n']
    new = ex.farr('fed')
    ex.assume(st, T.eqn(new, z3.IntVal(0), old, z3.IntVal(0), I(m)))
    ex.assume(st, T.eqn(new, I(m), A, I(p.f), I(n)))
    st.g['md.fed'] = new
    st.g['md.n'] = I(add(m, n))
    return 1


@lib('EVP_DigestFinal_ex', 'EVP_DigestFinal')
def evp_final(ex, st, a, ins):
    d = argbuf(ex, st, a[1], 16, 'EVP_DigestFinal', 'digest')
    ex.prove(st, And(eq(a[0].o, st.g['md.ctx']), ge(st.g['md.n'], 0)), 'EVP_DigestFinal: initialised context', ex.safety | ex.all_tags, 'memory')
    if isnull(a[2]) is not True:
        raise Unsupported('EVP_DigestFinal with a length pointer')
    old, new = ex.region(st, '8', d.o, d.f, add(d.f, 16), 'digest')
    e = new.expr()
    for i in range(16):
        ex.assume(st, T.u8(T.sel(e, I(add(d.f, i)))) == T.md5b(st.g['md.fed'], st.g['md.n'], z3.IntVal(i)))
        ex.assume(st, z3.And(T.sel(e, I(add(d.f, i))) >= -128, T.sel(e, I(add(d.f, i))) < 128))
    return 1


@lib('EVP_MD_CTX_free')
def evp_free(ex, st, a, ins):
    ex.prove(st, Or(isnull(a[0]), And(eq(a[0].o, st.g['md.ctx']), ex.rdlive(st, strip0(a[0].o)))), 'EVP_MD_CTX_free: live context', ex.safety, 'memory')
    ex.setlive(st, strip0(a[0].o), False)
    return None
