"""What contract files import."""
import z3
from . import theory as T
from .val import *
from .val import Ptr, NULL, UNDEF, I, B, strip0, stripptr
from .libc import CharSet
from . import libc_io as IO
from . import libc_net
from .libc import format_segs, chars
from .engine import Contract, Skip, View

BIG = 2 ** 30
CONTRACTS = {}


def contract(name, tags=(), safety=(), **kw):
    def d(f):
        c = Contract(name, f, tags, safety)
        c.opts = kw
        CONTRACTS[name] = c
        return f
    return d


def wrapf(f):
    def g(*a):
        return f(*[I(x) if not z3.is_expr(x) else x for x in a])
    return g


wsl, rte, eqn, eqi, fnd, fndi, cidx, ridx, slenA = map(wrapf, (T.wsl, T.rte, T.eqn, T.eqi, T.fnd, T.fndi, T.cidx, T.ridx, T.slen))
_bv = [0]


def bv(n='j'):
    return z3.Int('?' + n)


def all_in(A, a, b, p):
    """every element of A[a..b) satisfies p"""
    j = bv()
    return z3.ForAll([j], z3.Implies(z3.And(I(a) <= j, j < I(b)), p(T.sel(A, j))), patterns=[T.sel(A, j)])


def isnull(p):
    return eq(p.o, 0)


def text(view, p, segs):
    """the string at p is the concatenation of segs: bytes, or (array, offset, length), or ('dec', n)"""
    A = view.a8(p.o)
    off = p.f
    cs = []
    for s in segs:
        if isinstance(s, bytes):
            for i, ch in enumerate(s):
                cs.append(T.sel(A, I(add(off, i))) == (ch if ch < 128 else ch - 256))
            off = add(off, len(s))
        elif isinstance(s[0], str):
            cs.append(eqn(A, off, T.decat(I(s[1])), 0, T.declen(I(s[1]))))
            off = add(off, T.declen(I(s[1])))
        else:
            cs.append(eqn(A, off, s[0], s[1], s[2]))
            off = add(off, s[2])
    cs.append(eq(view.slen(p), sub(off, p.f)))
    return And(*cs)

_I, _A, _B = z3.IntSort(), T.ASort, z3.BoolSort()
GHOSTS = {
    'tok': {'tok.o': _I, 'tok.f': _I},                              # strtok's memory
    'md': {'md.n': _I, 'md.ctx': _I, 'md.fed': _A},                 # bytes fed to the digest
    'io': {'io.n': _I, 'io.msg': _I, 'io.fmt.o': _I, 'io.fmt.f': _I, 'io.file': _I},   # writes to streams
    'out': {'out.n': _I, 'out.a': _A},                              # bytes sent to the peer
    'in': {'in.n': _I, 'in.a': _A, 'in.last': _I},                  # bytes received from the peer
    'cb': {'cb.n': _I, 'cb.f': _A, 'cb.q': _A, 'cb.r': _A, 'cb.form.A': _A, 'cb.form.f': _I},   # calls of application functions
    'fo': {'fo.n': _I, 'fo.A': _A, 'fo.f': _I, 'fo.ok': _B, 'fo.w': _B, 'fo.o': _I, 'fo.pA': _A, 'fo.pf': _I, 'fo.pok': _B, 'fo.pw': _B},   # opened files
    'sn': {'sn.n': _I, 'sn.A': _A, 'sn.f': _I, 'sn.pA': _A, 'sn.pf': _I},   # files asked for
    'ln': {'ln.n': _I, 'ln.c': _I},                                     # lines read from files
    'lk': {'lk.c': _B, 'lk.q': _B, 'lk.s': _B},                                 # which mutexes this thread holds
    'me': {'me.fd': _I},                                            # the connection this thread handles
    'lc': {'lc.Q32': _A, 'lc.Q8': _A, 'lc.R32': _A, 'lc.R8': _A, 'lc.in': _I},   # the table when the mutex was last taken and given back; is the connection in it
    'cl': {'cl.n': _I, 'cl.A': _A, 'cl.out': _I},                               # closed descriptors
    'ac': {'ac.n': _I, 'ac.fd': _I, 'ac.q': _I, 'ac.c': _I, 'ac.A': _I},   # accepted connections
    'na': {'na.A': _A, 'na.v': _I},                                 # the text of an address
    'pn': {'pn.fd': _I, 'pn.A': _I},                                # the peer of a descriptor
    'rx': {'rx.p': _B, 'rx.A': _A, 'rx.r': _I, 'rx.t': T.TSort, 'rx.k': _I, 'rx.own': _B, 'rx.at': T.TSort, 'rx.ak': _I, 'rx.len': _I},   # the line read last; what those before it give
    'al': {'al.n': _I, 'al.r': _B, 'al.A': _A, 'al.f': _I},         # the decision about the address
    'q': {'q.in': _A, 'q.inn': _I, 'q.outn': _I, 'q.room': _B, 'q.n': _I},      # connections put in and taken from the queue
    'tk': {'tk.n': _I, 'tk.fd': _I, 'hd.n': _I},                    # connections taken and handled by this thread
    'up': {'up.n': _I},                                        # uploaded files
    'rt': {'rt.n': _I, 'rt.A': _A, 'rt.o': _I, 'rt.f': _I, 'bd.n': _I, 'bd.A': _A, 'bd.f': _I, 'bd.len': _I},   # forms handed to the router, bodies decoded
    'pt': {'pt.k': _I, 'pt.s': _I, 'pt.e': _I},                    # parts decoded, where the last one began and the next boundary ended
    'tf': {'tf.r': _I, 'tf.p': _I},                                # the last two positions found
    'fw': {'fw.n': _I, 'fw.A': _A, 'fw.f': _I, 'fw.len': _I, 'fw.o': _I},   # written files
}
OPTS = {'ghosts': {k: s for g in GHOSTS.values() for k, s in g.items()}}


def ghosts(c, *groups):
    for g in groups:
        c.modifies_ghost(*GHOSTS[g])


def span_of(l, v, base):
    """[lo, hi) of absolute offsets passed by the loop variable going up, and (lo, hi] going down"""
    x, e = l.var(v), l.E.var(v)
    if isinstance(x, Ptr):
        return e.f, x.f
    return add(base, e), add(base, x)


def scan(c, name, p, pred, view=None):
    """loop template: the elements of p's array passed so far satisfy pred (in both directions)"""
    o, base = p.o, p.f

    def tmpl(lv):
        out = []
        for v in lv.intvars():
            def up(l, v=v):
                a, b = span_of(l, v, base)
                return all_in((view or l).a8(o), a, b, pred)

            def down(l, v=v):
                a, b = span_of(l, v, base)
                return all_in((view or l).a8(o), add(b, 1), add(a, 1), pred)
            out.append(('passed %s' % v, up))
            out.append(('passed down %s' % v, down))
        return out
    c.loop(name, tmpl)


class StrList:
    """an array of string pointers in memory as seen by a view"""

    def __init__(self, view, arr, stride=8, off=0):
        self.v, self.arr, self.stride, self.off = view, stripptr(arr), stride, off
        k = z3.Int('?k')
        self.k = k
        p = self.at(k)
        self.L = view.ex.defarr(k, z3.If(B(eq(p.o, 0)), z3.IntVal(-1), T.slen(view.a8(p.o), I(p.f))))

    def at(self, k):
        e = T.Emul(self.stride)(I(k)) if not isinstance(k, int) else self.stride * k
        if isinstance(k, int):
            self.v.ex.efact(self.stride, k)
        return self.v.p(self.arr, add(e, self.off))

    def len(self, k):
        return T.sel(self.L, I(k))

    def pos(self, k, d):
        return T.catpos(self.L, I(d), I(k))

    def trig(self):
        return T.Emul(self.stride)(self.k)

    def strings(self, n, maxlen=None, null=True):
        """elements 0..n-1 are null or strings"""
        k = self.k
        p = self.at(k)
        c = self.v.isstr(p)
        if maxlen is not None:
            c = And(c, le(self.len(k), maxlen))
        if null:
            c = Or(eq(p.o, 0), c)
        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < I(n)), B(c)), patterns=[self.trig()])

    def forall(self, lo, hi, f):
        k = self.k
        return z3.ForAll([k], z3.Implies(z3.And(I(lo) <= k, k < I(hi)), z3.And(B(f(k)), self.trig() == self.stride * k)), patterns=[self.trig()])


def ptrlocals(lv):
    """objects the pointer variables of the function point to"""
    out = []
    for w, t in lv.fr.fn.promo.items():
        if t[0] == 'p':
            x = lv.var(w)
            if isinstance(x, Ptr) and not any(same(x.o, o) for o in out) and not same(x.o, 0):
                out.append(x.o)
    return out


def fresh_string(c):
    """the result is a new string, terminated in its buffer"""
    c.ensures_fresh(minsize=1)
    n = c.T.slen(c.ret)
    c.ensures(And(le(0, n), lt(n, c.ex.size(c.ret.o))), 'the result is terminated in its buffer')


class Defined:
    """a predicate with a definition; under proof only the instances asked for are unfolded, for callers all are"""

    def __init__(self, c, name, sorts, body):
        ex = c.ex
        ex.n += 1
        self.ex, self.body = ex, body
        self.f = z3.Function('%s!%d' % (name, ex.n), *(list(sorts) + [z3.BoolSort()]))
        if c.mode != 'verify':
            vs = [z3.Const('?d%d' % i, s) for i, s in enumerate(sorts)]
            ex.fact(z3.ForAll(vs, self.f(*vs) == B(body(*vs)), patterns=[self.f(*vs)]))

    def __call__(self, *a):
        return self.f(*[I(x) if not z3.is_expr(x) else x for x in a])

    def unfold(self, *a):
        a = [I(x) if not z3.is_expr(x) else x for x in a]
        self.ex.fact(self.f(*a) == B(self.body(*a)))
