"""The limits file (C18)."""
from ..spec import *
from .string_utils import texts, A_at
from .connections import EL, LS, MAXL, LTOTAL, LPERIP, PATHSZ, fa
from .file_utils import PATHMAX

LIMITS = b'/etc/limits'


class LimitsFile:
    """lines of the limits file and the rules they make"""

    def __init__(self, c, i):
        ex = self.ex = c.ex
        ex.n += 1
        self.i, self.n = i, ex.n
        self.D, self.e = IO.fcont(i), IO.fclen(i)
        self.cs = CharSet(ex, c.st, None, 'limits', b',')
        self.pos = z3.Function('lnpos!%d' % ex.n, T.Int, T.Int)      # where line j starts
        self.nr = z3.Function('nrules!%d' % ex.n, T.Int, T.Int)      # rules made by the lines before line j
        self.ln = z3.Function('line!%d' % ex.n, T.Int, T.ASort)      # line j as a C string
        self.wf = z3.Function('wf!%d' % ex.n, T.Int, T.Bool)         # line j makes a rule
        ex.fact(z3.And(self.pos(0) == 0, self.nr(0) == 0))

    def start(self, j, k):
        return self.cs.start(self.A(j), 0, k)

    def toklen(self, j, k):
        return self.cs.toklen(self.A(j), 0, k)

    def there(self, j, k):
        return A_at(self.A(j), self.start(j, k))

    def A(self, j):
        return self.ln(I(j))

    def unfold(self, j):
        """definitions at line j"""
        ex, j = self.ex, I(j)
        p = self.pos(j)
        nl = IO.nlat(self.D, p, self.e)
        end = z3.If(nl < self.e, nl + 1, self.e)
        q = IO.zat(self.D, p, end)
        A = self.ln(j)
        for k in (0, 1, 2):
            self.cs.unfold(ex, A, 0, k)
        good = And(p < self.e, eq(T.sel(A, 0), 47), self.there(j, 2))
        ex.fact(z3.Implies(z3.And(j >= 0, 0 <= p, p <= self.e), z3.And(B(eqn(A, 0, self.D, p, q - p)), T.sel(A, q - p) == 0, T.slen(A, z3.IntVal(0)) == q - p, self.pos(j + 1) == end,
                        self.nr(j + 1) == self.nr(j) + z3.If(self.wf(j), z3.IntVal(1), z3.IntVal(0)), self.wf(j) == B(good))))


def minus(x, m):
    return If(lt(x, m), x, m)


def rule_is(LF, A8, A32, r, j):
    """rule r holds what line j says"""
    off = EL(I(r))
    A = LF.A(j)
    m = minus(LF.toklen(j, 0), PATHSZ - 1)
    num = lambda k: T.vatoi(T.text(A, I(LF.start(j, k)), I(LF.toklen(j, k))))
    return [And(eq(slenA(A8, off), m), eqn(A8, off, A, LF.start(j, 0), m)), T.sel(A32, off + LTOTAL) == num(1), T.sel(A32, off + LPERIP) == num(2)]


@contract('load_limits', tags=['C18', 'C04'], safety=['C18'])
def load_limits(c):
    S = c.S
    root, lim = c.glob('WAYUU_WS_ROOT'), c.glob('WAYUU_WS_LIMITS')
    rn = S.slen(root)
    c.requires(And(le(0, rn), lt(rn, c.ex.size(root.o))), 'the root folder is a string')
    c.modifies('8', lim, 0, c.ex.size(lim.o))
    ghosts(c, 'sn', 'fo', 'ln', 'tok')
    c.allocates()
    IO.need(c.ex)
    ex = c.ex
    verify = c.mode == 'verify'
    if verify:
        texts(c)
        # the name of the file, as a text of its own
        NM = ex.farr('name')
        ex.fact(And(eqn(NM, 0, S.a8(root.o), root.f, rn), *[T.sel(NM, I(add(rn, k))) == ch for k, ch in enumerate(LIMITS + b'\0')]))
        ex.fact(T.slen(NM, z3.IntVal(0)) == I(add(rn, len(LIMITS))))
        i = IO.fid(NM, I(0))
        LF = LimitsFile(c, i)
        n0 = S.g('ln.n')
        J = lambda l: sub(l.g('ln.n'), n0)

        def hook(st, o, p):
            j = sub(st.g['ln.n'], n0)
            ex.prove(st, And(IO.fdata(I(o)) == LF.D, IO.fsize(I(o)) == LF.e), 'the lines are those of etc/limits', ex.all_tags, 'ensures')
            LF.unfold(j)
        ex.line_hook = hook

        def read(st, e, eof):
            A = LF.A(sub(st.g['ln.c'], n0))
            ex.prove(st, Imp(Not(eof), eqn(e, 0, A, 0, add(T.slen(A, z3.IntVal(0)), 1))), 'the line is that of the file', ex.all_tags, 'ensures')
        ex.line_read = read
        k, jj = z3.Ints('?k ?jj')

        # the loop over the lines moves the position in the file, the loop over the parts of a line does not
        reads = lambda lv: any(k_ == '64' for k_, o in lv.written)

        def lines(lv):
            out = []
            if not reads(lv):
                return out
            for o in [o for k_, o in lv.written if k_ == '64']:
                pos = lambda l, o=o: l.i64(Ptr(o, 0))
                out.append(('position', lambda l, pos=pos: And(ge(J(l), 0), le(0, pos(l)), le(pos(l), LF.e), eq(pos(l), LF.pos(I(J(l)))))))
            for o in [o for k_, o in lv.written if k_ == 'P']:
                def buf(l, o=o):
                    p = l.p(Ptr(o, 0))
                    return Or(eq(p.o, 0), And(l.live(p.o), eq(p.f, 0), T.oheap(I(p.o)), ge(p.o, l.st0.ctr)))
                out.append(('buffer', buf))
                for q in [q for k_, q in lv.written if k_ == '64']:
                    out.append(('buffer size', lambda l, o=o, q=q: Or(eq(l.p(Ptr(o, 0)).o, 0), eq(ex.size(l.p(Ptr(o, 0)).o), l.i64(Ptr(q, 0))))))
            for o in ptrlocals(lv):
                out.append(('alive', lambda l, o=o: l.live(o)))
            for v in lv.intvars():
                out.append(('rules so far %s' % v, lambda l, v=v: And(eq(l.iv(v), LF.nr(I(J(l)))), ge(l.iv(v), 0))))
                out.append(('room %s' % v, lambda l, v=v: lt(l.iv(v), MAXL)))
            for o in [o for k_, o in lv.written if k_ == '32']:
                A8 = lambda l, o=o: l.a8(o)
                A32 = lambda l, o=o: ex.named(l.st, l.arr('32', o))
                for x in range(3):
                    def held(l, x=x, A8=A8, A32=A32):
                        body = z3.And(0 <= LF.nr(jj), LF.nr(jj) < LF.nr(I(J(l))), B(rule_is(LF, A8(l), A32(l), LF.nr(jj), jj)[x]))
                        return z3.ForAll([jj], z3.Implies(z3.And(0 <= jj, jj < I(J(l)), LF.wf(jj)), body), patterns=[LF.nr(jj)])
                    out.append(('rules hold their lines %d' % x, held))
                out.append(('terminators', lambda l, A8=A8: fa(MAXL, lambda k: T.sel(A8(l), EL(k) + PATHSZ - 1) == 0, EL, LS)))
                for v in lv.intvars():
                    out.append(('used %s' % v, lambda l, v=v, A8=A8: fa(l.iv(v), lambda k: T.sel(A8(l), EL(k)) == 47, EL, LS)))
                    out.append(('unused %s' % v, lambda l, v=v, A8=A8: fa(MAXL, lambda k: Imp(k >= I(l.iv(v)), T.sel(A8(l), EL(k)) == 0), EL, LS)))
            return out
        c.loop('lines', lines)

        def tokens(lv):
            out = []
            if reads(lv):
                return out
            cur = lambda l: sub(l.g('ln.c'), n0)
            for v in lv.intvars():
                out.append(('parts %s' % v, lambda l, v=v: And(ge(l.iv(v), 1), LF.there(cur(l), sub(l.iv(v), 1)))))
                for cp in [o for k_, o in lv.written if k_ == '8']:
                    def rest(l, v=v, cp=cp):
                        j, i_ = cur(l), l.iv(v)
                        ex.efact(8, i_)
                        A = LF.A(j)
                        so, sf = l.g('tok.o'), l.g('tok.f')
                        r = LF.cs.rest(A, 0, i_)
                        n = T.slen(A, z3.IntVal(0))
                        return And(eq(so, cp), eq(r, sf), ge(sf, 0), le(sf, n), ge(slenA(l.a8(cp), sf), 0), eqn(l.a8(cp), sf, A, r, sub(add(n, 1), sf)))
                    out.append(('rest %s' % v, rest))
                for o in [o for k_, o in lv.written if k_ == '32']:
                    A32 = lambda l, o=o: ex.named(l.st, l.arr('32', o))
                    for x in (1, 2):
                        out.append(('value %d %s' % (x, v), lambda l, x=x, v=v, A32=A32, o=o: Imp(gt(l.iv(v), x), rule_is(LF, l.a8(o), A32(l), LF.nr(I(cur(l))), cur(l))[x])))
            return out
        c.loop('tokens', tokens)
    yield
    c.ensures_fresh(minsize=MAXL * LS)
    v, r = c.T, c.ret
    A8 = v.a8(r.o)
    A32 = ex.named(v.st, v.arr('32', r.o))
    if verify:
        JT = J(v)
        np_ = LF.nr(I(JT))
        fi = IO.fid(v.a8(lim.o), I(lim.f))
        c.ensures(i == fi, 'the file is etc/limits of the root folder')
        # from here on there is such a file; all of it was read unless the table is full
        c.ensures(Imp(IO.readable(i), And(ge(JT, 0), ge(np_, 0), le(np_, MAXL), Or(eq(np_, MAXL), ge(LF.pos(I(JT)), LF.e)))), 'the whole file is read unless the table is full')
        c.ensures(Imp(z3.Not(IO.readable(i)), np_ == 0), 'no file, no rules')
        for x, what in enumerate(('path', 'total', 'limit per address')):
            c.ensures(z3.ForAll([jj], z3.Implies(z3.And(0 <= jj, jj < I(JT), LF.wf(jj)), z3.And(0 <= LF.nr(jj), LF.nr(jj) < np_, B(rule_is(LF, A8, A32, LF.nr(jj), jj)[x]))), patterns=[LF.nr(jj)]),
                      'each well-formed line is a rule in file order: %s' % what)
        c.ensures(fa(np_, lambda k: T.sel(A8, EL(k)) == 47, EL, LS), 'there are no gaps between the rules')
        c.ensures(fa(MAXL, lambda k: Imp(k >= I(np_), T.sel(A8, EL(k)) == 0), EL, LS), 'nothing else makes a rule')
    c.ensures(fa(MAXL, lambda k: And(le(0, slenA(A8, EL(k))), lt(slenA(A8, EL(k)), PATHSZ)), EL, LS), 'the paths are terminated in their place')
