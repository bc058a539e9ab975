from ..spec import *
from .http_utils import asked

PATHMAX = 65536


def fileid(v, p):
    return IO.fid(v.a8(p.o), I(p.f))


def stat_contract(name, pred, what):
    @contract(name, tags=['C03', 'C10'], safety=['C03'], helper=True)
    def w(c):
        p, = c.args
        S = c.S
        c.requires_str(p, 'path', PATHMAX)
        ghosts(c, 'sn')
        IO.need(c.ex)
        i = fileid(S, p)
        yield
        c.ensures(Iff(c.ret, pred(i)), 'true exactly for the name of a %s' % what)
        c.ensures(asked(c, S, c.T, p), 'asks for that name')


stat_contract('is_file', IO.regular, 'regular file')
stat_contract('is_dir', IO.isdirectory, 'folder')


@contract('check_createdir', tags=['C15'], safety=['C02', 'C19'])
def check_createdir(c):
    p, = c.args
    c.requires_str(p, 'path', PATHMAX)
    ghosts(c, 'sn')
    IO.need(c.ex)
    yield
    c.ensures(Imp(IO.isdirectory(fileid(c.S, p)), c.ret), 'true if it is a folder')


entry = z3.Function('entry', z3.IntSort(), T.ASort, z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort())


def listed(c, i, A, f, n):
    """(predicate over positions, condition): some line of file i is, apart from the white space around it, the text (A, f, n)"""
    i, f, n = I(i), I(f), I(n)
    if 'entry' not in c.ex._defs:
        c.ex._defs['entry'] = True
        i_, f_, n_, p_ = z3.Ints('i f n p')
        A_ = z3.Const('A', T.ASort)
        D, e = IO.fcont(i_), IO.fclen(i_)
        nl = IO.nlat(D, p_, e)
        q = IO.zat(D, p_, z3.If(nl < e, nl + 1, e))
        a = T.wse(D, p_, q)
        m = T.rte(D, a, q) - a
        # position p starts a line that is the text, as a C string without the white space around it
        body = z3.And(z3.Or(p_ == 0, T.sel(D, p_ - 1) == 10), m == n_, T.eqn(D, a, A_, f_, n_))
        c.ex.facts0.append(z3.ForAll([i_, A_, f_, n_, p_], entry(i_, A_, f_, n_, p_) == body, patterns=[entry(i_, A_, f_, n_, p_)]))
    p = z3.Int('?p')
    lm = lambda x: entry(i, A, f, n, x)
    none = lambda hi: z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < I(hi)), z3.Not(lm(p))), patterns=[lm(p)])
    return lm, none, z3.And(IO.regular(i), IO.readable(i), z3.Not(none(IO.fclen(i))))


@contract('find_in_file', tags=['C03'], safety=['C03'])
def find_in_file(c):
    path, needle = c.args
    S = c.S
    c.requires_str(path, 'path', PATHMAX)
    c.requires_str(needle, 'needle', PATHMAX)
    ghosts(c, 'sn', 'fo', 'ln')
    c.allocates()
    IO.need(c.ex)
    i = fileid(S, path)
    lm, none, cond = listed(c, i, S.a8(needle.o), needle.f, S.slen(needle))
    D, e = IO.fcont(i), IO.fclen(i)
    if c.mode == 'verify':
        ex = c.ex

        def hook(st, o, p):
            ex.n += 1
            ex.fact(z3.Bool('at!%d' % ex.n) == lm(I(p)))
        ex.line_hook = hook

    def tm(lv):
        out = []
        for o in [o for k, o in lv.written if k == '64']:
            pos = lambda l, o=o: l.i64(Ptr(o, 0))
            out.append(('position', lambda l, pos=pos: And(le(0, pos(l)), le(pos(l), e), Or(eq(pos(l), 0), ge(pos(l), e), T.sel(D, I(sub(pos(l), 1))) == 10))))
            out.append(('no line yet', lambda l, pos=pos: none(pos(l))))
            for v in lv.boolvars():
                out.append(('found %s' % v, lambda l, v=v, pos=pos: Iff(l.bv(v), z3.Not(none(pos(l))))))
        for o in [o for k, o in lv.written if k == 'P']:
            def buf(l, o=o):
                p = l.p(Ptr(o, 0))
                return Or(eq(p.o, 0), And(l.live(p.o), eq(p.f, 0), T.oheap(I(p.o)), ge(p.o, l.st0.ctr)))
            out.append(('buffer', buf))
            for q in [q for k, q in lv.written if k == '64']:
                out.append(('buffer size', lambda l, o=o, q=q: Or(eq(l.p(Ptr(o, 0)).o, 0), eq(c.ex.size(l.p(Ptr(o, 0)).o), l.i64(Ptr(q, 0))))))
        for o in ptrlocals(lv):
            out.append(('alive', lambda l, o=o: l.live(o)))
        return out
    c.loop('lines', tm)
    yield
    c.ensures(Iff(c.ret, cond), 'true exactly when some line of the file is the text')
