"""Static files (C09, C10)."""
from ..spec import *
from .http_utils import *
from .file_utils import PATHMAX

TARGETMAX = 254
INDEX = b'index.html'


def seg(A, f, x):
    """a segment .. starts at x"""
    at = lambda i: T.sel(A, I(x) + i)
    return And(at(0) == 46, at(1) == 46, Or(eq(x, f), at(-1) == 47), Or(at(2) == 0, at(2) == 47))


def noparent(A, f, lo, hi):
    """no segment of the path (A, f) that starts in [lo, hi) is .."""
    x = z3.Int('?x')
    return z3.ForAll([x], z3.Implies(z3.And(I(lo) <= x, x < I(hi)), z3.Not(B(seg(A, f, x)))), patterns=[T.sel(A, x)])


@contract('has_parent_segment', tags=['C09'], safety=['C09', 'C10', 'C20'], helper=True)
def has_parent_segment(c):
    p, = c.args
    S = c.S
    c.requires_str(p, 'path', PATHMAX)
    A, n = S.a8(p.o), S.slen(p)

    def tm(lv):
        out = []
        for w in lv.ptrvars():
            def none(l, w=w):
                q = l.var(w)
                return If(eq(q.o, 0), noparent(A, p.f, p.f, add(p.f, n)), And(eq(q.o, p.o), ge(q.f, p.f), le(add(q.f, 2), add(p.f, n)), T.sel(A, I(q.f)) == 46, T.sel(A, I(add(q.f, 1))) == 46, noparent(A, p.f, p.f, q.f)))
            out.append(('none before %s' % w, none))
        return out
    c.loop('dots', tm)
    yield
    c.ensures(Iff(c.ret, Not(noparent(A, p.f, p.f, add(p.f, n)))), 'true exactly when a segment of the path is ..')


def cfg(c, v, name, maxlen):
    p = c.glob(name)
    n = v.slen(p)
    return p, n, And(le(0, n), le(n, maxlen))


def named(v, A, f, segs):
    """the string at (A, f) is the concatenation of segs"""
    off = f
    cs = []
    for s in segs:
        if isinstance(s, bytes):
            cs += [T.sel(A, I(add(off, i))) == ch for i, ch in enumerate(s)]
            off = add(off, len(s))
        else:
            cs.append(eqn(A, off, *s))
            off = add(off, s[2])
    cs.append(eq(slenA(A, f), sub(off, f)))
    return And(*cs)


def static_config(c, S):
    """(static root, index, icon) as (array, offset, length), and what is required of them"""
    out, ok = [], []
    for nm, m in (('WAYUU_STATIC_ROOT', 511), ('WWW_INDEX', 255), ('FAVICON_URL', 255)):
        p, n, o = cfg(c, S, nm, m)
        out.append((S.a8(p.o), p.f, n))
        ok.append(o)
    return out, And(*ok)


@contract('handle_static_routes', tags=['C09', 'C10'], safety=['C09', 'C10', 'C20'], before=lambda *a: arriving(*a))
def handle_static_routes(c):
    req, = c.args
    S = c.S
    requires_req(c, req)
    c.requires(field(S, req, SESSION, SESSIONMAX), 'the session is a string')
    p = S.p(req, PATH)
    c.requires(And(field(S, req, PATH, TARGETMAX), T.oheap(I(p.o)), eq(p.f, 0), Not(T.oro(I(p.o)))), 'the path is a string of its own')
    for off in (IP, RLINE, SESSION, SSL):
        c.requires(Not(eq(p.o, S.p(req, off).o)), 'no other field is the path')
    c.separate(req, p)
    (root, index, icon), ok = static_config(c, S)
    c.requires(ok, 'the configured names are strings')
    c.modifies('P', req, add(req.f, PATH), add(req.f, PATH + 8))
    c.modifies('32', req, add(req.f, RLEN), add(req.f, RLEN + 4))
    c.modifies('V', lambda o: eq(o, p.o))
    c.allocates()
    ghosts(c, 'out', 'fo', 'sn', 'ln')
    IO.need(c.ex)
    A, n = S.a8(p.o), S.slen(p)
    yield
    v = c.T
    esc = Not(noparent(A, p.f, p.f, add(p.f, n)))
    isroot = Or(is_lit(A, p.f, b'/'), is_lit(A, p.f, b'/index.html'))
    isicon = is_lit(A, p.f, b'/favicon.ico')
    slash = And(gt(n, 0), T.sel(A, I(add(p.f, sub(n, 1)))) == 47)
    sn, fo = sub(v.g('sn.n'), S.g('sn.n')), sub(v.g('fo.n'), S.g('fo.n'))
    c.ensures(Imp(esc, And(eq(sn, 0), eq(fo, 0))), 'a path with a segment .. reaches no file', tags=['C09'])
    c.ensures(Imp(esc, sent(S, v, start(400), server(c), b'Content-Length: 0\r\n\r\n')), 'it is a bad request', tags=['C09', 'C10'])
    cases = [('the root is the index document', isroot, [root, b'/', index]), ('the icon is the configured one', And(Not(isroot), isicon), [root, b'/', icon]),
             ('a folder is its index.html', And(Not(isroot), Not(isicon), slash), [root, b'/', (A, p.f, n), INDEX]),
             ('any other target is the file of that name', And(Not(isroot), Not(isicon), Not(slash)), [root, b'/', (A, p.f, n)])]
    one, two = eq(sn, 1), eq(sn, 2)
    last = (v.g('sn.A'), v.g('sn.f'))
    prev = (v.g('sn.pA'), v.g('sn.pf'))
    c.ensures(Imp(Not(esc), Or(one, two)), 'one file is looked up, and a second one if there is no such file')
    for what, cond, segs in cases:
        c.ensures(Imp(And(Not(esc), cond, one), named(v, *last, segs)), what)
        c.ensures(Imp(And(Not(esc), cond, two), named(v, *prev, segs)), what + ' (first)')
    c.ensures(Imp(And(Not(esc), two), named(v, *last, [root, b'/', index])), 'the index document is tried instead')
    reg = lambda x: IO.regular(IO.fid(x[0], I(x[1])))
    c.ensures(Imp(And(Not(esc), one), reg(last)), 'the index is tried if the file does not exist')
    c.ensures(Imp(And(Not(esc), two), Not(reg(prev))), 'the index is not tried if the file exists')
    opens = And(eq(fo, 1), eq(slenA(v.g('fo.A'), v.g('fo.f')), slenA(*last)), eqn(v.g('fo.A'), v.g('fo.f'), last[0], last[1], slenA(*last)), Not(v.g('fo.w')))
    c.ensures(Imp(And(Not(esc), reg(last)), opens), 'the file found is opened for reading, and no other', tags=['C09', 'C10'])
    c.ensures(Imp(And(Not(esc), Not(reg(last))), And(eq(fo, 0), sent(S, v, start(404), server(c), b'Content-Length: 0\r\n\r\n'))), 'nothing is opened and the answer is 404 if there is no file', tags=['C09', 'C10'])
    o = v.g('fo.o')
    c.ensures(Imp(And(Not(esc), reg(last)), And(T.eqn(v.g('out.a'), z3.IntVal(0), S.g('out.a'), z3.IntVal(0), S.g('out.n')), *[
        T.sel(v.g('out.a'), S.g('out.n') + i) == ch for i, ch in enumerate(start(200))])), 'the file found is announced as 200 OK')
    c.ensures(Imp(And(Not(esc), reg(last), v.g('fo.ok')), eqn(v.g('out.a'), sub(v.g('out.n'), IO.fsize(o)), IO.fdata(o), 0, IO.fsize(o))), 'the body is the content of the file')
    q = v.p(req, PATH)
    c.ensures(v.isstr(q), 'the path is a string afterwards')


def arriving(ex, st, vals):
    from .accept import arriving as f
    f(ex, st, vals)
