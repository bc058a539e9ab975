from ..spec import *
from .http_utils import (requires_req, REQ, FORM, METHOD, PATH, URL, IP, RLINE, SSL, RLEN, LINEMAX, field, sent, start, server, nothing_sent)

NROUTES, HANDLERS, FILTERS, MATCHERS, MAXR, TABLE = 0, 8, 8 + 1024, 8 + 2048, 128, 8 + 3072
MTYPE, MPREFIX, MPARAM, MSIZE, PREFIXMAX, PARAMMAX = 0, 4, 260, 324, 256, 64
CONST, PARAM = 1, 2
FORMMAX = 2 ** 40 - 2 ** 33


class Routes:
    def __init__(self, c, v):
        self.c, self.v = c, v
        self.g = c.glob('routing_table')
        self.n = v.i32(self.g, NROUTES)
        self.k = z3.Int('?k')

    def e(self, k):
        if isinstance(k, int):
            return 8 * k
        self.c.ex.efact(8, k) if not z3.is_const(k) or str(k)[0] != '?' else None
        return T.Emul(8)(I(k))

    def handler(self, k):
        return self.v.p(self.g, add(HANDLERS, self.e(k)))

    def filter(self, k):
        return self.v.p(self.g, add(FILTERS, self.e(k)))

    def matcher(self, k):
        return self.v.p(self.g, add(MATCHERS, self.e(k)))

    def type(self, k):
        return self.v.i32(self.matcher(k), MTYPE)

    def prefix(self, k):
        m = self.matcher(k)
        return self.v.a8(m.o), add(m.f, MPREFIX)

    def param(self, k):
        m = self.matcher(k)
        return self.v.a8(m.o), add(m.f, MPARAM)

    def forall(self, hi, f):
        k, e = self.k, T.Emul(8)
        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < I(hi)), z3.And(B(f(k)), e(k) == 8 * k)), patterns=[e(k)])

    def ok(self):
        """the table is in order: what every operation on it keeps"""
        def one(k):
            m = self.matcher(k)
            pl, ql = slenA(*self.prefix(k)), slenA(*self.param(k))
            return And(Not(eq(m.o, 0)), self.v.live(m.o), eq(m.f, 0), T.oheap(I(m.o)), Not(T.oro(I(m.o))), ge(T.osize(I(m.o)), MSIZE), le(0, pl), lt(pl, PREFIXMAX), le(0, ql), lt(ql, PARAMMAX), Or(gt(ql, 0), T.sel(self.param(k)[0], I(self.param(k)[1])) == 0),
                       Not(eq(self.handler(k).o, 0)), Not(eq(m.o, self.g.o)))
        return And(le(0, self.n), le(self.n, MAXR), self.forall(self.n, one))

    def apart(self):
        k, l = z3.Int('?k'), z3.Int('?l')
        a = self.matcher(k).o
        b = z3.substitute(a, (k, l))
        e = T.Emul(8)
        return z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k < l, l < I(self.n)), a != b), patterns=[z3.MultiPattern(e(k), e(l))])


def record(ex, st, f, vals, result):
    """an application function is called with the request: what it sees is recorded"""
    v = View(ex, st)
    req = vals[0]
    n = st.g['cb.n']
    form = v.p(req, FORM)
    st.g['cb.f'] = ex._c(z3.Const('g.cb.f!%d' % ex.n, T.ASort)) if False else T.put(st.g['cb.f'], I(n), I(f.o))
    st.g['cb.q'] = T.put(st.g['cb.q'], I(n), I(req.o))
    if result is not None:
        st.g['cb.r'] = T.put(st.g['cb.r'], I(n), I(result))
    st.g['cb.form.A'] = v.a8(form.o)
    st.g['cb.form.f'] = I(form.f)
    st.g['cb.n'] = add(n, 1)
    # it may answer the request
    st.g['out.n'] = ex.fint('g.out.n')
    ex.fact(st.g['out.n'] >= 0)
    st.g['out.a'] = ex._c(z3.Const('g.out.a!%d' % ex.n, T.ASort))
    ex.region(st, '32', req.o, add(req.f, RLEN), add(req.f, RLEN + 4), 'cb')


def app_callback(ex, st, f, vals, ins):
    """an application handler or filter: it may answer the request, and leaves the request and the table as they are (assumed)"""
    ex.prove(st, Not(eq(f.o, 0)), 'the function called is not null', ex.safety, 'memory')
    rt = ins.a[0]
    if rt[0] == 'v':
        record(ex, st, f, vals, None)
        return None
    r = ex.fbool('cb')
    record(ex, st, f, vals, If(r, 1, 0))
    return r


@contract('router_init', tags=['C06'], safety=['C06'])
def router_init(c):
    R = Routes(c, c.S)
    c.modifies('32', R.g, NROUTES, NROUTES + 4)
    yield
    c.ensures(eq(Routes(c, c.T).n, 0), 'no route is registered')


def brace(v, t):
    return cidx(v.a8(t.o), t.f, 123)


def requires_template(c, t, m=None):
    S = c.S
    n = S.slen(t)
    c.requires_str(t, 'template', 1024)
    A = S.a8(t.o)
    c.requires(all_in(A, t.f, add(t.f, n), lambda x: x > 0), 'the template is ASCII text')
    return A, n, brace(S, t)


@contract('router_resolve_route', tags=['C08'], safety=['C08'])
def router_resolve_route(c):
    t, m = c.args
    S = c.S
    A, n, k = requires_template(c, t)
    c.requires_buf(m, MSIZE, 'matcher')
    c.separate(t, m)
    c.requires(And(lt(k, n), lt(k, PREFIXMAX), lt(sub(sub(n, 2), k), PARAMMAX)), 'the parts of the template fit')
    c.modifies('8', m, add(m.f, MPREFIX), add(m.f, MSIZE))
    c.allocates()
    scan(c, 'fixed', t, lambda x: z3.And(x != 123, x != 0))
    c.loop('pos', lambda lv: [('same place %s %s' % (v, w), lambda l, v=v, w=w: eq(l.var(v).f, l.iv(w)) if isinstance(l.var(v), Ptr) else False)
                              for v in lv.ptrvars() for w in lv.intvars()])
    c.loop('copied', lambda lv: [('passed text %s' % v, lambda l, v=v: all_in(A, t.f, add(t.f, l.iv(v)), lambda x: z3.And(x != 123, x != 0))) for v in lv.intvars()])
    yield
    v = c.T
    resolved(c, v.a8(m.o), m.f, A, t.f, n, k)


def resolved(c, M, f, A, tf, n, k, cond=True):
    q = If(gt(sub(sub(n, 2), k), 0), sub(sub(n, 2), k), 0)
    c.ensures(Imp(cond, And(eq(slenA(M, add(f, MPREFIX)), k), eqn(M, add(f, MPREFIX), A, tf, k))), 'the fixed part is the text before the brace')
    c.ensures(Imp(cond, And(eq(slenA(M, add(f, MPARAM)), q), eqn(M, add(f, MPARAM), A, add(tf, add(k, 1)), q))), 'the name is the text between the braces')


@contract('router_extract_param', tags=['C08'], safety=['C08', 'C01'], helper=True)
def router_extract_param(c):
    path, m = c.args
    S = c.S
    c.requires_str(path, 'path', BIG)
    c.requires_buf(m, MSIZE, 'matcher', writable=False)
    A = S.a8(m.o)
    pl, ql = slenA(A, add(m.f, MPREFIX)), slenA(A, add(m.f, MPARAM))
    c.requires(And(le(0, pl), lt(pl, PREFIXMAX), le(0, ql), lt(ql, PARAMMAX)), 'the matcher is in order')
    c.requires(le(pl, S.slen(path)), 'the fixed part is not longer than the path')
    c.allocates()
    n = S.slen(path)
    yield
    fresh_string(c)
    c.ensures(text(c.T, c.ret, [(A, add(m.f, MPARAM), ql), b'=', (S.a8(path.o), add(path.f, pl), sub(n, pl))]), 'NAME=VALUE')


@contract('router_add_route', tags=['C06', 'C08'], safety=['C06', 'C08'])
def router_add_route(c):
    t, h, f = c.args
    S = c.S
    R = Routes(c, S)
    A, n, k = requires_template(c, t)
    hasp = lt(k, n)
    c.requires(Or(And(hasp, lt(k, PREFIXMAX), lt(sub(sub(n, 2), k), PARAMMAX)), And(Not(hasp), lt(n, PREFIXMAX))), 'the template fits')
    c.requires(Not(isnull(h)), 'there is a handler')
    c.requires(And(R.ok(), R.apart()), 'the table is in order')
    c.requires(Not(eq(t.o, R.g.o)), 'the template is not part of the table')
    full = ge(R.n, MAXR)
    e = R.e(R.n)
    c.modifies('32', R.g, NROUTES, NROUTES + 4)
    for b in (HANDLERS, FILTERS, MATCHERS):
        c.modifies('P', R.g, add(b, e), add(add(b, e), 8))
    c.allocates()
    yield
    W = Routes(c, c.T)
    c.ensures(eq(W.n, If(full, R.n, add(R.n, 1))), 'one more route, unless the table is full')
    m = W.matcher(R.n)
    c.ensures(Imp(Not(full), And(eq(W.handler(R.n), h), eq(W.filter(R.n), f))), 'the route has its handler and filter')
    c.ensures(Imp(Not(full), eq(W.type(R.n), If(hasp, PARAM, CONST))), 'a brace makes a parametric route')
    M = c.T.a8(m.o)
    cond = And(Not(full), Not(hasp))
    c.ensures(Imp(cond, And(eq(slenA(M, add(m.f, MPREFIX)), n), eqn(M, add(m.f, MPREFIX), A, t.f, n))), 'a plain route is its template')
    c.ensures(Imp(cond, And(eq(T.sel(M, I(add(m.f, MPARAM))), 0), eq(slenA(M, add(m.f, MPARAM)), 0))), 'a plain route has no parameter')
    resolved(c, M, m.f, A, t.f, n, k, And(Not(full), hasp))
    c.ensures(W.ok(), 'the table is in order')
    c.ensures(W.apart(), 'no matcher is shared')


@contract('free_routing_table', tags=['C06'], safety=['C06'])
def free_routing_table(c):
    S = c.S
    R = Routes(c, S)
    c.requires(And(R.ok(), R.apart()), 'the table is in order')
    c.modifies('V', lambda o: Not(R.forall(R.n, lambda k: Not(eq(R.matcher(k).o, o)))))

    def tm(lv):
        return [('rest lives %s' % v, lambda l, v=v: (lambda k, e: z3.ForAll([k], z3.Implies(z3.And(I(l.iv(v)) <= k, k < I(R.n)), z3.And(B(l.live(R.matcher(k).o)), e(k) == 8 * k)), patterns=[e(k)]))(
            R.k, T.Emul(8))) for v in lv.intvars()]
    c.loop('free', tm)
    yield


def request_text(c, S, req):
    """METHOD:PATH as an array of its own (a definition), and its length"""
    m, p = S.p(req, METHOD), S.p(req, PATH)
    ml, pl = S.slen(m), S.slen(p)
    X = c.ex._c(z3.Const('methodpath!%d' % c.ex.n, T.ASort))
    c.ex.fact(And(T.eqn(X, z3.IntVal(0), S.a8(m.o), I(m.f), I(ml)), T.sel(X, I(ml)) == 58, eqn(X, add(ml, 1), S.a8(p.o), p.f, pl), T.sel(X, I(add(ml, add(pl, 1)))) == 0))
    return X, add(ml, add(pl, 1))


def requires_routed(c, req):
    S = c.S
    R = Routes(c, S)
    requires_req(c, req)
    c.requires(And(field(S, req, METHOD), field(S, req, PATH), field(S, req, URL), field(S, req, FORM, FORMMAX)), 'method, path, URL and form are strings')
    c.requires(Not(eq(req.o, R.g.o)), 'the request is not part of the table')
    c.requires(R.ok(), 'the routing table is in order')
    c.requires(R.forall(R.n, lambda k: Not(eq(R.matcher(k).o, req.o))), 'no route is part of the request')
    return R


def router_post(c, req, R, S):
    """what dispatching a request does"""
    X, xl = request_text(c, S, req)

    def matches(k):
        A, f = R.prefix(k)
        L = slenA(A, f)
        return Or(And(eq(R.type(k), CONST), eq(L, xl), eqn(X, 0, A, f, L)), And(eq(R.type(k), PARAM), lt(L, xl), eqn(X, 0, A, f, L)))
    none = lambda hi: R.forall(hi, lambda k: Not(matches(k)))
    fm = c.ex.fint('route', 0, MAXR)
    return X, xl, matches, none, fm


def routed(ex, st, vals):
    if ex.top.contract.name == 'handle_api_request':
        p = View(ex, st).p(vals[0], FORM)
        st.g['rt.n'], st.g['rt.o'], st.g['rt.f'], st.g['rt.A'] = I(add(st.g['rt.n'], 1)), I(p.o), I(p.f), ex.named(st, ex.rd(st, '8', p.o))


@contract('router_handle_request', tags=['C06', 'C07', 'C08'], safety=['C06', 'C08', 'C01'], callback=app_callback, before=routed)
def router_handle_request(c):
    req, = c.args
    S = c.S
    R = requires_routed(c, req)
    c.modifies('P', req, add(req.f, FORM), add(req.f, FORM + 8))
    c.modifies('32', req, add(req.f, RLEN), add(req.f, RLEN + 4))
    ghosts(c, 'out', 'cb')
    c.allocates()
    X, xl, matches, none, fm = router_post(c, req, R, S)
    c.loop('routes', lambda lv: [('none before %s' % v, lambda l, v=v: none(l.iv(v))) for v in lv.intvars()])
    yield
    v = c.T
    # the first matching route (a definition: it exists or there is none)
    c.ex.assume(c.st, And(le(0, fm), le(fm, R.n), none(fm), Or(eq(fm, R.n), matches(fm))))
    c.ex.efact(8, fm)
    found = lt(fm, R.n)
    n0, n1 = S.g('cb.n'), v.g('cb.n')
    F_, Q, Res = v.g('cb.f'), v.g('cb.q'), v.g('cb.r')
    h, f = R.handler(fm), R.filter(fm)
    c.ensures(Imp(Not(found), eq(n1, n0)), 'no route: nothing is called', tags=['C06'])
    c.ensures(Imp(Not(found), sent(S, v, start(400), server(c), b'Content-Length: 0\r\n\r\n')), 'no route: 400 Bad Request', tags=['C06'])
    called = lambda i, p: And(T.sel(F_, I(add(n0, i))) == I(p.o), T.sel(Q, I(add(n0, i))) == I(req.o))
    nof = And(found, eq(f.o, 0))
    filt = And(found, Not(eq(f.o, 0)))
    yes = T.sel(Res, I(n0)) != 0
    c.ensures(Imp(nof, And(eq(n1, add(n0, 1)), called(0, h))), 'the handler of the first matching route is called, and nothing else', tags=['C06', 'C07'])
    c.ensures(Imp(filt, called(0, f)), 'its filter is called first', tags=['C07'])
    c.ensures(Imp(And(filt, yes), And(eq(n1, add(n0, 2)), called(1, h))), 'and its handler if the filter agrees, and nothing else', tags=['C06', 'C07'])
    c.ensures(Imp(And(filt, Not(yes)), eq(n1, add(n0, 1))), 'and nothing else if it does not', tags=['C06', 'C07'])
    par = And(found, eq(R.type(fm), PARAM))
    old = S.p(req, FORM)
    O, ol = S.a8(old.o), S.slen(old)
    PA, pf = R.param(fm)
    ql = slenA(PA, pf)
    L = slenA(*R.prefix(fm))
    val = [(PA, pf, ql), b'=', (X, L, sub(xl, L))]

    def form_is(segs):
        A, off = v.g('cb.form.A'), v.g('cb.form.f')
        cs = []
        f0 = off
        for s in segs:
            if isinstance(s, bytes):
                for i, ch in enumerate(s):
                    cs.append(T.sel(A, I(add(off, i))) == ch)
                off = add(off, len(s))
            else:
                cs.append(eqn(A, off, *s))
                off = add(off, s[2])
        cs.append(eq(slenA(A, f0), sub(off, f0)))
        return And(*cs)
    c.ensures(Imp(And(par, eq(ol, 0)), form_is(val)), 'the parameter becomes the form', tags=['C08'])
    c.ensures(Imp(And(par, gt(ol, 0)), form_is([(O, old.f, ol), b'&'] + val)), 'the parameter is added to the form', tags=['C08'])
    c.ensures(Imp(And(found, Not(par)), And(eq(v.g('cb.form.f'), old.f), form_is([(O, old.f, ol)]))), 'a plain route leaves the form', tags=['C08'])
    nf = v.p(req, FORM)
    c.ensures(And(v.isstr(nf)), 'the form is a string afterwards')
