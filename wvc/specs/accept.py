"""One connection from its first byte to its end (C01, C05, C13, C14, C20, C25)."""
from ..spec import *
from .http_utils import *
from .static import static_config
from .connections import requires_fd, requires_tables, modifies_table, table, rules, snapshots, same_slot, fa, MAXC
from .router import Routes
from .body import received
from .string_utils import texts

SESSIONSIZE, IPKEPT, MOUNT, WORD, LINESIZE = 64, 24, b'/api', 254, 1024
SESSIONS, COOKIE, PROXY, LENGTH = (b'X-Session:', b'Authorization:'), b'Cookie: WSSESSION=', b'X-Real-IP:', b'Content-Length:'
METHODS = (b'GET', b'POST', b'PUT', b'DELETE')
POINTERS = (SSL, FORM, METHOD, URL, PATH, QUERY, USER, SESSION, RLINE)


def lead(A, f, lit):
    """the text at (A, f) starts with lit, ignoring case"""
    return And(*[T.lower(T.sel(A, I(add(f, i)))) == (ch + 32 if 65 <= ch <= 90 else ch) for i, ch in enumerate(lit)])


def reading(ex, st, vals):
    """the first line read is the request line; all are read for the same request and into the same buffer"""
    if ex.top.contract.name == 'accept_request':
        ex.intake.setdefault('req', vals[0])
        ex.intake.setdefault('buf', vals[1])


def took(ex, st, vals, ret):
    """the first line is the request line; the others say what the session, the address and the length are"""
    if ex.top.contract.name != 'accept_request':
        return
    it, g = ex.intake, st.g
    v = View(ex, st)
    buf = vals[1]
    if 'line' not in it:
        n0 = ex.pre.g['in.n']
        ex.prove(st, eq(sub(g['in.n'], ret), n0), 'the first line is read first', frozenset(['C20', 'C25']), 'ensures')
        it['line'] = RequestLine(v.a8(buf.o), buf.f)
        # no header line yet: no session, the address is that of the connection, no length
        g['rx.p'], g['rx.own'], g['rx.k'], g['rx.len'] = z3.BoolVal(False), z3.BoolVal(True), 0, -1
        return
    p, A, f = g['rx.p'], g['rx.A'], buf.f
    ex.prove(st, Imp(p, Not(over(g, f))), 'nothing is read after the end of the headers', frozenset(['C25', 'C14']), 'ensures')
    n = slenA(A, f)
    after = lambda k, most=None: (T.text(A, I(add(f, k)), I(sub(n, k) if most is None else If(lt(sub(n, k), most), sub(n, k), most))))
    colon = add(cidx(A, f, 58), 1)
    given = And(p, Or(*[lead(A, f, h) for h in SESSIONS]))
    t1 = after(colon, SESSIONSIZE - 1)
    k = If(given, T.trl(t1), g['rx.k'])
    cookie = And(p, lead(A, f, COOKIE), eq(k, 0), lt(sub(n, len(COOKIE)), SESSIONSIZE))
    t2 = after(len(COOKIE))
    proxy = And(p, lead(A, f, PROXY))
    t3 = after(len(PROXY))
    k3 = If(lt(T.trl(t3), IPKEPT), T.trl(t3), IPKEPT)
    ite = lambda c, x, y: z3.If(B(c), x, y)
    g['rx.t'] = (ite(cookie, T.tr(t2), ite(given, T.tr(t1), g['rx.t'])))
    g['rx.k'] = If(cookie, T.trl(t2), k)
    g['rx.own'] = B(And(g['rx.own'], Not(proxy)))
    g['rx.at'], g['rx.ak'] = ite(proxy, T.cut(T.tr(t3), I(k3)), g['rx.at']), If(proxy, k3, g['rx.ak'])
    g['rx.len'] = If(And(p, lead(A, f, LENGTH)), T.atoi(A, I(add(f, len(LENGTH)))), g['rx.len'])
    g['rx.p'], g['rx.A'], g['rx.r'] = z3.BoolVal(True), v.a8(buf.o), ret


def over(g, f):
    """the line read last ends the headers: it is empty, or the peer stopped"""
    A, f = g['rx.A'], I(f)
    c = lambda k: T.sel(A, f + k)
    return Or(le(g['rx.r'], 0), And(c(0) == 10, c(1) == 0), And(c(0) == 13, c(1) == 10, c(2) == 0))


def holds(v, p, n, t):
    """the string at p is the text t of length n"""
    A = v.a8(p.o)
    return And(v.isstr(p), eq(slenA(A, p.f), n), Or(eq(n, 0), T.text(A, I(p.f), I(n)) == t))


def address(ex, v, g, p):
    A = v.a8(p.o)
    n = slenA(g['na.A'], 0)
    return And(Imp(g['rx.own'], And(eq(slenA(A, p.f), n), eqn(A, p.f, g['na.A'], 0, n), eq(g['na.v'], g['pn.A']), eq(g['pn.fd'], ex.top.args[0]))),
               Imp(Not(g['rx.own']), And(eq(slenA(A, p.f), g['rx.ak']), Or(eq(g['rx.ak'], 0), T.text(A, I(p.f), I(g['rx.ak'])) == g['rx.at']))))


def arriving(ex, st, vals):
    """what the request carries when it is handed on"""
    if ex.top.contract.name != 'accept_request' or 'buf' not in ex.intake:
        return
    g, v, req = st.g, View(ex, st), vals[0]
    t25 = frozenset(['C25'])
    ex.prove(st, And(g['rx.p'], over(g, ex.intake['buf'].f)), 'all headers were read', frozenset(['C25', 'C14']), 'ensures')
    ex.prove(st, holds(v, v.p(req, SESSION), g['rx.k'], g['rx.t']), 'the session is what its own header lines give', t25, 'ensures')
    ex.prove(st, address(ex, v, g, v.p(req, IP)), 'the address is that of the connection, or what its own header line gives', t25, 'ensures')
    if len(vals) > 1:
        ex.prove(st, eq(vals[1], g['rx.len']), 'the length is the one announced', frozenset(['C14']), 'ensures')


class RequestLine:
    """what the first line asks for: a method, white space, a target"""

    def __init__(self, A, f):
        self.A, self.f = A, f
        i = I(f)
        self.k1 = T.wend(A, i, i + WORD)                    # the method ends
        self.u0 = T.wse(A, self.k1, i + LINESIZE)           # the target begins
        e = self.u0 + WORD
        self.u1 = T.wend(A, self.u0, z3.If(e < i + LINESIZE, e, i + LINESIZE))
        self.method = lambda m: lead(A, f, m)
        self.supported = Or(*[lead(A, f, m) for m in METHODS])
        self.api = And(ge(sub(self.u1, self.u0), len(MOUNT)), lead(A, self.u0, MOUNT))
        self.get = And(lead(A, f, b'GET'), Or(eq(self.k1, i + 3), eq(T.sel(A, i + 3), 0)))


def tails(l, req, n=MAXH):
    """the last byte of every header field is zero"""
    A = l.a8(req.o)
    k, e = z3.Int('?k'), T.Emul(HSIZE)
    z = lambda x: T.sel(A, I(add(req.f, x))) == 0
    return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(z(add(header_name(k), HNAME - 1)), z(add(header_value(k), HVAL - 1)), e(k) == HSIZE * k)), patterns=[e(k)])


@contract('accept_request', tags=['C05', 'C20', 'C25', 'C14'], safety=['C01'], monitors=['connections_mutex'], cost=100, sparse=True, texts=True)
def accept_request(c):
    fd, = c.args
    S = c.S
    ex = c.ex
    requires_fd(c, fd)
    c.requires(eq(S.g('lc.in'), 0), 'the connection is not in the table')
    requires_tables(c)
    R = Routes(c, S)
    c.requires(R.ok(), 'the routing table is in order')
    c.requires(R.forall(R.n, lambda k: And(Not(eq(R.matcher(k).o, table(c, S).o)), Not(eq(R.matcher(k).o, rules(c, S).o)))), 'no route is in a table of connections')
    c.requires(static_config(c, S)[1], 'the configured names are strings')
    on = S.bool(c.glob('WAYUU_SSL_ON'))
    c.requires(Imp(on, Not(isnull(S.p(c.glob('ctx'))))), 'there is an SSL context')
    modifies_table(c)
    ghosts(c, 'na', 'pn', 'rx', 'in', 'cl', 'sn', 'fo', 'fw', 'md', 'ln', 'up', 'pt', 'tf', 'rt', 'out', 'cb')
    c.allocates()
    IO.need(ex)
    texts(c)
    ex.intake = {}

    def tm(lv):
        out = []
        if 'req' not in ex.intake:
            return out
        req, buf = ex.intake['req'], ex.intake['buf']
        W8 = [o for k, o in lv.written if k == '8']
        for i, o in enumerate(W8):
            n = ex.size(o)
            if not same(o, req.o) and isinstance(n, int):
                out.append(('text %d' % i, lambda l, o=o, n=n: And(le(0, slenA(l.a8(o), 0)), lt(slenA(l.a8(o), 0), n))))
        if not any(same(o, req.o) for o in W8):
            q = ex.intake.get('line')
            vs = lv.intvars()
            for w in vs if q else ():
                at = lambda l, w=w: I(add(q.f, l.iv(w)))
                out.append(('method %s' % w, lambda l, at=at: And(I(q.f) <= at(l), at(l) <= q.k1)))
                out.append(('gap %s' % w, lambda l, at=at: And(q.k1 <= at(l), at(l) <= q.u0)))
                out.append(('target %s' % w, lambda l, at=at: And(q.u0 <= at(l), at(l) <= q.u1)))
                for i, o in enumerate(W8):
                    out.append(('method text %d %s' % (i, w), lambda l, o=o, w=w: eqn(l.a8(o), 0, q.A, q.f, l.iv(w))))
                    out.append(('target text %d %s' % (i, w), lambda l, o=o, w=w: eqn(l.a8(o), 0, q.A, q.u0, l.iv(w))))
                for x in vs:
                    if x != w:
                        out.append(('target at %s %s' % (w, x), lambda l, at=at, x=x: at(l) == q.u0 + I(l.iv(x))))
            return out
        for off in POINTERS:
            def kept(l, off=off):
                a, b = l.p(req, off), l.E.p(req, off)
                return And(eq(a.o, b.o), eq(a.f, b.f))
            out.append(('field %d' % off, kept))

        def own(f):
            return lambda l: f(l, l.p(req, IP))

        def text(l, p):
            n = slenA(l.a8(p.o), 0)
            return And(le(0, n), le(n, IPKEPT), lt(n, ex.size(p.o)))
        out.append(('address age', own(lambda l, p: Or(ge(p.o, l.E.st.ctr), eq(p.o, l.E.p(req, IP).o)))))
        for off in (SESSION, RLINE, URL, SSL):
            out.append(('address apart %d' % off, lambda l, off=off: Not(eq(l.p(req, IP).o, l.E.p(req, off).o))))
        out.append(('address apart', lambda l: And(Not(eq(l.p(req, IP).o, req.o)), Not(eq(l.p(req, IP).o, buf.o)))))
        for nm, f in (('block', lambda l, p: And(Not(eq(p.o, 0)), eq(p.f, 0), T.oheap(I(p.o)), Not(T.oro(I(p.o))))), ('lives', lambda l, p: l.live(p.o)), ('text', text)):
            out.append(('address ' + nm, own(f)))
        for off in (SESSION, RLINE, URL, SSL):
            out.append(('lives %d' % off, lambda l, off=off: Imp(l.E.live(l.E.p(req, off).o), l.live(l.E.p(req, off).o))))
        out.append(('request lives', lambda l: l.live(req.o)))
        def session(l):
            p = l.p(req, SESSION)
            n = slenA(l.a8(p.o), p.f)
            return And(le(0, n), lt(n, SESSIONSIZE), T.sel(l.a8(p.o), I(add(p.f, SESSIONSIZE - 1))) == 0)
        out.append(('session', session))
        out.append(('pending', lambda l: Imp(l.g('rx.p'), l.g('rx.A') == l.a8(buf.o))))
        out.append(('session length', lambda l: eq(l.slen(l.p(req, SESSION)), l.g('rx.k'))))
        out.append(('session so far', lambda l: holds(l, l.p(req, SESSION), l.g('rx.k'), l.g('rx.t'))))
        out.append(('address so far', lambda l: address(ex, l, l.st.g, l.p(req, IP))))
        out.append(('tails', lambda l: tails(l, req)))
        for w in lv.intvars():
            out.append(('line %s' % w, lambda l, w=w: And(le(0, l.iv(w)), lt(l.iv(w), 1024), eq(T.sel(l.a8(buf.o), I(add(buf.f, l.iv(w)))), 0))))
            out.append(('pending %s' % w, lambda l, w=w: Imp(l.g('rx.p'), eq(l.iv(w), l.g('rx.r')))))
            out.append(('length %s' % w, lambda l, w=w: eq(l.iv(w), l.g('rx.len'))))
            out.append(('announced %s' % w, lambda l, w=w: And(le(-2 ** 31, l.iv(w)), lt(l.iv(w), 2 ** 31))))
        return out
    c.loop('request', tm)
    yield
    v = c.T
    n0 = S.g('cl.n')
    c.ensures(And(eq(v.g('cl.n'), add(n0, 1)), T.sel(v.g('cl.A'), I(n0)) == I(fd)), 'the descriptor is closed once, and no other')
    c.ensures(eq(v.g('cl.out'), v.g('out.n')), 'nothing is sent after it was closed')
    c.ensures(eq(v.g('lc.in'), 0), 'the connection is not in the table')
    c.ensures(Not(v.g('lk.c')), 'no mutex is held')
    q = ex.intake.get('line')
    if q is None:
        c.ensures(False, 'a request line is read', tags=['C20'])
        return
    t20 = ['C20']
    kept = lambda *gs: And(*[eq(v.g(g), S.g(g)) for g in gs])
    refused = lambda s: sent(S, v, start(s), server(c), b'Content-Length: 0\r\n\r\n')
    routed, files = ('rt.n', 'cb.n'), ('sn.n', 'fo.n', 'fw.n')
    c.ensures(Imp(Not(q.supported), kept(*routed)), 'a method that is not supported reaches no router', tags=t20)
    c.ensures(Imp(Not(q.supported), kept(*files)), 'nor a file', tags=t20)
    c.ensures(Imp(Not(q.supported), refused(400)), 'it is answered 400', tags=t20)
    c.ensures(Imp(And(q.supported, Not(q.api)), kept(*routed)), 'only targets under the mount point reach the router', tags=t20)
    c.ensures(Imp(And(q.supported, Not(q.api), Not(q.get)), kept(*files)), 'other methods reach no static file', tags=t20)
    c.ensures(Imp(And(q.supported, Not(q.api), Not(q.get)), Or(refused(400), refused(429))), 'they are answered 400, or refused', tags=t20)
    c.ensures(Imp(And(q.supported, q.api), Or(eq(v.g('rt.n'), add(S.g('rt.n'), 1)), And(kept(*routed), kept(*files), refused(429)))), 'a target under the mount point is routed once, or refused', tags=t20)
