"""The table of live connections, and the limits on it (C04, C05)."""
from ..spec import *
from .. import monitors as M
from .http_utils import *

MAXC, CS, CPATH, CIP, PATHSZ, IPSZ = 1024, 544, 16, 528, 512, 16
MAXL, LS, LTOTAL, LPERIP = 64, 524, 512, 516
E = T.Emul(CS)
EL = T.Emul(LS)


def sums(ex):
    if 'sums' not in ex._defs:
        ex._defs['sums'] = True
        ex.facts0 += T.tsumfacts()
        if ex.top.contract.opts.get('zerosums'):
            ex.facts0 += T.tsumfacts(True)


def table(c_or_ex, v):
    ex = getattr(c_or_ex, 'ex', c_or_ex)
    return v.p(Ptr(ex.prog.gname('live_connections'), 0))


def rules(c, v):
    ex = getattr(c, 'ex', c)
    return v.p(Ptr(ex.prog.gname('limits'), 0))


def slot(k):
    return E(I(k))


def fa(hi, f, e=E, n=CS, k=None):
    k = z3.Int('?k') if k is None else k
    return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < I(hi)), z3.And(B(f(k)), e(k) == n * k)), patterns=[e(k)])


class Tab:
    """the table as arrays: sockets (32) and texts (8)"""

    def __init__(self, ex, A32, A8):
        self.ex, self.A32, self.A8 = ex, A32, A8

    def sock(self, k):
        return T.sel(self.A32, slot(k))

    def path(self, k):
        return I(slot(k)) + CPATH

    def ip(self, k):
        return I(slot(k)) + CIP

    def wf(self):
        """the texts of used slots are terminated in their place"""
        return fa(MAXC, lambda k: Imp(self.sock(k) != 0, And(le(0, slenA(self.A8, self.path(k))), lt(slenA(self.A8, self.path(k)), PATHSZ),
                                                             le(0, slenA(self.A8, self.ip(k))), lt(slenA(self.A8, self.ip(k)), IPSZ))))

    def under(self, k, pA, pf, pn):
        off = self.path(k)
        return And(self.sock(k) != 0, le(pn, slenA(self.A8, off)), eqi(self.A8, off, pA, pf, pn))

    def of(self, k, iA, if_, in_):
        off = self.ip(k)
        return And(eq(slenA(self.A8, off), in_), eqn(self.A8, off, iA, if_, in_))

    def total(self, pA, pf, pn):
        """marks the connections under a path"""
        sums(self.ex)
        k = z3.Int('?k')
        return self.ex.defarr(k, z3.If(B(self.under(k, pA, pf, pn)), z3.IntVal(1), z3.IntVal(0)))

    def by_ip(self, pA, pf, pn, iA, if_, in_):
        sums(self.ex)
        k = z3.Int('?k')
        return self.ex.defarr(k, z3.If(B(And(self.under(k, pA, pf, pn), self.of(k, iA, if_, in_))), z3.IntVal(1), z3.IntVal(0)))


def tab(c_or_ex, v):
    ex = getattr(c_or_ex, 'ex', c_or_ex)
    t = table(ex, v)
    return Tab(ex, ex.named(v.st, v.arr('32', t.o)), v.a8(t.o))


def table_ok(c, v):
    t = table(c, v)
    return And(Not(isnull(t)), v.live(t.o), eq(t.f, 0), T.oheap(I(t.o)), Not(T.oro(I(t.o))), ge(T.osize(I(t.o)), MAXC * CS))


class Rules:
    def __init__(self, c, v):
        self.p = rules(c, v)
        self.v = v
        self.A8 = v.a8(self.p.o)
        self.A32 = v.ex.named(v.st, v.arr('32', self.p.o))

    def path(self, k):
        return EL(I(k))

    def len(self, k):
        return slenA(self.A8, self.path(k))

    def total(self, k):
        return T.sel(self.A32, EL(I(k)) + LTOTAL)

    def per_ip(self, k):
        return T.sel(self.A32, EL(I(k)) + LPERIP)

    def there(self, k):
        return T.sel(self.A8, self.path(k)) != 0

    def configured(self, k):
        """rule k counts: no rule up to it is empty"""
        j = z3.Int('?j')
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= I(k)), z3.And(self.there(j), EL(j) == LS * j)), patterns=[EL(j)])

    def ok(self):
        p = self.p
        return And(Not(isnull(p)), self.v.live(p.o), eq(p.f, 0), T.oheap(I(p.o)), ge(T.osize(I(p.o)), MAXL * LS),
                   fa(MAXL, lambda k: And(le(0, self.len(k)), lt(self.len(k), PATHSZ)), EL, LS))


def requires_tables(c):
    S = c.S
    t = table(c, S)
    c.requires(table_ok(c, S), 'the table of connections is there')
    R = Rules(c, S)
    c.requires(R.ok(), 'the limits are in order')
    c.separate(t, R.p)
    return R


# the invariant is proved for one rule and one address that stand for all of them
RULE = z3.Int('the.rule')
PEER = z3.Const('the.peer', T.ASort)


def cap(x):
    return z3.If(x > 0, x, z3.IntVal(0))


def within_limits(ex, tb, R):
    """no more connections live under the rule than it allows, in total and from the address"""
    pA, pf, pn = R.A8, R.path(RULE), R.len(RULE)
    ex.efact(LS, RULE)
    tot = T.tsum(tb.total(pA, pf, pn), MAXC)
    per = T.tsum(tb.by_ip(pA, pf, pn, PEER, I(0), slenA(PEER, 0)), MAXC)
    return And(le(0, RULE), lt(RULE, MAXL), slenA(PEER, 0) >= 0), Imp(R.configured(RULE), And(le(tot, cap(R.total(RULE))), le(per, cap(R.per_ip(RULE)))))


def sums_of(tb, R):
    pA, pf, pn = R.A8, R.path(RULE), R.len(RULE)
    return tb.total(pA, pf, pn), tb.by_ip(pA, pf, pn, PEER, I(0), slenA(PEER, 0))


class Connections(M.Monitor):
    mutex, held, tags = 'connections_mutex', 'lk.c', ('C04', 'C05')

    def objs(self, v):
        return [table(v.ex, v).o]

    def acquired(self, ex, st, old, new):
        tb = tab(ex, new)
        me = st.g['me.fd']
        st.g['lc.Q32'], st.g['lc.Q8'] = tb.A32, tb.A8
        ex.assume(st, tb.wf())
        R = Rules(ex, new)
        some, inv = within_limits(ex, tb, R)
        ex.assume(st, some)
        ex.assume(st, inv)
        # the other threads add and remove only their own connections
        w = ex.fint('mine', 0, MAXC - 1)
        ex.efact(CS, w)
        ex.assume(st, If(eq(st.g['lc.in'], 0), fa(MAXC, lambda k: tb.sock(k) != I(me)), And(tb.sock(w) == I(me), fa(MAXC, lambda k: Imp(tb.sock(k) == I(me), k == w)))))

    def publish(self, ex, st, v):
        tg = M.tags(ex, self)
        tb = tab(ex, v)
        ex.prove(st, And(table_ok(ex, v), Rules(ex, v).ok()), 'the tables are there when threads start', tg, 'lock')
        ex.prove(st, fa(MAXC, lambda k: tb.sock(k) == 0), 'the table is empty when threads start', tg, 'lock')
        some, inv = within_limits(ex, tb, Rules(ex, v))
        ex.prove(st, inv, 'no rule is exceeded when threads start', tg, 'lock')

    def release(self, ex, st, v, waiting=False):
        tb = tab(ex, v)
        q = Tab(ex, st.g['lc.Q32'], st.g['lc.Q8'])
        me = I(st.g['me.fd'])
        tg = M.tags(ex, self)
        P = lambda g, n, t=tg: ex.prove(st, g, n, t, 'lock')
        P(tb.wf(), 'the texts of the table are terminated when the mutex is given back')
        others = lambda k: Imp(And(q.sock(k) != 0, q.sock(k) != me), And(tb.sock(k) == q.sock(k), slenA(tb.A8, tb.path(k)) == slenA(q.A8, q.path(k)), slenA(tb.A8, tb.ip(k)) == slenA(q.A8, q.ip(k)),
                                                                         eqn(tb.A8, tb.path(k), q.A8, q.path(k), slenA(q.A8, q.path(k))), eqn(tb.A8, tb.ip(k), q.A8, q.ip(k), slenA(q.A8, q.ip(k)))))
        P(fa(MAXC, others), 'connections of other threads keep their slots')
        P(fa(MAXC, lambda k: Imp(Or(q.sock(k) == 0, q.sock(k) == me), Or(tb.sock(k) == 0, tb.sock(k) == me))), 'a slot is taken for the connection at hand only')
        j, k = z3.Ints('?j ?k')
        P(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < MAXC, E(j) == CS * j, E(k) == CS * k), z3.Not(z3.And(T.sel(tb.A32, E(j)) == me, T.sel(tb.A32, E(k)) == me))),
                    patterns=[z3.MultiPattern(E(j), E(k))]), 'a connection takes one slot only')
        out = ex.fbool('left')
        ex.fact(out == B(fa(MAXC, lambda k: tb.sock(k) != me)))
        st.g['lc.in'] = If(out, 0, 1)
        # the sums of the rule that stands for all: only the slot of this connection can count differently
        w = ex.fint('mine', 0, MAXC - 1)
        ex.efact(CS, w)
        ex.fact(z3.Or(B(out), tb.sock(w) == me))
        R = Rules(ex, v)
        some, inv = within_limits(ex, tb, R)
        for name, Lr, Lq in (('in total', sums_of(tb, R)[0], sums_of(q, R)[0]), ('from the address', sums_of(tb, R)[1], sums_of(q, R)[1])):
            d1, d2 = T.td1(Lq, Lr, MAXC), T.td2(Lq, Lr, MAXC)
            P(fa(MAXC, lambda k: Imp(And(q.sock(k) != 0, q.sock(k) != me), T.sel(Lr, k) == T.sel(Lq, k))), 'the other connections count as before ' + name)
            for d in (d1, d2):
                ex.efact(CS, d)
            P(le(T.tsum(Lr, MAXC), add(T.tsum(Lq, MAXC), If(out, 0, T.sel(Lr, w)))), 'at most this connection is counted in addition ' + name)
        for name, Lr, Lq, mx in (('in total', sums_of(tb, R)[0], sums_of(q, R)[0], R.total(RULE)), ('from the address', sums_of(tb, R)[1], sums_of(q, R)[1], R.per_ip(RULE))):
            P(Imp(And(R.configured(RULE), Not(out), q.sock(w) != me, T.sel(Lr, w) == 1), T.tsum(Lq, MAXC) < cap(mx)), 'a connection is added only where there is room ' + name)
        P(inv, 'no rule is exceeded when the mutex is given back')
        st.g['lc.R32'], st.g['lc.R8'] = tb.A32, tb.A8


M.MONITORS['connections_mutex'] = Connections()


@contract('get_live_stats', tags=['C04'], safety=['C04', 'C01'], monitors=['connections_mutex'])
def get_live_stats(c):
    path, ip, total, by = c.args
    S = c.S
    c.requires(S.g('lk.c'), 'the mutex is held')
    c.requires(table_ok(c, S), 'the table of connections is there')
    tb = tab(c, S)
    c.requires(tb.wf(), 'the table is in order')
    c.requires_str(path, 'path', BIG)
    c.requires_str(ip, 'IP', BIG)
    c.requires_buf(total, 4, 'total')
    c.requires_buf(by, 4, 'by_ip')
    c.separate(total, by)
    t = table(c, S)
    for x in (total, by):
        c.separate(x, t)
        c.requires(And(ge(S.i32(x), 0), le(S.i32(x), 2 ** 20)), 'the counters are small')
        c.modifies('32', x, x.f, add(x.f, 4))
    pA, pn, iA, in_ = S.a8(path.o), S.slen(path), S.a8(ip.o), S.slen(ip)
    L, M_ = tb.total(pA, path.f, pn), tb.by_ip(pA, path.f, pn, iA, ip.f, in_)
    c.loop('count', lambda lv: [('counted %s' % v, lambda l, v=v: And(T.E1(I(l.iv(v))) == I(l.iv(v)), eq(l.i32(total), add(S.i32(total), T.tsum(L, I(l.iv(v))))), eq(l.i32(by), add(S.i32(by), T.tsum(M_, I(l.iv(v)))))))
                                for v in lv.intvars()])
    yield
    c.ensures(eq(c.T.i32(total), add(S.i32(total), T.tsum(L, MAXC))), 'total grows by the number of live connections under the path')
    c.ensures(eq(c.T.i32(by), add(S.i32(by), T.tsum(M_, MAXC))), 'by_ip grows by those from the address')


def admits(c, tb, R, path, ip, S):
    """every configured rule that covers the path has room, in total and for the address"""
    pA, pf, pn = S.a8(path.o), path.f, S.slen(path)
    iA, if_, in_ = S.a8(ip.o), ip.f, S.slen(ip)
    ex = c.ex
    # the marks of each rule, as a family of arrays (a definition)
    ex.n += 1
    FT, FI = z3.Function('under!%d' % ex.n, T.Int, T.ASort), z3.Function('from!%d' % ex.n, T.Int, T.ASort)
    sums(ex)
    i, k = z3.Ints('?i ?k')
    und = lambda i, k: tb.under(k, R.A8, EL(i), slenA(R.A8, EL(i)))
    ex.fact(z3.ForAll([i, k], T.sel(FT(i), k) == z3.If(B(und(i, k)), z3.IntVal(1), z3.IntVal(0)), patterns=[T.sel(FT(i), k)], qid='FT'))
    ex.fact(z3.ForAll([i, k], T.sel(FI(i), k) == z3.If(B(And(und(i, k), tb.of(k, iA, if_, in_))), z3.IntVal(1), z3.IntVal(0)), patterns=[T.sel(FI(i), k)], qid='FI'))

    def room(i):
        covers = And(le(R.len(i), pn), eqi(pA, pf, R.A8, R.path(i), R.len(i)))
        return Imp(covers, And(T.tsum(FT(i), MAXC) < R.total(i), T.tsum(FI(i), MAXC) < R.per_ip(i)))
    return room


def all_room(R, room, hi=MAXL):
    return fa(hi, lambda i: Imp(R.configured(i), room(i)), EL, LS)


@contract('connection_validate', tags=['C04'], safety=['C04', 'C01'], monitors=['connections_mutex'])
def connection_validate(c):
    ip, path = c.args
    S = c.S
    c.requires(S.g('lk.c'), 'the mutex is held')
    R = requires_tables(c)
    tb = tab(c, S)
    c.requires(tb.wf(), 'the table is in order')
    c.requires_str(path, 'path', BIG)
    c.requires_str(ip, 'IP', BIG)
    c.allocates()
    room = admits(c, tb, R, path, ip, S)
    c.loop('rules', lambda lv: [('room before %s' % v, lambda l, v=v: fa(l.iv(v), lambda i: And(R.there(i), room(i)), EL, LS)) for v in lv.intvars()])
    yield
    c.ensures(Iff(c.ret, all_room(R, room)), 'admitted exactly when every rule that covers the path has room')
    # the same for the rule and the address that stand for all
    c.ex.efact(LS, RULE)
    tot, per = sums_of(tb, R)
    n, pn = S.slen(ip), S.slen(path)
    covers = And(le(R.len(RULE), pn), eqi(S.a8(path.o), path.f, R.A8, R.path(RULE), R.len(RULE)))
    cond = And(le(0, RULE), lt(RULE, MAXL), c.ret, R.configured(RULE), covers)
    c.ensures(Imp(cond, T.tsum(tot, MAXC) < R.total(RULE)), 'the rule has room in total if it covers the path')
    c.ensures(Imp(And(cond, eq(slenA(PEER, 0), n), eqn(S.a8(ip.o), ip.f, PEER, 0, n)), T.tsum(per, MAXC) < R.per_ip(RULE)), 'and for the address')


def requires_fd(c, fd):
    """the caller handles this connection and holds no mutex"""
    S = c.S
    c.requires(And(eq(fd, S.g('me.fd')), gt(fd, 0)), 'it is the connection at hand')
    c.requires(Not(S.g('lk.c')), 'the mutex is not held')


def modifies_table(c):
    t = table(c, c.S)
    for k in ('8', '32', '64'):
        c.modifies(k, t)
    ghosts(c, 'lc')
    c.modifies_ghost('lk.c')


def snapshots(c, v):
    """the table when the mutex was taken, and when it was given back"""
    return Tab(c.ex, v.g('lc.Q32'), v.g('lc.Q8')), Tab(c.ex, v.g('lc.R32'), v.g('lc.R8'))


def same_slot(q, r, k):
    return And(q.sock(k) == r.sock(k), Imp(q.sock(k) != 0, And(slenA(r.A8, r.path(k)) == slenA(q.A8, q.path(k)), slenA(r.A8, r.ip(k)) == slenA(q.A8, q.ip(k)),
               eqn(r.A8, r.path(k), q.A8, q.path(k), slenA(q.A8, q.path(k))), eqn(r.A8, r.ip(k), q.A8, q.ip(k), slenA(q.A8, q.ip(k))))))


@contract('connection_add', tags=['C04', 'C05'], safety=['C04', 'C05', 'C01'], monitors=['connections_mutex'])
def connection_add(c):
    fd, ip, path = c.args
    S = c.S
    requires_fd(c, fd)
    c.requires(eq(S.g('lc.in'), 0), 'the connection is not in the table')
    R = requires_tables(c)
    t = table(c, S)
    for x, n, what in ((path, PATHSZ, 'path'), (ip, IPSZ, 'IP')):
        c.requires_str(x, what, n - 1)
        c.separate(x, t)
    modifies_table(c)
    c.allocates()
    c.loop('full', lambda lv: [('used before %s' % v, lambda l, v=v: fa(l.iv(v), lambda k: Not(eq(tab(c, l).sock(k), 0)))) for v in lv.intvars()])
    yield
    v = c.T
    q, r = snapshots(c, v)
    room = admits(c, q, R, path, ip, S)
    free = Not(fa(MAXC, lambda k: q.sock(k) != 0))
    c.ensures(Iff(c.ret, And(all_room(R, room), free)), 'added exactly when every rule has room and a slot is free', tags=['C04'])
    c.ensures(eq(v.g('lc.in'), If(c.ret, 1, 0)), 'it is in the table exactly when it was added')
    A, n, B_, m = S.a8(path.o), S.slen(path), S.a8(ip.o), S.slen(ip)
    me = I(fd)
    c.ensures(Imp(c.ret, fa(MAXC, lambda k: If(r.sock(k) == me, And(q.sock(k) == 0, eq(slenA(r.A8, r.path(k)), n), eqn(r.A8, r.path(k), A, path.f, n),
                                                                   eq(slenA(r.A8, r.ip(k)), m), eqn(r.A8, r.ip(k), B_, ip.f, m)), same_slot(q, r, k)))),
              'it takes one free slot with its path and address', tags=['C04', 'C05'])
    c.ensures(Imp(Not(c.ret), fa(MAXC, lambda k: same_slot(q, r, k))), 'the table is as it was if it was not added', tags=['C04', 'C05'])
    c.ensures(Not(v.g('lk.c')), 'the mutex is given back')


@contract('connection_del', tags=['C04', 'C05'], safety=['C04', 'C05', 'C01'], monitors=['connections_mutex'])
def connection_del(c):
    fd, = c.args
    S = c.S
    requires_fd(c, fd)
    requires_tables(c)
    modifies_table(c)
    c.loop('other', lambda lv: [('others before %s' % v, lambda l, v=v: fa(l.iv(v), lambda k: Not(eq(tab(c, l).sock(k), fd)))) for v in lv.intvars()])
    yield
    v = c.T
    q, r = snapshots(c, v)
    c.ensures(eq(v.g('lc.in'), 0), 'the connection is not in the table')
    c.ensures(fa(MAXC, lambda k: If(q.sock(k) == I(fd), r.sock(k) == 0, same_slot(q, r, k))), 'its slot is free, the others are as they were')
    c.ensures(Not(v.g('lk.c')), 'the mutex is given back')


@contract('connection_close', tags=['C05'], safety=['C05', 'C01'], monitors=['connections_mutex'])
def connection_close(c):
    req, = c.args
    S = c.S
    c.requires_buf(req, REQ, 'request')
    t = table(c, S)
    c.separate(req, t)
    fd = S.i32(req, SOCKET)
    requires_fd(c, fd)
    requires_tables(c)
    ssl = S.p(req, SSL)
    on = S.bool(c.glob('WAYUU_SSL_ON'))
    c.requires(Imp(on, And(Not(isnull(ssl)), S.live(ssl.o))), 'the SSL connection is there')
    c.requires(Not(eq(ssl.o, req.o)), 'the SSL connection is not the request')
    c.requires(And(Not(eq(ssl.o, t.o)), Not(eq(ssl.o, rules(c, S).o))), 'the SSL connection is not a table')
    c.modifies('V', lambda o: And(on, eq(o, ssl.o)))
    modifies_table(c)
    ghosts(c, 'cl')
    yield
    v = c.T
    n0 = S.g('cl.n')
    c.ensures(And(eq(v.g('cl.n'), add(n0, 1)), T.sel(v.g('cl.A'), I(n0)) == I(fd)), 'the descriptor is closed once, and no other')
    c.ensures(eq(v.g('cl.out'), v.g('out.n')), 'nothing is sent after it was closed')
    c.ensures(eq(v.g('lc.in'), 0), 'the connection is not in the table')
    q, r = snapshots(c, v)
    c.ensures(fa(MAXC, lambda k: If(q.sock(k) == I(fd), r.sock(k) == 0, same_slot(q, r, k))), 'its slot is free, the others are as they were')
    c.ensures(Not(v.g('lk.c')), 'no mutex is held')
