"""The queue of accepted connections (C19)."""
from ..spec import *
from .. import monitors as M
from .http_utils import *
from .connections import requires_tables, table, rules, CS, fa

QCAP, QSIZE, QFRONT, QREAR, QELEM, QS = 0, 4, 8, 12, 16, 24
E4 = T.Emul(4)
MAXQ = 2 ** 20


class Queue:
    def __init__(self, ex, v):
        self.ex, self.v = ex, v
        self.p = v.p(Ptr(ex.prog.gname('ws_threads_queue'), 0))
        self.el = v.p(self.p, QELEM)

    def fld(self, off):
        return self.v.i32(self.p, off)

    cap = property(lambda s: s.fld(QCAP))
    size = property(lambda s: s.fld(QSIZE))
    front = property(lambda s: s.fld(QFRONT))
    rear = property(lambda s: s.fld(QREAR))

    def there(self):
        p, e, v = self.p, self.el, self.v
        return And(Not(isnull(p)), v.live(p.o), eq(p.f, 0), T.oheap(I(p.o)), Not(T.oro(I(p.o))), ge(T.osize(I(p.o)), QS),
                   Not(isnull(e)), v.live(e.o), eq(e.f, 0), T.oheap(I(e.o)), Not(T.oro(I(e.o))), le(1, self.cap), le(self.cap, MAXQ), ge(T.osize(I(e.o)), mul(4, self.cap)), Not(eq(p.o, e.o)))

    def ok(self, g):
        """the queue holds the connections put in and not yet taken, in order"""
        n, f, s, r = self.cap, self.front, self.size, self.rear
        A = self.v.ex.named(self.v.st, self.v.arr('32', self.el.o))
        k = z3.Int('?k')
        at = z3.If(I(f) <= k, k - I(f), k - I(f) + I(n))       # k-th place: so many after the front
        last = add(f, sub(s, 1))
        return And(le(0, s), le(s, n), le(0, f), lt(f, n), eq(s, sub(g['q.inn'], g['q.outn'])), ge(g['q.outn'], 0),
                   Or(eq(r, If(lt(last, n), last, sub(last, n))), And(eq(last, -1), eq(r, sub(n, 1)))),
                   z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < I(n), at < I(s)), z3.And(T.sel(A, E4(k)) == T.sel(g['q.in'], I(g['q.outn']) + at), E4(k) == 4 * k)), patterns=[E4(k)]))


class WorkQueue(M.Monitor):
    mutex, held, tags = 'ws_mutex', 'lk.q', ('C19',)

    def objs(self, v):
        q = Queue(v.ex, v)
        return [q.p.o, q.el.o]

    def role(self, ex):
        return ex.top.contract.opts.get('queue')

    def acquired(self, ex, st, old, new):
        g = st.g
        role = self.role(ex)
        n0, m0, A0 = g['q.inn'], g['q.outn'], g['q.in']
        if role == 'put':
            # only the acceptor puts connections in
            m = ex.fint('q.outn')
            ex.fact(m >= I(m0))
            g['q.outn'] = m
        else:
            n, m, A = ex.fint('q.inn'), ex.fint('q.outn'), ex.farr('q.in')
            ex.assume(st, And(n >= I(n0), m >= I(m0), T.eqn(A, z3.IntVal(0), A0, z3.IntVal(0), I(n0))))
            g['q.inn'], g['q.outn'], g['q.in'] = n, m, A
        q, o = Queue(ex, new), Queue(ex, old)
        ex.assume(st, And(eq(q.cap, o.cap), q.ok(g)))
        g['q.room'] = B(lt(q.size, q.cap))
        g['q.n'] = I(q.cap)

    def release(self, ex, st, v, waiting=False):
        g = st.g
        tg = M.tags(ex, self)
        role = None if waiting else self.role(ex)
        if role == 'take':
            g['tk.n'] = add(g['tk.n'], 1)
            g['tk.fd'] = T.sel(g['q.in'], I(g['q.outn']))
            ex.prove(st, lt(g['q.outn'], g['q.inn']), 'a connection is taken only if one waits', tg, 'lock')
            g['q.outn'] = add(g['q.outn'], 1)
        if role == 'put':
            n, room = g['q.inn'], g['q.room']
            g['q.in'] = z3.If(B(room), T.put(g['q.in'], I(n), I(g['ac.fd'])), g['q.in'])
            g['q.inn'] = add(n, If(room, 1, 0))
        q = Queue(ex, v)
        ex.prove(st, And(eq(q.cap, g['q.n']), q.there()), 'the queue keeps its capacity', tg, 'lock')
        ex.prove(st, q.ok(g), 'the queue holds what was put in and not yet taken, in order, when the mutex is given back', tg, 'lock')

    def publish(self, ex, st, v):
        g = st.g
        q = Queue(ex, v)
        tg = M.tags(ex, self)
        ex.prove(st, q.there(), 'the queue is there when threads start', tg, 'lock')
        ex.prove(st, q.ok(g), 'the queue is empty when threads start', tg, 'lock')


M.MONITORS['ws_mutex'] = WorkQueue()


def modifies_queue(c):
    q = Queue(c.ex, c.S)
    for k in ('8', '32', '64'):
        c.modifies(k, q.p)
        c.modifies(k, q.el)
    ghosts(c, 'q')
    c.modifies_ghost('lk.q')


@contract('ws_create_queue', tags=['C19'], safety=['C19'])
def ws_create_queue(c):
    n, = c.args
    c.requires(And(le(1, n), le(n, MAXQ)), 'the capacity is sane')
    c.allocates()
    yield
    c.ensures_fresh(minsize=QS)
    v = c.T
    p = c.ret
    e = v.p(p, QELEM)
    c.ensures(And(eq(v.i32(p, QCAP), n), eq(v.i32(p, QSIZE), 0), eq(v.i32(p, QFRONT), 0), Or(eq(v.i32(p, QREAR), -1), eq(v.i32(p, QREAR), sub(n, 1)))), 'the queue is empty')
    c.ensures(And(ge(e.o, c.S.st.ctr), Not(eq(e.o, p.o)), v.live(e.o), eq(e.f, 0), T.oheap(I(e.o)), Not(T.oro(I(e.o))), ge(T.osize(I(e.o)), mul(4, n))), 'it has room for as many connections')


@contract('ws_queue_get', tags=['C19'], safety=['C19', 'C01'], monitors=['ws_mutex'], queue='take')
def ws_queue_get(c):
    S = c.S
    q = Queue(c.ex, S)
    c.requires(Not(S.g('lk.q')), 'the mutex is not held')
    c.requires(q.there(), 'the queue is there')
    c.requires(eq(S.g('tk.n'), S.g('hd.n')), 'the connection taken before was handled')
    if c.mode == 'verify':
        c.ex.add_distinct(q.p.o, q.el.o)
    modifies_queue(c)
    c.modifies_ghost('tk.n', 'tk.fd')
    c.allocates()
    c.loop('wait', lambda lv: [('order', lambda l: And(l.g('lk.q'), Queue(c.ex, l).there(), Queue(c.ex, l).ok(l.st.g))), ('capacity', lambda l: eq(l.g('q.n'), Queue(c.ex, l).cap))])
    yield
    v = c.T
    c.ensures(And(eq(v.g('tk.n'), add(S.g('tk.n'), 1)), eq(c.ret, v.g('tk.fd'))), 'it returns the first waiting connection, which is taken from the queue')
    c.ensures(Not(v.g('lk.q')), 'the mutex is given back')
    c.ensures(Queue(c.ex, v).there(), 'the queue is still there')


def handled(ex, st, p, vals, ins):
    g = st.g
    tg = frozenset(['C19']) & ex.all_tags
    ex.prove(st, Not(eq(p.o, 0)), 'there is a handler', ex.safety, 'memory')
    ex.prove(st, And(eq(vals[0], g['tk.fd']), eq(g['tk.n'], add(g['hd.n'], 1))), 'each connection taken is handled once', tg, 'ensures')
    g['hd.n'] = add(g['hd.n'], 1)
    return None


@contract('ws_connection_handler', tags=['C19'], safety=['C19'], callback=handled, monitors=['ws_mutex'])
def ws_connection_handler(c):
    S = c.S
    q = Queue(c.ex, S)
    c.requires(And(Not(S.g('lk.q')), q.there(), eq(S.g('tk.n'), S.g('hd.n'))), 'the queue is there')
    c.requires(Not(isnull(S.p(c.glob('socket_handler')))), 'there is a handler')
    if c.mode == 'verify':
        c.ex.add_distinct(q.p.o, q.el.o)
    modifies_queue(c)
    ghosts(c, 'tk')
    c.allocates()
    c.loop('handled', lambda lv: [('all handled', lambda l: And(eq(l.g('tk.n'), l.g('hd.n')), Not(l.g('lk.q')))), ('queue', lambda l: Queue(c.ex, l).there())])
    yield
    c.ensures(eq(c.T.g('tk.n'), c.T.g('hd.n')), 'every connection taken was handled')
