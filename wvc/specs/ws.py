from ..spec import *
from .http_utils import *
from .file_utils import listed, PATHMAX
from .connections import table, rules, modifies_table
from .queue import Queue


def gstr(c, v, name):
    p = c.glob(name)
    n = v.slen(p)
    return p, n, And(le(0, n), lt(n, c.ex.size(p.o)))


def listname(c, v, name, suffix):
    """the global holds the root folder and the suffix"""
    r = c.glob('WAYUU_WS_ROOT')
    return text(v, c.glob(name), [(v.a8(r.o), r.f, v.slen(r)), suffix])


def lists_named(c, v):
    return And(listname(c, v, 'WAYUU_WS_ALLOW', b'/etc/allow'), listname(c, v, 'WAYUU_WS_DENY', b'/etc/deny'))


def roots(c, v):
    """the folder names are strings in their buffers; the list names are not made yet or are those of the root folder"""
    r, n, ok = gstr(c, v, 'WAYUU_WS_ROOT')
    a = c.glob('WAYUU_WS_ALLOW')
    return And(ok, Or(And(eq(v.ch(a), 0)), lists_named(c, v)))


def decided(ex, st, vals, ret):
    """the decision is recorded for the acceptor"""
    g, ip = st.g, vals[0]
    g['al.n'] = I(add(g['al.n'], 1))
    g['al.r'], g['al.A'], g['al.f'] = B(ret), ex.named(st, ex.rd(st, '8', ip.o)), I(ip.f)


@contract('allowed_address', tags=['C03'], safety=['C03'], after=decided)
def allowed_address(c):
    ip, = c.args
    S = c.S
    c.requires_str(ip, 'address', PATHMAX)
    c.requires(roots(c, S), 'the configured names are in order')
    allow, deny, root = c.glob('WAYUU_WS_ALLOW'), c.glob('WAYUU_WS_DENY'), c.glob('WAYUU_WS_ROOT')
    c.separate(ip, allow)
    c.separate(ip, deny)
    c.modifies('8', allow, 0, c.ex.size(allow.o))
    c.modifies('8', deny, 0, c.ex.size(deny.o))
    ghosts(c, 'sn', 'fo', 'ln')
    c.allocates()
    IO.need(c.ex)
    yield
    v = c.T
    c.ensures(lists_named(c, v), 'the lists are etc/allow and etc/deny of the root folder')
    ia, id_ = IO.fid(v.a8(allow.o), I(0)), IO.fid(v.a8(deny.o), I(0))
    A, n = S.a8(ip.o), S.slen(ip)
    ina, ind = listed(c, ia, A, ip.f, n)[2], listed(c, id_, A, ip.f, n)[2]
    c.ensures(Iff(c.ret, z3.And(z3.Not(ind), z3.Or(z3.Not(IO.regular(ia)), ina))), 'served exactly when not denied and either allowed or there is no allow list')


def dealt(g):
    """the accepted connection was queued if its address is allowed and the queue had room, and closed otherwise"""
    queued = And(eq(g['q.inn'], add(g['ac.q'], 1)), T.sel(g['q.in'], I(g['ac.q'])) == I(g['ac.fd']), eq(g['cl.n'], g['ac.c']))
    closed = And(eq(g['q.inn'], g['ac.q']), eq(g['cl.n'], add(g['ac.c'], 1)), T.sel(g['cl.A'], I(g['ac.c'])) == I(g['ac.fd']))
    n = slenA(g['na.A'], 0)
    asked_ = And(eq(g['al.n'], 1), eq(g['na.v'], g['ac.A']), eq(slenA(g['al.A'], g['al.f']), n), eqn(g['al.A'], g['al.f'], g['na.A'], 0, n))
    return [('its address is looked up in the lists', asked_), ('it is queued only if its address is allowed', Imp(Not(g['al.r']), closed)),
            ('it is queued if its address is allowed and there is room', Imp(And(g['al.r'], g['q.room']), queued)), ('it is closed if there is no room', Imp(And(g['al.r'], Not(g['q.room'])), closed))]


def all_dealt(g):
    return [(n, Or(eq(g['ac.n'], 0), f)) for n, f in dealt(g)]


def accepting(ex, st):
    tg = {'its address is looked up in the lists': {'C03'}, 'it is queued only if its address is allowed': {'C03', 'C19'}}
    for n, f in all_dealt(st.g):
        ex.prove(st, f, 'before the next connection: ' + n, frozenset(tg.get(n, {'C19'})) & ex.all_tags, 'ensures')


@contract('ws_launch', tags=['C03', 'C04', 'C05', 'C18', 'C19'], safety=['C19'], monitors=['connections_mutex', 'ws_mutex'], queue='put', zerosums=True, accepting=accepting, cost=300)
def ws_launch(c):
    port, addr, handler = c.args
    S = c.S
    c.requires_str(addr, 'address', PATHMAX)
    c.requires(roots(c, S), 'the configured names are in order')
    c.requires(And(Not(S.g('lk.q')), Not(S.g('lk.c')), Not(S.g('lk.s'))), 'no mutex is held and no thread runs')
    c.requires(And(eq(S.g('ac.n'), 0), eq(S.g('q.inn'), 0), eq(S.g('q.outn'), 0), eq(S.g('cl.n'), 0), eq(S.g('lc.in'), 0)), 'nothing was accepted yet')
    c.requires(le(S.i32(c.glob('LEVEL')), 5), 'fatal messages are not switched off')
    sh = c.glob('socket_handler')
    c.requires(Or(Not(isnull(S.p(sh))), Not(isnull(handler))), 'there is a handler')
    for g in ('socket_handler', 'live_connections', 'limits', 'ws_threads_queue', 'ctx'):
        c.modifies('P', c.glob(g), 0, 8)
    for g in ('WAYUU_WS_ALLOW', 'WAYUU_WS_DENY', 'WAYUU_WS_LIMITS'):
        c.modifies('8', c.glob(g), 0, c.ex.size(c.glob(g).o))
        c.separate(addr, c.glob(g))
    ghosts(c, 'sn', 'fo', 'ln', 'tok', 'q', 'ac', 'na', 'al', 'cl', 'lk', 'lc')
    c.allocates()
    IO.need(c.ex)
    c.loop('accept', lambda lv: [('queue', lambda l: Queue(c.ex, l).there()), ('free', lambda l: And(Not(l.g('lk.q')), Not(l.g('lk.c')))), ('names', lambda l: roots(c, l)),
                                 ('handler', lambda l: Not(isnull(l.p(sh))))] +
           [(n, lambda l, i=i: all_dealt(l.st.g)[i][1]) for i, (n, f) in enumerate(all_dealt(c.S.st.g))])
    yield
