from ..spec import *
from .string_utils import pairwise, A_at, texts, joined, JOIN_LEN
from .json_utils import need

KEY, VALUE, MULTI, NMULTI, ITEM, MAXMULTI = 0, 8, 16, 176, 204, 20
LINE = BIG


def stripped(A, a, b):
    """(offset, length) of the text [a, b) of A without the white space around it"""
    s = T.wse(A, I(a), I(b))
    return s, T.rte(A, s, I(b)) - s


def own(c, v, p, lo):
    """a heap block made by the function"""
    return And(ge(p.o, lo), eq(p.f, 0), v.live(p.o), T.oheap(I(p.o)), Not(T.oro(I(p.o))))


def copy_of(v, p, A, f, n):
    return And(v.isstr(p), eq(v.slen(p), n), eqn(v.a8(p.o), p.f, A, f, n))


def first(c):
    return c.ex.ctr0 if c.mode == 'verify' else c.pre.ctr


def releasable(c, v, p):
    """what free_conf_item can release: nothing, an empty string, or a heap block"""
    return Or(eq(p.o, 0), And(v.isstr(p), Or(eq(v.ch(p), 0), And(eq(p.f, 0), T.oheap(I(p.o)), v.live(p.o)))))


@contract('new_conf_item', tags=['C16'], safety=['C16'])
def new_conf_item(c):
    c.allocates()
    yield
    c.ensures_fresh(minsize=184)
    v, r = c.T, c.ret
    c.ensures(And(*[And(v.isstr(v.p(r, f)), eq(v.slen(v.p(r, f)), 0)) for f in (KEY, VALUE)]), 'key and value are empty')
    c.ensures(eq(v.i32(r, NMULTI), 0), 'there are no further values')


def parsed(c, v, r, A, f, n, k):
    """item r holds the key and the value of the line"""
    lo = first(c)
    kp, vp = v.p(r, KEY), v.p(r, VALUE)
    return And(copy_of(v, kp, A, *stripped(A, f, add(f, k))), copy_of(v, vp, A, *stripped(A, add(f, add(k, 1)), add(f, n))))


@contract('conf_parse_first_pass', tags=['C16'], safety=['C16'])
def conf_parse_first_pass(c):
    line, = c.args
    S = c.S
    n = S.slen(line)
    c.requires_str(line, 'line', LINE)
    c.allocates()
    A = S.a8(line.o)
    k = cidx(A, line.f, 61)
    yield
    r, v = c.ret, c.T
    c.ensures(Iff(eq(r.o, 0), Not(lt(k, n))), 'no item exactly when the line has no delimiter')
    some = Not(eq(r.o, 0))
    c.ensures(Imp(some, And(own(c, v, r, first(c)), ge(c.ex.size(r.o), 184))), 'the item is a block of its own')
    kp, vp = v.p(r, KEY), v.p(r, VALUE)
    lo = first(c)
    c.ensures(Imp(some, And(*[And(releasable(c, v, p), Not(eq(p.o, r.o)), Not(eq(p.o, 0)), Or(eq(v.ch(p), 0), own(c, v, p, lo))) for p in (kp, vp)], Or(eq(v.ch(kp), 0), Not(eq(kp.o, vp.o))))),
              'key and value are blocks of their own, or empty')
    c.ensures(Imp(some, copy_of(v, kp, A, *stripped(A, line.f, add(line.f, k)))), 'the key is the text before the first delimiter, trimmed')
    c.ensures(Imp(some, copy_of(v, vp, A, *stripped(A, add(line.f, add(k, 1)), add(line.f, n)))), 'the value is the text after the first delimiter, trimmed')
    c.ensures(Imp(some, eq(v.i32(r, NMULTI), 0)), 'there are no further values')


def values_set(c):
    return CharSet(c.ex, c.st, c.glob('MULTI_DELIM'), 'values')


def value_is(cs, A, f):
    def isval(B_, k):
        t = T.text(A, I(cs.start(A, f, k)), I(cs.toklen(A, f, k)))
        return And(eq(slenA(B_, 0), T.trl(t)), T.text(B_, I(0), T.trl(t)) == T.tr(t))
    return isval


def values_of(c, v, item, A, f):
    """(values of the item, is there a part k, is the string the trimmed part k) for the value text (A, f)"""
    texts(c)
    cs = values_set(c)
    return StrList(v, Ptr(item.o, 0), off=add(item.f, MULTI)), lambda k: A_at(A, cs.start(A, f, k)), value_is(cs, A, f)


@contract('conf_parse_multi', tags=['C16'], safety=['C16'], cost=50, texts=True)
def conf_parse_multi(c):
    item, = c.args
    S = c.S
    c.requires_buf(item, 184, 'item')
    val = S.p(item, VALUE)
    c.requires(And(S.isstr(val), le(S.slen(val), BIG), Not(eq(val.o, item.o))), 'the value is a string')
    c.modifies('P', item, add(item.f, MULTI), add(item.f, NMULTI))
    c.modifies('32', item, add(item.f, NMULTI), add(item.f, NMULTI + 4))
    c.allocates()
    ghosts(c, 'tok')
    A, f, n = S.a8(val.o), val.f, S.slen(val)
    texts(c)
    cs = values_set(c)
    start = lambda k: cs.start(A, f, k)
    tlen = lambda k: cs.toklen(A, f, k)
    E8 = T.Emul(8)
    there = Defined(c, 'there', [z3.IntSort()], lambda k: A_at(A, start(k)))
    isval = value_is(cs, A, f)

    def elements(v, SL, n, lo, others=()):
        def one(k):
            p = SL.at(k)
            return And(own(c, v, p, lo), Not(eq(p.o, item.o)), *[Not(eq(p.o, o)) for o in others])
        return SL.forall(0, n, one)

    def values(v, SL, n):
        return SL.forall(0, n, lambda k: isval(v.a8(SL.at(k).o), k))

    def unfold(l, SL, i):
        for k in (i, sub(i, 1)):
            there.unfold(k)

    def tm(lv):
        out = []
        SL = lambda l: StrList(l, Ptr(item.o, 0), off=add(item.f, MULTI))
        copies = [o for k, o in lv.written if k == '8']
        for v in lv.intvars():
            # values stored so far: as many as counted, or one more while there is a token at hand
            ways = [('%s' % v, lambda l, v=v: l.iv(v))]
            for w in lv.modptrs():
                ways.append(('%s and %s' % (v, w), lambda l, v=v, w=w: If(And(Not(eq(l.var(w).o, 0)), lt(l.iv(v), MAXMULTI)), add(l.iv(v), 1), l.iv(v))))
                out.append(('token %s %s' % (v, w), lambda l, v=v, w=w: Iff(eq(l.var(w).o, 0), Not(A_at(A, start(l.iv(v)))))))
                for cp in copies:
                    def text_(l, v=v, w=w, cp=cp):
                        p, i = l.var(w), l.iv(v)
                        m = tlen(i)
                        return Imp(Not(eq(p.o, 0)), And(eq(p.o, cp), eq(p.f, sub(start(i), f)), eqn(l.a8(cp), p.f, A, start(i), m), eq(slenA(l.a8(cp), p.f), m)))
                    out.append(('token text %s %s' % (v, w), text_))
            for cp in copies:
                def rest(l, v=v, cp=cp):
                    i = l.iv(v)
                    l.ex.efact(8, i)
                    so, sf = l.g('tok.o'), l.g('tok.f')
                    r = cs.rest(A, f, add(i, 1))
                    return And(eq(E8(I(i)), mul(8, i)), le(start(i), add(f, n)), Imp(A_at(A, start(i)), And(eq(so, cp), eq(sub(r, f), sf), ge(sf, 0), le(sf, n), ge(slenA(l.a8(cp), sf), 0),
                               eqn(l.a8(cp), sf, A, r, sub(add(n, 1), sf)))))
                out.append(('rest %s' % v, rest))
            for nm, i_ in ways:
                def found(l, i_=i_, v=v):
                    unfold(l, SL(l), l.iv(v))
                    return SL(l).forall(0, i_(l), there)
                out.append(('found ' + nm, found))
                out.append(('apart ' + nm, lambda l, i_=i_: pairwise(SL(l), i_(l))))
                out.append(('blocks ' + nm, lambda l, i_=i_: elements(l, SL(l), i_(l), first(c), copies)))
                out.append(('text ' + nm, lambda l, i_=i_: values(l, SL(l), i_(l))))
        return out
    c.loop('values', tm)
    yield
    v = c.T
    m = v.i32(item, NMULTI)
    SL = StrList(v, Ptr(item.o, 0), off=add(item.f, MULTI))
    c.ensures(And(le(0, m), le(m, MAXMULTI)), 'never more values than the item holds')
    there.unfold(m)
    c.ensures(And(SL.forall(0, m, there), Or(eq(m, MAXMULTI), Not(there(m)))), 'as many values as there are parts')
    c.ensures(pairwise(SL, m), 'no value is shared')
    c.ensures(elements(v, SL, m, first(c)), 'each value is a block of its own')
    c.ensures(values(v, SL, m), 'each value is the part in its place, trimmed')


def item_in_order(c, S, item, empty_ok=True):
    """key, value and further values of an item are strings; returns its values"""
    kp, vp, n = S.p(item, KEY), S.p(item, VALUE), S.i32(item, NMULTI)
    c.requires(And(le(0, n), le(n, MAXMULTI)), 'there are not more values than the item holds')
    c.requires(And(S.isstr(kp), le(S.slen(kp), JOIN_LEN), S.isstr(vp), le(S.slen(vp), JOIN_LEN)), 'key and value are strings')
    arr = Ptr(item.o, add(item.f, MULTI))
    SL = StrList(S, arr)
    c.requires(SL.strings(n, JOIN_LEN), 'the values are strings')
    need(c.ex, 'cat of equal arrays', 'cat grows')
    return kp, vp, n, SL


@contract('conf_item_to_string', tags=['C16'], safety=['C16'])
def conf_item_to_string(c):
    item, = c.args
    S = c.S
    c.requires_buf(item, 184, 'item', writable=False)
    kp, vp, n, SL = item_in_order(c, S, item)
    c.allocates()
    yield
    c.ensures_fresh(minsize=1)
    r, v = c.ret, c.T
    m = v.slen(r)
    kl = S.slen(kp)
    key = (S.a8(kp.o), kp.f, kl)
    J = v.a8(r.o)
    last = sub(n, 1)
    T.Emul(8)(I(last))
    none = eq(SL.at(0).o, 0)
    c.ensures(And(le(0, m), lt(m, c.ex.size(r.o))), 'the result is terminated in its buffer')
    c.ensures(Imp(eq(n, 0), text(v, r, [key, b'=', (S.a8(vp.o), vp.f, S.slen(vp))])), 'an item with one value prints as KEY=VALUE')
    c.ensures(Imp(gt(n, 0), And(eqn(J, 0, *key), eq(v.ch(r, kl), 61))), 'an item with several values prints its key first')
    c.ensures(Imp(And(gt(n, 0), Not(none)), eq(m, add(add(kl, 1), add(SL.pos(last, 1), If(ge(SL.len(last), 0), SL.len(last), 0))))), 'the length is that of the key, the values and the commas')
    c.ensures(Imp(And(gt(n, 0), Not(none)), joined(J, add(kl, 1), SL, n, 0, b',', 1, last)), 'then each value and comma in its place')


NFLAGS = 10


def flags_in_order(c, S, flags):
    n = S.i32(flags, 160)
    c.requires_buf(flags, 168, 'flags', writable=False)
    c.requires(And(le(0, n), le(n, NFLAGS)), 'there are not more flags than the list holds')
    SL = StrList(S, flags, stride=16)
    c.requires(SL.strings(n, JOIN_LEN, null=False), 'the flags have keys')
    return SL, n


@contract('get_key_flag', tags=['C16'], safety=['C16'])
def get_key_flag(c):
    key, flags = c.args
    S = c.S
    c.requires_str(key, 'key', BIG)
    SL, n = flags_in_order(c, S, flags)
    A, m = S.a8(key.o), S.slen(key)

    def is_it(k):
        p = SL.at(k)
        return And(eq(SL.len(k), m), eqn(S.a8(p.o), p.f, A, key.f, m))
    none = lambda hi: SL.forall(0, hi, lambda k: Not(is_it(k)))
    first = c.ex.fint('first', 0, NFLAGS)
    if c.mode == 'verify':
        c.loop('flags', lambda lv: [('none before %s' % v, lambda l, v=v: none(l.iv(v))) for v in lv.intvars()])
    c.ex.efact(16, first)
    yield
    c.ex.assume(c.st, And(le(0, first), le(first, n), none(first), Or(eq(first, n), is_it(first))))
    rp, rm = c.ret.xs
    at = SL.at(first)
    c.ensures(If(lt(first, n), eq(rp, at), eq(rp.o, 0)), 'the first flag with that key, or none')
    mb = norm(S.arr('8', flags.o).get(add(flags.f, add(T.Emul(16)(first), 8))))
    c.ensures(Iff(Not(eq(rm, 0)), And(lt(first, n), Not(eq(mb, 0)))), 'with its mark')


def heap(v, p):
    return And(v.live(p.o), eq(p.f, 0), T.oheap(I(p.o)), Not(eq(p.o, 0)))


def item_releasable(c, S, item):
    kp, vp, n = S.p(item, KEY), S.p(item, VALUE), S.i32(item, NMULTI)
    SL = StrList(S, item, off=MULTI)
    owned = lambda p: And(Not(eq(p.o, 0)), Not(eq(S.ch(p), 0)))
    c.requires(And(heap(S, item), S.valid(item, 184)), 'the item is a heap block')
    c.requires(And(releasable(c, S, kp), releasable(c, S, vp), Not(eq(kp.o, item.o)), Not(eq(vp.o, item.o)), Or(eq(kp.o, 0), eq(S.ch(kp), 0), Not(eq(kp.o, vp.o)))),
               'key and value are empty or heap blocks of their own')
    c.requires(le(n, MAXMULTI), 'there are not more values than the item holds')
    c.requires(And(SL.forall(0, n, lambda k: And(heap(S, SL.at(k)), Not(eq(SL.at(k).o, item.o)), Not(eq(SL.at(k).o, kp.o)), Not(eq(SL.at(k).o, vp.o)))), pairwise(SL, n)), 'the values are heap blocks of their own')
    return kp, vp, n, SL, owned


@contract('free_conf_item', tags=['C16'], safety=['C16'])
def free_conf_item(c):
    item, = c.args
    S = c.S
    kp, vp, n, SL, owned = item_releasable(c, S, item)
    c.modifies('V', item.o)
    c.modifies('V', lambda o: Or(And(eq(o, kp.o), owned(kp)), And(eq(o, vp.o), owned(vp)), Not(SL.forall(0, n, lambda k: Not(eq(SL.at(k).o, o))))))

    def tm(lv):
        out = []
        for v in lv.intvars():
            out.append(('rest lives %s' % v, lambda l, v=v: SL.forall(l.iv(v), n, lambda k: l.live(SL.at(k).o))))
            out.append(('done is gone %s' % v, lambda l, v=v: SL.forall(0, l.iv(v), lambda k: Not(l.live(SL.at(k).o)))))
            out.append(('key is gone', lambda l: And(Imp(owned(kp), Not(l.live(kp.o))), Imp(owned(vp), Not(l.live(vp.o))))))
            out.append(('key lives', lambda l: And(Or(eq(kp.o, 0), l.live(kp.o)), Or(eq(vp.o, 0), l.live(vp.o)))))
        out.append(('item lives', lambda l: l.live(item.o)))
        return out
    c.loop('free', tm)
    yield
    c.ensures(And(Not(c.T.live(item.o)), Imp(owned(kp), Not(c.T.live(kp.o))), Imp(owned(vp), Not(c.T.live(vp.o))), SL.forall(0, n, lambda k: Not(c.T.live(SL.at(k).o)))),
              'the item and what it owns are released')


@contract('conf_parse_line', tags=['C16'], safety=['C16'], texts=True)
def conf_parse_line(c):
    line, is_multi = c.args
    S = c.S
    n = S.slen(line)
    c.requires_str(line, 'line', LINE)
    c.allocates()
    ghosts(c, 'tok')
    A = S.a8(line.o)
    k = cidx(A, line.f, 61)
    yield
    r, v = c.ret, c.T
    lo = first(c)
    c.ensures(Iff(eq(r.o, 0), Not(lt(k, n))), 'no item exactly when the line has no delimiter')
    some = Not(eq(r.o, 0))
    c.ensures(Imp(some, And(own(c, v, r, lo), ge(c.ex.size(r.o), 184))), 'the item is a block of its own')
    kp, vp = v.p(r, KEY), v.p(r, VALUE)
    c.ensures(Imp(some, copy_of(v, kp, A, *stripped(A, line.f, add(line.f, k)))), 'the key is the text before the first delimiter, trimmed')
    c.ensures(Imp(some, copy_of(v, vp, A, *stripped(A, add(line.f, add(k, 1)), add(line.f, n)))), 'the value is the text after the first delimiter, trimmed')
    m = v.i32(r, NMULTI)
    SL, there, isval = values_of(c, v, r, v.a8(vp.o), vp.f)
    c.ensures(Imp(And(some, Not(is_multi)), eq(m, 0)), 'a line with one value has no further values')
    c.ensures(Imp(And(some, is_multi), And(le(0, m), le(m, MAXMULTI), SL.forall(0, m, there), Or(eq(m, MAXMULTI), Not(there(m))))), 'as many values as there are parts')
    c.ensures(Imp(And(some, is_multi), And(pairwise(SL, m), SL.forall(0, m, lambda k: own(c, v, SL.at(k), lo)))), 'each value is a block of its own')
    c.ensures(Imp(And(some, is_multi), SL.forall(0, m, lambda k: isval(v.a8(SL.at(k).o), k))), 'each value is the part in its place, trimmed')
