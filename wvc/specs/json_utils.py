from ..spec import *
from .string_utils import joined, JOIN_N, JOIN_LEN

SERMAX = 65536
serA = z3.Function('serA', z3.IntSort(), z3.IntSort(), z3.IntSort(), T.ASort)    # text an application serializer produces for an element
serL = z3.Function('serL', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())


def need(ex, *names):
    """loads optional lemmas of the theory"""
    for nm, vs, body, pats, ind in T.optional_lemmas():
        if nm in names and nm not in ex._defs:
            ex._defs[nm] = True
            ex.facts0.append(z3.ForAll(vs, body, patterns=pats))


def serializer(ex, st, f, vals, ins):
    """an application serializer: a heap string that depends on the element only, no other effect (assumed)"""
    e = vals[0]
    o = ex.newobj(st, None, True, 'ser')
    A = T.sel
    L = serL(I(f.o), I(e.o), I(e.f))
    arr = View(ex, st).a8(o)
    ex.assume(st, And(ge(L, 0), le(L, SERMAX), gt(T.osize(o), L), T.eqn(arr, z3.IntVal(0), serA(I(f.o), I(e.o), I(e.f)), z3.IntVal(0), L), eq(T.slen(arr, z3.IntVal(0)), L)))
    return Ptr(o, 0)


def keyed(c, segs):
    fresh_string(c)
    c.ensures(text(c.T, c.ret, segs), 'the text is the key and value with their punctuation')


@contract('json_key_value', tags=['C17'], safety=['C17'])
def json_key_value(c):
    k, v = c.args
    S = c.S
    c.requires_str(k, 'key', BIG)
    c.requires(Or(isnull(v), And(S.isstr(v), le(S.slen(v), BIG))), 'value is null or a string')
    c.allocates()
    yield
    fresh_string(c)
    K = (S.a8(k.o), k.f, S.slen(k))
    nv = isnull(v)
    if nv is not False:
        c.ensures(Imp(nv, text(c.T, c.ret, [b'"', K, b'":""'])), 'a missing value gives the empty string')
    if nv is not True:
        c.ensures(Imp(Not(nv), text(c.T, c.ret, [b'"', K, b'":"', (S.a8(v.o), v.f, S.slen(v)), b'"'])), 'the text is the key and value with their punctuation')


@contract('json_key_value_int', tags=['C17'], safety=['C17'])
def json_key_value_int(c):
    k, v = c.args
    S = c.S
    c.requires_str(k, 'key', BIG)
    c.allocates()
    yield
    keyed(c, [b'"', (S.a8(k.o), k.f, S.slen(k)), b'":', ('dec', v)])


@contract('json_key_value_uint32_t', tags=['C17'], safety=['C17'])
def json_key_value_uint32_t(c):
    k, v = c.args
    S = c.S
    c.requires_str(k, 'key', BIG)
    c.allocates()
    yield
    keyed(c, [b'"', (S.a8(k.o), k.f, S.slen(k)), b'":', ('dec', c.ex.uns(v, 32))])


@contract('json_key_value_bool', tags=['C17'], safety=['C17'])
def json_key_value_bool(c):
    k, v = c.args
    S = c.S
    c.requires_str(k, 'key', BIG)
    c.allocates()
    yield
    fresh_string(c)
    t = v if z3.is_expr(v) and z3.is_bool(v) or isinstance(v, bool) else c.ex.tobool(v)
    K = (S.a8(k.o), k.f, S.slen(k))
    c.ensures(Imp(t, text(c.T, c.ret, [b'"', K, b'":true'])), 'true')
    c.ensures(Imp(Not(t), text(c.T, c.ret, [b'"', K, b'":false'])), 'false')


@contract('json_array_of_strings', tags=['C17'], safety=['C17'])
def json_array_of_strings(c):
    arr, n = c.args
    S = c.S
    SL = StrList(S, arr)
    c.requires(Or(isnull(arr), And(le(n, JOIN_N), Or(le(n, 0), S.valid(arr, mul(8, n))), SL.strings(n, JOIN_LEN))), 'array holds null pointers or strings')
    c.allocates()
    Q = lambda k: SL.pos(k, 0)
    P = lambda k: SL.pos(k, 3)
    need(c.ex, 'cat grows')

    def tm(lv):
        out = []
        for v in lv.intvars():
            out.append(('positive %s' % v, lambda l, v=v: le(0, Q(l.iv(v)))))
            for w in lv.intvars():
                if w != v:
                    out.append(('sum %s %s' % (v, w), lambda l, v=v, w=w: eq(sub(l.iv(v), l.E.iv(v)), Q(l.iv(w)))))
                    out.append(('bound %s %s' % (v, w), lambda l, v=v, w=w: le(sub(l.iv(v), l.E.iv(v)), mul(JOIN_LEN, l.iv(w)))))
        return out
    c.loop('sum', tm)
    yield
    fresh_string(c)
    r = c.ret
    J = c.T.a8(r.o)
    none = Or(isnull(arr), le(n, 0))
    c.ensures(Imp(none, text(c.T, r, [b'[]'])), 'no array gives the empty array')
    last = sub(n, 1)
    c.ex.efact(8, last)
    c.ex.efact(8, 0)
    first = SL.at(0)
    total = If(eq(first.o, 0), 0, add(P(last), If(ge(SL.len(last), 0), SL.len(last), 0)))
    at = lambda i, ch: T.sel(J, I(i)) == ch
    c.ensures(Imp(Not(none), And(at(0, 91), at(1, 34), at(add(total, 2), 34), at(add(total, 3), 93), eq(c.T.slen(r), add(total, 4)))), 'brackets and quotes around the strings')
    c.ensures(Imp(And(Not(none), Not(eq(first.o, 0))), joined(J, 2, SL, n, 0, b'","', 3, last)), 'the strings in order, separated')


class IntList:
    def __init__(self, view, arr):
        self.v, self.arr = view, stripptr(arr)
        self.k = k = z3.Int('?k')
        self.L = view.ex.defarr(k, T.declen(I(self.at(k))))

    def at(self, k):
        e = T.Emul(4)(I(k)) if not isinstance(k, int) else 4 * k
        return self.v.i32(self.arr, e)

    def len(self, k):
        return T.sel(self.L, I(k))

    def pos(self, k):
        return T.catpos(self.L, z3.IntVal(1), I(k))

    def placed(self, J, j0, hi, last):
        k = self.k
        e = T.Emul(4)
        c = z3.And(T.eqn(J, I(j0) + self.pos(k), T.decat(I(self.at(k))), z3.IntVal(0), self.len(k)), B(Imp(lt(k, last), T.sel(J, I(j0) + self.pos(k) + self.len(k)) == 44)),
                   B(True if same(hi, add(last, 1)) else le(add(self.pos(k), add(self.len(k), If(lt(k, last), 1, 0))), self.pos(hi))), e(k) == 4 * k)
        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < I(hi)), c), patterns=[e(k)])


@contract('json_array_of_ints', tags=['C17'], safety=['C17'])
def json_array_of_ints(c):
    arr, n = c.args
    S = c.S
    c.requires(Or(isnull(arr), And(le(n, JOIN_N), Or(le(n, 0), S.valid(arr, mul(4, n))))), 'array holds its elements')
    c.allocates()
    IL = IntList(S, arr)
    last = sub(n, 1)
    end = lambda i: If(lt(i, n), IL.pos(i), add(IL.pos(last), IL.len(last)))

    def tm(lv):
        out = []
        for v in lv.intvars():
            out.append(('bound %s' % v, lambda l, v=v: And(le(IL.pos(l.iv(v)), mul(12, l.iv(v))), le(0, IL.pos(l.iv(v))))))
            for kk, o in lv.written:
                if kk == '8':
                    out.append(('length %s' % v, lambda l, o=o, v=v: eq(slenA(l.a8(o), 0), add(1, end(l.iv(v))))))
                    out.append(('opened %s' % v, lambda l, o=o: T.sel(l.a8(o), z3.IntVal(0)) == 91))
                    out.append(('placed %s' % v, lambda l, o=o, v=v: IL.placed(l.a8(o), 1, l.iv(v), last)))
        return out
    c.loop('ints', tm)
    yield
    fresh_string(c)
    r = c.ret
    J = c.T.a8(r.o)
    none = Or(isnull(arr), le(n, 0))
    c.ex.efact(4, last)
    c.ensures(Imp(none, text(c.T, r, [b'[]'])), 'no array gives the empty array')
    total = add(IL.pos(last), IL.len(last))
    at = lambda i, ch: T.sel(J, I(i)) == ch
    c.ensures(Imp(Not(none), And(at(0, 91), at(add(total, 1), 93), eq(c.T.slen(r), add(total, 2)))), 'brackets around the numbers')
    c.ensures(Imp(Not(none), IL.placed(J, 1, n, last)), 'the numbers in order, separated')


class SerList:
    """the texts of the elements of a json_list_t"""

    def __init__(self, view, lst):
        self.v = view
        self.n = view.i32(lst, 0)
        self.f = view.p(lst, 8)
        self.e = stripptr(view.p(lst, 16))
        self.k = k = z3.Int('?k')
        p = self.elem(k)
        self.L = view.ex.defarr(k, serL(I(self.f.o), I(p.o), I(p.f)))

    def elem(self, k):
        e = T.Emul(8)(I(k)) if not isinstance(k, int) else 8 * k
        return self.v.p(self.e, e)

    def text(self, k):
        p = self.elem(k)
        return serA(I(self.f.o), I(p.o), I(p.f))

    def len(self, k):
        return T.sel(self.L, I(k))

    def pos(self, k):
        return T.catpos(self.L, z3.IntVal(1), I(k))

    def forall(self, lo, hi, f):
        k = self.k
        e = T.Emul(8)
        return z3.ForAll([k], z3.Implies(z3.And(I(lo) <= k, k < I(hi)), z3.And(B(f(k)), e(k) == 8 * k)), patterns=[e(k)])


def entities_ensures(c, S, lst, J, j0):
    """(length, text) of the JSON array of the elements, standing at J, j0"""
    SE = SerList(S, lst)
    last = sub(SE.n, 1)
    c.ex.efact(8, last)
    total = add(SE.pos(last), SE.len(last))
    at = lambda i, ch: T.sel(J, I(add(j0, i))) == ch
    some = gt(SE.n, 0)
    return [Imp(eq(SE.n, 0), And(at(0, 91), at(1, 93))), Imp(some, And(at(0, 91), at(add(total, 1), 93))),
            Imp(some, SE.forall(0, SE.n, lambda k: le(0, SE.len(k)))),
            Imp(some, SE.forall(0, SE.n, lambda k: eqn(J, add(add(j0, 1), SE.pos(k)), SE.text(k), 0, SE.len(k)))),
            Imp(some, SE.forall(0, last, lambda k: at(add(add(1, SE.pos(k)), SE.len(k)), 44)))], If(some, add(total, 2), 2)


def requires_list(c, lst):
    S = c.S
    n = S.i32(lst, 0)
    f, e = S.p(lst, 8), S.p(lst, 16)
    need(c.ex, 'cat of equal arrays', 'cat grows')
    c.requires(And(le(0, n), le(n, JOIN_N), Or(eq(n, 0), And(Not(isnull(f)), S.valid(e, mul(8, n))))), 'the list holds its elements')
    return SerList(S, lst)


@contract('json_array_of_entities', tags=['C17'], safety=['C17'], callback=serializer)
def json_array_of_entities(c):
    lst, = c.args
    S = c.S
    c.requires_buf(lst, 24, 'list', writable=False)
    SE = requires_list(c, lst)
    n = SE.n
    c.allocates()

    def tm(lv):
        out = []
        lists = [o for k, o in lv.written if k == 'P']
        for v in lv.intvars():
            for o in lists:
                def SL(l, o=o):
                    return StrList(l, Ptr(o, 0))

                def texts(l, v=v, o=o):
                    X = SL(l, o)
                    return X.forall(0, l.iv(v), lambda k: And(ge(X.at(k).o, l.st0.ctr), eq(X.at(k).f, 0), l.live(X.at(k).o), T.oheap(I(X.at(k).o)), Not(T.oro(I(X.at(k).o))),
                                                              gt(T.osize(I(X.at(k).o)), SE.len(k)), ge(SE.len(k), 0), le(SE.len(k), SERMAX), Not(eq(X.at(k).o, o)),
                                                              eq(slenA(l.a8(X.at(k).o), 0), SE.len(k)), eqn(l.a8(X.at(k).o), 0, SE.text(k), 0, SE.len(k))))
                out.append(('texts %s' % v, texts))
                out.append(('bound %s' % v, lambda l, v=v: And(le(SE.pos(l.iv(v)), mul(SERMAX + 1, l.iv(v))), le(0, SE.pos(l.iv(v))))))
                out.append(('apart %s' % v, lambda l, v=v, o=o: pairwise_(SL(l, o), l.iv(v))))
        return out
    c.loop('entities', tm)

    def rel(lv):
        out = []
        for o in ptrlocals(lv):
            out.append(('alive', lambda l, o=o: l.live(o)))
            for v in lv.intvars():
                out.append(('rest lives %s' % v, lambda l, v=v, o=o: (lambda X: X.forall(l.iv(v), n, lambda k: l.live(X.at(k).o)))(StrList(l, Ptr(o, 0)))))
        return out
    c.loop('release', rel)
    yield
    fresh_string(c)
    r = c.ret
    cs, total = entities_ensures(c, S, lst, c.T.a8(r.o), 0)
    names = ('the empty list gives the empty array', 'brackets around the texts', 'the texts have lengths', 'the texts in order', 'the texts are separated')
    for cond, nm in zip(cs, names):
        c.ensures(cond, nm)
    c.ensures(eq(c.T.slen(r), total), 'nothing else is in the text')
    c.ensures(le(c.T.slen(r), add(mul(SERMAX + 1, n), 2)), 'the length is bounded')


def pairwise_(SL, n):
    from .string_utils import pairwise
    return pairwise(SL, n)
