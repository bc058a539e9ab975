from ..spec import *

INTMAX = 2 ** 31 - 2


def texts(c):
    """equality of texts as a congruence; trimming stays folded for the function under proof unless it is trim itself"""
    if 'texts' not in c.ex._defs:
        c.ex._defs['texts'] = True
        c.ex.facts0 += T.textaxioms(c.mode == 'verify' and not c.contract.opts.get('texts'))


@contract('trim', tags=['C24'], safety=['C24', 'C01'])
def trim(c):
    s, = c.args
    S = c.S
    n = S.slen(s)
    c.requires_str(s, 'str', INTMAX)
    c.modifies('8', s, s.f, add(s.f, add(n, 1)))
    A = S.a8(s.o)
    scan(c, 'blank', s, T.space)
    yield
    T_ = c.T
    B_ = T_.a8(s.o)
    w = wsl(A, s.f)
    e = rte(A, add(s.f, w), add(s.f, n))
    m = sub(sub(e, s.f), w)
    c.ensures(T.sel(B_, I(add(s.f, n))) == 0, 'the end of the old text stays an end')
    # in the vocabulary of texts, for callers that ask for it
    abstract = c.mode == 'call' and c.ex.top.contract.opts.get('texts')
    if not abstract:
        c.ensures(And(eq(T_.slen(s), m), eqn(B_, s.f, A, add(s.f, w), m)), 'exactly the surrounding white space is gone')
    if abstract or c.mode == 'verify':
        texts(c)
        t, k = T.text(A, I(s.f), I(n)), T_.slen(s)
        c.ensures(And(le(0, k), le(k, n), k == T.trl(t), T.text(B_, I(s.f), I(k)) == T.tr(t)), 'the text is the trimmed text')


@contract('chop_string', tags=['C24'], safety=['C24', 'C01'])
def chop_string(c):
    s, = c.args
    S = c.S
    n = S.slen(s)
    c.requires_str(s, 'data', INTMAX)
    c.modifies('8', s, s.f, add(s.f, add(n, 1)))
    A = S.a8(s.o)
    scan(c, 'scan', s, lambda x: x > 34)
    yield
    T_ = c.T
    B_ = T_.a8(s.o)
    m = T_.slen(s)
    c.ensures(And(le(0, m), le(m, n), eqn(B_, s.f, A, s.f, m), all_in(A, s.f, add(s.f, m), lambda x: x > 34),
                  Or(eq(m, n), le(S.ch(s, m), 34))), 'cut at the first character that is a blank, a control character or a quote')


@contract('rtrim', tags=['C24'], safety=['C24', 'C01'])
def rtrim(c):
    s, sep = c.args
    S = c.S
    n = S.slen(s)
    c.requires_str(s, 'str', BIG)
    c.allocates()
    A = S.a8(s.o)
    k = cidx(A, s.f, sep)
    scan(c, 'scan', s, lambda x: x != I(sep), S)
    cut(c, s, sep, n)
    yield
    c.ensures_fresh(minsize=add(k, 1))
    r = c.ret
    B_ = c.T.a8(r.o)
    c.ensures(And(eq(c.T.slen(r), k), eqn(B_, 0, A, s.f, k)), 'text before the first separator')


def cut(c, s, sep, n):
    """loop template: a copy of s, cut at a separator or not yet"""
    A = c.S.a8(s.o)

    def tmpl(lv):
        out = []
        for k, o in lv.written:
            if k != '8':
                continue
            out.append(('prefix', lambda l, o=o: eqn(l.a8(o), 0, A, s.f, slenA(l.a8(o), 0))))
            out.append(('cut at a separator', lambda l, o=o: And(le(0, slenA(l.a8(o), 0)), le(slenA(l.a8(o), 0), n), Or(
                eq(slenA(l.a8(o), 0), n), eq(c.S.ch(s, slenA(l.a8(o), 0)), sep)))))
            for v in lv.intvars():
                out.append(('no separator', lambda l, o=o, v=v: all_in(A, s.f, add(s.f, If(lt(l.iv(v), slenA(l.a8(o), 0)), l.iv(v), slenA(
                    l.a8(o), 0))), lambda x: x != I(sep))))
                out.append(('past the end', lambda l, o=o, v=v: le(l.iv(v), add(1, slenA(l.a8(o), 0)))))
                out.append(('at most', lambda l, o=o, v=v: Or(le(l.iv(v), slenA(l.a8(o), 0)), lt(slenA(l.a8(o), 0), n))))
        return out
    c.loop('cut', tmpl)


@contract('ltrim', tags=['C24'], safety=['C24', 'C01'])
def ltrim(c):
    s, sep = c.args
    S = c.S
    n = S.slen(s)
    c.requires_str(s, 'str', BIG)
    c.allocates()
    A = S.a8(s.o)
    k = cidx(A, s.f, sep)
    scan(c, 'scan', s, lambda x: x != I(sep), S)
    yield
    d = If(lt(k, n), add(k, 1), 0)
    c.ensures_fresh(size=add(sub(n, d), 1))
    r = c.ret
    B_ = c.T.a8(r.o)
    c.ensures(And(eq(c.T.slen(r), sub(n, d)), eqn(B_, 0, A, add(s.f, d), sub(n, d))), 'text after the first separator, or all of it')


@contract('startswith', tags=['C24'], safety=['C24', 'C01'])
def startswith(c):
    s, p = c.args
    c.requires_str(s, 'str', BIG)
    c.requires_str(p, 'prefix', BIG)
    yield
    S = c.S
    n = S.slen(p)
    c.ensures(Iff(c.ret, And(le(n, S.slen(s)), eqi(S.a8(s.o), s.f, S.a8(p.o), p.f, n))), 'prefix test ignoring case')


def found_at(ex, st, vals, ret):
    if ex.top.contract.name == 'multipart_parse':
        st.g['tf.p'], st.g['tf.r'] = st.g['tf.r'], I(ret)


@contract('text_find_after', tags=['C24'], safety=['C24', 'C02'], after=found_at)
def text_find_after(c):
    h, nd, start, end = c.args
    S = c.S
    m = S.slen(nd)
    c.requires_str(nd, 'needle', BIG)
    c.requires(And(le(0, start), le(end, 2 ** 31)), 'positions are sane')
    # a match may begin before end and run past it, up to a terminator
    c.requires(Or(ge(start, end), le(m, 0), S.valid(h, add(end, sub(m, 1))), And(S.valid(h, add(end, 1)), eq(S.ch(h, end), 0))), 'haystack is valid memory')
    A, B_ = S.a8(h.o), S.a8(nd.o)
    c.loop('outer', lambda lv: [('no match before', lambda l, i=i: no_match(A, h.f, start, l.iv(i), B_, nd.f, m)) for i in lv.intvars()])
    c.loop('inner', lambda lv: [('match so far', lambda l, i=i, b=b: eqn(A, add(h.f, l.iv(i)), B_, nd.f, l.iv(b)))
                                for i in lv.localints() for b in lv.intvars()])
    yield
    f = fnd(A, B_, nd.f, add(h.f, start), add(h.f, end))
    c.ensures(eq(c.ret, If(ge(f, 0), add(sub(f, h.f), m), -1)), 'position after the first occurrence that begins before end')


def no_match(A, f, a, b, B_, q, m):
    j = bv('j')
    return z3.ForAll([j], z3.Implies(z3.And(I(add(f, a)) <= j, j < I(add(f, b))), z3.Not(T.eqn(A, j, B_, I(q), I(m)))),
                     patterns=[T.eqn(A, j, B_, I(q), I(m))])


@contract('string_isalnum', tags=['C24'], safety=['C24', 'C01'])
def string_isalnum(c):
    s, = c.args
    S = c.S
    n = S.slen(s)
    c.requires_str(s, 'data', BIG)
    A = S.a8(s.o)
    scan(c, 'scan', s, T.alnum)
    yield
    c.ensures(Iff(c.ret, And(gt(n, 0), all_in(A, s.f, add(s.f, n), T.alnum))), 'not empty and alphanumeric throughout')


@contract('md5sum', tags=['C23'], safety=['C23', 'C02'])
def md5sum(c):
    out, data, n = c.args
    S = c.S
    c.requires_buf(out, 33, 'out')
    c.requires(le(0, n), 'len is not negative')
    c.requires(Or(eq(n, 0), S.valid(data, n)), 'data is valid memory')
    c.separate(out, data)
    c.modifies('8', out, out.f, add(out.f, 33))
    c.modifies_ghost('md.n', 'md.ctx', 'md.fed')
    c.allocates()
    A = S.a8(data.o)

    def fed(lv):
        out = [('fed', lambda l: And(ge(l.g('md.n'), 0), eqn(l.g('md.fed'), 0, A, data.f, l.g('md.n')))), ('ctx', lambda l: eq(l.g('md.ctx'), l.E.g('md.ctx')))]
        for v in lv.intvars():
            out.append(('fed+rest %s' % v, lambda l, v=v: eq(add(l.g('md.n'), If(gt(l.iv(v), 0), l.iv(v), 0)), n)))
            out.append(('fed=passed %s' % v, lambda l, v=v: eq(l.g('md.n'), l.iv(v))))
            for w in lv.intvars():
                if w != v:
                    out.append(('fed=passed %s unless %s' % (v, w), lambda l, v=v, w=w: Or(le(l.iv(w), 0), eq(l.g('md.n'), l.iv(v)))))
                    out.append(('sum %s %s' % (v, w), lambda l, v=v, w=w: eq(add(l.iv(v), l.iv(w)), n)))
        return out
    c.loop('fed', fed)

    def hexed(lv):
        out = []
        for k, o in lv.written:
            if k != '8':
                continue
            for v in lv.intvars():
                for f in (2, 1):
                    for base in (0, None):
                        def hx(l, o=o, v=v, f=f, base=base):
                            b = base
                            if b is None:
                                b = out_off(o, c)
                            j = bv()
                            M = l.a8(o)
                            D = T.sel(T.hexarr(T.md5b(l.g('md.fed'), l.g('md.n'), (j - I(b)) / 2)), (j - I(b)) % 2)
                            return z3.ForAll([j], z3.Implies(z3.And(I(b) <= j, j < I(b) + f * I(l.iv(v))), T.sel(M, j) == D), patterns=[T.sel(M, j)])
                        out.append(('hex %s*%d' % (v, f), hx))
                        out.append(('term %s*%d' % (v, f), lambda l, o=o, v=v, f=f, base=base: eq(T.sel(l.a8(o), I(add(
                            base if base is not None else out_off(o, c), f * I(l.iv(v))))), 0)))
        return out

    def out_off(o, c):
        return out.f if same(o, out.o) else 0
    c.loop('hex', hexed)
    yield
    T_ = c.T
    B_ = T_.a8(out.o)
    fed_, m = T_.g('md.fed'), T_.g('md.n')
    c.ensures(And(eq(m, n), eqn(fed_, 0, A, data.f, n)), 'exactly the given bytes are digested, once and in order')
    j = bv()
    c.ensures(z3.ForAll([j], z3.Implies(z3.And(I(out.f) <= j, j < I(out.f) + 32), T.sel(B_, j) == T.sel(T.hexarr(T.md5b(
        fed_, I(m), (j - I(out.f)) / 2)), (j - I(out.f)) % 2)), patterns=[T.sel(B_, j)]), 'the result is the hexadecimal digest')
    c.ensures(eq(T_.slen(out), 32), 'the result has 32 characters')


def joined(J, j0, SL, n, k0, d, dlen, last):
    """elements [k0..n) of SL stand at their places in array J from j0, each but number `last` followed by the delimiter"""
    def one(k):
        p = SL.at(k)
        c = eqn(J, add(j0, SL.pos(k, dlen)), SL.v.a8(p.o), p.f, SL.len(k))
        de = add(add(j0, SL.pos(k, dlen)), SL.len(k))
        e = And(*[T.sel(J, I(add(de, i))) == ch for i, ch in enumerate(d)]) if isinstance(d, bytes) else eqn(J, de, d[0], d[1], dlen)
        return Imp(SL.len(k) >= 0, And(c, Imp(lt(k, last), e), le(add(SL.pos(k, dlen), add(SL.len(k), If(lt(k, last), dlen, 0))), SL.pos(n, dlen)) if not same(n, add(last, 1)) else True))
    return SL.forall(k0, n, one)


JOIN_N, JOIN_LEN, JOIN_D = 4096, 65536, 64


def join_requires(c, arr, n, S):
    SL = StrList(S, arr)
    c.requires(Or(isnull(arr), And(le(n, JOIN_N), Or(le(n, 0), S.valid(arr, mul(8, n))), SL.strings(n, JOIN_LEN))), 'array holds null pointers or strings')
    return SL


@contract('join', tags=['C24', 'C17'], safety=['C24', 'C01'])
def join(c):
    arr, n, delim = c.args
    S = c.S
    SL = join_requires(c, arr, n, S)
    c.requires_str(delim, 'delim', JOIN_D)
    c.allocates()
    dl = S.slen(delim)
    d = (S.a8(delim.o), delim.f)
    P = lambda k: SL.pos(k, dl)
    Q = lambda k: SL.pos(k, 0)

    def tm(lv):
        out = []
        k = z3.Int('?q')
        for v in lv.intvars():
            out.append(('relation %s' % v, lambda l, v=v: And(le(P(l.iv(v)), add(Q(l.iv(v)), l.iv(v) * I(dl))), le(0, P(l.iv(v))), le(0, Q(l.iv(v))))))
            out.append(('monotone %s' % v, lambda l, v=v: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= I(l.iv(v))), Q(k) <= Q(l.iv(v))), patterns=[Q(k)])))
            for w in lv.intvars():
                if w != v:
                    out.append(('sum %s %s' % (v, w), lambda l, v=v, w=w: eq(sub(l.iv(v), l.E.iv(v)), Q(l.iv(w)))))
                    out.append(('bound %s %s' % (v, w), lambda l, v=v, w=w: le(sub(l.iv(v), l.E.iv(v)), mul(JOIN_LEN, l.iv(w)))))
        for kk, o in lv.written:
            if kk != '8':
                continue
            for v in lv.intvars():
                out.append(('length %s' % v, lambda l, o=o, v=v: eq(slenA(l.a8(o), 0), P(l.iv(v)))))
                out.append(('length2 %s' % v, lambda l, o=o, v=v: eq(slenA(l.a8(o), 0), If(lt(l.iv(v), n), P(l.iv(v)), add(P(sub(n, 1)), If(ge(SL.len(sub(n, 1)), 0), SL.len(sub(n, 1)), 0))))))
                out.append(('placed %s' % v, lambda l, o=o, v=v: joined(l.a8(o), 0, SL, l.iv(v), 0, d, dl, sub(n, 1))))
        return out
    c.loop('join', tm)
    yield
    last = sub(n, 1)
    first = SL.at(0)
    none = Or(isnull(arr), le(n, 0), eq(first.o, 0))
    total = add(P(last), If(ge(SL.len(last), 0), SL.len(last), 0))
    T.Emul(8)(I(last))
    c.ensures_fresh(minsize=1)
    r = c.ret
    J = c.T.a8(r.o)
    m = slenA(J, 0)
    c.ensures(And(ge(m, 0), lt(m, c.ex.size(r.o))), 'the result is terminated in its buffer')
    c.ensures(Imp(none, eq(m, 0)), 'nothing to join gives the empty string')
    c.ensures(Imp(Not(none), eq(m, total)), 'the length is that of the parts and delimiters')
    c.ensures(Imp(Not(none), joined(J, 0, SL, n, 0, d, dl, last)), 'each part and delimiter stands in its place')


MAX_SPLIT, SPLIT_LEN = 50, 1024


def minus1(x, m):
    """x cut to m characters"""
    return If(lt(x, m), x, m)


def is_cut_copy(v, p, A, f, n):
    """p is a string of its own: the n characters of A at f, cut to what an element holds"""
    m = minus1(n, SPLIT_LEN - 1)
    return And(eq(slenA(v.a8(p.o), 0), m), eqn(v.a8(p.o), 0, A, f, m))


def own_block(c, v, p, lo):
    return And(ge(p.o, lo), eq(p.f, 0), v.live(p.o), T.oheap(I(p.o)), Not(T.oro(I(p.o))), eq(c.ex.size(p.o), SPLIT_LEN))


def elements(c, SL, v, n, lo, A, text_of, extra=lambda p: True):
    """the elements are blocks of their own with the expected text"""
    def one(k):
        p = SL.at(k)
        return And(own_block(c, v, p, lo), extra(p), *([is_cut_copy(v, p, A, *text_of(k))] if text_of else []))
    return SL.forall(0, n, one)


def pairwise(SL, n):
    k, l = z3.Int('?k'), z3.Int('?l')
    a = SL.at(k).o
    b = z3.substitute(a, (k, l))
    e = T.Emul(8)
    return z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k < l, l < I(n)), a != b), patterns=[z3.MultiPattern(e(k), e(l))])


@contract('split', tags=['C24'], safety=['C24', 'C01'])
def split(c):
    s, delim = c.args
    S = c.S
    c.requires_str(s, 'str', BIG)
    c.requires_str(delim, 'delim', BIG)
    c.allocates()
    A, n = S.a8(s.o), S.slen(s)
    cs = CharSet(c.ex, c.st, delim, 'split')
    start = lambda k: cs.start(A, s.f, k)
    tlen = lambda k: cs.toklen(A, s.f, k)
    E8 = T.Emul(8)

    def tm(lv):
        out = []
        lists = [o for k, o in lv.written if k == 'P']
        copies = [o for k, o in lv.written if k == '8']
        for v in lv.intvars():
            E8(I(lv.iv(v)))
            for o in [x for x in lists if not str(x).startswith('L')]:
                def SL(l, o=o):
                    return StrList(l, Ptr(o, 0), off=8)
                for cp in [x for x in copies if not same(x, o)]:
                    for q in lists:
                        if same(q, o):
                            continue

                        def at(l, v=v, cp=cp, q=q):
                            sv = l.p(Ptr(q, 0))
                            i = l.iv(v)
                            B_ = l.a8(cp)
                            r = cs.rest(A, s.f, add(i, 1))
                            l.ex.efact(8, i)
                            return And(eq(E8(I(i)), mul(8, i)), Imp(A_at(A, start(i)), And(eq(sv.o, cp), eq(sub(r, s.f), sv.f), ge(sv.f, 0), le(sv.f, n), ge(slenA(B_, sv.f), 0),
                                       eqn(B_, sv.f, A, r, sub(add(n, 1), sv.f)))), le(start(i), add(s.f, n)))
                        out.append(('rest %s' % v, at))
                    for w in lv.ptrvars():
                        def tok(l, v=v, w=w, cp=cp):
                            p = l.var(w)
                            i = l.iv(v)
                            m = tlen(i)
                            l.ex.efact(8, i)
                            return And(Iff(eq(p.o, 0), Not(A_at(A, start(i)))),
                                       Imp(Not(eq(p.o, 0)), And(eq(p.o, cp), eq(p.f, sub(start(i), s.f)), eqn(l.a8(cp), p.f, A, start(i), m), eq(slenA(l.a8(cp), p.f), m), ge(m, 0), le(add(p.f, m), n), l.isstr(p))))
                        out.append(('token %s %s' % (v, w), tok))
                out.append(('found %s' % v, lambda l, v=v, SL=SL: SL(l).forall(0, l.iv(v), lambda k: A_at(A, start(k)))))
                out.append(('apart %s' % v, lambda l, v=v, SL=SL, o=o: And(pairwise(SL(l), l.iv(v)), SL(l).forall(0, l.iv(v), lambda k: Not(eq(SL(l).at(k).o, o))))))
                out.append(('blocks %s' % v, lambda l, v=v, SL=SL: elements(c, SL(l), l, l.iv(v), l.st0.ctr, A, None)))
                out.append(('text %s' % v, lambda l, v=v, SL=SL: elements(c, SL(l), l, l.iv(v), l.st0.ctr, A, lambda k: (start(k), tlen(k)))))
        return out
    c.loop('split', tm)
    yield
    c.ensures_fresh(size=8 + (MAX_SPLIT + 1) * SPLIT_LEN)
    r = c.ret
    m = c.T.i32(r, 0)
    lo = c.ex.ctr0 if c.mode == 'verify' else c.pre.ctr
    SL = StrList(c.T, r, off=8)
    c.ensures(And(le(0, m), le(m, MAX_SPLIT)), 'never more strings than the list holds')
    c.ensures(And(SL.forall(0, m, lambda k: A_at(A, start(k))), Or(eq(m, MAX_SPLIT), Not(A_at(A, start(m))))), 'as many strings as there are parts')
    c.ensures(And(pairwise(SL, m), SL.forall(0, m, lambda k: Not(eq(SL.at(k).o, r.o)))), 'no string is shared')
    c.ensures(elements(c, SL, c.T, m, lo, A, lambda k: (start(k), tlen(k))), 'each string is the part in its place')


def A_at(A, i):
    """a part starts at i"""
    return T.sel(A, I(i)) != 0


def trimmed(A, a, b):
    """(offset, length) of the text [a, b) of A without the white space around it"""
    w = wsl(A, a)
    a2 = add(a, minus1(w, sub(b, a)))
    return a2, sub(rte(A, a2, b), a2)


@contract('split_once', tags=['C24'], safety=['C24', 'C01'])
def split_once(c):
    s, delim = c.args
    S = c.S
    n = S.slen(s)
    c.requires_str(s, 'str', BIG)
    c.allocates()
    A = S.a8(s.o)
    k = cidx(A, s.f, 58)
    yield
    c.ensures_fresh(size=8 + 3 * SPLIT_LEN)
    r = c.ret
    v = c.T
    if c.mode == 'call':
        # the same as below, said by naming the two new blocks
        ex, two = c.ex, lt(k, n)
        po, qo = ex.newobj(c.st, SPLIT_LEN, True, 'first'), ex.newobj(c.st, SPLIT_LEN, True, 'second')
        j = v.p(r, 16)
        ex.setarr(c.st, 'P', r.o, ex.rd(c.st, 'P', r.o).put(8, Ptr(po, 0)).put(16, Ptr(If(two, qo, j.o), If(two, 0, j.f))))
        ex.setarr(c.st, '32', r.o, ex.rd(c.st, '32', r.o).put(0, If(two, 2, 1)))
        c.ensures(is_cut_copy(v, Ptr(po, 0), A, *trimmed(A, s.f, add(s.f, k))), 'the first is the text before the colon, trimmed')
        c.ensures(Imp(two, is_cut_copy(v, Ptr(qo, 0), A, *trimmed(A, add(s.f, add(k, 1)), add(s.f, n)))), 'the second is the text after the colon, trimmed')
        return
    m = v.i32(r, 0)
    lo = c.ex.ctr0
    c.ensures(eq(m, If(lt(k, n), 2, 1)), 'two strings exactly when there is a colon')
    p, q = v.p(r, 8), v.p(r, 16)
    SL = StrList(v, r, off=8)
    c.ensures(And(own_block(c, v, p, lo), Not(eq(p.o, r.o)), Imp(eq(m, 2), And(own_block(c, v, q, lo), Not(eq(q.o, r.o)), Not(eq(p.o, q.o))))), 'no string is shared')
    c.ensures(is_cut_copy(v, p, A, *trimmed(A, s.f, add(s.f, k))), 'the first is the text before the colon, trimmed')
    c.ensures(Imp(eq(m, 2), is_cut_copy(v, q, A, *trimmed(A, add(s.f, add(k, 1)), add(s.f, n)))), 'the second is the text after the colon, trimmed')


@contract('free_str_list_t', tags=['C24'], safety=['C24', 'C01'])
def free_str_list_t(c):
    lst, = c.args
    S = c.S
    n = S.i32(lst, 0)
    SL = StrList(S, lst, off=8)
    E8 = T.Emul(8)
    if c.mode == 'call':
        for i in (0, 1):
            c.ex.efact(8, i)
    heap = lambda p: And(S.live(p.o), eq(p.f, 0), T.oheap(I(p.o)), Not(eq(p.o, 0)))
    c.requires(And(heap(lst), S.valid(lst, 8), Or(le(n, 0), S.valid(lst, add(8, mul(8, n))))), 'the list is a heap block that holds its elements')
    c.requires(And(SL.forall(0, n, lambda k: And(heap(SL.at(k)), Not(eq(SL.at(k).o, lst.o)))), pairwise(SL, n)), 'the elements are heap blocks of their own')
    k = SL.k
    c.modifies('V', lst.o)
    # the first two are named, for callers that use lists of two
    c.modifies('V', lambda o: Or(And(gt(n, 0), eq(SL.at(0).o, o)), And(gt(n, 1), eq(SL.at(1).o, o)), And(gt(n, 2), Not(SL.forall(0, n, lambda k: Not(eq(SL.at(k).o, o)))))))

    def tm(lv):
        out = []
        for v in lv.intvars():
            out.append(('rest lives %s' % v, lambda l, v=v: SL.forall(l.iv(v), n, lambda k: l.live(SL.at(k).o))))
            out.append(('done is gone %s' % v, lambda l, v=v: SL.forall(0, l.iv(v), lambda k: Not(l.live(SL.at(k).o)))))
        out.append(('list lives', lambda l: l.live(lst.o)))
        return out
    c.loop('free', tm)
    yield
    c.ensures(And(Not(c.T.live(lst.o)), SL.forall(0, n, lambda k: Not(c.T.live(SL.at(k).o)))), 'the list and its strings are released')


@contract('startswithany', tags=['C20', 'C24'], safety=['C24', 'C01'])
def startswithany(c):
    s, lst = c.args
    S = c.S
    c.requires_str(s, 'str', BIG)
    A, n = S.a8(s.o), S.slen(s)
    known = c.mode == 'call' and isinstance(lst.o, int) and lst.o in c.ex.initptr and lst.o not in c.ex.prog.stored
    if known:
        tab = c.ex.initptr[lst.o]
        entries = []
        off = lst.f
        while True:
            if off not in tab:
                c.requires(False, 'the list is terminated')
                break
            p = tab[off]
            if isinstance(p.o, int) and p.o == 0:
                break
            t = c.ex.literal(p)
            if t is None:
                c.requires(False, 'the list holds constants')
                break
            t = t[:t.index(b'\0')]
            if not t:
                break
            entries.append(t)
            off += 8
        yield
        c.ensures(Iff(c.ret, Or(*[And(*[T.lower(T.sel(A, I(add(s.f, i)))) == (ch + 32 if 65 <= ch <= 90 else ch) for i, ch in enumerate(t)])
                                  for t in entries])), 'true exactly when some entry is a prefix')
        return
    SL = StrList(S, lst)
    N = c.ex.fint('entries', 0, 2 ** 20)
    k = SL.k
    # the list has a terminator: an empty string or a null pointer
    c.requires(And(S.valid(lst, add(8, mul(8, N))), SL.strings(add(N, 1), BIG), le(SL.len(N), 0), SL.forall(0, N, lambda k: gt(SL.len(k), 0))),
               'the list is terminated')
    T.Emul(8)(N)
    c.ex.efact(8, N)

    def is_prefix(k):
        p = SL.at(k)
        return And(le(SL.len(k), n), eqi(A, s.f, S.a8(p.o), p.f, SL.len(k)))

    def tm(lv):
        out = []
        for v in lv.intvars():
            out.append(('none before %s' % v, lambda l, v=v: SL.forall(0, l.iv(v), lambda k: Not(is_prefix(k)))))
            out.append(('within %s' % v, lambda l, v=v: le(l.iv(v), N)))
            for w, t in lv.fr.fn.promo.items():
                if t[0] == 'p' and isinstance(lv.var(w), Ptr):
                    out.append(('current %s %s' % (v, w), lambda l, v=v, w=w: eq(l.var(w), SL.at(l.iv(v))) if isinstance(l.var(w), Ptr) else False))
        return out
    c.loop('list', tm)
    yield
    c.ensures(Iff(c.ret, Not(SL.forall(0, N, lambda k: Not(is_prefix(k))))), 'true exactly when some entry is a prefix')
