"""Reading the request: lines, bodies, uploads (C01, C02, C14, C15)."""
from ..spec import *
from .http_utils import *
from .file_utils import PATHMAX
from .string_utils import INTMAX
from .router import requires_routed, FORMMAX


def requires_conn(c, req):
    S = c.S
    c.requires_buf(req, REQ, 'request', writable=False)
    c.requires(Or(Not(eq(S.p(req, SSL).o, 0)), Not(S.bool(c.glob('WAYUU_SSL_ON')))), 'there is a connection')


def received(v0, v1, A, f, n):
    """the n bytes at (A, f) are the bytes taken from the connection since v0"""
    return And(eq(v1.g('in.n'), add(v0.g('in.n'), n)), eqn(A, f, v0.g('in.a'), v0.g('in.n'), n))


@contract('get_line', tags=['C01', 'C25'], safety=['C01'], helper=True, before=lambda *a: reading(*a), after=lambda *a: took(*a))
def get_line(c):
    req, buf, size = c.args
    S = c.S
    requires_conn(c, req)
    c.requires(ge(size, 1), 'there is room')
    c.requires_buf(buf, size, 'buf')
    c.separate(req, buf)
    c.modifies('8', buf, buf.f, add(buf.f, size))
    c.modifies_ghost('in.n', 'in.last')
    D, d0 = S.g('in.a'), S.g('in.n')

    def tm(lv):
        out = []
        cs = [o for k, o in lv.written if k == '8' and not same(o, buf.o)]
        for v in lv.intvars():
            out.append(('bytes %s' % v, lambda l, v=v: And(le(0, l.iv(v)), lt(l.iv(v), size), eq(l.g('in.n'), add(d0, l.iv(v))),
                                                          eqn(l.a8(buf.o), buf.f, D, d0, l.iv(v)))))
            out.append(('no line end %s' % v, lambda l, v=v: all_in(l.a8(buf.o), buf.f, add(buf.f, sub(l.iv(v), 1)), lambda x: x != 10)))
            for o in cs:
                ch = lambda l, o=o: T.sel(l.a8(o), z3.IntVal(0))
                out.append(('last %s' % v, lambda l, v=v, o=o: If(eq(ch(l), 10), Or(le(l.g('in.last'), 0), And(gt(l.iv(v), 0), eq(T.sel(l.a8(buf.o), I(add(buf.f, sub(l.iv(v), 1)))), 10))),
                                                                  Or(eq(l.iv(v), 0), Not(eq(T.sel(l.a8(buf.o), I(add(buf.f, sub(l.iv(v), 1)))), 10))))))
        return out
    c.loop('bytes', tm)
    yield
    v, r = c.T, c.ret
    A = v.a8(buf.o)
    c.ensures(And(le(0, r), lt(r, size), eq(v.ch(buf, r), 0)), 'the line is terminated in its buffer')
    c.ensures(received(S, v, A, buf.f, r), 'it holds exactly the bytes received')
    c.ensures(all_in(A, buf.f, add(buf.f, sub(r, 1)), lambda x: x != 10), 'it ends with the first line end')
    c.ensures(Or(eq(r, sub(size, 1)), le(v.g('in.last'), 0), And(gt(r, 0), eq(v.ch(buf, sub(r, 1)), 10))), 'it is cut only when it is too long or the peer stops')


def same_text(A, f, B_, g, n):
    return And(eq(slenA(A, f), n), eqn(A, f, B_, g, n))


def wrote(c, S, v, nA, nf, n, A, f, k):
    """exactly one file was opened, for writing, with the given name, and holds exactly the k bytes at (A, f)"""
    return And(eq(v.g('fo.n'), add(S.g('fo.n'), 1)), same_text(v.g('fo.A'), v.g('fo.f'), nA, nf, n), v.g('fo.w'),
               If(v.g('fo.ok'), And(eq(v.g('fw.n'), add(S.g('fw.n'), 1)), eq(v.g('fw.o'), v.g('fo.o')), eq(v.g('fw.len'), k), eqn(v.g('fw.A'), v.g('fw.f'), A, f, k)),
                  eq(v.g('fw.n'), S.g('fw.n'))))


@contract('write_file', tags=['C15'], safety=['C15', 'C02'])
def write_file(c):
    name, data, n = c.args
    S = c.S
    c.requires_str(name, 'filename', PATHMAX)
    c.requires_str(data, 'ptr', INTMAX + 1)
    c.requires(And(le(0, n), Or(eq(n, 0), S.valid(data, n))), 'the data is valid memory')
    ghosts(c, 'sn', 'fo', 'fw', 'ln')
    c.allocates()
    IO.need(c.ex)
    yield
    c.ensures(wrote(c, S, c.T, S.a8(name.o), name.f, S.slen(name), S.a8(data.o), data.f, n), 'the file of that name holds exactly the data')


FORMSMAX, PARTROOM = 2 ** 40 - 2 ** 34, 384
FOLDER = b'/tmp/wayuu'
ORIG, ROOM = 255, 320        # the longest file name kept; what a file adds to the form besides its field


def digest_at(M, off, A, f, n, v):
    """M from off holds the hexadecimal digest of the n bytes at (A, f)"""
    j = bv()
    fed = v.g('md.fed')
    return And(eq(v.g('md.n'), n), eqn(fed, 0, A, f, n), z3.ForAll([j], z3.Implies(z3.And(I(off) <= j, j < I(off) + 32), T.sel(M, j) == T.sel(T.hexarr(
        T.md5b(fed, I(n), (j - I(off)) / 2)), (j - I(off)) % 2)), patterns=[T.sel(M, j)]))


def upto(c, A, x, limit=None):
    """length of the text at x that ends at the first blank, control character or quote (or at the limit): it ends at the terminator at the latest"""
    k = c.ex.fint('upto', 0, 2 ** 31)
    stop = lambda y: le(T.sel(A, I(y)), 34)
    end = stop(add(x, k)) if limit is None else Or(eq(k, limit), And(lt(k, limit), stop(add(x, k))))
    c.ex.assume(c.st, Imp(ge(slenA(A, x), 0), And(all_in(A, x, add(x, k), lambda e: e > 34), end, le(k, slenA(A, x)))))
    return k


def self_id():
    return z3.Int('thread.self')


def tmpname(M, off, A, f, n, v):
    """M from off: thread id, dash, digest; length"""
    d = T.declen(self_id())
    return And(eqn(M, off, T.decat(self_id()), 0, d), T.sel(M, I(add(off, d))) == 45, digest_at(M, add(off, add(d, 1)), A, f, n, v)), add(d, 33)


def uploaded(c, S, v, A, f, n):
    """exactly one file was opened: in the download folder, named for the content, which is exactly the n bytes at (A, f)"""
    N, g = v.g('fo.A'), v.g('fo.f')
    tail, k = tmpname(N, add(g, len(FOLDER) + 1), A, f, n, v)
    return [('the file is in the download folder, named by thread and digest', And(*[T.sel(N, I(add(g, i))) == ch for i, ch in enumerate(FOLDER + b'/')], tail,
                                                                               eq(slenA(N, g), add(k, len(FOLDER) + 1)))),
            ('one file is opened', And(eq(v.g('fo.n'), add(S.g('fo.n'), 1)), v.g('fo.w'))),
            ('it holds exactly the data', If(v.g('fo.ok'), And(eq(v.g('fw.n'), add(S.g('fw.n'), 1)), eq(v.g('fw.o'), v.g('fo.o')), eq(v.g('fw.len'), n), eqn(v.g('fw.A'), v.g('fw.f'), A, f, n)),
                                             eq(v.g('fw.n'), S.g('fw.n'))))]


def part_ok(c, S, data, length):
    return And(le(0, length), lt(length, 2 ** 31), S.valid(data, add(length, 1)), eq(S.ch(data, length), 0))


def counted(ex, st, vals, ret):
    st.g['up.n'] = I(add(st.g['up.n'], 1))


@contract('save_tmp_file', tags=['C15'], safety=['C15', 'C02'], after=counted)
def save_tmp_file(c):
    fields, field, sf, data, ds, n = c.args
    S = c.S
    n0, fl = S.slen(fields), S.slen(field)
    c.requires_str(field, 'field', INTMAX)
    c.requires_str(fields, 'tmpfields', FORMSMAX)
    c.requires(S.valid(fields, add(add(n0, fl), ROOM)), 'there is room in the form')
    c.requires(part_ok(c, S, data, n), 'the part is terminated')
    c.requires(And(le(0, sf), le(sf, n), le(0, ds), le(add(ds, 2), n)), 'the positions are in the part')
    c.separate(fields, field)
    c.separate(fields, data)
    c.modifies('8', fields, add(fields.f, n0), add(fields.f, add(add(n0, fl), ROOM)))
    ghosts(c, 'sn', 'fo', 'fw', 'md', 'ln')
    c.allocates()
    IO.need(c.ex)
    A, len_ = S.a8(data.o), sub(sub(n, ds), 2)
    k = upto(c, A, add(data.f, sf), ORIG)
    yield
    v = c.T
    for nm, g in uploaded(c, S, v, A, add(data.f, ds), len_):
        c.ensures(g, nm)
    F = v.a8(fields.o)
    F0 = S.a8(fields.o)
    o1 = add(fields.f, n0)
    o2 = add(add(o1, fl), 1)
    o3 = add(o2, k)
    o4 = add(o3, 9)
    tail, m = tmpname(F, o4, A, add(data.f, ds), len_, v)
    c.ensures(eqn(F, fields.f, F0, fields.f, n0), 'the form so far is kept')
    c.ensures(And(eqn(F, o1, S.a8(field.o), field.f, fl), T.sel(F, I(sub(o2, 1))) == 61), 'the form names the field')
    c.ensures(eqn(F, o2, A, add(data.f, sf), k), 'and the original file name')
    c.ensures(And(*[T.sel(F, I(add(o3, i))) == ch for i, ch in enumerate(b'&tmpfile=')], tail, eq(v.slen(fields), sub(add(o4, m), fields.f))), 'and the temporary file')


def litarr(c, lit):
    """the array of a string constant of the program with this content (any array with it, if there is none)"""
    ex = c.ex
    for o, (m, name, t, init, const) in sorted(ex.prog.ginfo.items(), key=lambda x: x[0]):
        if const and init is not None and init[0] == 'str' and init[1] == lit + b'\0':
            ex.touch(o)
            return ex.base0['8'](z3.IntVal(o))
    A = z3.Const('lit!' + lit.hex(), T.ASort)
    if lit not in ex._defs:
        ex._defs[lit] = True
        ex.facts0 += [T.sel(A, z3.IntVal(i)) == ch for i, ch in enumerate(lit + b'\0')] + [T.slen(A, z3.IntVal(0)) == len(lit)]
    return A




def next_boundary(d, x):
    """where the first boundary at or after x begins"""
    return fnd(d['A'], d['B'], d['q'], add(d['f'], x), add(d['f'], d['n']))


def none_between(d, a, b):
    """no boundary begins in [a, b)"""
    j = bv()
    return z3.ForAll([j], z3.Implies(z3.And(I(add(d['f'], a)) <= j, j < I(add(d['f'], b))), z3.Not(T.eqn(d['A'], j, d['B'], I(d['q']), I(d['m'])))), patterns=[T.eqn(d['A'], j, d['B'], I(d['q']), I(d['m']))])


def resume(g):
    return If(eq(g['pt.k'], 0), 0, add(g['pt.s'], 1))


def part_found(ex, st, vals):
    """the part that is decoded is what stands between two successive boundaries of the form"""
    d = getattr(ex, 'multipart', None)
    if d is None or ex.top.contract.name != 'multipart_parse':
        return
    ip, fields, data, n = vals
    g, tg = st.g, frozenset(['C15']) & ex.all_tags
    s, e, m = g['tf.p'], g['tf.r'], d['m']
    P = ex.named(st, ex.rd(st, '8', data.o))
    ex.prove(st, And(eq(n, sub(sub(e, s), m)), eqn(P, data.f, d['A'], add(d['f'], s), n)), 'a part is what stands between two boundaries', tg, 'ensures')
    ex.prove(st, none_between(d, resume(g), sub(s, m)), 'no boundary is skipped before a part', tg, 'ensures')
    ex.prove(st, none_between(d, add(s, 1), sub(e, m)), 'no boundary is inside a part', tg, 'ensures')
    ex.prove(st, And(le(g['pt.e'], s), le(m, s), le(add(s, m), e), le(e, d['n'])), 'parts follow each other', tg, 'ensures')
    st.g['pt.k'], st.g['pt.s'], st.g['pt.e'] = I(add(g['pt.k'], 1)), I(s), I(e)


@contract('part_parse', tags=['C15'], safety=['C15', 'C02'], before=part_found)
def part_parse(c):
    ip, fields, data, n = c.args
    S = c.S
    n0 = S.slen(fields)
    c.requires_str(ip, 'address', LINEMAX)
    c.requires_str(fields, 'tmpfields', FORMSMAX - 2 ** 33)
    c.requires(part_ok(c, S, data, n), 'the part is terminated')
    c.requires(S.valid(fields, add(add(n0, mul(2, n)), PARTROOM)), 'there is room in the form')
    c.separate(fields, data)
    c.separate(fields, ip)
    c.modifies('8', fields, add(fields.f, n0), add(fields.f, add(add(n0, mul(2, n)), PARTROOM)))
    ghosts(c, 'sn', 'fo', 'fw', 'md', 'ln', 'up')
    c.allocates()
    IO.need(c.ex)
    A, f, hn = S.a8(data.o), data.f, S.slen(data)
    F0 = S.a8(fields.o)
    find = lambda lit, hi: fnd(A, litarr(c, lit), 0, f, hi)
    N1, N2, N3 = b'form-data; name="', b'; filename="', b'\r\n\r\n'
    e1, e2, e3 = find(N1, add(f, hn)), find(N2, add(f, hn)), find(N3, add(f, n))
    name, orig, body = e1 + len(N1), e2 + len(N2), e3 + len(N3)
    k = upto(c, A, name)
    ko = upto(c, A, orig, ORIG)
    yield
    v = c.T
    active = And(ge(e1, 0), gt(slenA(A, name), 0))
    whole = And(ge(e3, 0), le(add(sub(body, f), 2), n))
    isfile = ge(e2, 0)
    F = v.a8(fields.o)
    size = sub(sub(n, sub(body, f)), 2)
    sepn = If(gt(n0, 0), 1, 0)
    same_ = And(eqn(F, fields.f, F0, fields.f, n0))
    m = v.slen(fields)
    quiet = And(eq(v.g('fo.n'), S.g('fo.n')), eq(v.g('fw.n'), S.g('fw.n')), eq(v.g('up.n'), S.g('up.n')))
    c.ensures(same_, 'the form so far is kept')
    c.ensures(And(le(0, m), lt(m, add(add(n0, mul(2, n)), PARTROOM))), 'the form is terminated in its room')
    c.ensures(Imp(Not(active), And(eq(m, n0), quiet)), 'a part without a name adds nothing')
    c.ensures(Imp(And(active, Not(whole)), And(eq(m, add(n0, sepn)), quiet)), 'a part without data adds nothing')
    c.ensures(Imp(And(active, whole, gt(n0, 0)), eq(T.sel(F, I(add(fields.f, n0))), 38)), 'parts are separated by &')
    o1 = add(add(fields.f, n0), sepn)
    o2 = add(add(o1, k), 1)
    c.ensures(Imp(And(active, whole), And(eqn(F, o1, A, name, k), T.sel(F, I(sub(o2, 1))) == 61)), 'the form names the field')
    t = slenA(A, body)
    vl = If(lt(t, size), t, size)
    c.ensures(Imp(And(active, whole, Not(isfile)), And(quiet, eqn(F, o2, A, body, vl), eq(m, sub(add(o2, vl), fields.f)))), 'and the value of a field')
    o3 = add(o2, ko)
    o4 = add(o3, 9)
    tail, tk = tmpname(F, o4, A, body, size, v)
    file = And(active, whole, isfile)
    for nm, g in uploaded(c, S, v, A, body, size):
        c.ensures(Imp(file, g), nm)
    c.ensures(Imp(file, And(eqn(F, o2, A, orig, ko), *[T.sel(F, I(add(o3, i))) == ch for i, ch in enumerate(b'&tmpfile=')])), 'or the original file name')
    c.ensures(Imp(file, And(tail, eq(m, sub(add(o4, tk), fields.f)))), 'and the temporary file')
    c.ensures(eq(sub(v.g('fo.n'), S.g('fo.n')), sub(v.g('up.n'), S.g('up.n'))), 'no other file is opened')


BOUNDARYMAX = 99


def decoded(ex, st, vals):
    if ex.top.contract.name == 'handle_api_request':
        p, g = vals[0], st.g
        g['bd.n'], g['bd.A'], g['bd.f'], g['bd.len'] = I(add(g['bd.n'], 1)), ex.named(st, ex.rd(st, '8', p.o)), I(p.f), I(vals[3])


@contract('multipart_parse', tags=['C15'], safety=['C15', 'C02'], cost=20, before=decoded)
def multipart_parse(c):
    form, ip, bd, n = c.args
    S = c.S
    m = S.slen(bd)
    c.requires(And(le(0, n), lt(n, 2 ** 31), S.valid(form, add(n, 1)), eq(S.ch(form, n), 0)), 'the form is terminated')
    c.requires_str(ip, 'address', LINEMAX)
    c.requires_str(bd, 'boundary', BOUNDARYMAX)
    c.requires(ge(m, 2), 'the boundary is not empty')
    ghosts(c, 'sn', 'fo', 'fw', 'md', 'ln', 'up', 'pt', 'tf')
    c.allocates()
    IO.need(c.ex)
    d = dict(A=S.a8(form.o), f=form.f, n=n, B=S.a8(bd.o), q=bd.f, m=m)
    if c.mode == 'verify':
        c.ex.multipart = d
        c.requires(And(eq(S.g('pt.k'), 0), eq(S.g('pt.e'), 0)), 'no part was decoded yet')      # ghosts of this call, set at its start

    def tm(lv):
        g = lambda l: {k: l.g(k) for k in ('pt.k', 'pt.s', 'pt.e')}
        out = [('opened', lambda l: eq(sub(l.g('fo.n'), S.g('fo.n')), sub(l.g('up.n'), S.g('up.n')))),
               ('last part', lambda l: And(ge(l.g('pt.k'), 0), Or(And(eq(l.g('pt.k'), 0), eq(l.g('pt.e'), 0)), And(gt(l.g('pt.k'), 0), le(m, l.g('pt.s')), le(add(l.g('pt.s'), m), l.g('pt.e')), none_between(d, add(l.g('pt.s'), 1), sub(l.g('pt.e'), m)))), le(l.g('pt.e'), n), ge(l.g('pt.e'), 0)))]
        for w in lv.intvars():
            out.append(('resume %s' % w, lambda l, w=w: eq(l.iv(w), resume(g(l)))))
        for w in lv.ptrvars():
            def own(l, w=w):
                p = l.var(w)
                k = slenA(l.a8(p.o), 0)
                return And(Not(eq(p.o, 0)), eq(p.f, 0), l.live(p.o), T.oheap(I(p.o)), Not(T.oro(I(p.o))), ge(p.o, c.ex.ctr0), le(0, k), lt(k, c.ex.size(p.o)))
            out.append(('fields %s' % w, own))
            out.append(('length of fields %s' % w, lambda l, w=w: le(slenA(l.a8(l.var(w).o), 0), mul(386, l.g('pt.e')))))
            for u in lv.ptrvars():
                if u < w:
                    out.append(('apart %s %s' % (u, w), lambda l, u=u, w=w: Not(eq(l.var(u).o, l.var(w).o))))
        return out
    c.loop('parts', tm)
    yield
    v = c.T
    fresh_string(c)
    c.ensures(lt(v.slen(c.ret), FORMSMAX - 2 ** 33), 'the form has a sane length')
    c.ensures(eq(sub(v.g('fo.n'), S.g('fo.n')), sub(v.g('up.n'), S.g('up.n'))), 'no file is opened but those of its parts')
    if c.mode == 'verify':
        x = resume({k: v.g(k) for k in ('pt.k', 'pt.s')})
        e = next_boundary(d, x)
        e2 = next_boundary(d, add(sub(e, form.f), m))
        c.ensures(Or(ge(x, n), lt(e, 0), lt(e2, 0)), 'no part is left')


@contract('handle_api_request', tags=['C14', 'C15'], safety=['C14', 'C02', 'C20'], before=lambda *a: arriving(*a))
def handle_api_request(c):
    req, n, bd = c.args
    S = c.S
    R = requires_routed(c, req)
    c.requires(And(field(S, req, SESSION, SESSIONMAX), field(S, req, QUERY)), 'session and query are strings')
    c.requires_str(bd, 'boundary', BOUNDARYMAX)
    c.requires(And(le(-2 ** 31, n), lt(n, 2 ** 31)), 'the announced length is sane')
    c.modifies('P', req, add(req.f, FORM), add(req.f, FORM + 8))
    c.modifies('32', req, add(req.f, RLEN), add(req.f, RLEN + 4))
    c.modifies_ghost('in.n', 'in.last')
    ghosts(c, 'sn', 'fo', 'fw', 'md', 'ln', 'up', 'pt', 'tf', 'out', 'cb', 'rt')
    c.allocates()
    IO.need(c.ex)
    D, d0 = S.g('in.a'), S.g('in.n')

    def tm(lv):
        out = []
        for w in lv.intvars():
            def body(l, w=w):
                F = l.p(req, FORM)
                A, k = l.a8(F.o), l.iv(w)
                return And(le(0, k), le(k, n), eq(l.g('in.n'), add(d0, k)), eqn(A, F.f, D, d0, k), eq(T.sel(A, I(add(F.f, k))), 0))
            out.append(('body %s' % w, body))
        return out
    c.loop('body', tm)
    yield
    v = c.T
    F0 = S.p(req, FORM)
    k = sub(v.g('in.n'), d0)
    c.ensures(eq(v.g('rt.n'), add(S.g('rt.n'), 1)), 'the request reaches the router once', tags=['C14', 'C20'])
    c.ensures(Imp(le(n, 0), And(eq(k, 0), eq(v.g('rt.o'), F0.o), eq(v.g('rt.f'), F0.f))), 'without a body nothing is read and the form is left')
    ended = Or(eq(k, n), le(v.g('in.last'), 0))
    c.ensures(Imp(gt(n, 0), And(le(0, k), le(k, n), ended)), 'the body is read up to the announced length, unless the peer stops')
    plain = And(gt(n, 0), lt(S.slen(bd), 2))
    c.ensures(Imp(plain, And(eqn(v.g('rt.A'), v.g('rt.f'), D, d0, k), eq(T.sel(v.g('rt.A'), I(add(v.g('rt.f'), k))), 0))), 'the form is exactly the bytes received, terminated', tags=['C14'])
    multi = And(gt(n, 0), ge(S.slen(bd), 2))
    c.ensures(Imp(Not(multi), And(eq(v.g('bd.n'), S.g('bd.n')), eq(v.g('fo.n'), S.g('fo.n')))), 'no file is opened')
    c.ensures(Imp(multi, And(eq(v.g('bd.n'), add(S.g('bd.n'), 1)), eq(v.g('bd.len'), k), eqn(v.g('bd.A'), v.g('bd.f'), D, d0, k))), 'a multipart body is decoded from exactly the bytes received')
    c.ensures(eq(sub(v.g('fo.n'), S.g('fo.n')), sub(v.g('up.n'), S.g('up.n'))), 'no file is opened but those of its parts')


def reading(ex, st, vals):
    from .accept import reading as f
    f(ex, st, vals)


def took(ex, st, vals, ret):
    from .accept import took as f
    f(ex, st, vals, ret)


def arriving(ex, st, vals):
    from .accept import arriving as f
    f(ex, st, vals)
