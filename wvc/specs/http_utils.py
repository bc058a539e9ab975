import os
import re
from ..spec import *

# layout of api_request
SSL, SOCKET, NHEADERS, HEADERS, CTYPE, FORM, METHOD, URL, PATH, QUERY, IP, USER, SESSION, RLINE, RSTART, RLEN, REQ = \
    0, 8, 12, 16, 6416, 6424, 6432, 6440, 6448, 6456, 6464, 6472, 6480, 6488, 6496, 6504, 6512
MAXH, HSIZE, HNAME, HVAL = 20, 320, 64, 256
STATUS = {200: b'200 OK', 201: b'201 CREATED', 400: b'400 Bad Request', 401: b'401 UNAUTHORIZED', 403: b'403 Forbidden', 404: b'404 NOT FOUND',
          429: b'429 Too many connections', 500: b'500 Internal Server Error'}
ACCESS = b'Access-Control-Allow-Origin: *\r\nAccess-Control-Allow-Methods: GET, POST, DELETE, PUT\r\nAccess-Control-Allow-Headers: Content-Type\r\n'


def server(c):
    return c.ex.prog.server


def header_name(k):
    return add(HEADERS, T.Emul(HSIZE)(I(k)))


def header_value(k):
    return add(HEADERS + HNAME, T.Emul(HSIZE)(I(k)))


def headers_ok(v, req, n=None):
    """every stored header is terminated in its own place"""
    A = v.a8(req.o)
    k = z3.Int('?k')
    n = v.i32(req, NHEADERS) if n is None else n
    nm, vl = slenA(A, add(req.f, header_name(k))), slenA(A, add(req.f, header_value(k)))
    return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < I(n)), z3.And(nm >= 0, nm < HNAME, vl >= 0, vl < HVAL, T.Emul(HSIZE)(k) == HSIZE * k)),
                     patterns=[T.Emul(HSIZE)(k)])


LINEMAX = 65536


def field(v, req, off, maxlen=LINEMAX):
    p = v.p(req, off)
    return And(v.isstr(p), le(v.slen(p), maxlen))


def requires_req(c, req):
    """what every response function needs of a request"""
    S = c.S
    c.requires_buf(req, REQ, 'request')
    n = S.i32(req, NHEADERS)
    c.requires(And(le(0, n), le(n, MAXH), headers_ok(S, req)), 'the headers of the request are in order')
    c.requires(And(field(S, req, IP), field(S, req, RLINE)), 'the address and line of the request are strings')
    c.requires(Or(Not(eq(S.p(req, SSL).o, 0)), Not(S.bool(c.glob('WAYUU_SSL_ON')))), 'there is a connection')


def sent(v0, v1, *segs):
    """the bytes sent between the two states are exactly segs"""
    A, B_ = v0.g('out.a'), v1.g('out.a')
    n, m = v0.g('out.n'), v1.g('out.n')
    cs = [T.eqn(B_, z3.IntVal(0), A, z3.IntVal(0), n)]
    off = n
    for s in segs:
        if isinstance(s, bytes):
            for i, ch in enumerate(s):
                cs.append(T.sel(B_, I(add(off, i))) == ch)
            off = add(off, len(s))
        elif isinstance(s[0], str):
            x = s[1]
            if isinstance(x, int):
                for i, ch in enumerate(str(x).encode()):
                    cs.append(T.sel(B_, I(add(off, i))) == ch)
                off = add(off, len(str(x)))
            else:
                cs.append(eqn(B_, off, T.decat(I(x)), 0, T.declen(I(x))))
                off = add(off, T.declen(I(x)))
        else:
            cs.append(eqn(B_, off, s[0], s[1], s[2]))
            off = add(off, s[2])
    cs.append(eq(m, off))
    return And(*cs)


def nothing_sent(v0, v1):
    return And(eq(v0.g('out.n'), v1.g('out.n')), eq(v0.g('out.a'), v1.g('out.a')))


def wrap32(x):
    return (I(x) + 2 ** 31) % 2 ** 32 - 2 ** 31


def known(status):
    return Or(*[eq(status, s) for s in STATUS])


def start(s):
    return b'HTTP/1.1 ' + STATUS[s] + b'\r\n'


@contract('http_print', tags=['C11'], safety=['C11', 'C01', 'C02'])
def http_print(c):
    req, data, n = c.args
    S = c.S
    c.requires_buf(req, REQ, 'request', writable=False)
    c.requires(Or(Not(eq(S.p(req, SSL).o, 0)), Not(S.bool(c.glob('WAYUU_SSL_ON')))), 'there is a connection')
    c.requires(ge(n, 0), 'length is not negative')
    c.requires(Or(eq(n, 0), S.valid(data, n)), 'data is valid memory')
    ghosts(c, 'out')
    A = S.a8(data.o)
    yield
    c.ensures(sent(S, c.T, (A, data.f, n)), 'exactly the given bytes are sent')


@contract('http_get_header', tags=['C13'], safety=['C13', 'C01'])
def http_get_header(c):
    req, name = c.args
    S = c.S
    c.requires_buf(req, REQ, 'request', writable=False)
    n = S.i32(req, NHEADERS)
    c.requires(And(le(0, n), le(n, MAXH), headers_ok(S, req)), 'the headers of the request are in order')
    c.requires_str(name, 'name', BIG)
    c.allocates()
    A = S.a8(req.o)
    nl = S.slen(name)

    def is_it(k):
        f = add(req.f, header_name(k))
        return And(eq(slenA(A, f), nl), eqn(A, f, S.a8(name.o), name.f, nl))

    def none(hi):
        k = z3.Int('?k')
        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < I(hi)), z3.Not(B(is_it(k)))), patterns=[T.Emul(HSIZE)(k)])
    # the index of the first header with that name: it exists or there is none
    first = c.ex.fint('first', 0, MAXH)
    if c.mode == 'verify':
        c.loop('headers', lambda lv: [('none before %s' % v, lambda l, v=v: none(l.iv(v))) for v in lv.intvars()])
    yield
    # definition of `first` (total by well-ordering)
    c.ex.assume(c.st, And(le(0, first), le(first, n), none(first), Or(eq(first, n), is_it(first))))
    c.ex.efact(HSIZE, first)
    found = lt(first, n)
    vf = add(req.f, header_value(first))
    vl = slenA(A, vf)
    if c.mode == 'call':
        o = c.ex.newobj(c.st, None, found, 'header', ro=Not(found))
        c.ex.assume(c.st, gt(T.osize(o), slenA(c.T.a8(o), 0)))
        c.returns(Ptr(o, 0))
    r = c.ret
    v = c.T
    c.ensures(And(v.isstr(r), eq(r.f, 0)), 'the result is a string')
    c.ensures(Imp(found, And(ge(r.o, c.ex.ctr0 if c.mode == 'verify' else 1), T.oheap(I(r.o)), v.live(r.o), eq(v.slen(r), vl), eqn(v.a8(r.o), r.f, A, vf, vl))), 'a copy of the value of the first header with that name')
    c.ensures(Imp(Not(found), eq(v.slen(r), 0)), 'the empty string when there is none')


@contract('log_access', tags=[], safety=['C11', 'C01'])
def log_access(c):
    req, status = c.args
    requires_req(c, req)
    c.allocates()
    yield


@contract('send_http_status', tags=['C11'], safety=['C11', 'C01'])
def send_http_status(c):
    req, status, msg = c.args
    S = c.S
    requires_req(c, req)
    c.requires_str(msg, 'message', 2 ** 20)
    c.modifies('32', req, add(req.f, RLEN), add(req.f, RLEN + 4))
    c.allocates()
    ghosts(c, 'out')
    M, m = S.a8(msg.o), S.slen(msg)
    yield
    v = c.T
    for s in STATUS:
        if eq(status, s) is False:
            continue
        if not (isinstance(m, int) and m > 0):
            c.ensures(Imp(And(eq(status, s), eq(m, 0)), sent(S, v, start(s), server(c), b'Content-Length: 0\r\n\r\n')), 'status %d without a body' % s)
        if not (isinstance(m, int) and m == 0):
            c.ensures(Imp(And(eq(status, s), gt(m, 0)), sent(S, v, start(s), server(c), b'Content-Length: ', ('dec', add(m, 2)), b'\r\n\r\n', (M, msg.f, m), b'\r\n')),
                      'status %d with a body' % s)
    c.ensures(Imp(Not(known(status)), nothing_sent(S, v)), 'an unknown status produces no output')
    c.ensures(eq(v.i32(req, RLEN), wrap32(add(S.i32(req, RLEN), sub(v.g('out.n'), S.g('out.n'))))), 'the recorded length grows by the bytes sent')


CT = {
    'html': b'text/html', 'png': b'image/png', 'jpeg': b'image/jpeg', 'zip': b'application/zip', 'css': b'text/css', 'svg': b'image/svg+xml',
    'ico': b'image/vnd.microsoft.icon', 'txt': b'text/plain', 'csv': b'text/csv', 'yaml': b'text/yaml', 'other': b'application/octet-stream'}
BY_EXT = {b'.html': 'html', b'.js': 'html', b'.png': 'png', b'.jpg': 'jpeg', b'.jpeg': 'jpeg', b'.zip': 'zip', b'.css': 'css', b'.svg': 'svg', b'.ico': 'ico',
          b'.txt': 'txt', b'.csv': 'csv', b'.yaml': 'yaml'}
BY_MIME = ('html', 'png', 'jpeg', 'zip', 'css', 'txt', 'csv', 'yaml')


def is_lit(A, f, lit):
    """the string at A, f is lit"""
    return And(*([T.sel(A, I(add(f, i))) == ch for i, ch in enumerate(lit)] + [T.sel(A, I(add(f, len(lit)))) == 0]))


def ext_cases(v, name):
    """(condition, content type) for a file name"""
    A = v.a8(name.o)
    r = ridx(A, name.f, 46)
    none = le(r, 0)
    out = []
    for t in CT:
        exts = [e for e, x in BY_EXT.items() if x == t]
        c = Or(*[is_lit(A, add(name.f, r), e) for e in exts])
        if t == 'html':
            c = Or(none, c)
        elif t == 'other':
            c = And(Not(none), *[Not(is_lit(A, add(name.f, r), e)) for e in BY_EXT])
        else:
            c = And(Not(none), c)
        out.append((c, t))
    return out


def ctline(t):
    return b'Content-Type: ' + CT[t] + b'\r\n'


@contract('get_content_type', tags=['C21'], safety=['C21', 'C01'])
def get_content_type(c):
    name, = c.args
    c.requires_str(name, 'file name', BIG)
    c.allocates()
    cases = ext_cases(c.S, name)
    yield
    c.ensures_fresh(minsize=64)
    for cond, t in cases:
        c.ensures(Imp(cond, text(c.T, c.ret, [ctline(t)])), 'content type %s' % CT[t].decode())


def mime_cases(v, mime):
    A = v.a8(mime.o)
    return [(is_lit(A, mime.f, CT[t]), t) for t in BY_MIME] + [(And(*[Not(is_lit(A, mime.f, CT[t])) for t in BY_MIME]), 'other')]


@contract('get_content_type_for_mime', tags=['C21'], safety=['C21'])
def get_content_type_for_mime(c):
    mime, = c.args
    c.requires_str(mime, 'media type', BIG)
    c.allocates()
    cases = mime_cases(c.S, mime)
    yield
    c.ensures_fresh(minsize=64)
    for cond, t in cases:
        c.ensures(Imp(cond, text(c.T, c.ret, [ctline(t)])), 'media type %s' % CT[t].decode())


SESSIONMAX = 256


@contract('return_headers', tags=['C11', 'C21'], safety=['C11', 'C01'])
def return_headers(c):
    req, name = c.args
    S = c.S
    requires_req(c, req)
    c.requires(field(S, req, SESSION, SESSIONMAX), 'the session is a string')
    c.requires_str(name, 'file name', BIG)
    c.allocates()
    ghosts(c, 'out')
    se = S.p(req, SESSION)
    SA, sl = S.a8(se.o), S.slen(se)
    cases = ext_cases(S, name)
    yield
    v = c.T
    sess = [b'X-Session: ', (SA, se.f, sl), b'\r\nSet-Cookie:WSSESSION=', (SA, se.f, sl), b'\r\n']
    for cond, t in cases:
        head = [start(200), server(c), ctline(t)]
        c.ensures(Imp(And(cond, eq(sl, 0)), sent(S, v, *(head + [b'\r\n']))), 'headers of a %s file' % t)
        c.ensures(Imp(And(cond, gt(sl, 0)), sent(S, v, *(head + sess + [b'\r\n']))), 'headers of a %s file in a session' % t)
    c.ensures(eq(c.ret, sub(v.g('out.n'), S.g('out.n'))), 'the result is the number of bytes sent')
    c.ensures(And(le(c.ret, 2048), T.eqn(v.g('out.a'), z3.IntVal(0), S.g('out.a'), z3.IntVal(0), S.g('out.n'))), 'what was sent before stands')


def opened(c, v0, v1, name, n=1):
    """one more file was opened, with this name"""
    IO.need(c.ex)
    A = v0.a8(name.o)
    L = v0.slen(name)
    return And(eq(v1.g('fo.n'), add(v0.g('fo.n'), n)), eq(slenA(v1.g('fo.A'), v1.g('fo.f')), L), eqn(v1.g('fo.A'), v1.g('fo.f'), A, name.f, L), Not(v1.g('fo.w')),
               eq(v1.g('fo.pA'), v0.g('fo.A')), eq(v1.g('fo.pf'), v0.g('fo.f')))


def asked(c, v0, v1, name):
    A = v0.a8(name.o)
    L = v0.slen(name)
    return And(eq(v1.g('sn.n'), add(v0.g('sn.n'), 1)), eq(slenA(v1.g('sn.A'), v1.g('sn.f')), L), eqn(v1.g('sn.A'), v1.g('sn.f'), A, name.f, L),
               eq(v1.g('sn.pA'), v0.g('sn.A')), eq(v1.g('sn.pf'), v0.g('sn.f')))


@contract('return_file', tags=['C11', 'C09'], safety=['C11', 'C01'])
def return_file(c):
    req, name = c.args
    S = c.S
    requires_req(c, req)
    c.requires_str(name, 'path', BIG)
    c.allocates()
    ghosts(c, 'out', 'fo', 'ln')
    yield
    v = c.T
    o = v.g('fo.o')
    c.ensures(opened(c, S, v, name), 'opens the file of that name')
    c.ensures(Imp(v.g('fo.ok'), sent(S, v, (IO.fdata(o), 0, IO.fsize(o)))), 'sends the content of the file')
    c.ensures(Imp(Not(v.g('fo.ok')), nothing_sent(S, v)), 'sends nothing if it cannot be opened')
    c.ensures(eq(c.ret, sub(v.g('out.n'), S.g('out.n'))), 'the result is the number of bytes sent')


@contract('direct_file', tags=['C11', 'C09', 'C10'], safety=['C11', 'C01'])
def direct_file(c):
    req, name = c.args
    S = c.S
    requires_req(c, req)
    c.requires(field(S, req, SESSION, SESSIONMAX), 'the session is a string')
    c.requires_str(name, 'file name', LINEMAX)
    c.modifies('32', req, add(req.f, RLEN), add(req.f, RLEN + 4))
    c.allocates()
    ghosts(c, 'out', 'fo', 'sn', 'ln')
    yield
    v = c.T
    r = c.ret
    c.ensures(Or(eq(r, 0), eq(r, -1)), 'success or failure')
    c.ensures(Iff(eq(r, 0), IO.regular(IO.fid(S.a8(name.o), I(name.f)))), 'success exactly when there is such a file')
    c.ensures(asked(c, S, v, name), 'asks for the file of that name')
    c.ensures(Imp(eq(r, -1), And(nothing_sent(S, v), eq(v.i32(req, RLEN), S.i32(req, RLEN)), eq(v.g('fo.n'), S.g('fo.n')), eq(v.g('fo.A'), S.g('fo.A')), eq(
        v.g('fo.f'), S.g('fo.f')))), 'a missing file sends and opens nothing')
    c.ensures(Imp(eq(r, 0), opened(c, S, v, name)), 'opens the file of that name')
    c.ensures(Imp(eq(r, 0), And(T.eqn(v.g('out.a'), z3.IntVal(0), S.g('out.a'), z3.IntVal(0), S.g('out.n')), *[
        T.sel(v.g('out.a'), S.g('out.n') + i) == ch for i, ch in enumerate(start(200))])), 'a file is announced as 200 OK')
    o = v.g('fo.o')
    c.ensures(Imp(And(eq(r, 0), v.g('fo.ok')), eqn(v.g('out.a'), sub(v.g('out.n'), IO.fsize(o)), IO.fdata(o), 0, IO.fsize(o))), 'the body is the content of the file')
    c.ensures(Imp(eq(r, 0), eq(v.i32(req, RLEN), wrap32(sub(v.g('out.n'), S.g('out.n'))))), 'the recorded length is the bytes sent')


JSONHEAD = b'Content-Type: application/json\r\n'


@contract('return_json_headers', tags=['C11'], safety=['C11'])
def return_json_headers(c):
    req, status = c.args
    S = c.S
    requires_req(c, req)
    ghosts(c, 'out')
    c.allocates()
    yield
    v = c.T
    for s in STATUS:
        if eq(status, s) is not False:
            c.ensures(Imp(eq(status, s), sent(S, v, start(s), server(c), ACCESS, JSONHEAD)), 'headers of status %d' % s)
    c.ensures(Imp(Not(known(status)), And(nothing_sent(S, v), eq(c.ret, 0))), 'an unknown status produces no output')
    c.ensures(eq(c.ret, sub(v.g('out.n'), S.g('out.n'))), 'the result is the number of bytes sent')


@contract('return_headers_with_mime', tags=['C11', 'C21'], safety=['C11'])
def return_headers_with_mime(c):
    req, status, mime = c.args
    S = c.S
    requires_req(c, req)
    c.requires_str(mime, 'media type', BIG)
    ghosts(c, 'out')
    c.allocates()
    cases = mime_cases(S, mime)
    yield
    v = c.T
    for s in STATUS:
        if eq(status, s) is False:
            continue
        for cond, t in cases:
            c.ensures(Imp(And(eq(status, s), cond), sent(S, v, start(s), server(c), ACCESS, ctline(t))), 'headers of status %d, type %s' % (s, t))
    c.ensures(Imp(Not(known(status)), And(nothing_sent(S, v), eq(c.ret, 0))), 'an unknown status produces no output')
    c.ensures(eq(c.ret, sub(v.g('out.n'), S.g('out.n'))), 'the result is the number of bytes sent')


@contract('send_stream', tags=['C11'], safety=['C11'])
def send_stream(c):
    req, fp = c.args
    S = c.S
    requires_req(c, req)
    c.requires(And(S.valid(fp, IO.FILESIZE), eq(fp.f, 0), ge(S.i64(fp), 0), le(S.i64(fp), IO.fsize(I(fp.o)))), 'the stream is open')
    c.separate(req, fp)
    c.modifies('64', fp, 0, 8)
    ghosts(c, 'out', 'ln')
    c.allocates()

    def tm(lv):
        out = [('position', lambda l: And(ge(l.i64(fp), 0), le(l.i64(fp), IO.fsize(I(fp.o))))),
               ('kept', lambda l: T.eqn(l.g('out.a'), z3.IntVal(0), S.g('out.a'), z3.IntVal(0), S.g('out.n')))]
        for v in lv.intvars():
            out.append(('counted %s' % v, lambda l, v=v: eq(l.iv(v), sub(l.g('out.n'), S.g('out.n')))))
            out.append(('at most %s' % v, lambda l, v=v: Or(eq(l.iv(v), 0), le(l.iv(v), l.i64(fp)))))
        return out
    c.loop('stream', tm)
    yield
    v = c.T
    c.ensures(eq(c.ret, sub(v.g('out.n'), S.g('out.n'))), 'the result is the number of bytes sent')
    c.ensures(And(ge(c.ret, 0), le(c.ret, 2 ** 30 + 2), T.eqn(v.g('out.a'), z3.IntVal(0), S.g('out.a'), z3.IntVal(0), S.g('out.n'))), 'what was sent before stands')


@contract('return_json_stream', tags=['C11'], safety=['C11'])
def return_json_stream(c):
    req, status, fp = c.args
    S = c.S
    requires_req(c, req)
    c.requires(And(S.valid(fp, IO.FILESIZE), eq(fp.f, 0), ge(S.i64(fp), 0), le(S.i64(fp), IO.fsize(I(fp.o)))), 'the stream is open')
    c.separate(req, fp)
    c.modifies('64', fp, 0, 8)
    c.modifies('32', req, add(req.f, RLEN), add(req.f, RLEN + 4))
    ghosts(c, 'out', 'ln')
    c.allocates()
    yield
    v = c.T
    for s in STATUS:
        if eq(status, s) is False:
            continue
        head = start(s) + server(c) + ACCESS + JSONHEAD + b'\r\n'
        c.ensures(Imp(eq(status, s), And(*[T.sel(v.g('out.a'), S.g('out.n') + i) == ch for i, ch in enumerate(head)])), 'headers of status %d' % s)
    c.ensures(Imp(Not(known(status)), nothing_sent(S, v)), 'an unknown status produces no output')
    c.ensures(Imp(known(status), eq(v.i32(req, RLEN), wrap32(sub(v.g('out.n'), S.g('out.n'))))), 'the recorded length is the bytes sent')


@contract('return_json_with_status', tags=['C11'], safety=['C11'])
def return_json_with_status(c):
    req, status, data = c.args
    S = c.S
    requires_req(c, req)
    c.requires_str(data, 'data', BIG)
    c.modifies('32', req, add(req.f, RLEN), add(req.f, RLEN + 4))
    ghosts(c, 'out')
    c.allocates()
    A, n = S.a8(data.o), S.slen(data)
    yield
    v = c.T
    for s in STATUS:
        if eq(status, s) is False:
            continue
        c.ensures(Imp(eq(status, s), sent(S, v, start(s), server(c), ACCESS, JSONHEAD, b'Content-Length: ', ('dec', add(n, 2)), b'\r\n\r\n', (A, data.f, n), b'\r\n')),
                  'response of status %d' % s)
    c.ensures(Imp(Not(known(status)), nothing_sent(S, v)), 'an unknown status produces no output')
    c.ensures(Imp(known(status), eq(v.i32(req, RLEN), wrap32(sub(v.g('out.n'), S.g('out.n'))))), 'the recorded length is the bytes sent')


@contract('get_path_and_query_string', tags=['C12'], safety=['C12', 'C01'])
def get_path_and_query_string(c):
    url, = c.args
    S = c.S
    n = S.slen(url)
    c.requires_str(url, 'url', BIG)
    c.allocates()
    A = S.a8(url.o)
    k = cidx(A, url.f, 63)
    yield
    c.ensures_fresh(size=16)
    r = c.ret
    v = c.T
    p, q = v.p(r, 0), v.p(r, 8)
    lo = c.ex.ctr0 if c.mode == 'verify' else c.pre.ctr
    ql = If(lt(k, n), sub(sub(n, k), 1), 0)
    c.ensures(And(Not(eq(p.o, r.o)), Not(eq(q.o, r.o)), Not(eq(p.o, q.o))), 'path and query are apart')
    c.ensures(And(v.isstr(p), eq(p.f, 0), ge(p.o, lo), T.oheap(I(p.o)), Not(T.oro(I(p.o))), eq(v.slen(p), k), eqn(v.a8(p.o), p.f, A, url.f, k)), 'the path is the text before the first question mark')
    c.ensures(And(v.isstr(q), eq(v.slen(q), ql), eqn(v.a8(q.o), q.f, A, add(url.f, add(k, 1)), ql)), 'the query is the text after it')
    c.ensures(Imp(gt(ql, 0), And(ge(q.o, lo), eq(q.f, 0), T.oheap(I(q.o)))), 'a query is a copy of its own')
    c.ensures(Imp(eq(ql, 0), Or(ge(q.o, lo), T.oro(I(q.o)))), 'an empty one is a copy or a constant')


@contract('free_path_and_query_t', tags=['C12'], safety=['C12', 'C01'])
def free_path_and_query_t(c):
    r, = c.args
    S = c.S
    heap = lambda p: And(S.live(p.o), eq(p.f, 0), T.oheap(I(p.o)), Not(eq(p.o, 0)))
    c.requires(And(heap(r), S.valid(r, 16)), 'the pair is a heap block')
    p, q = S.p(r, 0), S.p(r, 8)
    c.requires(And(heap(p), S.isstr(q), Or(heap(q), eq(S.slen(q), 0)), Not(eq(p.o, r.o)), Not(eq(q.o, r.o)), Not(eq(p.o, q.o))), 'its strings can be released')
    has = gt(S.slen(q), 0)
    c.modifies('V', lambda o: Or(eq(o, r.o), eq(o, p.o), And(eq(o, q.o), has)))
    yield
    v = c.T
    c.ensures(And(Not(v.live(r.o)), Not(v.live(p.o)), Imp(has, Not(v.live(q.o)))), 'pair, path and query are released')


@contract('http_read_char', tags=['C14'], safety=['C14', 'C01', 'C02'])
def http_read_char(c):
    req, p = c.args
    S = c.S
    c.requires_buf(req, REQ, 'request', writable=False)
    c.requires(Or(Not(eq(S.p(req, SSL).o, 0)), Not(S.bool(c.glob('WAYUU_SSL_ON')))), 'there is a connection')
    c.requires_buf(p, 1, 'c')
    c.modifies('8', p, p.f, add(p.f, 1))
    c.modifies_ghost('in.n', 'in.last')
    yield
    v = c.T
    r = c.ret
    c.ensures(And(le(-1, r), le(r, 1), eq(v.g('in.last'), r)), 'one byte, the end or an error')
    ch = T.sel(S.g('in.a'), S.g('in.n'))
    c.ensures(Imp(gt(r, 0), And(eq(v.ch(p), ch), eq(v.g('in.n'), add(S.g('in.n'), 1)))), 'the next byte of the connection')
    c.ensures(Imp(le(r, 0), And(eq(v.ch(p), S.ch(p)), eq(v.g('in.n'), S.g('in.n')))), 'no byte')


# ------------------------------------------------------------------ the helpers built on these
def status_wrapper(name, status):
    @contract(name, tags=['C11'], safety=['C11'])
    def w(c):
        req, = c.args
        S = c.S
        requires_req(c, req)
        c.modifies('32', req, add(req.f, RLEN), add(req.f, RLEN + 4))
        c.allocates()
        ghosts(c, 'out')
        yield
        v = c.T
        c.ensures(sent(S, v, start(status), server(c), b'Content-Length: 0\r\n\r\n'), 'status %d without a body' % status)
        c.ensures(eq(v.i32(req, RLEN), wrap32(add(S.i32(req, RLEN), sub(v.g('out.n'), S.g('out.n'))))), 'the recorded length grows by the bytes sent')


for _n, _s in (('not_found', 404), ('too_many_connections', 429), ('not_authenticated', 401), ('bad_request', 400), ('forbidden', 403), ('ok', 200), ('created', 201),
               ('internal_server_error', 500)):
    status_wrapper(_n, _s)


def json_sent(c, S, v, s, *body, n):
    return sent(S, v, start(s), server(c), ACCESS, JSONHEAD, b'Content-Length: ', ('dec', add(n, 2)), b'\r\n\r\n', *body, b'\r\n')


def json_wrapper(name, status):
    @contract(name, tags=['C11'], safety=['C11'])
    def w(c):
        req, data = c.args
        S = c.S
        requires_req(c, req)
        c.requires_str(data, 'data', BIG)
        c.modifies('32', req, add(req.f, RLEN), add(req.f, RLEN + 4))
        ghosts(c, 'out')
        c.allocates()
        n = S.slen(data)
        yield
        v = c.T
        c.ensures(json_sent(c, S, v, status, (S.a8(data.o), data.f, n), n=n), 'response of status %d' % status)
        c.ensures(eq(v.i32(req, RLEN), wrap32(sub(v.g('out.n'), S.g('out.n')))), 'the recorded length is the bytes sent')


json_wrapper('return_json', 200)
json_wrapper('created_with_json', 201)
ECODE, EMSG, ESIZE = 0, 64, 1088
UNKNOWN = b'UNKNOWN'


def requires_error(c, e):
    S = c.S
    c.requires_buf(e, ESIZE, 'error')
    n, m = S.slen(e), S.slen(Ptr(e.o, add(e.f, EMSG)))
    c.requires(And(le(0, n), lt(n, 64), le(0, m), lt(m, 1024)), 'code and message are terminated in their places')
    c.modifies('8', e, e.f, add(e.f, 8))
    A = S.a8(e.o)
    return A, n, m


def error_segs(e, A, n, m, empty):
    return [b'{"code":"', UNKNOWN if empty else (A, e.f, n), b'","message":"', (A, add(e.f, EMSG), m), b'"}']


@contract('wayuu_error_t_json_serializer', tags=['C17'], safety=['C17'])
def wayuu_error_t_json_serializer(c):
    e, = c.args
    A, n, m = requires_error(c, e)
    c.allocates()
    yield
    fresh_string(c)
    c.ensures(Imp(eq(n, 0), text(c.T, c.ret, error_segs(e, A, n, m, True))), 'an error without a code is UNKNOWN')
    c.ensures(Imp(gt(n, 0), text(c.T, c.ret, error_segs(e, A, n, m, False))), 'code and message in their places')


def error_wrapper(name, status):
    @contract(name, tags=['C11'], safety=['C11'])
    def w(c):
        req, e = c.args
        S = c.S
        requires_req(c, req)
        A, n, m = requires_error(c, e)
        c.separate(req, e)
        for off in (IP, RLINE, SSL):
            c.requires(Not(eq(S.p(req, off).o, e.o)), 'the error is apart from the request')
        c.modifies('32', req, add(req.f, RLEN), add(req.f, RLEN + 4))
        ghosts(c, 'out')
        c.allocates()
        yield
        v = c.T
        k = len(b'{"code":"","message":""}')
        c.ensures(Imp(eq(n, 0), json_sent(c, S, v, status, *error_segs(e, A, n, m, True), n=add(m, k + len(UNKNOWN)))), 'status %d with an error without code' % status)
        c.ensures(Imp(gt(n, 0), json_sent(c, S, v, status, *error_segs(e, A, n, m, False), n=add(m, add(n, k)))), 'status %d with an error' % status)
        c.ensures(eq(v.i32(req, RLEN), wrap32(sub(v.g('out.n'), S.g('out.n')))), 'the recorded length is the bytes sent')


for _n, _s in (('bad_request_with_error', 400), ('forbidden_with_error', 403), ('internal_server_error_with_error', 500)):
    error_wrapper(_n, _s)


@contract('new_error_with_values', tags=['C17'], safety=['C17'])
def new_error_with_values(c):
    code, msg = c.args
    S = c.S
    c.requires_str(code, 'code', BIG)
    c.requires_str(msg, 'message', BIG)
    c.allocates()
    yield
    c.ensures_fresh(size=ESIZE)
    r = c.ret
    E = c.T.a8(r.o)
    for p, off, m, nm in ((code, ECODE, 63, 'code'), (msg, EMSG, 1023, 'message')):
        n = S.slen(p)
        k = If(lt(n, m), n, m)
        c.ensures(And(eq(slenA(E, off), k), eqn(E, off, S.a8(p.o), p.f, k)), 'the %s, cut to its place' % nm)


@contract('return_response', tags=['C17'], safety=['C17'])
def return_response(c):
    rsp, = c.args
    S = c.S
    st = S.i32(rsp, 0)
    tx, de = Ptr(rsp.o, add(rsp.f, 4)), Ptr(rsp.o, add(rsp.f, 54))
    ai = S.p(rsp, 312)
    A = S.a8(rsp.o)
    n, m = S.slen(tx), S.slen(de)
    c.requires_buf(rsp, 320, 'response', writable=False)
    c.requires(And(le(0, n), lt(n, 50), le(0, m), lt(m, 256)), 'the texts are terminated in their places')
    c.requires(Or(isnull(ai), And(S.isstr(ai), le(S.slen(ai), BIG))), 'the additional data is null or a string')
    c.allocates()
    yield
    fresh_string(c)
    RSP = {-1: b'"RSP":"FAIL"', 0: b'"RSP":"OK"', 1: b'"RSP":"ERROR"', 2: b'"RSP":"WARNING"'}
    for s in (-1, 0, 1, 2, None):
        for ht in (True, False):
            for hd in (True, False):
                for ha in (True, False):
                    cond = And(eq(st, s) if s is not None else And(*[Not(eq(st, x)) for x in RSP]), gt(n, 0) if ht else eq(n, 0), gt(m, 0) if hd else eq(m, 0),
                               Not(isnull(ai)) if ha else isnull(ai))
                    segs = [b'{' + (RSP[s] if s is not None else b'')]
                    segs += [b', "info":"', (A, tx.f, n), b'"'] if ht else []
                    segs += [b', "description":"', (A, de.f, m), b'"'] if hd else []
                    segs += [b',"data":', (S.a8(ai.o), ai.f, S.slen(ai)), b'}'] if ha else [b',"data":""}']
                    c.ensures(Imp(cond, text(c.T, c.ret, segs)), 'status %s%s%s%s' % (s if s is not None else 'unknown', ', text' if ht else '', ', description' if hd else '', ', data' if ha else ''))


@contract('return_json_list', tags=['C11', 'C17'], safety=['C11', 'C17'])
def return_json_list(c):
    from .json_utils import requires_list, entities_ensures
    from .string_utils import pairwise
    req, lst = c.args
    S = c.S
    requires_req(c, req)
    c.requires_buf(lst, 24, 'list', writable=False)
    SE = requires_list(c, lst)
    n, e = SE.n, SE.e
    SL = StrList(S, e)
    heap = lambda p: And(S.live(p.o), eq(p.f, 0), T.oheap(I(p.o)), Not(eq(p.o, 0)))
    apart = lambda o: And(*[Not(eq(o, x)) for x in (req.o, S.p(req, IP).o, S.p(req, RLINE).o, S.p(req, SSL).o)])
    c.requires(And(Or(isnull(e), And(heap(e), apart(e.o)))), 'the array of elements is a heap block')
    c.requires(And(SL.forall(0, n, lambda k: And(heap(SL.at(k)), Not(eq(SL.at(k).o, e.o)), apart(SL.at(k).o))), pairwise(SL, n)), 'the elements are heap blocks of their own')
    c.requires(Imp(gt(n, 0), lt(mul(65537, n), BIG)), 'the text is not too long')
    c.modifies('32', req, add(req.f, RLEN), add(req.f, RLEN + 4))
    c.modifies('V', e.o)
    c.modifies('V', lambda o: Not(SL.forall(0, n, lambda k: Not(eq(SL.at(k).o, o)))))
    ghosts(c, 'out')
    c.allocates()

    def tm(lv):
        out = []
        for v in lv.intvars():
            out.append(('rest lives %s' % v, lambda l, v=v: SL.forall(l.iv(v), n, lambda k: l.live(SL.at(k).o))))
        out.append(('list lives', lambda l: Or(isnull(e), l.live(e.o))))
        for o in ptrlocals(lv):
            out.append(('alive', lambda l, o=o: l.live(o)))
        return out
    c.loop('free', tm)
    yield
    v = c.T
    head = start(200) + server(c) + ACCESS + JSONHEAD + b'Content-Length: '
    OA = v.g('out.a')
    cs, total = entities_ensures(c, S, lst, OA, add(S.g('out.n'), add(len(head) + 4, T.declen(I(add(entities_ensures(c, S, lst, OA, 0)[1], 2))))))
    n0 = S.g('out.n')
    at = lambda off, bs: And(*[T.sel(OA, I(add(n0, add(off, i)))) == ch for i, ch in enumerate(bs)])
    dl = T.declen(I(add(total, 2)))
    c.ensures(And(at(0, head), eqn(OA, add(n0, len(head)), T.decat(I(add(total, 2))), 0, dl), at(add(len(head), dl), b'\r\n\r\n'), at(add(add(len(head) + 4, dl), total), b'\r\n'),
                  eq(v.g('out.n'), add(n0, add(add(len(head) + 6, dl), total)))), 'the response announces the length of the text')
    for x in cs:
        c.ensures(x, 'the body is the JSON array of the elements')
    c.ensures(eq(v.i32(req, RLEN), wrap32(sub(v.g('out.n'), S.g('out.n')))), 'the recorded length is the bytes sent')
