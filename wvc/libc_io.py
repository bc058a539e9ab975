"""Assumed contracts of files, sockets, time and threads (trusted, like libc.py)."""
import z3
from . import theory as T
from .val import *
from .val import Ptr, NULL, UNDEF
from .engine import KINDS, View, Arr, PArr, Unsupported, PI, strip0, stripptr
from .libc import LIBC, lib, V, argstr, argbuf, isnull, ne0, size_arg, chars, format_segs, total, sc

fdata = z3.Function('fdata', z3.IntSort(), T.ASort)      # content of an open file
fsize = z3.Function('fsize', z3.IntSort(), z3.IntSort())  # its length
nlat = z3.Function('nlat', T.ASort, z3.IntSort(), z3.IntSort(), z3.IntSort())  # nlat(A,p,e): first newline in A[p..e), or e
FILESIZE = 216
zat = z3.Function('zat', T.ASort, z3.IntSort(), z3.IntSort(), z3.IntSort())    # zat(A,p,e): first zero in A[p..e), or e
# the files there are, by name (they do not change while a function runs: assumed)
fid = z3.Function('fid', T.ASort, z3.IntSort(), z3.IntSort())                  # the file a name stands for
regular = z3.Function('regular', z3.IntSort(), z3.BoolSort())
isdirectory = z3.Function('isdirectory', z3.IntSort(), z3.BoolSort())
readable = z3.Function('readable', z3.IntSort(), z3.BoolSort())
fcont = z3.Function('fcont', z3.IntSort(), T.ASort)
fclen = z3.Function('fclen', z3.IntSort(), z3.IntSort())


def ioaxioms():
    A = z3.Const('A', T.ASort)
    p, e, j, o = z3.Ints('p e j o')
    n = nlat(A, p, e)
    MP = z3.MultiPattern
    B_ = z3.Const('B', T.ASort)
    q = z3.Int('q')
    z = zat(A, p, e)
    return [
        z3.ForAll([A, p, B_, q], z3.Or(fid(A, p) == fid(B_, q), z3.Not(T.eqn(A, p, B_, q, T.slen(A, p))), T.slen(A, p) != T.slen(B_, q)), patterns=[MP(fid(A, p), fid(B_, q))], qid='fid'),
        z3.ForAll([A, p, e], z3.Implies(p <= e, z3.And(p <= z, z <= e, z3.Implies(z < e, T.sel(A, z) == 0))), patterns=[z], qid='zat1'),
        z3.ForAll([A, p, e, j], z3.Implies(p <= j, z3.And(z3.Implies(j < z, T.sel(A, j) != 0), z3.Implies(z3.And(j < e, T.sel(A, j) == 0), z <= j))), patterns=[MP(z, T.sel(A, j))], qid='zat2'),
        z3.ForAll([o], z3.And(fsize(o) >= 0, fsize(o) <= 2 ** 30), patterns=[fsize(o)], qid='fsize'),
        z3.ForAll([A, p, e], z3.Implies(p <= e, z3.And(p <= n, n <= e, z3.Implies(n < e, T.sel(A, n) == 10))), patterns=[n], qid='nlat1'),
        z3.ForAll([A, p, e, j], z3.Implies(z3.And(p <= j, j < n), T.sel(A, j) != 10), patterns=[MP(n, T.sel(A, j))], qid='nlat2'),
        z3.ForAll([A, p, e, j], z3.Implies(z3.And(p <= j, j < e, T.sel(A, j) == 10), n <= j), patterns=[MP(n, T.sel(A, j))], qid='nlat3'),
    ]


def need(ex):
    if 'io' not in ex._defs:
        ex._defs['io'] = True
        ex.facts0 += ioaxioms()


# ------------------------------------------------------------------ files
def isfile(ex, st, p, fn):
    o = strip0(p.o)
    if isinstance(o, int):
        ok = ne0(p.o)
    else:
        ok = And(ne0(p.o), ex.rdlive(st, o), eq(p.f, 0))
    ex.prove(st, ok, '%s: the stream is open' % fn, ex.safety, 'memory')
    need(ex)
    return o


def note(ex, st, name, v):
    if name in st.g:
        st.g[name] = I(v) if not z3.is_expr(v) else v


@lib('fopen')
def fopen(ex, st, a, ins):
    p, A, n = argstr(ex, st, a[0], 'fopen', 'file name')
    mode = chars(ex, a[1])
    need(ex)
    o = ex.newobj(st, FILESIZE, False, 'FILE')
    okb = ex.fbool('opened')
    ex.setarr(st, '64', o, ex.rd(st, '64', o).put(0, 0))
    # a failed call leaves no stream behind
    ex.setlive(st, o, okb)
    if mode is not None and mode[:1] == b'a':
        return Ptr(If(okb, o, 0), 0)        # logs are appended to; they are not part of what is served or uploaded
    note(ex, st, 'fo.n', add(st.g['fo.n'], 1))
    for x in ('A', 'f', 'ok', 'w'):
        st.g['fo.p' + x] = st.g['fo.' + x]
    st.g['fo.A'], st.g['fo.f'], st.g['fo.ok'] = A, I(p.f), okb
    st.g['fo.w'] = z3.BoolVal(mode is None or mode[:1] != b'r')
    st.g['fo.o'] = o
    if mode is not None and mode[:1] == b'r':
        i = fid(A, I(p.f))
        ex.assume(st, And(okb == readable(i), fdata(o) == fcont(i), fsize(o) == fclen(i)))
    # opening for writing leaves no old text in the file
    return Ptr(If(okb, o, 0), 0)


@lib('fclose')
def fclose(ex, st, a, ins):
    o = isfile(ex, st, a[0], 'fclose')
    if not isinstance(o, int):
        ex.framecheck(st, 'V', o, None, None)
        ex.setlive(st, o, False)
    return ex.fint('fclose', -1, 0)


def fpos(ex, st, o):
    v = ex.rd(st, '64', o).get(0)
    return norm(v)


def setpos(ex, st, o, v):
    ex.framecheck(st, '64', o, 0, 8)
    ex.setarr(st, '64', o, ex.rd(st, '64', o).put(0, v))


@lib('fseek')
def fseek(ex, st, a, ins):
    o = isfile(ex, st, a[0], 'fseek')
    if a[2] == 0:
        setpos(ex, st, o, a[1])
    elif a[2] == 2 and a[1] == 0:
        setpos(ex, st, o, fsize(I(o)))
    else:
        setpos(ex, st, o, ex.fint('pos', 0, 2 ** 40))
    return 0


@lib('rewind')
def rewind(ex, st, a, ins):
    setpos(ex, st, isfile(ex, st, a[0], 'rewind'), 0)


@lib('ftell')
def ftell(ex, st, a, ins):
    o = isfile(ex, st, a[0], 'ftell')
    r = fpos(ex, st, o)
    if z3.is_expr(r):
        ex.rng.set(r, -2 ** 63, 2 ** 63 - 1)
    return r


def avail(ex, st, o):
    p = fpos(ex, st, o)
    ex.assume(st, ge(p, 0))
    return p, If(lt(p, fsize(I(o))), sub(fsize(I(o)), p), 0)


@lib('fread')
def fread(ex, st, a, ins):
    o = isfile(ex, st, a[3], 'fread')
    m = size_arg(ex, st, a[1], 'fread')
    k = size_arg(ex, st, a[2], 'fread')
    if isinstance(m, int) and m == 1:
        n = k
    elif isinstance(k, int) and k == 1:
        n = m
    else:
        n = mul(m, k)
    p, av = avail(ex, st, o)
    got = If(lt(n, av), n, av)
    d = argbuf(ex, st, a[0], n, 'fread')
    old, new = ex.region(st, '8', d.o, d.f, add(d.f, got), 'rd')
    ex.copyfacts(st, new.expr(), d.f, fdata(I(o)), p, got)
    setpos(ex, st, o, add(p, got))
    if isinstance(m, int) and m == 1:
        return got
    r = ex.fint('fread', 0, 2 ** 40)
    if isinstance(k, int) and k == 1:
        ex.assume(st, Iff(eq(r, 1), And(eq(got, n), gt(n, 0))))
        ex.assume(st, le(r, 1))
    return r


@lib('fwrite')
def fwrite(ex, st, a, ins):
    o = isfile(ex, st, a[3], 'fwrite')
    m = size_arg(ex, st, a[1], 'fwrite')
    k = size_arg(ex, st, a[2], 'fwrite')
    n = k if isinstance(m, int) and m == 1 else m if isinstance(k, int) and k == 1 else mul(m, k)
    p = argbuf(ex, st, a[0], n, 'fwrite', 'data', write=False)
    A = ex.named(st, ex.rd(st, '8', p.o))
    st.g['fw.n'] = I(add(st.g['fw.n'], 1))
    st.g['fw.A'], st.g['fw.f'], st.g['fw.len'] = A, I(p.f), I(n)
    st.g['fw.o'] = I(o)
    return k


def isstream(ex, st, p, fn):
    ex.prove(st, ne0(p.o), '%s: the stream is not null' % fn, ex.safety, 'memory')


def linelen(ex, o, p):
    """length of the line at position p of file o, with its newline"""
    A, e = fdata(I(o)), fsize(I(o))
    n = nlat(A, I(p), e)
    return If(lt(n, e), sub(add(n, 1), p), sub(e, p))


@lib('fgets')
def fgets(ex, st, a, ins):
    o = isfile(ex, st, a[2], 'fgets')
    n = a[1]
    ex.prove(st, gt(n, 0), 'fgets: room for the terminator', ex.safety, 'memory')
    p, av = avail(ex, st, o)
    ll_ = linelen(ex, o, p)
    if ex.line_hook is not None:
        ex.line_hook(st, o, p)
    eof = Or(eq(av, 0), le(n, 1))
    st.g['ln.c'], st.g['ln.n'] = I(st.g['ln.n']), I(add(st.g['ln.n'], If(eof, 0, 1)))
    got = If(lt(ll_, n), ll_, sub(n, 1))
    # what is written, not the claimed size, must fit: but any file may come along
    d = argbuf(ex, st, a[0], n, 'fgets')
    w = If(eof, 0, add(got, 1))
    old, new = ex.region(st, '8', d.o, d.f, add(d.f, w), 'ln')
    e = new.expr()
    ex.assume(st, Imp(Not(eof), And(T.eqn(e, I(d.f), fdata(I(o)), I(p), I(got)), eq(T.sel(e, I(add(d.f, got))), 0), gt(got, 0))))
    setpos(ex, st, o, If(eof, p, add(p, got)))
    return Ptr(If(eof, 0, d.o), If(eof, 0, d.f))


@lib('getline')
def getline(ex, st, a, ins):
    o = isfile(ex, st, a[2], 'getline')
    lp = argbuf(ex, st, a[0], 8, 'getline', 'line pointer')
    np_ = argbuf(ex, st, a[1], 8, 'getline', 'size pointer')
    old = ex.rd(st, 'P', lp.o).get(lp.f)
    oldp = Ptr(norm(old.o), norm(old.f))
    ex.bound_ptr(st, oldp)
    nul = isnull(oldp)
    oo = strip0(oldp.o)
    if nul is not True:
        ok = And(ex.rdlive(st, oo), eq(oldp.f, 0), T.oheap(I(oo)), ge(ex.size(oo), ex.rd(st, '64', np_.o).get(np_.f)))
        ex.prove(st, Or(nul, ok), 'getline: the buffer is null or a heap block of the given size', ex.safety, 'memory')
    p, av = avail(ex, st, o)
    eof = eq(av, 0)
    got = linelen(ex, o, p)
    if ex.line_hook is not None:
        ex.line_hook(st, o, p)
    st.g['ln.c'], st.g['ln.n'] = I(st.g['ln.n']), I(add(st.g['ln.n'], If(eof, 0, 1)))
    # the block may move: modelled as a new block of sufficient size; the old one is gone
    new = ex.newobj(st, None, True, 'line')
    ex.assume(st, ge(T.osize(new), add(If(eof, 0, got), 1)))
    e = ex.rd(st, '8', new).expr()
    ex.assume(st, Imp(Not(eof), And(T.eqn(e, z3.IntVal(0), fdata(I(o)), I(p), I(got)), eq(T.sel(e, I(got)), 0), gt(got, 0), T.slen(e, z3.IntVal(0)) == zat(fdata(I(o)), I(p), I(add(p, got))) - I(p))))
    ex.assume(st, Imp(eof, eq(T.sel(e, z3.IntVal(0)), 0)))
    if getattr(ex, 'line_read', None):
        ex.line_read(st, e, eof)
    if nul is not True and not isinstance(oo, int):
        ex.framecheck(st, 'V', oo, None, None, nul)
        ex.setlive(st, oo, If(nul, ex.rdlive(st, oo), False))
    ex.framecheck(st, 'P', lp.o, lp.f, add(lp.f, 8))
    ex.setarr(st, 'P', lp.o, ex.rd(st, 'P', lp.o).put(lp.f, Ptr(new, 0)))
    ex.framecheck(st, '64', np_.o, np_.f, add(np_.f, 8))
    ex.setarr(st, '64', np_.o, ex.rd(st, '64', np_.o).put(np_.f, T.osize(new)))
    setpos(ex, st, o, If(eof, p, add(p, got)))
    r = ex.fint('getline', -1, 2 ** 40)
    ex.assume(st, eq(r, If(eof, -1, got)))
    return r


@lib('fprintf')
def fprintf(ex, st, a, ins):
    isstream(ex, st, a[0], 'fprintf')
    segs = format_segs(ex, st, a[1], a[2:], 'fprintf')
    st.g['io.n'] = I(add(st.g['io.n'], 1))
    return ex.fint('fprintf', 0, 2 ** 31 - 1)


@lib('vfprintf')
def vfprintf(ex, st, a, ins):
    isstream(ex, st, a[0], 'vfprintf')
    argstr(ex, st, a[1], 'vfprintf', 'format')
    st.g['io.n'] = I(add(st.g['io.n'], 1))
    st.g['io.msg'] = I(add(st.g['io.msg'], 1))
    st.g['io.fmt.o'], st.g['io.fmt.f'] = I(a[1].o), I(a[1].f)
    st.g['io.file'] = I(a[0].o)
    return ex.fint('vfprintf', 0, 2 ** 31 - 1)


@lib('fputs')
def fputs(ex, st, a, ins):
    argstr(ex, st, a[0], 'fputs')
    isstream(ex, st, a[1], 'fputs')
    st.g['io.n'] = I(add(st.g['io.n'], 1))
    return 1


@lib('fputc', 'putc')
def fputc(ex, st, a, ins):
    isstream(ex, st, a[1], 'fputc')
    st.g['io.n'] = I(add(st.g['io.n'], 1))
    return a[0]


@lib('feof', 'ferror')
def feof(ex, st, a, ins):
    isfile(ex, st, a[0], 'feof')
    return ex.fint('feof', 0, 1)


@lib('remove', 'unlink')
def remove(ex, st, a, ins):
    argstr(ex, st, a[0], 'remove')
    return ex.fint('remove', -1, 0)


fexist = z3.Function('fexist', T.ASort, z3.IntSort(), z3.BoolSort())


@lib('stat', 'lstat')
def stat(ex, st, a, ins):
    p, A, n = argstr(ex, st, a[0], 'stat', 'file name')
    d = argbuf(ex, st, a[1], 144, 'stat', 'buffer')
    st.g['sn.n'] = I(add(st.g['sn.n'], 1))
    for x in ('A', 'f'):
        st.g['sn.p' + x] = st.g['sn.' + x]
    st.g['sn.A'], st.g['sn.f'] = A, I(p.f)
    for k in ('8', '64'):
        ex.region(st, k, d.o, d.f, add(d.f, 144), 'stat')
    old, new = ex.region(st, '32', d.o, d.f, add(d.f, 144), 'stat')
    need(ex)
    r = ex.fint('stat', -1, 0)
    kind = T.band(T.sel(new.expr(), I(add(d.f, 24))), z3.IntVal(61440))
    i = fid(A, I(p.f))
    ex.assume(st, And(Iff(And(eq(r, 0), eq(kind, 32768)), regular(i)), Iff(And(eq(r, 0), eq(kind, 16384)), isdirectory(i))))
    return r


@lib('access')
def access(ex, st, a, ins):
    argstr(ex, st, a[0], 'access')
    return ex.fint('access', -1, 0)


@lib('mkdir')
def mkdir(ex, st, a, ins):
    argstr(ex, st, a[0], 'mkdir')
    return ex.fint('mkdir', -1, 0)


# ------------------------------------------------------------------ time
@lib('time')
def time_(ex, st, a, ins):
    r = ex.fint('time', 0, 2 ** 40)
    if isnull(a[0]) is not True:
        d = argbuf(ex, st, a[0], 8, 'time')
        ex.framecheck(st, '64', d.o, d.f, add(d.f, 8))
        ex.setarr(st, '64', d.o, ex.rd(st, '64', d.o).put(d.f, r))
    return r


@lib('gmtime', 'localtime')
def gmtime(ex, st, a, ins):
    argbuf(ex, st, a[0], 8, 'gmtime', write=False)
    return Ptr(ex.newobj(st, 56, False, 'tm'), 0)


@lib('gmtime_r', 'localtime_r')
def gmtime_r(ex, st, a, ins):
    argbuf(ex, st, a[0], 8, 'gmtime_r', write=False)
    d = argbuf(ex, st, a[1], 56, 'gmtime_r')
    for k in ('32', '64', 'P'):
        ex.region(st, k, d.o, d.f, add(d.f, 56), 'tm')
    return a[1]


WIDTH = {'d': 2, 'm': 2, 'y': 2, 'H': 2, 'M': 2, 'S': 2, 'b': 3, 'Y': 11, 'z': 5, 'F': 17, 'T': 8, 'a': 3, 'A': 9, 'B': 9, 'j': 3, 'Z': 6, 'e': 2, 'D': 8, 'R': 5, '%': 1}


@lib('strftime')
def strftime(ex, st, a, ins):
    n = size_arg(ex, st, a[1], 'strftime')
    f = chars(ex, a[2])
    argbuf(ex, st, a[3], 56, 'strftime', 'time', write=False)
    d = argbuf(ex, st, a[0], n, 'strftime')
    old, new = ex.region(st, '8', d.o, d.f, add(d.f, n), 'tf')
    w = None
    if f is not None:
        w, i = 0, 0
        t = f.decode('latin1')
        while i < len(t):
            if t[i] == '%' and i + 1 < len(t):
                w = w + WIDTH[t[i + 1]] if t[i + 1] in WIDTH and w is not None else None
                i += 2
            else:
                w = w + 1 if w is not None else None
                i += 1
    r = ex.fint('strftime', 0, 2 ** 40)
    if w is not None:
        ex.assume(st, Imp(gt(n, w), And(T.slen(new.expr(), I(d.f)) == r, le(r, w))))
    return r


@lib('gettimeofday')
def gettimeofday(ex, st, a, ins):
    d = argbuf(ex, st, a[0], 16, 'gettimeofday')
    for off in (0, 8):
        ex.framecheck(st, '64', d.o, add(d.f, off), add(d.f, off + 8))
        ex.setarr(st, '64', d.o, ex.rd(st, '64', d.o).put(add(d.f, off), ex.fint('tv', 0, 2 ** 40)))
    return 0


# ------------------------------------------------------------------ threads
@lib('pthread_self')
def pthread_self(ex, st, a, ins):
    r = z3.Int('thread.self')
    if 'self' not in ex._defs:
        ex._defs['self'] = True
        ex.facts0.append(z3.And(r >= 0, r < 2 ** 63))      # the address of the thread's descriptor
        ex.rng.set(r, 0, 2 ** 63 - 1)
    return r


# ------------------------------------------------------------------ sockets
def transmit(ex, st, p, n, fn):
    n = size_arg(ex, st, n, fn)
    p = argbuf(ex, st, p, n, fn, 'data', write=False)
    A = ex.named(st, ex.rd(st, '8', p.o))
    old, m = st.g['out.a'], st.g['out.n']
    new = ex.farr('out')
    ex.assume(st, T.eqn(new, z3.IntVal(0), old, z3.IntVal(0), I(m)))
    ex.assume(st, T.eqn(new, I(m), A, I(p.f), I(n)))
    st.g['out.a'], st.g['out.n'] = new, I(add(m, n))
    return n


@lib('send')
def send(ex, st, a, ins):
    h = ex.opts.get('fd_hook')
    if h:
        h(ex, st, a[0], 'send')
    return transmit(ex, st, a[1], a[2], 'send')


@lib('SSL_write')
def ssl_write(ex, st, a, ins):
    ex.prove(st, ne0(a[0].o), 'SSL_write: there is a connection', ex.safety, 'memory')
    return transmit(ex, st, a[1], a[2], 'SSL_write')


def receive(ex, st, p, n, fn):
    n = size_arg(ex, st, n, fn)
    p = argbuf(ex, st, p, n, fn, 'buffer')
    if not (isinstance(n, int) and n == 1):
        raise Unsupported('%s of more than one byte' % fn)
    r = ex.fint(fn, -1, 1)
    pos = st.g['in.n']
    c = T.sel(st.g['in.a'], pos)
    ex.assume(st, z3.And(c >= -128, c < 128))
    ex.framecheck(st, '8', p.o, p.f, add(p.f, 1))
    old = ex.rd(st, '8', p.o)
    ex.setarr(st, '8', p.o, old.put(p.f, If(r > 0, c, I(old.get(p.f)))))
    st.g['in.n'] = I(If(r > 0, add(pos, 1), pos))
    st.g['in.last'] = r
    return r


@lib('recv')
def recv(ex, st, a, ins):
    if a[3] != 0 or not isinstance(a[3], int):
        raise Unsupported('recv with flags')
    return receive(ex, st, a[1], a[2], 'recv')


@lib('SSL_read')
def ssl_read(ex, st, a, ins):
    ex.prove(st, ne0(a[0].o), 'SSL_read: there is a connection', ex.safety, 'memory')
    return receive(ex, st, a[1], a[2], 'SSL_read')
