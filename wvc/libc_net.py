"""Assumed contracts of the socket, SSL set-up and thread functions the program calls."""
import z3
from . import theory as T
from .val import *
from .val import Ptr, NULL, UNDEF
from .engine import View, KINDS, Unsupported
from .libc import LIBC, lib, V, argstr, argbuf, isnull, ne0, size_arg


def scrub(ex, st, p, n, fn):
    """n bytes at p become anything"""
    d = argbuf(ex, st, p, n, fn)
    for k in ('8', '32', '64', 'P'):
        ex.region(st, k, d.o, d.f, add(d.f, n), fn)


@lib('close')
def close(ex, st, a, ins):
    """descriptors closed so far are recorded"""
    fd = I(a[0])
    tags = ex.all_tags & {'C05'}
    # while the table still names the descriptor it may not be given to someone else
    if tags:
        ex.prove(st, Or(fd != I(st.g['me.fd']), eq(st.g['lc.in'], 0)), 'the connection has left the table before its descriptor is closed', tags, 'ensures')
    n = st.g['cl.n']
    st.g['cl.A'] = T.put(st.g['cl.A'], I(n), fd)
    st.g['cl.n'] = add(n, 1)
    st.g['cl.out'] = st.g['out.n']
    return ex.fint('close', -1, 0)


@lib('socket')
def socket(ex, st, a, ins):
    return ex.fint('socket', -1, 2 ** 31 - 1)


@lib('bind', 'connect')
def bind(ex, st, a, ins):
    argbuf(ex, st, a[1], a[2], 'bind', 'address', write=False)
    return ex.fint('bind', -1, 0)


@lib('listen')
def listen(ex, st, a, ins):
    return ex.fint('listen', -1, 0)


@lib('setsockopt')
def setsockopt(ex, st, a, ins):
    argbuf(ex, st, a[3], a[4], 'setsockopt', 'value', write=False)
    return ex.fint('setsockopt', -1, 0)


def peer(ex, st, a, fn):
    argbuf(ex, st, a[2], 4, fn, 'length')
    n = V(ex, st).i32(a[2])
    if not (isinstance(n, int) and n == 16):
        ex.prove(st, le(n, 16), '%s: the length is that of the address' % fn, ex.safety, 'memory')
    ok = argbuf(ex, st, a[1], 16, fn, 'address')
    scrub(ex, st, a[1], 16, fn)
    ex.framecheck(st, '32', a[2].o, a[2].f, add(a[2].f, 4))
    ex.setarr(st, '32', a[2].o, ex.rd(st, '32', a[2].o).put(a[2].f, 16))


@lib('accept')
def accept(ex, st, a, ins):
    peer(ex, st, a, 'accept')
    r = ex.fint('accept', -1, 2 ** 31 - 1)
    ex.assume(st, r != 0)
    h = ex.top.contract.opts.get('accepting')
    if h:
        h(ex, st)
    st.g['ac.fd'] = r
    st.g['ac.n'] = add(st.g['ac.n'], 1)
    st.g['ac.q'], st.g['ac.c'] = I(st.g['q.inn']), I(st.g['cl.n'])
    # who connected; nothing was decided about it yet
    st.g['ac.A'] = I(V(ex, st).i32(a[1], 4))
    st.g['al.n'], st.g['q.room'] = I(0), z3.BoolVal(True)
    return r


@lib('getpeername')
def getpeername(ex, st, a, ins):
    peer(ex, st, a, 'getpeername')
    st.g['pn.fd'], st.g['pn.A'] = I(a[0]), I(V(ex, st).i32(a[1], 4))
    return ex.fint('getpeername', -1, 0)


@lib('inet_ntoa')
def inet_ntoa(ex, st, a, ins):
    o = ex.newobj(st, 18, False, 'ntoa')
    v = V(ex, st)
    n = v.slen(Ptr(o, 0))
    ex.assume(st, And(ge(n, 7), le(n, 15)))
    st.g['na.A'], st.g['na.v'] = v.a8(o), I(a[0])
    return Ptr(o, 0)


@lib('inet_addr')
def inet_addr(ex, st, a, ins):
    argstr(ex, st, a[0], 'inet_addr')
    return ex.fint('inet_addr', -2 ** 31, 2 ** 31 - 1)


@lib('pthread_create')
def pthread_create(ex, st, a, ins):
    argbuf(ex, st, a[0], 8, 'pthread_create')
    ex.publish(st)
    ex.region(st, '64', a[0].o, a[0].f, add(a[0].f, 8), 'tid')
    return 0


@lib('signal')
def signal(ex, st, a, ins):
    return NULL


# ------------------------------------------------------------------ OpenSSL connections
def conn(ex, st, fn):
    return Ptr(ex.newobj(st, 64, False, fn), 0)


@lib('SSL_new')
def ssl_new(ex, st, a, ins):
    ex.prove(st, ne0(a[0].o), 'SSL_new: there is a context', ex.safety, 'memory')
    return conn(ex, st, 'ssl')


@lib('SSL_set_fd', 'SSL_accept', 'SSL_shutdown')
def ssl_op(ex, st, a, ins):
    ex.prove(st, And(ne0(a[0].o), ex.rdlive(st, a[0].o)), 'SSL connection is live', ex.safety, 'memory')
    return ex.fint('ssl', -2 ** 31, 2 ** 31 - 1)


@lib('SSL_free')
def ssl_free(ex, st, a, ins):
    nul = isnull(a[0])
    ex.prove(st, Or(nul, ex.rdlive(st, a[0].o)), 'SSL_free: releases a live connection', ex.safety, 'memory')
    if isinstance(a[0].o, int):
        return None
    ex.framecheck(st, 'V', a[0].o, None, None, nul)
    ex.setlive(st, a[0].o, If(nul, ex.rdlive(st, a[0].o), False))
    return None


@lib('SSLv23_server_method', 'TLS_server_method', 'TLS_method')
def ssl_method(ex, st, a, ins):
    return conn(ex, st, 'method')


@lib('SSL_CTX_new')
def ssl_ctx_new(ex, st, a, ins):
    ok = ex.fbool('ctx')
    return Ptr(If(ok, ex.newobj(st, 64, False, 'ctx'), 0), 0)


@lib('SSL_CTX_use_certificate_chain_file', 'SSL_CTX_use_PrivateKey_file')
def ssl_file(ex, st, a, ins):
    argstr(ex, st, a[1], 'SSL_CTX_use file')
    return ex.fint('ssl', -2 ** 31, 2 ** 31 - 1)


@lib('OPENSSL_init_ssl', 'OPENSSL_init_crypto', 'SSL_load_error_strings', 'OpenSSL_add_ssl_algorithms', 'SSL_library_init', 'SSL_CTX_ctrl', 'SSL_CTX_set_ecdh_auto', 'ERR_print_errors_fp')
def ssl_int(ex, st, a, ins):
    return ex.fint('ssl', -2 ** 31, 2 ** 31 - 1)


@lib('EVP_cleanup', 'SSL_CTX_free')
def ssl_void(ex, st, a, ins):
    return None
