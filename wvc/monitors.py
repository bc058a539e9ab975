"""Locks as monitors: what a mutex protects, the invariant that holds whenever it is free, and what one thread's
critical section may do to it.

lock:   the protected memory becomes anything that satisfies the invariant and that the other threads could have made of it
unlock: the invariant and what the others rely on are obligations
Every access of the protected memory outside the lock is an obligation that fails.
"""
import z3
from . import theory as T
from .val import *
from .val import Ptr, NULL, I, B, strip0, stripptr
from .engine import View, Unsupported, KINDS, Ex
from .libc import lib

MONITORS = {}       # name of the mutex -> Monitor


class Monitor:
    """held: ghost that says this thread holds the mutex"""
    mutex = held = None
    tags = ()
    kinds = ('8', '32', '64')

    def objs(self, v):
        """the protected objects"""
        return []

    def acquired(self, ex, st, old, new):
        """what may be assumed when the mutex was just taken; old: what this thread saw last"""

    def release(self, ex, st, v, waiting=False):
        """obligations and ghost updates when the mutex is given back (for good, or to wait)"""

    def publish(self, ex, st, v):
        """obligations when other threads start"""


def monitor(ex, p):
    for n, m in MONITORS.items():
        try:
            if same(p.o, ex.prog.gname(n)):
                return m
        except KeyError:
            pass
    raise Unsupported('mutex is not one of the known ones')


def tags(ex, m):
    return frozenset(m.tags) & (ex.all_tags | ex.safety) or frozenset(m.tags)


def acquire(ex, st, m):
    old = View(ex, st.copy())
    for o in m.objs(old):
        for k in m.kinds:
            ex.framecheck(st, k, o, None, None)
            ex.setarr(st, k, o, ex.fresharr(k, 'mon' + k, st.age))
    st.g[m.held] = True
    m.acquired(ex, st, old, View(ex, st))


def release(ex, st, m, waiting=False):
    m.release(ex, st, View(ex, st), waiting)
    st.g[m.held] = False


@lib('pthread_mutex_lock')
def mutex_lock(ex, st, a, ins):
    m = monitor(ex, a[0])
    ex.prove(st, Not(st.g[m.held]), '%s is not taken twice by one thread' % m.mutex, tags(ex, m), 'lock')
    acquire(ex, st, m)
    return 0


@lib('pthread_mutex_unlock')
def mutex_unlock(ex, st, a, ins):
    m = monitor(ex, a[0])
    ex.prove(st, st.g[m.held], '%s is held when it is given back' % m.mutex, tags(ex, m), 'lock')
    release(ex, st, m)
    return 0


@lib('pthread_cond_wait')
def cond_wait(ex, st, a, ins):
    m = monitor(ex, a[1])
    ex.prove(st, st.g[m.held], '%s is held while waiting' % m.mutex, tags(ex, m), 'lock')
    r = ex.fint('cond_wait', -2 ** 31, 2 ** 31 - 1)
    release(ex, st, m, True)
    acquire(ex, st, m)
    return r


@lib('pthread_cond_signal', 'pthread_cond_broadcast')
def cond_signal(ex, st, a, ins):
    return 0


@lib('pthread_mutex_init', 'pthread_cond_init')
def mutex_init(ex, st, a, ins):
    return 0


def access(ex, st, o, kind):
    """an access of a protected object needs its mutex"""
    for nm in ex.top.contract.opts.get('monitors', ()):
        m = MONITORS[nm]
        if nm in getattr(ex, 'under_callee', ()):
            continue        # a call: the callee was checked itself
        h = st.g[m.held]
        if h is True:
            continue
        for q in m.objs(View(ex, st)):
            if ex.distinct(o, q):
                continue
            ex.prove(st, Imp(And(st.g['lk.s'], eq(o, q)), h), 'shared memory is used only while %s is held' % nm, tags(ex, m), 'lock')


def publish(ex, st):
    for nm in ex.top.contract.opts.get('monitors', ()):
        MONITORS[nm].publish(ex, st, View(ex, st))
    st.g['lk.s'] = z3.BoolVal(True)      # from here on memory is shared


Ex.access = access
Ex.publish = publish
