"""Values: Python ints / z3 Int terms, Python bools / z3 Bool terms, pointers (object, offset)."""
import z3


class Ptr:
    __slots__ = ('o', 'f')

    def __init__(self, o, f):
        self.o, self.f = o, f

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.o, self.f)

    def __add__(self, n):
        return Ptr(self.o, add(self.f, n))


NULL = Ptr(0, 0)


def strip0(o):
    """the object of a pointer that is known not to be null"""
    while z3.is_expr(o) and z3.is_app_of(o, z3.Z3_OP_ITE):
        a, b = o.arg(1), o.arg(2)
        if z3.is_int_value(b) and b.as_long() == 0:
            o = norm(a)
        elif z3.is_int_value(a) and a.as_long() == 0:
            o = norm(b)
        else:
            break
    return o


def stripptr(p):
    o, f = p.o, p.f
    while z3.is_expr(o) and z3.is_app_of(o, z3.Z3_OP_ITE):
        c, a, b = o.children()
        if z3.is_int_value(b) and b.as_long() == 0:
            o, w = norm(a), 1
        elif z3.is_int_value(a) and a.as_long() == 0:
            o, w = norm(b), 2
        else:
            break
        if z3.is_expr(f) and z3.is_app_of(f, z3.Z3_OP_ITE) and f.arg(0).eq(c):
            f = norm(f.arg(w))
    return Ptr(o, f)



class Undef:
    pass


UNDEF = Undef()


class Agg:
    def __init__(self, xs):
        self.xs = list(xs)


def I(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def B(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


def isnum(x):
    return isinstance(x, int)


def norm(x):
    """z3 numeral -> int"""
    if isinstance(x, int):
        return x
    if z3.is_int_value(x):
        return x.as_long()
    return x


_lin = {}


def lin(e):
    """linear form (const, {id: (term, coef)})"""
    if isinstance(e, int):
        return (e, {})
    i = e.get_id()
    r = _lin.get(i)
    if r is not None and r[2] is not None and r[2].eq(e):
        return r
    k = e.decl().kind()
    if z3.is_int_value(e):
        r = (e.as_long(), {})
    elif k == z3.Z3_OP_ADD:
        c, d = 0, {}
        for x in e.children():
            cx, dx = lin(x)[:2]
            c += cx
            for t, (tt, co) in dx.items():
                o = d.get(t, (tt, 0))[1] + co
                d[t] = (tt, o)
        r = (c, {t: v for t, v in d.items() if v[1]})
    elif k == z3.Z3_OP_SUB:
        ch = e.children()
        c, d = lin(ch[0])[:2]
        d = dict(d)
        for x in ch[1:]:
            cx, dx = lin(x)[:2]
            c -= cx
            for t, (tt, co) in dx.items():
                o = d.get(t, (tt, 0))[1] - co
                d[t] = (tt, o)
        r = (c, {t: v for t, v in d.items() if v[1]})
    elif k == z3.Z3_OP_UMINUS:
        c, d = lin(e.arg(0))[:2]
        r = (-c, {t: (tt, -co) for t, (tt, co) in d.items()})
    elif k == z3.Z3_OP_MUL and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
        m = e.arg(0).as_long()
        c, d = lin(e.arg(1))[:2]
        r = (c * m, {t: (tt, co * m) for t, (tt, co) in d.items()} if m else {})
    elif k == z3.Z3_OP_MUL and e.num_args() == 2 and z3.is_int_value(e.arg(1)):
        m = e.arg(1).as_long()
        c, d = lin(e.arg(0))[:2]
        r = (c * m, {t: (tt, co * m) for t, (tt, co) in d.items()} if m else {})
    else:
        r = (0, {i: (e, 1)})
    r = (r[0], r[1], e)
    _lin[i] = r
    return r


def unlin(c, d):
    if not d:
        return c
    ts = []
    for t in sorted(d):
        tt, co = d[t]
        ts.append(tt if co == 1 else co * tt)
    r = ts[0]
    for x in ts[1:]:
        r = r + x
    if c:
        r = r + c
    return r


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    ca, da = lin(a)[:2]
    cb, db = lin(b)[:2]
    d = dict(da)
    for t, (tt, co) in db.items():
        o = d.get(t, (tt, 0))[1] + co
        if o:
            d[t] = (tt, o)
        else:
            d.pop(t, None)
    return unlin(ca + cb, d)


def neg(a):
    if isinstance(a, int):
        return -a
    c, d = lin(a)[:2]
    return unlin(-c, {t: (tt, -co) for t, (tt, co) in d.items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        c, d = lin(a)[:2]
        return unlin(c * b, {t: (tt, co * b) for t, (tt, co) in d.items()} if b else {})
    return a * b


def diff(a, b):
    """a-b if it is a constant, else None"""
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    ca, da = lin(a)[:2]
    cb, db = lin(b)[:2]
    if len(da) != len(db):
        return None
    for t, v in da.items():
        w = db.get(t)
        if w is None or w[1] != v[1]:
            return None
    return ca - cb


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return a == b
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return same(a.o, b.o) and same(a.f, b.f)
    if isinstance(a, Agg) and isinstance(b, Agg):
        return len(a.xs) == len(b.xs) and all(same(x, y) for x, y in zip(a.xs, b.xs))
    if z3.is_expr(a) and z3.is_expr(b):
        if a.eq(b):
            return True
        if z3.is_int(a) and z3.is_int(b):
            return diff(a, b) == 0
        return False
    if (z3.is_expr(a) and isinstance(b, int)) or (z3.is_expr(b) and isinstance(a, int)):
        if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) or z3.is_bool(b):
            return False
        return diff(a, b) == 0
    return False


def And(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        if x is True:
            continue
        if x is False:
            return False
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        ys.append(x)
    if not ys:
        return True
    if len(ys) == 1:
        return ys[0]
    return z3.And(*ys)


def Or(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        if x is False:
            continue
        if x is True:
            return True
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return True
        ys.append(x)
    if not ys:
        return False
    if len(ys) == 1:
        return ys[0]
    return z3.Or(*ys)


def Not(x):
    if isinstance(x, bool):
        return not x
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Imp(a, b):
    if a is True:
        return b
    if a is False or b is True:
        return True
    if b is False:
        return Not(a)
    return z3.Implies(a, b)


def Iff(a, b):
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return a == b


def If(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, Ptr):
        return Ptr(If(c, a.o, b.o), If(c, a.f, b.f))
    if same(a, b):
        return a
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a):
        if a is True and b is False:
            return c
        if a is False and b is True:
            return Not(c)
        return z3.If(c, B(a), B(b))
    if isinstance(a, int) or isinstance(b, int) or z3.is_int(a):
        return z3.If(c, I(a), I(b))
    return z3.If(c, a, b)


def eq(a, b):
    if isinstance(a, Ptr):
        return And(eq(a.o, b.o), eq(a.f, b.f))
    if isinstance(a, bool) or isinstance(b, bool) or (z3.is_expr(a) and z3.is_bool(a)):
        return Iff(a, b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    d = diff(a, b) if not (z3.is_expr(a) and a.sort_kind() != z3.Z3_INT_SORT) else None
    if d is not None:
        return d == 0
    return I(a) == I(b)


def cmp(op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    d = diff(a, b)
    if d is not None:
        return {'<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0}[op]
    a, b = I(a), I(b)
    return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]


def lt(a, b):
    return cmp('<', a, b)


def le(a, b):
    return cmp('<=', a, b)


def gt(a, b):
    return cmp('>', a, b)


def ge(a, b):
    return cmp('>=', a, b)


# ---------------------------------------------------------------- intervals
class Ranges:
    def __init__(self):
        self.t = {}      # const id -> (expr, lo, hi)
        self.memo = {}

    def set(self, e, lo, hi):
        if isinstance(e, int):
            return
        self.t[e.get_id()] = (e, lo, hi)
        self.memo.pop(e.get_id(), None)

    def get(self, e):
        if isinstance(e, bool):
            return (int(e), int(e))
        if isinstance(e, int):
            return (e, e)
        i = e.get_id()
        r = self.t.get(i)
        if r is not None:
            return r[1], r[2]
        r = self.memo.get(i)
        if r is not None:
            return r[0]
        r = self._get(e)
        self.memo[i] = (r, e)
        return r

    def _get(self, e):
        INF = 2 ** 200
        if z3.is_int_value(e):
            v = e.as_long()
            return (v, v)
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            rs = [self.get(x) for x in ch]
            return (sum(r[0] for r in rs), sum(r[1] for r in rs))
        if k == z3.Z3_OP_SUB and len(ch) == 2:
            a, b = self.get(ch[0]), self.get(ch[1])
            return (a[0] - b[1], a[1] - b[0])
        if k == z3.Z3_OP_UMINUS:
            a = self.get(ch[0])
            return (-a[1], -a[0])
        if k == z3.Z3_OP_MUL and len(ch) == 2:
            a, b = self.get(ch[0]), self.get(ch[1])
            xs = [p * q for p in a for q in b]
            return (min(xs), max(xs))
        if k == z3.Z3_OP_ITE:
            a, b = self.get(ch[1]), self.get(ch[2])
            return (min(a[0], b[0]), max(a[1], b[1]))
        if k == z3.Z3_OP_MOD and z3.is_int_value(ch[1]):
            return (0, ch[1].as_long() - 1)
        n = e.decl().name()
        if n in ('slen', 'cidx', 'ridx', 'wsl', 'fnd'):
            return (-1, 2 ** 40)
        if n == 'osize':
            return (0, 2 ** 40)
        if n == 'declen':
            return (1, 20)
        if n.startswith('E') and n[1:].isdigit():
            a = self.get(ch[0])
            c = int(n[1:])
            return (a[0] * c, a[1] * c)
        return (-INF, INF)
