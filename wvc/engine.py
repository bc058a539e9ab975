"""Symbolic execution of LLVM IR functions against contracts; every obligation is handed to an SMT solver.

A function under contract is executed once on arbitrary symbolic inputs that satisfy its precondition.  Joins are
merged, loops are cut at their heads by inductive invariants, calls are replaced by the callee's contract (or, for
program functions without one, by their body).  Nothing is unrolled or bounded.
"""
import os
import re
import time
import z3
from . import theory as T
from .val import *
from .val import Ptr, Agg, NULL, UNDEF, strip0, stripptr
from . import ll

KINDS = ('8', '16', '32', '64', 'P')
BITS = {'8': 8, '16': 16, '32': 32, '64': 64}
TRACE = bool(os.environ.get('WVC_TRACE'))
DUMP = os.environ.get('WVC_DUMP')
DUMPNAME = ['']
EAGER = float(os.environ.get('WVC_EAGER', 3.0))      # instances deeper than this wait until nothing else is left to do
EXPL = os.environ.get('WVC_EXPL')
TRACE2 = os.environ.get('WVC_TRACE') == '2'


def conjuncts(g):
    if z3.is_and(g):
        return [y for x in g.children() for y in conjuncts(x)]
    if z3.is_implies(g) and z3.is_and(g.arg(1)):
        return [z3.Implies(g.arg(0), y) for y in conjuncts(g.arg(1))]
    return [g]


# ghost counters: every update in the library contracts adds to them
MONO = {'ln.n', 'cl.n', 'ac.n', 'out.n', 'in.n', 'cb.n', 'fo.n', 'fw.n', 'sn.n'}


class Unsupported(Exception):
    pass


class Arr:
    """Int-indexed array with recent stores kept symbolic for cheap read-over-write"""
    __slots__ = ('base', 'st', '_e')

    def __init__(self, base, st=()):
        self.base, self.st, self._e = base, st, None

    def get(self, off):
        for o, v in reversed(self.st):
            d = diff(o, off)
            if d == 0:
                return v
            if d is None:
                return T.sel(self.expr(), I(off))
        return T.sel(self.base, I(off))

    def put(self, off, v):
        st = tuple(x for x in self.st if diff(x[0], off) != 0)
        return Arr(self.base, st + ((off, v),))

    def expr(self):
        if self._e is None:
            e = self.base
            for o, v in self.st:
                e = T.put(e, I(o), I(v))
            self._e = e
        return self._e


class PArr:
    __slots__ = ('o', 'f')

    def __init__(self, o, f):
        self.o, self.f = o, f

    def get(self, off):
        return Ptr(self.o.get(off), self.f.get(off))

    def put(self, off, p):
        return PArr(self.o.put(off, p.o), self.f.put(off, p.f))


def sameArr(a, b):
    if a is b:
        return True
    if isinstance(a, PArr):
        return sameArr(a.o, b.o) and sameArr(a.f, b.f)
    if isinstance(a, Arr):
        if not a.base.eq(b.base):
            return False
        if a.st is b.st:
            return True
        return len(a.st) == len(b.st) and all(same(x[0], y[0]) and same(x[1], y[1]) for x, y in zip(a.st, b.st))
    return same(a, b)


def is_sel(e):
    return z3.is_app(e) and e.num_args() == 2 and e.decl().eq(T.sel)


def is_put(e):
    return z3.is_app(e) and e.num_args() == 3 and e.decl().eq(T.put)


class State:
    __slots__ = ('pc', 'vars', 'mem', 'ctr', 'age', 'g', 'dead')

    def copy(self):
        s = State()
        s.pc, s.vars, s.mem, s.ctr, s.age, s.g, s.dead = self.pc, dict(self.vars), dict(self.mem), self.ctr, self.age, dict(
            self.g), self.dead
        return s


class Frame:
    _n = 0

    def __init__(self, fn, args):
        Frame._n += 1
        self.id = Frame._n
        self.fn = fn
        self.regs = {}
        self.args = args


class Obl:
    __slots__ = ('n', 'pc', 'goal', 'name', 'tags', 'where', 'status', 'time', 'detail', 'kind', 'model')

    def __init__(self, n, pc, goal, name, tags, where, kind):
        self.n, self.pc, self.goal, self.name, self.tags, self.where, self.kind = n, pc, goal, name, frozenset(tags), where, kind
        self.status = None
        self.time = 0.0
        self.detail = ''
        self.model = None


class Program:
    def __init__(self, mods):
        self.mods = mods
        self.fn = {}
        self.gid = {}      # (mod or None, name) -> id
        self.ginfo = {}    # id -> (mod, name, type, init, const)
        self.fid = {}      # fn key -> id
        self.fid2 = {}
        n = 16
        for m in mods:
            for f in m.functions.values():
                key = (m.name, f.name) if f.internal else (None, f.name)
                self.fn[key] = f
                f.key = key
                self.fid[key] = n
                self.fid2[n] = f
                n += 1
        n = max(n, 1000)
        ext = []
        for m in mods:
            for g, (t, init, const, internal) in m.globals.items():
                if init is None:
                    ext.append((m, g, t))
                    continue
                key = (m.name, g) if internal else (None, g)
                self.gid[key] = n
                self.ginfo[n] = (m, g, t, init, const)
                n += 1
        for m, g, t in ext:
            if (None, g) not in self.gid:
                self.gid[(None, g)] = n
                self.ginfo[n] = (m, g, t, None, False)
                n += 1
        self.next_fid = n
        self.extf = {}
        self.stored = set()
        self._scan_stores()
        self.LIMIT = 1000000   # ids below are static

    def function(self, mod, name):
        f = self.fn.get((mod.name, name)) or self.fn.get((None, name))
        return f

    def find(self, name):
        for (m, n), f in self.fn.items():
            if n == name:
                return f
        return None

    def glob(self, mod, name):
        for key in ((mod.name, name), (None, name)):
            if key in self.gid:
                return self.gid[key]
        f = self.function(mod, name)
        if f is not None:
            return self.fid[f.key]
        if name not in self.extf:
            self.extf[name] = self.next_fid
            self.next_fid += 1
        return self.extf[name]

    def gname(self, name):
        """id of the global variable with this source name"""
        if (None, name) in self.gid:
            return self.gid[(None, name)]
        for (m, n), i in self.gid.items():
            if n == name:
                return i
        raise KeyError(name)

    def _scan_stores(self):
        """globals whose content a store instruction of the program may change, or whose address is taken by a call
        that is not read-only; the others keep their initial value"""
        def roots(mod, v):
            if v[0] == 'glob':
                return [self.glob(mod, v[1])]
            if v[0] == 'ce' and v[1] == 'gep':
                return roots(mod, v[3][0][1])
            return []
        for m in self.mods:
            for f in m.functions.values():
                der = {}
                for b in f.order:
                    for ins in f.blocks[b]:
                        if ins.op == 'gep':
                            base = ins.a[1]
                            r = roots(m, base) if base[0] != 'loc' else der.get(base[1], [])
                            if r:
                                der[ins.res] = r
                        elif ins.op == 'store':
                            p = ins.a[2]
                            r = roots(m, p) if p[0] != 'loc' else der.get(p[1], [])
                            self.stored.update(r)
                            v = ins.a[1]
                            self.stored.update(x for x in (roots(m, v) if v[0] != 'loc' else der.get(v[1], [])) if x in self.ginfo and not self.ginfo[x][4])
                        elif ins.op == 'call':
                            cal = ins.a[1]
                            nm = cal[1] if cal[0] == 'glob' else ''
                            for k, (t, v, at) in enumerate(ins.a[2]):
                                if t[0] != 'p' or v is None:
                                    continue
                                r = roots(m, v) if v[0] != 'loc' else der.get(v[1], [])
                                for x in r:
                                    if x in self.ginfo and not self.ginfo[x][4]:
                                        g = self.ginfo[x][1]
                                        if nm in ('startswithany', 'fprintf', 'printf', 'log_info', '__logger', 'strlen'):
                                            continue
                                        self.stored.add(x)


class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = set()


def analyse(fn):
    """CFG, RPO, dominators, natural loops, promotable allocas"""
    if hasattr(fn, 'cfg'):
        return
    succ = {}
    for b in fn.order:
        t = fn.blocks[b][-1]
        if t.op == 'br':
            succ[b] = [t.a[1]] + ([t.a[2]] if t.a[2] else [])
        elif t.op == 'switch':
            succ[b] = [t.a[2]] + [x[1] for x in t.a[3]]
        else:
            succ[b] = []
    seen, rpo = set(), []

    def dfs(b):
        st = [(b, iter(succ[b]))]
        seen.add(b)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(succ[y])))
                    break
            else:
                rpo.append(x)
                st.pop()
    dfs(fn.entry)
    rpo.reverse()
    idx = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in set(succ[b]):
            pred[s].append(b)
    dom = {b: set(rpo) for b in rpo}
    dom[fn.entry] = {fn.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [dom[p] for p in pred[b]]
            n = set.intersection(*ps) | {b} if ps else {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if s in dom[b]:
                L = loops.setdefault(s, Loop(s))
                L.blocks.add(s)
                work = [b]
                while work:
                    x = work.pop()
                    if x in L.blocks:
                        continue
                    L.blocks.add(x)
                    work += pred[x]
            elif idx[s] <= idx[b]:
                raise Unsupported('irreducible control flow in ' + fn.name)
    # order so that loop bodies are contiguous: RPO where blocks outside the loop come after it
    order = []
    placed = set()

    def place(region, inside):
        for b in rpo:
            if b not in region or b in placed:
                continue
            if b in loops and b != inside:
                L = loops[b]
                # exits of the loop are placed after by the position of the header
                place_loop(b)
            else:
                order.append(b)
                placed.add(b)

    def place_loop(h):
        order.append(h)
        placed.add(h)
        place(loops[h].blocks - {h}, h)
    place(set(rpo), None)
    fn.cfg = (succ, pred, loops, order)
    # promotable allocas
    cand = {}
    for b in fn.order:
        for ins in fn.blocks[b]:
            if ins.op == 'alloca' and ins.a[1] in (None, (('i', 32), ('int', 1))) and ins.a[0][0] in ('i', 'p'):
                cand[ins.res] = ins.a[0]
    for b in fn.order:
        for ins in fn.blocks[b]:
            if ins.op == 'load':
                if ins.a[1][0] == 'loc' and ins.a[1][1] in cand and cand[ins.a[1][1]] != ins.a[0]:
                    cand.pop(ins.a[1][1])
                continue
            if ins.op == 'store':
                if ins.a[1][0] == 'loc':
                    cand.pop(ins.a[1][1], None)
                p = ins.a[2]
                if p[0] == 'loc' and p[1] in cand and cand[p[1]] != ins.a[0]:
                    cand.pop(p[1])
                continue
            if ins.op == 'call' and ins.a[1] == ('glob', 'llvm.dbg.declare'):
                continue
            for x in _locs(ins):
                cand.pop(x, None)
    fn.promo = cand


def _locs(ins):
    out = []

    def walk(v):
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == 'loc':
                out.append(v[1])
            else:
                for x in v:
                    walk(x)
        elif isinstance(v, list):
            for x in v:
                walk(x)
    if ins.op in ('br', 'switch'):
        walk(ins.a[0] if ins.op == 'br' else ins.a[1])
    else:
        walk(ins.a)
    return out


class View:
    """Read access to a state for contracts"""

    def __init__(self, ex, st):
        self.ex, self.st = ex, st

    def a8(self, o):
        return self.ex.named(self.st, self.ex.rd(self.st, '8', strip0(o)))

    def arr(self, k, o):
        return self.ex.rd(self.st, k, strip0(o))

    def ch(self, p, k=0):
        p = stripptr(p)
        return norm(self.ex.rd(self.st, '8', p.o).get(add(p.f, k)))

    def i32(self, p, off=0):
        p = stripptr(p)
        return norm(self.ex.rd(self.st, '32', p.o).get(add(p.f, off)))

    def i64(self, p, off=0):
        p = stripptr(p)
        return norm(self.ex.rd(self.st, '64', p.o).get(add(p.f, off)))

    def i8(self, p, off=0):
        return self.ch(p, off)

    def p(self, p, off=0):
        p = stripptr(p)
        r = self.ex.rd(self.st, 'P', p.o).get(add(p.f, off))
        r = Ptr(norm(r.o), norm(r.f))
        self.ex.bound_ptr(self.st, r)
        return r

    def live(self, o):
        return self.ex.rdlive(self.st, strip0(o))

    def slen(self, p):
        lit = self.ex.literal(p)
        if lit is not None:
            return lit.index(b'\0') if b'\0' in lit else -1
        p = stripptr(p)
        n = T.slen(self.a8(p.o), I(p.f))
        self.ex.rng.set(n, -1, 2 ** 40)
        return n

    def isstr(self, p):
        lit = self.ex.literal(p)
        if lit is not None and b'\0' in lit:
            return True
        q = stripptr(p)
        n = self.slen(q)
        return And(ne0(p.o), self.live(q.o), ge(q.f, 0), ge(n, 0), lt(add(q.f, n), self.ex.size(q.o)))

    def valid(self, p, n):
        q = stripptr(p)
        return And(ne0(p.o), self.live(q.o), ge(q.f, 0), le(add(q.f, n), self.ex.size(q.o)))

    def g(self, name):
        return self.st.g[name]

    def bool(self, p, off=0):
        return self.ex.tobool(self.ch(p, off))


def ne0(o):
    return Not(eq(o, 0))


class Ex:
    """One verification run of one function under contract"""

    def __init__(self, prog, contracts, libc, opts=None):
        self.prog, self.contracts, self.libc = prog, contracts, libc
        self.opts = opts or {}
        self.facts = []
        self.rng = Ranges()
        self.n = 0
        self.cidx = {}
        self.born = {}     # obj term id -> (term, age) exactly born then (fresh)
        self.bnd = {}      # obj term id -> (term, age) existed at that age
        self.basebirth = {}  # array const id -> (const, age, ctr)
        self.agectr = []
        self.obls = []
        self.dry = 0
        self.sib = {}
        self.touched = set()
        self.lits = {}
        self.wlog = None
        self.curtags = frozenset()
        self.stack = []
        self.templates = []
        self.bounds = []
        self.known_facts = set()
        self.solver_time = 0.0
        self.queries = 0
        self.houdini = []
        self.line = 0
        self.frame_ctx = None
        self.trusted = set()
        self.used_contracts = set()
        self.inlined = set()
        self.locals_of = {}
        self.timeout = self.opts.get('timeout', 8000)
        self.line_hook = None
        self.failed = []        # per enclosing loop whose invariants are being found: candidates of inner loops that failed
        self.seed = self.opts.get('seed', 0)
        self.qcache = {}
        self.log = []
        self.loopinfo = []
        self.pessimistic = set()
        self.lemmaobls = []
        self.exitcond = []

    # ------------------------------------------------------------ names
    def _c(self, c):
        self.n += 1
        self.cidx[c.get_id()] = (self.n, c)
        return c

    def fint(self, base, lo=None, hi=None):
        c = self._c(z3.Int('%s!%d' % (base, self.n)))
        if lo is not None:
            self.rng.set(c, lo, hi)
            self.fact(z3.And(c >= lo, c <= hi))
        return c

    def fbool(self, base):
        return self._c(z3.Bool('%s!%d' % (base, self.n)))

    def farr(self, base):
        return self._c(z3.Const('%s!%d' % (base, self.n), T.ASort))

    def typed(self, t, base, st=None):
        """arbitrary value of an IR type"""
        if t[0] == 'i':
            if t[1] == 1:
                return self.fbool(base)
            b = t[1]
            return self.fint(base, -2 ** (b - 1), 2 ** (b - 1) - 1)
        if t[0] == 'p':
            o, f = self.fint(base + '.o'), self.fint(base + '.f')
            p = Ptr(o, f)
            if st is not None:
                self.bound_ptr(st, p, force=True)
            return p
        if t[0] == 'f':
            return UNDEF
        if t[0] == 's':
            return Agg([self.typed(x, base, st) for x in t[1]])
        raise Unsupported('type %r' % (t,))

    # ------------------------------------------------------------ facts
    def fact(self, f):
        if f is True:
            return
        self.facts.append(B(f))

    def assume(self, st, f):
        f = Imp(st.pc, f)
        if f is True or z3.is_true(B(f)):
            return
        self.facts.append(B(f))

    def mark(self):
        return (len(self.facts), len(self.obls), self.lastctr)

    def reset(self, m):
        del self.facts[m[0]:]
        del self.obls[m[1]:]
        self.lastctr = m[2]

    def prove(self, st, goal, name, tags=(), kind='assert', where=None):
        """an obligation: goal must hold whenever st is reached"""
        if goal is True or z3.is_true(B(goal)):
            if not self.dry:
                o = Obl(len(self.facts), st.pc, True, name, tags, where or self.where(), kind)
                o.status = 'proved'
                o.detail = 'trivial'
                self.obls.append(o)
            return
        if not self.dry:
            self.obls.append(Obl(len(self.facts), st.pc, goal, name, tags, where or self.where(), kind))
        self.assume(st, goal)

    def where(self):
        if not self.stack:
            return ''
        fr, ins = self.stack[-1]
        top = self.stack[0][0].fn.name
        s = '%s:%d' % (fr.fn.name, ll.loc_line(fr.fn.mod, ins.dbg) if ins is not None else 0)
        if fr.fn.name != top:
            s += ' (inlined in %s)' % top
        return s

    # ------------------------------------------------------------ solving
    def solver(self):
        s = z3.Solver()
        s.set('auto_config', False)
        s.set('mbqi', False)
        T.limit(s, self.timeout)
        s.set('random_seed', self.seed)
        s.set('smt.random_seed', self.seed)
        s.set('smt.qi.eager_threshold', EAGER)
        for k, v in self.opts.get('z3', {}).items():
            s.set(k, v)
        T.addall(s, T.axioms())
        return s

    def check1(self, s, pc, goal):
        t = time.time()
        s.push()
        s.add(B(pc))
        s.add(z3.Not(B(goal)))
        if DUMP and DUMP in DUMPNAME[0]:
            open('/tmp/dump%d.smt2' % self.queries, 'w').write(s.to_smt2())
        r = s.check()
        reason = s.reason_unknown() if r == z3.unknown else ''
        s.pop()
        dt = time.time() - t
        self.solver_time += dt
        self.queries += 1
        return r, dt, reason

    def checkall(self, s, pc, goal):
        """conjunct by conjunct"""
        cs = conjuncts(B(goal))
        if len(cs) == 1:
            return self.check1(s, pc, goal)
        total = 0.0
        for g in cs:
            r, dt, why = self.check1(s, pc, g)
            total += dt
            if r != z3.unsat:
                return r, total, why
        return z3.unsat, total, ''

    def oneshot(self, pc, goal):
        """each conjunct with a solver of its own (which can then simplify the problem as a whole)"""
        t0 = time.time()
        for g in conjuncts(B(goal)):
            for seed, f, to in ((0, EAGER, self.timeout), (5, EAGER, 2 * self.timeout), (7, 10.0, 2 * self.timeout)):
                s = self.solver()
                T.limit(s, to)
                s.set('smt.random_seed', self.seed + seed)
                s.set('smt.qi.eager_threshold', f)
                T.addall(s, self.facts0 + self.facts)
                s.add(B(pc))
                s.add(z3.Not(g))
                if DUMP and DUMP in DUMPNAME[0]:
                    open('/tmp/dump%d.smt2' % self.queries, 'w').write(s.to_smt2())
                r = s.check()
                self.queries += 1
                if r == z3.unsat or not T.gaveup(s.reason_unknown()):
                    break
            if r != z3.unsat:
                return r, time.time() - t0
        return z3.unsat, time.time() - t0

    def quick(self, st, goal, to=600):
        """is goal a consequence of the current facts? (used for aliasing decisions only)"""
        if goal is True:
            return True
        if goal is False:
            return False
        key = (B(goal).get_id(), B(st.pc).get_id())
        c = self.qcache.get(key)
        n = len(self.facts)
        if c is not None and c[0] <= n and (c[0] == 0 or self.facts[c[0] - 1] is c[1]):
            if c[2] or c[0] == n:
                return c[2]
        s = self.solver()
        T.limit(s, to)
        T.addall(s, self.facts0)
        T.addall(s, self.facts)
        r, dt, _ = self.check1(s, st.pc, goal)
        res = r == z3.unsat
        self.qcache[key] = (n, self.facts[-1] if n else None, res, goal, st.pc)
        return res

    # ------------------------------------------------------------ objects
    def literal(self, p):
        """bytes of the constant string p points to, if that is known statically"""
        if not isinstance(p.o, int) or not isinstance(p.f, int):
            return None
        gi = self.prog.ginfo.get(p.o)
        if gi is None or not gi[4] or gi[3] is None:
            return None
        init = gi[3]
        if init[0] == 'str':
            return init[1][p.f:] if 0 <= p.f <= len(init[1]) else None
        if init[0] == 'zero' and gi[2][0] == 'a' and gi[2][2] == ('i', 8):
            return (b'\0' * gi[2][1])[p.f:]
        return None

    def size(self, o):
        if isinstance(o, int):
            gi = self.prog.ginfo.get(o)
            if gi is not None:
                return gi[0].size(gi[2])
            return 0
        k = self.known_size.get(o.get_id()) if hasattr(self, 'known_size') else None
        if k is not None:
            return k[1]
        return T.osize(o)

    def touch(self, o):
        """facts about a static object"""
        if o in self.touched or o not in self.prog.ginfo:
            return
        self.touched.add(o)
        m, name, t, init, const = self.prog.ginfo[o]
        fs = [T.osize(z3.IntVal(o)) == m.size(t), T.oro(z3.IntVal(o)) == const, z3.Not(T.oheap(z3.IntVal(o))), self.live0(z3.IntVal(o))]
        if init is not None and (const or o not in self.prog.stored):
            self.initfacts(fs, o, m, t, init, 0)
        # static facts hold in every pass: keep them at the front
        self.facts0 += fs

    def initfacts(self, fs, o, m, t, init, off):
        rt = m.resolve(t)
        if init[0] == 'str':
            a = self.base0['8'](z3.IntVal(o))
            for i, c in enumerate(init[1]):
                fs.append(T.sel(a, off + i) == (c if c < 128 else c - 256))
            if b'\0' in init[1] and off == 0:
                fs.append(T.slen(a, z3.IntVal(0)) == init[1].index(b'\0'))
        elif init[0] == 'zero':
            if rt[0] == 'a' and rt[1] > 64:
                return
            if rt[0] == 'a':
                for i in range(rt[1]):
                    self.initfacts(fs, o, m, rt[2], init, off + i * m.size(rt[2]))
            elif rt[0] == 's':
                for i in range(len(rt[1])):
                    fo, ft = m.field(rt, i)
                    self.initfacts(fs, o, m, ft, init, off + fo)
            elif rt[0] == 'p':
                self.initfacts(fs, o, m, t, ('null',), off)
            else:
                self.initfacts(fs, o, m, t, ('int', 0), off)
        elif init[0] == 'arr':
            for i, (et, v) in enumerate(init[1]):
                self.initfacts(fs, o, m, et, v, off + i * m.size(et))
        elif init[0] == 'struct':
            for i, (et, v) in enumerate(init[1]):
                fo, ft = m.field(rt, i)
                self.initfacts(fs, o, m, ft, v, off + fo)
        elif init[0] == 'int':
            k = {1: '8', 8: '8', 16: '16', 32: '32', 64: '64'}[rt[1]]
            fs.append(T.sel(self.base0[k](z3.IntVal(o)), off) == init[1])
            self.initint.setdefault(o, {})[(k, off)] = init[1]
        else:
            p = self.cval(m, t, init)
            fs.append(T.sel(self.base0['Po'](z3.IntVal(o)), off) == I(p.o))
            fs.append(T.sel(self.base0['Pf'](z3.IntVal(o)), off) == I(p.f))
            self.initptr.setdefault(o, {})[off] = p
            if isinstance(p.o, int) and p.o in self.prog.ginfo:
                self.touch(p.o)

    def cval(self, m, t, v):
        """constant operand"""
        if v[0] == 'int':
            if t == ('i', 1):
                return bool(v[1])
            return v[1]
        if v[0] == 'null':
            return NULL
        if v[0] == 'zero':
            if t[0] == 'p':
                return NULL
            if t[0] == 'i':
                return 0
        if v[0] == 'glob':
            i = self.prog.glob(m, v[1])
            self.touch(i)
            return Ptr(i, 0)
        if v[0] == 'ce' and v[1] == 'gep':
            et, ops = v[2], v[3]
            p = self.cval(m, ops[0][0], ops[0][1])
            return Ptr(p.o, add(p.f, self.gepoff(None, m, et, ops[1:])))
        if v[0] == 'ce' and v[1] == 'inttoptr':
            return Ptr(-5, v[3][1]) if v[3][0] == 'int' else NULL
        if v[0] == 'undef':
            return UNDEF
        if v[0] == 'float':
            return UNDEF
        raise Unsupported('constant %r' % (v,))

    # ------------------------------------------------------------ memory
    def initmem(self, st):
        self.base0 = {}
        self.initptr = {}
        self.initint = {}
        self.facts0 = []
        self.known_size = {}
        self._defs = {}
        for k in ('8', '16', '32', '64', 'Po', 'Pf'):
            self.base0[k] = z3.Function('m%s' % k, z3.IntSort(), T.ASort)
        self.live0 = z3.Function('live', z3.IntSort(), z3.BoolSort())
        st.mem = {k: (('b', None),) for k in KINDS}
        st.mem['V'] = (('b', None),)
        self.ctr0 = z3.Int('ctr0')
        self.fact(self.ctr0 > self.prog.LIMIT)
        st.ctr = self.ctr0
        st.age = 0
        self.agectr = [self.ctr0]
        self._arrage = {}
        self.wfarr(self.base0['Po'], 0)
        # every static object is alive and smaller than the first dynamic one
        o = z3.Int('o')

    def newage(self, ctr):
        self.agectr.append(ctr)
        return len(self.agectr) - 1

    def bound_ptr(self, st, p, age=None, force=False):
        """record that p's object existed when it was read"""
        if isinstance(p.o, int) or self.has_bound(p.o):
            return
        i = p.o.get_id()
        if i in self.bnd and self.bnd[i][0].eq(p.o) and not force:
            return
        if i in self.born:
            return
        a = st.age if age is None else age
        self.bnd[i] = (p.o, a)
        self.assume(st, z3.And(p.o < self.agectr[a], p.o >= -100))

    def agebound(self, o):
        if isinstance(o, int):
            return 0
        b = self.born.get(o.get_id())
        if b is not None:
            return b[1]
        b = self.bnd.get(o.get_id())
        if b is not None:
            return b[1]
        if is_sel(o):
            return self.arrage(o.arg(0))
        if z3.is_app_of(o, z3.Z3_OP_ITE):
            x, y = self.agebound(norm(o.arg(1))), self.agebound(norm(o.arg(2)))
            if x is not None and y is not None:
                return max(x, y)
        return None

    def arrage(self, a):
        """age by which every object an array of pointers refers to existed"""
        r = self._arrage.get(a.get_id())
        if r is not None:
            return r[1]
        if is_put(a):
            x, y = self.arrage(a.arg(0)), self.agebound(norm(a.arg(2)))
            return max(x, y) if x is not None and y is not None else None
        if z3.is_app_of(a, z3.Z3_OP_ITE):
            x, y = self.arrage(a.arg(1)), self.arrage(a.arg(2))
            return max(x, y) if x is not None and y is not None else None
        if z3.is_app(a) and a.num_args() == 1 and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = self._arrage.get(a.decl().get_id())
            if r is not None:
                return r[1]
        return None

    def wfarr(self, a, age):
        """array of pointer objects (a constant or a base memory function) that all existed at age"""
        self._arrage[a.get_id()] = (a, age)
        j, o = z3.Int('?j'), z3.Int('?o')
        c = self.agectr[age]
        if isinstance(a, z3.FuncDeclRef):
            x = T.sel(a(o), j)
            self.fact(z3.ForAll([o, j], z3.And(x < c, x >= -100), patterns=[x], qid='wf'))
        else:
            x = T.sel(a, j)
            self.fact(z3.ForAll([j], z3.And(x < c, x >= -100), patterns=[x], qid='wf'))

    _arrage = {}

    def bornage(self, o):
        if isinstance(o, int):
            return None
        b = self.born.get(o.get_id())
        return b[1] if b else None

    def distinct(self, a, b):
        """statically known to be different objects"""
        if isinstance(a, int) and isinstance(b, int):
            return a != b
        ba, bb = self.bornage(a), self.bornage(b)
        if ba is not None and bb is not None:
            return ba != bb
        if ba is not None:
            x = self.agebound(b)
            return x is not None and x < ba
        if bb is not None:
            x = self.agebound(a)
            return x is not None and x < bb
        key = (a if isinstance(a, int) else a.get_id(), b if isinstance(b, int) else b.get_id())
        return key in self.dist or (key[1], key[0]) in self.dist

    dist = frozenset()

    def add_distinct(self, a, b):
        """remember (after it was assumed or proved) that two object terms differ"""
        if isinstance(self.dist, frozenset):
            self.dist = {}
        self.dist[(a if isinstance(a, int) else a.get_id(), b if isinstance(b, int) else b.get_id())] = (a, b)

    def base_read(self, kind, tag, o):
        """array of object o in base memory `tag`"""
        oo = I(o)
        if kind == 'P':
            fo, ff = (self.base0['Po'], self.base0['Pf']) if tag is None else tag
            return PArr(Arr(fo(oo)), Arr(ff(oo)))
        fn = self.base0[kind] if tag is None else tag[0]
        return Arr(fn(oo))

    def newbase(self, kind):
        self.n += 1
        if kind == 'P':
            r = (z3.Function('mPo!%d' % self.n, z3.IntSort(), T.ASort), z3.Function('mPf!%d' % self.n, z3.IntSort(), T.ASort))
        elif kind == 'V':
            r = (z3.Function('live!%d' % self.n, z3.IntSort(), z3.BoolSort()),)
        else:
            r = (z3.Function('m%s!%d' % (kind, self.n), z3.IntSort(), T.ASort),)
        for x in r:
            self.cidx[x.get_id()] = (self.n, x)
        return r

    def iteArr(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if sameArr(a, b):
            return a
        if isinstance(a, PArr):
            return PArr(self.iteArr(c, a.o, b.o), self.iteArr(c, a.f, b.f))
        return Arr(z3.If(c, a.expr(), b.expr()))

    def rd(self, st, kind, o, layers=None):
        if isinstance(o, int):
            self.touch(o)
            gi = self.prog.ginfo.get(o)
            if gi is not None and gi[3] is not None and (gi[4] or o not in self.prog.stored):
                return self.base_read(kind, None, o)
        L = st.mem[kind] if layers is None else layers
        pend = []
        res = None
        for e in reversed(L):
            if e[0] == 'o':
                if same(e[1], o):
                    res = e[2]
                    break
                if self.distinct(e[1], o):
                    continue
                c = eq(e[1], o)
                if not self.has_bound(o) and not self.dryquick and self.quick(st, Not(c)):
                    self.add_distinct(e[1], o)
                    continue
                pend.append((c, e[2]))
            elif e[0] == 'e':
                b = self.bornage(o)
                ab = self.agebound(o)
                if ab is not None and ab <= e[2]:
                    continue
                if b is not None and b > e[2]:
                    res = self.base_read(kind, e[3], o)
                    break
                pend.append((ge(o, e[1]), self.base_read(kind, e[3], o)))
            elif e[0] == 'b' or e[0] == 'a':
                res = self.base_read(kind, e[1], o)
                break
            elif e[0] == 'm':
                alts = [(pc, self.rd(st, kind, o, ls)) for pc, ls in e[1]]
                res = alts[-1][1]
                for pc, a in reversed(alts[:-1]):
                    res = self.iteArr(pc, a, res)
                break
        for c, a in reversed(pend):
            res = self.iteArr(c, a, res)
        return res

    dryquick = False

    def sparse(self):
        return bool(getattr(self.top.contract, 'opts', {}).get('sparse'))

    def chosen(self, st, e):
        """e with the conditional choices that the path decides taken"""
        for _ in range(4):
            if not z3.is_expr(e) or not z3.is_app_of(e, z3.Z3_OP_ITE):
                return e
            c = e.arg(0)
            if self.quick(st, c):
                e = norm(e.arg(1))
            elif self.quick(st, Not(c)):
                e = norm(e.arg(2))
            else:
                return e
        return e
    icmps = None
    lastctr = None

    def has_bound(self, o):
        """does o contain variables bound by a quantifier of a contract?"""
        if isinstance(o, int):
            return False
        i = o.get_id()
        r = self._hb.get(i)
        if r is not None and r[0].eq(o):
            return r[1]
        v = False
        if z3.is_var(o):
            v = True
        elif z3.is_const(o) and o.decl().kind() == z3.Z3_OP_UNINTERPRETED and o.decl().name().startswith('?'):
            v = True
        else:
            v = any(self.has_bound(x) for x in o.children())
        self._hb[i] = (o, v)
        return v

    _hb = {}

    def rdlive(self, st, o, layers=None):
        if isinstance(o, int):
            return o in self.prog.ginfo
        L = st.mem['V'] if layers is None else layers
        pend = []
        res = None
        for e in reversed(L):
            if e[0] == 'o':
                if same(e[1], o):
                    res = e[2]
                    break
                if self.distinct(e[1], o):
                    continue
                pend.append((eq(e[1], o), e[2]))
            elif e[0] == 'e':
                b = self.bornage(o)
                ab = self.agebound(o)
                if ab is not None and ab <= e[2]:
                    continue
                if b is not None and b > e[2]:
                    res = e[3][0](I(o))
                    break
                pend.append((ge(o, e[1]), e[3][0](I(o))))
            elif e[0] in ('a', 'b'):
                fn = self.live0 if e[1] is None else e[1][0]
                res = fn(I(o))
                break
            elif e[0] == 'm':
                alts = [(pc, self.rdlive(st, o, ls)) for pc, ls in e[1]]
                res = alts[-1][1]
                for pc, a in reversed(alts[:-1]):
                    res = If(pc, a, res)
                break
        for c, a in reversed(pend):
            res = If(c, a, res)
        # static objects are always alive
        return res

    def setarr(self, st, kind, o, arr):
        L = st.mem[kind]
        st.mem[kind] = tuple(e for e in L if not (e[0] == 'o' and same(e[1], o))) + (('o', o, arr),)

    def setlive(self, st, o, v):
        self.setarr(st, 'V', o, v)

    def setrange(self, st, kind, v):
        if kind == 'P':
            self.bound_ptr(st, v)
            return v
        if isinstance(v, int):
            return v
        b = BITS[kind]
        lo, hi = -2 ** (b - 1), 2 ** (b - 1) - 1
        r = self.rng.get(v)
        if r[0] < lo or r[1] > hi:
            self.rng.set(v, lo, hi)
            r = (lo, hi)
        key = v.get_id()
        n = self.rfacts.get(key)
        if n is None or n[0] >= len(self.facts) or self.facts[n[0]] is not n[1]:
            self.facts.append(z3.And(v >= r[0], v <= r[1]))
            self.rfacts[key] = (len(self.facts) - 1, self.facts[-1], v)
        return v

    def newobj(self, st, size, heap, name='obj', ro=False, init=True, live=True):
        """a fresh object"""
        o = self.fint(name)
        self.fact(o >= st.ctr)
        if self.lastctr is not None and not self.lastctr.eq(st.ctr):
            self.fact(o >= self.lastctr)
        c = self.fint('ctr')
        self.fact(c > o)
        self.lastctr = c
        st.ctr = c
        st.age = self.newage(c)
        self.born[o.get_id()] = (o, st.age)
        self.agectr[st.age] = c
        if isinstance(size, int):
            self.known_size[o.get_id()] = (o, size)
        elif size is not None:
            self.known_size[o.get_id()] = (o, size)
        if size is not None:
            self.fact(T.osize(o) == I(size)) if isinstance(size, int) else self.assume(st, T.osize(o) == I(size))
        self.fact(T.oheap(o) == B(heap))
        self.fact(T.oro(o) == B(ro))
        if init:
            for k in KINDS:
                if k == 'P':
                    self.setarr(st, k, o, self.fresharr('P', name, st.age))
                else:
                    self.setarr(st, k, o, Arr(self.farr(name + '.m' + k)))
        self.setlive(st, o, live)
        return o

    def fresharr(self, kind, name='h', age=None):
        if kind == 'P':
            o = self.farr(name + '.o')
            if age is not None:
                self.wfarr(o, age)
            return PArr(Arr(o), Arr(self.farr(name + '.f')))
        return Arr(self.farr(name))

    # ------------------------------------------------------------ checked access
    def valid(self, st, p, n, what, tags=None):
        if isinstance(p.o, int) and p.o in self.prog.ginfo and isinstance(p.f, int) and isinstance(n, int):
            if 0 <= p.f and p.f + n <= self.size(p.o):
                self.prove(st, True, what, self.safety, 'memory')
                return
        q = stripptr(p)
        ok = And(ne0(p.o), self.rdlive(st, q.o), ge(q.f, 0), le(add(q.f, n), self.size(q.o)))
        self.prove(st, ok, what, self.safety, 'memory')

    @property
    def safety(self):
        return self.safety_tags

    safety_tags = frozenset()

    def wcheck(self, st, p, n, what):
        self.valid(st, p, n, what)
        self.wperm(st, stripptr(p), what)

    def wperm(self, st, p, what):
        if isinstance(p.o, int):
            gi = self.prog.ginfo.get(p.o)
            if gi is not None and gi[4]:
                self.prove(st, False, what + ': write to a constant', self.safety, 'memory')
        elif self.bornage(p.o) is None:
            self.prove(st, Not(T.oro(p.o)), what + ': target is writable', self.safety, 'memory')

    def framecheck(self, st, kind, o, lo, hi, unless=False):
        """the write is inside the declared footprint of the function under verification"""
        if self.wlog is not None:
            self.wlog.append((kind, o, lo, hi, And(st.pc, Not(unless)), len(self.facts)))
        fc = self.frame_ctx
        if fc is None or self.dry:
            return
        b = self.bornage(o)
        if b is not None:
            return
        al = [ge(o, self.ctr0), unless]
        if fc.get('any'):
            return
        for (k, oo, l, h) in fc['mod']:
            if k != kind and (k != '*' or kind == 'V'):
                continue
            if callable(oo):
                al.append(oo(o))
                continue
            c = eq(oo, o)
            if l is not None and lo is None:
                continue
            if l is not None:
                c = And(c, le(l, lo), le(hi, h))
            if c is True:
                return
            al.append(c)
        self.prove(st, Or(*al), 'writes only what its contract allows', fc['tags'], 'frame')

    def lockcheck(self, st, o, kind):
        if getattr(self.top.contract, 'opts', {}).get('monitors'):
            self.access(st, o, kind)

    def load(self, st, t, p, what='load'):
        t = self.curmod.resolve(t)
        if t[0] == 's':
            return Agg([self.load(st, ft, p + fo, what) for fo, ft in (self.curmod.field(t, i) for i in range(len(t[1])))])
        if t[0] == 'a':
            raise Unsupported('array load')
        n = self.curmod.size(t)
        self.valid(st, p, n, what)
        p = stripptr(p)
        if t[0] == 'f':
            return UNDEF
        k = 'P' if t[0] == 'p' else {1: '8', 8: '8', 16: '16', 32: '32', 64: '64'}[t[1]]
        self.lockcheck(st, p.o, 'read')
        if k == 'P' and isinstance(p.o, int) and p.o in self.initptr and p.o not in self.prog.stored and isinstance(p.f, int):
            r = self.initptr[p.o].get(p.f)
            if r is not None:
                return r
        if k == 'P' and isinstance(p.o, int) and p.o in self.prog.ginfo and p.o not in self.prog.stored and not isinstance(p.f, int):
            self.touch(p.o)
            tab = self.initptr.get(p.o)
            if tab and len(tab) <= 64:
                r = self.typed(('p',), 'entry', st)
                alts = []
                for off, q in tab.items():
                    alts.append(And(eq(p.f, off), eq(r.o, q.o), eq(r.f, q.f)))
                    if isinstance(q.o, int) and q.o in self.prog.ginfo:
                        self.touch(q.o)
                        self.assume(st, Imp(eq(r.o, q.o), And(self.rdlive(st, r.o), self.rd(st, '8', r.o).expr() == self.base0['8'](z3.IntVal(q.o)) if self.ginfo_const(q.o) else True)))
                self.assume(st, Or(*alts))
                return r
        if k != 'P' and isinstance(p.o, int) and isinstance(p.f, int) and p.o not in self.prog.stored:
            self.touch(p.o)
            r = self.initint.get(p.o, {}).get((k, p.f))
            if r is not None:
                return r if t != ('i', 1) else bool(r & 1)
        v = self.rd(st, k, p.o).get(p.f)
        v = v if k == 'P' else norm(v)
        if k == 'P':
            v = Ptr(norm(v.o), norm(v.f))
            if self.sparse():
                v = Ptr(self.chosen(st, v.o), self.chosen(st, v.f))
        self.setrange(st, k, v)
        if t == ('i', 1):
            return self.tobool(v)
        return v

    def ginfo_const(self, o):
        gi = self.prog.ginfo[o]
        return gi[3] is not None and (gi[4] or o not in self.prog.stored)

    def tobool(self, v):
        if isinstance(v, int):
            return bool(v & 1)
        if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)):
            a, b = v.arg(1).as_long() & 1, v.arg(2).as_long() & 1
            return If(v.arg(0), bool(a), bool(b))
        r = self.rng.get(v)
        if r[0] >= 0 and r[1] <= 1:
            return v == 1
        return v % 2 == 1

    def store(self, st, t, v, p, what='store'):
        t = self.curmod.resolve(t)
        if t[0] == 's':
            for i in range(len(t[1])):
                fo, ft = self.curmod.field(t, i)
                self.store(st, ft, v.xs[i] if isinstance(v, Agg) else UNDEF, p + fo, what)
            return
        n = self.curmod.size(t)
        self.wcheck(st, p, n, what)
        p = stripptr(p)
        if t[0] == 'f':
            return
        k = 'P' if t[0] == 'p' else {1: '8', 8: '8', 16: '16', 32: '32', 64: '64'}[t[1]]
        self.lockcheck(st, p.o, 'write')
        self.framecheck(st, k, p.o, p.f, add(p.f, n))
        if v is UNDEF:
            v = self.typed(t, 'undef', st)
        if t == ('i', 1):
            v = If(v, 1, 0)
        self.setarr(st, k, p.o, self.rd(st, k, p.o).put(p.f, v))

    # region updates used by library contracts
    def region(self, st, kind, o, lo, hi, name='r', check=True):
        """replace o[lo,hi) by arbitrary content; returns (old, new) arrays (the caller adds facts about the content)"""
        if check:
            self.framecheck(st, kind, o, lo, hi)
            self.lockcheck(st, o, 'write')
        old = self.rd(st, kind, o)
        new = self.fresharr(kind, name, st.age)
        j = z3.Int('?j')

        def fr(ne, oe):
            c = z3.Implies(z3.Or(j < I(lo), j >= I(hi)), T.sel(ne, j) == T.sel(oe, j))
            self.assume(st, z3.ForAll([j], c, patterns=[T.sel(ne, j), T.sel(oe, j)], qid='frame'))
        if kind == 'P':
            fr(new.o.base, self.named(st, old.o))
            fr(new.f.base, self.named(st, old.f))
        else:
            fr(new.base, self.named(st, old))
        self.setarr(st, kind, o, new)
        return old, new

    def named(self, st, arr):
        """an expression usable in patterns"""
        e = arr.expr()
        if self.has_bound(e):
            return e
        if z3.is_const(e) or (e.num_args() == 1 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            return e
        k = e.get_id()
        c = self._named.get(k)
        if c is not None and c[0] < len(self.facts) and self.facts[c[0]] is c[1]:
            return c[2]
        a = self.farr('n')
        g = self.arrage(e)
        if g is not None:
            self._arrage[a.get_id()] = (a, g)
        self.facts.append(a == e)
        self._named[k] = (len(self.facts) - 1, self.facts[-1], a, e)
        return a

    def defarr(self, var, body):
        """the array whose element at `var` is body (a definition: one constant per body)"""
        key = body.get_id()
        r = self._defs.get(key)
        if r is None:
            a = z3.Const('def!%d' % len(self._defs), T.ASort)
            self._defs[key] = r = (a, body)
            sel = T.sel(a, var)
            self.facts0.append(z3.ForAll([var], sel == body, patterns=[sel], qid='def'))
        return r[0]

    def lemma(self, name, vs, body, pats, extra):
        """a consequence of the theory's axioms and `extra`: proved here, then available to every obligation"""
        s = self.solver()
        T.limit(s, 10000)
        for f in extra:
            s.add(f)
        sk = [z3.Const('sk_%s' % v, v.sort()) for v in vs]
        s.add(z3.Not(z3.substitute(body, *zip(vs, sk))))
        r = s.check()
        o = Obl(0, True, body, 'lemma ' + name, self.all_tags, 'theory', 'lemma')
        o.status = 'proved' if r == z3.unsat else 'unknown'
        o.detail = 'z3'
        self.lemmaobls.append(o)
        if r == z3.unsat:
            self.facts0.append(z3.ForAll(vs, body, patterns=pats))

    def copyfacts(self, st, dst, do, src, so, n):
        """dst[do..do+n) = src[so..so+n)"""
        if isinstance(n, int) and n <= 4:
            for i in range(n):
                self.assume(st, T.sel(dst, I(add(do, i))) == T.sel(src, I(add(so, i))))
            return
        self.assume(st, T.eqn(dst, I(do), src, I(so), I(n)))

    # ------------------------------------------------------------ merging
    def newpc(self, st, c):
        p = self.fbool('pc')
        self.fact(p == z3.And(B(st.pc), B(c)))
        return p

    def fork(self, st, c):
        """states for c and not c"""
        if c is True:
            return st, None
        if c is False:
            return None, st
        a, b = st.copy(), st.copy()
        a.pc = self.newpc(st, c)
        b.pc = self.newpc(st, Not(c))
        self.sib[a.pc.get_id()] = (a.pc, b.pc, st.pc)
        self.sib[b.pc.get_id()] = (b.pc, a.pc, st.pc)
        return a, b

    def joinpc(self, pcs):
        pcs = list(pcs)
        ch = True
        while ch and len(pcs) > 1:
            ch = False
            ids = {B(p).get_id(): i for i, p in enumerate(pcs)}
            for i, p in enumerate(pcs):
                s = self.sib.get(B(p).get_id())
                if s is not None and s[1].get_id() in ids:
                    k = ids[s[1].get_id()]
                    pcs = [x for q, x in enumerate(pcs) if q not in (i, k)] + [s[2]]
                    ch = True
                    break
        if len(pcs) == 1:
            return pcs[0]
        p = self.fbool('jn')
        self.fact(p == z3.Or(*[B(x) for x in pcs]))
        return p

    def mergeval(self, pcs, vs, name, st):
        if all(same(v, vs[0]) for v in vs[1:]):
            return vs[0]
        if any(v is UNDEF or v is None for v in vs):
            ok = [v for v in vs if v is not UNDEF and v is not None]
            if not ok:
                return UNDEF
            v0 = ok[0]
            t = ('p',) if isinstance(v0, Ptr) else ('i', 1) if isinstance(v0, bool) or (z3.is_expr(v0) and z3.is_bool(v0)) else None
            if t is None and isinstance(v0, Agg):
                return UNDEF
            pp = [(p, v) for p, v in zip(pcs, vs) if v is not UNDEF and v is not None]
            x = self.typed(t, name, st) if t else self.fint(name, -2 ** 63, 2 ** 63 - 1)
            for p, v in pp:
                self.fact(Imp(p, eq(x, v)))
            return x
        if isinstance(vs[0], Ptr):
            os = [v.o for v in vs]
            if all(same(o, os[0]) for o in os):
                o = os[0]
            elif len({I(x).get_id() for x in os if not (isinstance(x, int) and x == 0)}) == 1:
                x = [x for x in os if not (isinstance(x, int) and x == 0)][0]
                c = self.fbool(name + '.nn')
                for p, y in zip(pcs, os):
                    self.fact(Imp(p, Iff(c, not (isinstance(y, int) and y == 0))))
                return Ptr(If(c, x, 0), self.mergenn(pcs, vs, name, st))
            else:
                o = self.fint(name + '.o')
                for p, x in zip(pcs, os):
                    self.fact(Imp(p, eq(o, x)))
                bs = [self.agebound(x) for x in os]
                a = max(bs) if all(b is not None for b in bs) else st.age
                self.bnd[o.get_id()] = (o, a)
                if all(self.known_size.get(I(x).get_id()) for x in os):
                    pass
            return Ptr(o, self.mergeval(pcs, [v.f for v in vs], name + '.f', st))
        if isinstance(vs[0], Agg):
            return Agg([self.mergeval(pcs, [v.xs[i] for v in vs], name, st) for i in range(len(vs[0].xs))])
        if isinstance(vs[0], bool) or (z3.is_expr(vs[0]) and z3.is_bool(vs[0])):
            x = self.fbool(name)
            for p, v in zip(pcs, vs):
                self.fact(Imp(p, Iff(x, v)))
            return x
        if z3.is_expr(vs[0]) and vs[0].sort() == T.ASort:
            x = self.farr(name)
            for p, v in zip(pcs, vs):
                self.fact(Imp(p, x == v))
            return x
        if z3.is_expr(vs[0]) and not z3.is_int(vs[0]):
            x = self._c(z3.Const('%s!%d' % (name, self.n), vs[0].sort()))
            for p, v in zip(pcs, vs):
                self.fact(Imp(p, x == v))
            return x
        rs = [self.rng.get(v) for v in vs]
        x = self.fint(name)
        lo, hi = min(r[0] for r in rs), max(r[1] for r in rs)
        if lo > -2 ** 100 and hi < 2 ** 100:
            self.rng.set(x, lo, hi)
            self.fact(z3.And(x >= lo, x <= hi))
        for p, v in zip(pcs, vs):
            self.fact(Imp(p, eq(x, v)))
        return x

    def mergenn(self, pcs, vs, name, st):
        """offsets where some of the pointers are null: the null ones have offset 0"""
        return self.mergeval(pcs, [v.f for v in vs], name + '.f', st)

    def mergearr(self, pcs, xs, name):
        if all(sameArr(x, xs[0]) for x in xs[1:]):
            return xs[0]
        if isinstance(xs[0], PArr):
            return PArr(self.mergearr(pcs, [x.o for x in xs], name + 'o'), self.mergearr(pcs, [x.f for x in xs], name + 'f'))
        if isinstance(xs[0], Arr):
            # same base, stores at statically known offsets: merge cell by cell
            if all(x.base.eq(xs[0].base) for x in xs) and all(isinstance(o, int) for x in xs for o, v in x.st):
                offs = []
                for x in xs:
                    for o, v in x.st:
                        if o not in offs:
                            offs.append(o)
                r = Arr(xs[0].base)
                for o in offs:
                    v = self.mergeval(pcs, [norm(x.get(o)) for x in xs], name, None)
                    r = r.put(o, v)
                return r
            a = self.farr(name)
            for p, x in zip(pcs, xs):
                self.fact(Imp(p, a == x.expr()))
            ages = [self.arrage(x.expr()) for x in xs]
            if all(x is not None for x in ages):
                self._arrage[a.get_id()] = (a, max(ages))
            return Arr(a)
        # live bits
        if all(same(x, xs[0]) for x in xs[1:]):
            return xs[0]
        b = self.fbool(name)
        for p, x in zip(pcs, xs):
            self.fact(Imp(p, Iff(b, x)))
        return b

    def merge(self, sts, extra=None):
        """join states; extra: per-state lists of values to merge alongside"""
        if len(sts) == 1:
            return (sts[0], extra[0]) if extra is not None else sts[0]
        pcs = [s.pc for s in sts]
        r = State()
        r.dead = False
        r.pc = self.joinpc(pcs)
        if all(same(s.ctr, sts[0].ctr) for s in sts):
            r.ctr, r.age = sts[0].ctr, sts[0].age
        else:
            r.ctr = self.fint('ctr')
            for s in sts:
                self.fact(r.ctr >= s.ctr)
            if self.lastctr is not None:
                self.fact(r.ctr >= self.lastctr)
            self.lastctr = r.ctr
            r.age = self.newage(r.ctr)
        r.vars = {}
        keys = set()
        for s in sts:
            keys |= set(s.vars)
        for k in sorted(keys, key=str):
            vs = [s.vars.get(k) for s in sts]
            if any(v is None for v in vs):
                vs = [UNDEF if v is None else v for v in vs]
            r.vars[k] = self.mergeval(pcs, vs, 'v%s' % k[1], r)
        r.g = {}
        for k in sts[0].g:
            r.g[k] = self.mergeval(pcs, [s.g[k] for s in sts], 'g.' + k, r)
        r.mem = {}
        for k in KINDS + ('V',):
            Ls = [s.mem[k] for s in sts]
            if all(L is Ls[0] for L in Ls):
                r.mem[k] = Ls[0]
                continue
            n = 0
            while all(n < len(L) for L in Ls) and all(L[n] is Ls[0][n] for L in Ls):
                n += 1
            pre = Ls[0][:n]
            sufs = [L[n:] for L in Ls]
            if any(e[0] in ('a', 'm', 'b') for s in sufs for e in s):
                # general lazy join, then keep explicit entries for the known objects
                r.mem[k] = (('m', [(p, L) for p, L in zip(pcs, Ls)]),)
                continue
            out = list(pre)
            for s in sufs:
                for e in s:
                    if e[0] == 'e' and not any(x is e for x in out):
                        out.append(e)
            terms = []
            for s in sufs:
                for e in s:
                    if e[0] == 'o' and not any(same(e[1], t) for t in terms):
                        terms.append(e[1])
            for t in terms:
                if k == 'V':
                    v = self.mergearr(pcs, [self.rdlive(s, t) for s in sts], 'lv')
                else:
                    v = self.mergearr(pcs, [self.rd(s, k, t) for s in sts], 'mm' + k)
                out.append(('o', t, v))
            r.mem[k] = tuple(out)
        if extra is not None:
            ev = [self.mergeval(pcs, [e[i] for e in extra], 'phi', r) for i in range(len(extra[0]))]
            return r, ev
        return r

    # ------------------------------------------------------------ execution
    def opval(self, fr, t, v):
        if v[0] == 'loc':
            return fr.regs[v[1]]
        return self.cval(fr.fn.mod, t, v)

    def gepoff(self, fr, mod, et, ops):
        off = 0
        cur = et
        for k, (t, v) in enumerate(ops):
            ix = self.opval(fr, t, v) if fr is not None else self.cval(mod, t, v)
            if k == 0:
                sz = mod.size(cur)
                off = add(off, self.scale(ix, sz))
            else:
                rt = mod.resolve(cur)
                if rt[0] == 's':
                    fo, cur = mod.field(rt, ix)
                    off = add(off, fo)
                elif rt[0] == 'a':
                    cur = rt[2]
                    off = add(off, self.scale(ix, mod.size(cur)))
                else:
                    raise Unsupported('gep')
        return off

    def scale(self, ix, sz):
        if sz == 1:
            return ix
        if isinstance(ix, int):
            if ix >= 0 and fr_trigger(sz):
                self.efact(sz, ix)
            return ix * sz
        e = T.Emul(sz)(ix)
        self.efact(sz, ix)
        return e

    def efact(self, sz, ix):
        e = T.Emul(sz)(I(ix))
        k = e.get_id()
        n = self.rfacts.get(k)
        if n is None or n[0] >= len(self.facts) or self.facts[n[0]] is not n[1]:
            self.facts.append(e == sz * I(ix))
            self.rfacts[k] = (len(self.facts) - 1, self.facts[-1], e)

    def call_function(self, st, fn, args):
        """inline a program function; returns (value, state or None)"""
        analyse(fn)
        if len([1 for f, _ in self.stack if f.fn is fn]) > 1 or len(self.stack) > 24:
            raise Unsupported('recursion through %s needs a contract' % fn.name)
        fr = Frame(fn, args)
        save = self.curmod
        self.curmod = fn.mod
        for (t, pn, at), a in zip(fn.params, args):
            fr.regs[pn] = a
        self.stack.append([fr, None])
        rets = []
        fr.rets = rets
        fr.allocas = []
        try:
            self.run(fr, fn.cfg[3], {fn.entry: [(st, None)]}, None)
        finally:
            self.stack.pop()
            self.curmod = save
        if not rets:
            return None, None
        if len(rets) == 1:
            rs, rv = rets[0]
        else:
            rs, ev = self.merge([r[0] for r in rets], [[r[1]] for r in rets])
            rv = ev[0]
        # locals die
        fr.exit_state = rs
        rs = rs.copy() if len(rets) > 1 else rs
        if len(self.stack) > 0:
            for o in fr.allocas:
                self.setlive(rs, o, False)
            for k in [k for k in rs.vars if k[0] == fr.id]:
                del rs.vars[k]
        return rv, rs

    def run(self, fr, order, inc, body_of):
        """execute blocks in order; inc: block -> [(state, pred)]; body_of: loop whose body this is"""
        loops = fr.fn.cfg[2]
        skip = set()
        backs = []
        for b in order:
            if b in skip or b not in inc:
                continue
            sts = inc.pop(b)
            if b in loops and (body_of is None or body_of.header != b):
                L = loops[b]
                st = self.merge([s for s, _ in sts]) if len(sts) > 1 else sts[0][0]
                self.do_loop(fr, L, st, inc)
                skip |= L.blocks
                continue
            self.block(fr, b, sts, inc, body_of, backs)
        return backs

    def block(self, fr, b, sts, inc, body_of, backs):
        blk = fr.fn.blocks[b]
        phis = [i for i in blk if i.op == 'phi']
        if phis:
            extra = []
            for s, pr in sts:
                ev = []
                for i in phis:
                    for v, l in i.a[1]:
                        if l == pr:
                            ev.append(self.opval(fr, i.a[0], v))
                            break
                    else:
                        raise Unsupported('phi')
                extra.append(ev)
            st, ev = self.merge([s for s, _ in sts], extra) if len(sts) > 1 else (sts[0][0], extra[0])
            for i, v in zip(phis, ev):
                fr.regs[i.res] = v
        else:
            st = self.merge([s for s, _ in sts]) if len(sts) > 1 else sts[0][0]
        st = st.copy()

        def goto(s, t):
            if body_of is not None and t == body_of.header:
                backs.append(s)
            else:
                inc.setdefault(t, []).append((s, b))
        for ins in blk:
            if ins.op == 'phi':
                continue
            self.stack[-1][1] = ins
            if ins.op == 'br':
                if ins.a[0] is None or ins.a[1] == ins.a[2]:
                    goto(st, ins.a[1])
                    return
                c = self.opval(fr, ('i', 1), ins.a[0])
                if c is UNDEF:
                    c = self.fbool('und')
                x, y = self.fork(st, c)
                if x is not None:
                    goto(x, ins.a[1])
                if y is not None:
                    goto(y, ins.a[2])
                return
            if ins.op == 'switch':
                v = self.opval(fr, ins.a[0], ins.a[1])
                cur = st
                for c, t in ins.a[3]:
                    x, cur = self.fork(cur, eq(v, c))
                    if x is not None:
                        goto(x, t)
                    if cur is None:
                        return
                goto(cur, ins.a[2])
                return
            if ins.op == 'ret':
                v = self.opval(fr, ins.a[0], ins.a[1]) if ins.a[1] is not None else None
                fr.rets.append((st, v))
                return
            if ins.op == 'unreachable':
                self.prove(st, False, 'unreachable code is not reached', self.safety, 'memory')
                return
            self.step(fr, st, ins)
            if st.dead:
                return
        raise Unsupported('block without terminator')

    def step(self, fr, st, ins):
        op = ins.op
        fn = fr.fn
        mod = fn.mod
        if op == 'alloca':
            t, n = ins.a
            if ins.res in fn.promo:
                fr.regs[ins.res] = ('var', (fr.id, ins.res))
                st.vars.setdefault((fr.id, ins.res), UNDEF)
                return
            sz = mod.size(t)
            if n is not None:
                k = self.opval(fr, n[0], n[1])
                if not isinstance(k, int):
                    self.prove(st, And(ge(k, 0), le(k, 2 ** 31)), 'size of a local array is sane', self.safety, 'memory')
                sz = mul(k, sz)
            o = self.newobj(st, sz, False, 'L' + fn.varname.get(ins.res, ins.res))
            fr.allocas.append(o)
            self.locals_of.setdefault(fr.id, []).append(o)
            fr.regs[ins.res] = Ptr(o, 0)
            return
        if op == 'load':
            p = self.opval(fr, ('p',), ins.a[1])
            if isinstance(p, tuple):
                v = st.vars.get(p[1], UNDEF)
                if v is UNDEF:
                    v = self.typed(ins.a[0], 'uninit', st)
                    st.vars[p[1]] = v
                fr.regs[ins.res] = v
                return
            fr.regs[ins.res] = self.load(st, ins.a[0], p, 'read through a pointer is in bounds')
            return
        if op == 'store':
            v = self.opval(fr, ins.a[0], ins.a[1])
            p = self.opval(fr, ('p',), ins.a[2])
            if isinstance(p, tuple):
                st.vars[p[1]] = v
                return
            self.store(st, ins.a[0], v, p, 'write through a pointer is in bounds')
            return
        if op == 'gep':
            et, base, ix = ins.a
            p = self.opval(fr, ('p',), base)
            fr.regs[ins.res] = Ptr(p.o, add(p.f, self.gepoff(fr, mod, et, ix)))
            return
        if isinstance(op, tuple) and op[0] == 'bin':
            fr.regs[ins.res] = self.binop(fr, st, op[1], ins)
            return
        if isinstance(op, tuple) and op[0] == 'cast':
            fr.regs[ins.res] = self.cast(fr, st, op[1], ins)
            return
        if op == 'icmp':
            pred, t, x, y = ins.a
            xv, yv = self.opval(fr, t, x), self.opval(fr, t, y)
            if self.icmps is not None and t[0] == 'i':
                self.icmps += [(self.stack[-1][0].id, v) for v in (xv, yv) if (z3.is_expr(v) and z3.is_int(v)) or (isinstance(v, int) and not isinstance(v, bool))]
            fr.regs[ins.res] = self.icmp(pred, t, xv, yv)
            return
        if op == 'fcmp':
            fr.regs[ins.res] = self.fbool('fcmp')
            return
        if op == 'fneg':
            fr.regs[ins.res] = UNDEF
            return
        if op == 'select':
            c, t, x, y = ins.a
            cv = self.opval(fr, ('i', 1), c)
            fr.regs[ins.res] = If(cv, self.opval(fr, t, x), self.opval(fr, t, y))
            return
        if op == 'extractvalue':
            v = self.opval(fr, ins.a[0], ins.a[1])
            for i in ins.a[2]:
                v = v.xs[i] if isinstance(v, Agg) else UNDEF
            fr.regs[ins.res] = v
            return
        if op == 'insertvalue':
            v = self.opval(fr, ins.a[0], ins.a[1])
            x = self.opval(fr, ins.a[2], ins.a[3])
            xs = list(v.xs) if isinstance(v, Agg) else [UNDEF] * len(mod.resolve(ins.a[0])[1])
            xs[ins.a[4][0]] = x
            fr.regs[ins.res] = Agg(xs)
            return
        if op == 'freeze':
            fr.regs[ins.res] = self.opval(fr, ins.a[0], ins.a[1])
            return
        if op == 'call':
            v = self.call(fr, st, ins)
            if ins.res is not None:
                if v is None or v is UNDEF:
                    v = self.typed(ins.a[0], 'ret', st) if ins.a[0][0] != 'f' else UNDEF
                fr.regs[ins.res] = v
            return
        raise Unsupported('instruction %r' % (ins,))

    def wrap(self, v, bits):
        lo, hi = -2 ** (bits - 1), 2 ** (bits - 1) - 1
        if isinstance(v, int):
            return (v - lo) % (2 ** bits) + lo
        r = self.rng.get(v)
        if lo <= r[0] and r[1] <= hi:
            return v
        w = self.fint('wrap', lo, hi)
        self.fact(w == (v - lo) % (2 ** bits) + lo)
        self.fact(z3.Implies(z3.And(v >= lo, v <= hi), w == v))
        return w

    def uns(self, v, bits):
        if isinstance(v, int):
            return v % (2 ** bits)
        r = self.rng.get(v)
        if r[0] >= 0:
            return v
        u = T.UNS[bits](v)
        self.rng.set(u, 0, 2 ** bits - 1)
        k = u.get_id()
        n = self.rfacts.get(k)
        if n is None or n[0] >= len(self.facts) or self.facts[n[0]] is not n[1]:
            self.facts.append(u == z3.If(v < 0, v + 2 ** bits, v))
            self.rfacts[k] = (len(self.facts) - 1, self.facts[-1], u)
        return u

    def binop(self, fr, st, op, ins):
        t, x, y, fl = ins.a
        a, b = self.opval(fr, t, x), self.opval(fr, t, y)
        if t[0] == 'f':
            return UNDEF
        bits = t[1]
        if a is UNDEF:
            a = self.typed(t, 'undef')
        if b is UNDEF:
            b = self.typed(t, 'undef')
        if bits == 1:
            a, b = B(a) if not isinstance(a, bool) else a, B(b) if not isinstance(b, bool) else b
            if op == 'and':
                return And(a, b)
            if op == 'or':
                return Or(a, b)
            if op in ('xor', 'add', 'sub'):
                return Not(Iff(a, b))
            raise Unsupported('i1 ' + op)
        if isinstance(a, PI) or isinstance(b, PI):
            if op == 'sub' and isinstance(a, PI) and isinstance(b, PI):
                if same(a.p.o, b.p.o):
                    return sub(a.p.f, b.p.f)
                self.prove(st, eq(a.p.o, b.p.o), 'subtracted pointers point into one object', self.safety, 'memory')
                return sub(a.p.f, b.p.f)
            a = a.num() if isinstance(a, PI) else a
            b = b.num() if isinstance(b, PI) else b
        lo, hi = -2 ** (bits - 1), 2 ** (bits - 1) - 1
        if op in ('add', 'sub', 'mul'):
            r = add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else mul(a, b)
            if isinstance(r, int):
                if 'nsw' in fl and not lo <= r <= hi:
                    self.prove(st, False, 'no signed overflow', self.safety, 'overflow')
                return self.wrap(r, bits)
            rr = self.rng.get(r)
            if lo <= rr[0] and rr[1] <= hi:
                return r
            if 'nsw' in fl:
                self.prove(st, And(ge(r, lo), le(r, hi)), 'no signed overflow', self.safety, 'overflow')
                return r
            return self.wrap(r, bits)
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            self.prove(st, Not(eq(b, 0)), 'no division by zero', self.safety, 'overflow')
            if op[0] == 'u':
                a, b = self.uns(a, bits), self.uns(b, bits)
            if isinstance(a, int) and isinstance(b, int):
                q = abs(a) // abs(b)
                q = q if (a >= 0) == (b >= 0) else -q
                return self.wrap(q if op in ('sdiv', 'udiv') else a - q * b, bits)
            if self.rng.get(a)[0] >= 0 and isinstance(b, int) and b > 0:
                q = I(a) / b
                m = I(a) % b
            else:
                A_, B_ = I(a), I(b)
                absb = z3.If(B_ >= 0, B_, -B_)
                q0 = z3.If(A_ >= 0, A_ / absb, -((-A_) / absb))
                q = z3.If(B_ >= 0, q0, -q0)
                m = A_ - q * B_
            return self.wrap(q, bits) if op in ('sdiv', 'udiv') else self.wrap(m, bits)
        if op == 'shl' and isinstance(b, int):
            return self.wrap(mul(a, 2 ** b), bits)
        if op in ('ashr', 'lshr') and isinstance(b, int):
            if op == 'lshr':
                a = self.uns(a, bits)
            if isinstance(a, int):
                return a >> b
            return I(a) / (2 ** b)
        if op == 'and':
            if isinstance(a, int) and isinstance(b, int):
                return self.wrap(a & b, bits)
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0:
                return I(self.uns(a, bits)) % (b + 1)
            if isinstance(b, int):
                r = T.band(I(a), I(b))
                if b >= 0:
                    self.rng.set(r, 0, b)
                else:
                    self.setrange(st, str(bits), r)
                return r
        if op == 'or' or op == 'xor' or op == 'and':
            if isinstance(a, int) and isinstance(b, int):
                return self.wrap({'or': a | b, 'xor': a ^ b, 'and': a & b}[op], bits)
            if op == 'xor' and b == -1 and isinstance(b, int):
                return sub(-1, a)
            f = {'or': T.bor, 'xor': T.bxor, 'and': T.band}[op]
            r = f(I(a), I(b))
            return self.setrange(st, str(bits), r)
        r = self.fint('op', lo, hi)
        return r

    def cast(self, fr, st, op, ins):
        ft, x, tt = ins.a
        v = self.opval(fr, ft, x)
        if op in ('uitofp', 'sitofp', 'fpext', 'fptrunc'):
            return UNDEF
        if op in ('fptoui', 'fptosi'):
            return self.typed(tt, 'fp')
        if v is UNDEF:
            v = self.typed(ft, 'undef')
        if op == 'sext':
            if ft[1] == 1:
                return If(v, -1, 0)
            return v
        if op == 'zext':
            if ft[1] == 1:
                return If(v, 1, 0)
            return self.uns(v, ft[1])
        if op == 'trunc':
            if isinstance(v, PI):
                v = v.num()
            if tt[1] == 1:
                return self.tobool(v)
            return self.wrap(v, tt[1])
        if op == 'ptrtoint':
            return PI(v)
        if op == 'inttoptr':
            if isinstance(v, PI):
                return v.p
            if isinstance(v, int) and v == 0:
                return NULL
            return self.typed(('p',), 'i2p', st)
        return v

    def icmp(self, pred, t, a, b):
        if a is UNDEF:
            a = self.typed(t, 'undef')
        if b is UNDEF:
            b = self.typed(t, 'undef')
        if t[0] == 'p':
            if pred in ('eq', 'ne'):
                # a pointer into no object is the null pointer
                c = eq(a.o, b.o) if a is NULL or b is NULL or same(a, NULL) or same(b, NULL) else eq(a, b)
                return c if pred == 'eq' else Not(c)
            if same(a.o, b.o):
                x, y = a.f, b.f
            else:
                x, y = add(T.paddr(I(a.o)), a.f), add(T.paddr(I(b.o)), b.f)
            return {'u': 1} and cmp({'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}[pred], x, y)
        if isinstance(a, PI) or isinstance(b, PI):
            if isinstance(a, PI) and isinstance(b, PI) and pred in ('eq', 'ne'):
                r = eq(a.p, b.p)
                return r if pred == 'eq' else Not(r)
            a = a.num() if isinstance(a, PI) else a
            b = b.num() if isinstance(b, PI) else b
        if t == ('i', 1):
            if pred == 'eq':
                return Iff(a, b)
            if pred == 'ne':
                return Not(Iff(a, b))
            a, b = If(a, 1, 0), If(b, 1, 0)
        if pred == 'eq' or pred == 'ne':
            # (x ? 1 : 0) != 0  and the like
            for u, w in ((a, b), (b, a)):
                if isinstance(w, int) and z3.is_expr(u) and z3.is_app_of(u, z3.Z3_OP_ITE) and \
                        z3.is_int_value(u.arg(1)) and z3.is_int_value(u.arg(2)):
                    r = If(u.arg(0), u.arg(1).as_long() == w, u.arg(2).as_long() == w)
                    return r if pred == 'eq' else Not(r)
            r = eq(a, b)
            return r if pred == 'eq' else Not(r)
        op = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[pred[1:]]
        if pred[0] == 'u':
            a, b = self.uns(a, t[1]), self.uns(b, t[1])
        return cmp(op, a, b)

    # ------------------------------------------------------------ calls
    def call(self, fr, st, ins):
        rt, cal, args = ins.a
        if cal[0] == 'glob' and cal[1].startswith('llvm.'):
            return self.intrinsic(fr, st, cal[1], ins)
        vals = []
        for t, v, at in args:
            x = self.opval(fr, t, v)
            if isinstance(x, tuple):
                raise Unsupported('address of a promoted variable')
            if x is UNDEF and t[0] != 'f':
                x = self.typed(t, 'undef', st)
            if 'byval' in at:
                x = self.byval(fr, st, at['byval'], x)
            vals.append(x)
        if cal[0] == 'glob':
            name = cal[1]
            f = self.prog.function(fr.fn.mod, name)
            return self.call_named(fr, st, name, f, vals, ins)
        p = self.opval(fr, ('p',), cal)
        if isinstance(p.o, int) and p.o in self.prog.fid2:
            f = self.prog.fid2[p.o]
            return self.call_named(fr, st, f.name, f, vals, ins)
        h = self.contracts.get('*callback')
        if h is None:
            raise Unsupported('indirect call')
        return h(self, fr, st, p, vals, ins)

    def call_named(self, fr, st, name, f, vals, ins):
        c = self.contracts.get(name)
        if c is not None and not getattr(c, 'inline', False):
            self.used_contracts.add(name)
            return self.apply_contract(st, c, vals, ins)
        if f is not None:
            self.inlined.add(name)
            rv, rs = self.call_function(st, f, vals)
            if rs is None:
                st.dead = True
                return None
            self.adopt(st, rs)
            return rv
        h = self.libc.get(name)
        if h is None:
            self.prove(st, False, 'external function %s has a contract' % name, self.safety | self.all_tags, 'unsupported')
            raise Unsupported('external function %s has no contract' % name)
        self.trusted.add(name)
        return h(self, st, vals, ins)

    all_tags = frozenset()

    def adopt(self, st, rs):
        st.pc, st.vars, st.mem, st.ctr, st.age, st.g, st.dead = rs.pc, rs.vars, rs.mem, rs.ctr, rs.age, rs.g, rs.dead

    def byval(self, fr, st, t, p):
        n = self.curmod.size(t)
        self.valid(st, p, n, 'argument passed by value is readable')
        o = self.newobj(st, n, False, 'byval', init=False)
        for k in KINDS:
            a = self.rd(st, k, p.o)
            if same(p.f, 0):
                self.setarr(st, k, o, a)
            else:
                new = self.fresharr(k, 'bv')
                if k == 'P':
                    self.copyfacts(st, new.o.base, 0, self.named(st, a.o), p.f, n)
                    self.copyfacts(st, new.f.base, 0, self.named(st, a.f), p.f, n)
                else:
                    self.copyfacts(st, new.base, 0, self.named(st, a), p.f, n)
                self.setarr(st, k, o, new)
        fr.allocas.append(o)
        return Ptr(o, 0)

    def intrinsic(self, fr, st, name, ins):
        if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.va_', 'llvm.stackrestore', 'llvm.assume')):
            return None
        if name.startswith('llvm.stacksave'):
            return NULL
        args = [self.opval(fr, t, v) for t, v, at in ins.a[2]]
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            return self.libc['memmove' if 'move' in name else 'memcpy'](self, st, args[:3], ins)
        if name.startswith('llvm.memset'):
            return self.libc['memset'](self, st, args[:3], ins)
        if name.startswith('llvm.trap'):
            self.prove(st, False, 'trap is not reached', self.safety, 'memory')
            st.dead = True
            return None
        raise Unsupported(name)

    # ------------------------------------------------------------ contracts
    def apply_contract(self, st, c, vals, ins):
        cc = CallCtx(self, st, c, vals, ins, 'call')
        before = c.opts.get('before') if hasattr(c, 'opts') else None
        if before:
            before(self, st, vals)
        gen = c.spec(cc)
        next(gen)
        # everything the callee requires was proved; now havoc its footprint
        self.under_callee = c.opts.get('monitors', ()) if hasattr(c, 'opts') else ()
        cc.havoc()
        self.under_callee = ()
        try:
            next(gen)
        except StopIteration:
            pass
        after = c.opts.get('after') if hasattr(c, 'opts') else None
        if after:
            after(self, st, vals, cc.ret)
        if cc.dead:
            st.dead = True
            return None
        return cc.ret

    def verify(self, fn, contract):
        """generate (and locally discharge) the obligations of fn against its contract"""
        analyse(fn)
        self.rfacts = {}
        self._named = {}
        st = State()
        st.dead = False
        st.pc = True
        st.vars = {}
        st.g = {}
        self.curmod = fn.mod
        self.initmem(st)
        for g, s in self.opts.get('ghosts', {}).items():
            st.g[g] = self._c(z3.Const('g.' + g, s))
            if g in MONO:
                self.fact(st.g[g] >= 0)
        args = []
        for (t, pn, at) in fn.params:
            nm = 'arg%d' % len(args)
            if 'byval' in at:
                o = self.newobj(st, fn.mod.size(at['byval']), False, nm)
                args.append(Ptr(o, 0))
            else:
                args.append(self.typed(t, nm, st))
        cc = CallCtx(self, st, contract, args, None, 'verify')
        cc.fn = fn
        self.frame_ctx = {'mod': cc.mods, 'tags': contract.tags, 'any': False}
        self.all_tags = frozenset(contract.tags)
        self.safety_tags = frozenset(contract.safety)
        self.top = cc
        gen = contract.spec(cc)
        next(gen)
        self.frame_ctx['any'] = cc.any
        self.nreq = len(self.facts)
        self.templates = cc.loops
        self.bounds = cc.bounds
        pre = st.copy()
        cc.S = View(self, pre)
        self.pre = pre
        # entry must be satisfiable: checked by the driver as a cover query
        rv, rs = self.call_function(st.copy(), fn, args)
        cc.exit = rs
        if rs is None:
            cc.ret = None
            cc.noreturn_seen = True
            return cc
        self.stack.append([Frame(fn, args), None])
        cc.ret = rv
        cc.st = rs
        cc.T = View(self, rs)
        self.dryquick = False
        try:
            next(gen)
        except StopIteration:
            pass
        for g in rs.g:
            if g not in cc.ghosts and not cc.anyghost and not g.startswith('io.'):
                if not same(rs.g[g], pre.g[g]):
                    e = rs.g[g] == pre.g[g]
                    self.prove(rs, e, 'does not touch %s' % g, contract.tags, 'frame')
        self.cover = (len(self.facts), rs.pc)
        return cc

    # ------------------------------------------------------------ loops
    def inv_term(self, e, mark):
        """does e only mention constants created before mark?"""
        if isinstance(e, (int, bool)):
            return True
        seen = set()
        work = [e]
        while work:
            x = work.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            c = self.cidx.get(x.get_id())
            if c is not None and c[0] > mark:
                return False
            if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                c = self.cidx.get(x.decl().get_id())
                if c is not None and c[0] > mark:
                    return False
            work += x.children()
        return True

    def loop_ctx(self, fr, L, st0, head, ivars, pvars):
        pass

    def do_loop(self, fr, L, st0, inc):
        if self.unroll(fr, L, st0, inc):
            return
        key = (fr.fn.name, L.header, len(self.stack))
        if key not in self.pessimistic:
            m = self.mark()
            ow = self.wlog
            n = len(ow) if ow is not None else 0
            if self.do_loop1(fr, L, st0, inc, True):
                return
            self.pessimistic.add(key)
            self.reset(m)
            self.wlog = ow
            if ow is not None:
                del ow[n:]
        self.do_loop1(fr, L, st0, inc, False)

    def header_decides(self, fr, L, st):
        """does the condition at the loop's head fold to a constant in this state? 'in', 'out' or None"""
        m = self.mark()
        self.dry += 1
        ow, self.wlog = self.wlog, []
        oi, self.icmps = self.icmps, None
        inc, backs = {}, []
        try:
            self.block(fr, L.header, [(st.copy(), None)], inc, L, backs)
        finally:
            self.dry -= 1
            self.wlog, self.icmps = ow, oi
            self.reset(m)
        if backs or len(inc) != 1:
            return None
        return 'in' if list(inc)[0] in L.blocks else 'out'

    UNROLL = 12

    def unroll(self, fr, L, st0, inc):
        """a loop whose trip count is a constant is executed instead of summarised"""
        blk = fr.fn.blocks[L.header]
        if blk[-1].op != 'br' or blk[-1].a[0] is None or any(i.op in ('call', 'phi') for i in blk):
            return False
        if any(v[0] == 'int' and v[1] > self.UNROLL for i in blk if i.op == 'icmp' for v in (i.a[2], i.a[3])):
            return False
        if all(t in L.blocks for t in blk[-1].a[1:3]) or self.header_decides(fr, L, st0) != 'in':
            return False
        order = [b for b in fr.fn.cfg[3] if b in L.blocks]
        m = self.mark()
        ow, oi = self.wlog, self.icmps
        n = len(ow) if ow is not None else 0
        ni = len(oi) if oi is not None else 0
        st, mine = st0, {}
        for k in range(self.UNROLL + 1):
            d = self.header_decides(fr, L, st)
            if d is None:
                break
            backs = self.body(fr, L, order, st.copy(), mine)
            if d == 'out' or not backs:
                for b, x in mine.items():
                    inc.setdefault(b, []).extend(x)
                return True
            st = self.merge(backs) if len(backs) > 1 else backs[0]
        self.reset(m)
        if ow is not None:
            del ow[n:]
        if oi is not None:
            del oi[ni:]
        return False

    def do_loop1(self, fr, L, st0, inc, optimistic):
        fn = fr.fn
        order = [b for b in fn.cfg[3] if b in L.blocks]
        lid = '%s:%s' % (fn.name, ll.loc_line(fn.mod, fn.blocks[L.header][-1].dbg))
        mod = set()
        consts = set()
        for b in L.blocks:
            for ins in fn.blocks[b]:
                if ins.op == 'store' and ins.a[2][0] == 'loc' and ins.a[2][1] in fn.promo:
                    mod.add(ins.a[2][1])
                if ins.op == 'icmp':
                    for v in (ins.a[2], ins.a[3]):
                        if v[0] == 'int':
                            w = ins.a[3] if v is ins.a[2] else ins.a[2]
                            consts.add((v[1], self.source(fn, L, w)))
                if ins.op == 'alloca' and ins.a[1] is not None and ins.res not in fn.promo:
                    pass
        mod = sorted(mod, key=lambda x: int(x) if x.isdigit() else 0)
        m0 = self.mark()
        nmark = self.n
        W = []          # (kind, obj term)
        unk = {}        # kind -> age bound of unknown targets
        unkk = set()
        alloc = False
        pof = {}        # pointer var -> True if the object changes too
        keep = {}       # var -> True if it is not changed after all
        gh = set()
        outer = self.wlog
        it = 0
        while True:
            it += 1
            if it > 12:
                raise Unsupported('loop discovery does not converge: ' + lid)
            self.reset(m0)
            head, hv = self.mkhead(fr, st0, mod, keep, pof, W, unk, alloc, gh)
            nhead = self.n
            mh = self.mark()
            self.dry += 1
            self.wlog = []
            oicmps, self.icmps = self.icmps, []
            odry, self.dryquick = self.dryquick, self.dryquick or self.sparse()
            backs = self.body(fr, L, order, head.copy(), {})
            self.dryquick = odry
            wl = self.wlog
            self.wlog = outer
            myicmps, self.icmps = self.icmps, oicmps
            self.dry -= 1
            ch = False
            # which variables really change
            for s in backs:
                for v in mod:
                    k = (fr.id, v)
                    a, b = head.vars.get(k, UNDEF), s.vars.get(k, UNDEF)
                    if isinstance(b, Ptr) and isinstance(a, Ptr):
                        if not same(a.o, b.o) and not pof.get(v):
                            pof[v] = True
                            ch = True
                for g in s.g:
                    if not same(s.g[g], head.g[g]) and g not in gh:
                        gh.add(g)
                        ch = True
                if not same(s.ctr, head.ctr) and not alloc:
                    alloc = True
                    ch = True
            for (k, o, lo, hi, wc, wn) in wl:
                if any(k == kk and same(o, oo) for kk, oo in W):
                    continue
                if self.inv_term(o, nmark):
                    if k == 'V':
                        if all(same(self.rdlive(b, o), self.rdlive(head, o)) for b in backs):
                            continue
                    elif all(sameArr(self.rd(b, k, o), self.rd(head, k, o)) for b in backs):
                        continue
                    W.append((k, o))
                    ch = True
                    continue
                b = self.bornage(o)
                if b is not None and b > st0.age and alloc:
                    continue
                if b is not None and b > st0.age:
                    continue
                if optimistic:
                    # assumed to hit memory made in the loop or written by name; proved after the invariants are found
                    if k not in unkk:
                        unkk.add(k)
                    continue
                ab = self.agebound(o)
                ab = 10 ** 9 if ab is None else ab
                if unk.get(k, -1) < ab:
                    if k in unk and unk[k] >= ab:
                        continue
                    # ages grow from pass to pass: anything created after the loop started counts as "all"
                    if ab > st0.age:
                        ab = 10 ** 9
                    if unk.get(k, -1) < ab:
                        unk[k] = ab
                        ch = True
            if not ch:
                break
        # what the discovery passes assumed (the obligations of the body among it) is not known to hold
        self.reset(mh)
        # final head; candidates are functions of a loop view
        lv0 = LoopView(self, fr, mod, st0, st0, hv, lid)
        lvh = LoopView(self, fr, mod, st0, head, hv, lid)
        lvh.written = lv0.written = list(W)
        self.invbounds = []
        for fid, v in myicmps:
            if fid == fr.id and self.inv_term(v, nmark) and not any(same(v, x) for x in self.invbounds):
                self.invbounds.append(v)
        cands = self.candidates(fr, L, lv0, lvh, mod, consts, wl, W, hv, unk)
        # in the rounds of an enclosing loop, which only ever assume less, what failed before fails again
        known = self.failed[-1] if self.failed else None
        keys, seen = [], {}
        for nm, fnc in cands:
            k = lid + re.sub(r'!\d+', '', nm)
            seen[k] = seen.get(k, 0) + 1
            keys.append((k, seen[k]))
        if known is not None:
            cands = [(nm, fnc) for (nm, fnc), k in zip(cands, keys) if k not in known]
            keys = [k for k in keys if k not in known]
        keyof = {id(f): k for (n_, f), k in zip(cands, keys)}
        lost = set()
        m1 = self.mark()
        # initiation
        good = []
        s = self.solver()
        T.limit(s, min(self.timeout, 4000))
        T.addall(s, self.facts0 + self.facts)
        nf = len(self.facts)
        tinit = time.time()
        for nm, fnc in cands:
            try:
                g = fnc(lv0)
            except Skip:
                continue
            if g is True:
                good.append((nm, fnc))
                continue
            if g is False:
                continue
            while nf < len(self.facts):
                s.add(self.facts[nf])
                nf += 1
            r, dt, _ = self.check1(s, st0.pc, g)
            if r == z3.unsat:
                good.append((nm, fnc))
            elif TRACE:
                print('   init', lid, nm, r, round(dt, 2), str(g)[:200] if TRACE2 else '')
                if EXPL and EXPL in nm:
                    for g1 in conjuncts(B(g)):
                        print('      ', self.check1(s, st0.pc, g1)[0], re.sub(' +', ' ', str(g1).replace('\n', ' '))[:1500])
        rounds = 0
        tnames = set(t[0] for t in self.templates)
        for nm, fnc in cands:
            if (nm, fnc) not in good and nm.split('.')[0] not in tnames:
                lost.add(keyof[id(fnc)])
        self.failed.append(set())
        while True:
            rounds += 1
            self.reset(m1)
            self.dry += 1
            self.wlog = []
            h = head.copy()
            for nm, fnc in good:
                self.assume(h, fnc(lvh))
            backs = self.body(fr, L, order, h, {})
            wl2 = self.wlog
            self.wlog = outer
            bad = set()
            if backs:
                bs = self.merge(backs)
                lvb = LoopView(self, fr, mod, st0, bs, hv, lid)
                lvb.written = list(W)
                goals = []
                for i, (nm, fnc) in enumerate(good):
                    g = fnc(lvb)
                    goals.append(g)
                s = self.solver()
                T.limit(s, min(self.timeout, 4000 if rounds > 1 else 2500))
                T.addall(s, self.facts0 + self.facts)
                for i, g in enumerate(goals):
                    if g is True:
                        continue
                    DUMPNAME[0] = good[i][0]
                    tmpl = good[i][0].split('.')[0] in tnames
                    T.limit(s, 2500 if tmpl else min(self.timeout, 4000 if rounds > 1 else 2500))
                    r, dt, why = (self.checkall if tmpl else self.check1)(s, bs.pc, g)
                    if tmpl and r == z3.unknown and T.gaveup(why):
                        # a slow machine must not lose an invariant: try again, longer and alone
                        r, dt = self.oneshot(bs.pc, g)
                    DUMPNAME[0] = ''
                    if TRACE and r == z3.unsat and dt > 0.7:
                        print('   slow', lid, good[i][0], round(dt, 2))
                    if r != z3.unsat:
                        bad.add(i)
                        if TRACE:
                            print('   drop', lid, good[i][0], r, round(dt, 2))
                        if EXPL and EXPL in good[i][0]:
                            from . import discharge as D
                            for g1 in D.conjuncts(B(g)):
                                r1, dt1, _ = self.check1(s, bs.pc, g1)
                                print('      ', r1, round(dt1, 2), re.sub(' +', ' ', str(g1).replace('\n', ' '))[:1500])
            self.dry -= 1
            if not bad:
                if unkk and not self.within(wl2, st0, W, nmark):
                    self.failed.pop()
                    if TRACE:
                        print('  loop', lid, 'writes through unknown pointers')
                    return False
                break
            lost |= set(keyof[id(good[i][1])] for i in bad if good[i][0].split('.')[0] not in tnames)
            good = [c for i, c in enumerate(good) if i not in bad]
        if known is not None:
            known |= lost
        if TRACE:
            print('  loop', round(time.time() - tinit), 's', lid, 'cands', len(cands), 'kept', len(good), 'rounds', rounds, [c[0] for c in good])
        self.loopinfo.append((lid, len(cands), [c[0] for c in good], rounds))
        self.reset(m1)
        if not self.dry:
            for nm, fnc in good:
                for ph in ('holds on entry', 'is preserved'):
                    o = Obl(len(self.facts), True, True, 'loop %s: invariant %s %s' % (lid, nm, ph), self.all_tags, self.where(), 'invariant')
                    o.status = 'proved'
                    o.detail = 'houdini'
                    self.obls.append(o)
        for nm, fnc in good:
            self.assume(head, fnc(lvh))
        if outer is not None:
            # report the loop's writes to the enclosing loop
            for k, o in W:
                outer.append((k, o, None, None, st0.pc, len(self.facts)))
            for k, ab in unk.items():
                outer.append((k, self.unkobj(ab, st0), None, None, st0.pc, len(self.facts)))
        self.wlog = outer
        self.body(fr, L, order, head, inc)
        self.failed.pop()
        return True

    def source(self, fn, L, w):
        """the promoted variable a compared value comes from; '' for a character in memory, None if it is something else"""
        defs = fn.__dict__.get('defs')
        if defs is None:
            defs = fn.defs = {i.res: i for b in fn.blocks.values() for i in b if i.res is not None}
        for _ in range(8):
            if w[0] != 'loc' or w[1] not in defs:
                return None
            i = defs[w[1]]
            if i.op == 'load':
                q = i.a[1]
                if q[0] == 'loc' and q[1] in fn.promo:
                    return q[1]
                return '' if i.a[0] == ('i', 8) else None
            if isinstance(i.op, tuple) and i.op[0] == 'cast' and i.op[1] in ('sext', 'zext', 'trunc'):
                w = i.a[1]
            elif isinstance(i.op, tuple) and i.op[0] == 'bin' and i.op[1] in ('add', 'sub'):
                ws = [x for x in i.a if isinstance(x, tuple) and x and x[0] == 'loc']
                if len(ws) != 1:
                    return None
                w = ws[0]
            else:
                return None
        return None

    def within(self, wl, st0, W, nmark):
        """every write of the loop body goes to memory made since the loop was entered or to an object of W"""
        s = None
        for (k, o, lo, hi, wc, wn) in wl:
            if any(k == kk and same(o, oo) for kk, oo in W) or self.bornage(o) is not None and self.bornage(o) > st0.age:
                continue
            if self.inv_term(o, nmark):
                continue
            if s is None:
                s = self.solver()
                T.limit(s, 4000)
                T.addall(s, self.facts0 + self.facts)
            g = Or(ge(o, st0.ctr), *[eq(o, oo) for kk, oo in W if kk == k])
            r, dt, why = self.check1(s, wc, g)
            if r != z3.unsat:
                if TRACE:
                    print('   not within', k, o, g, r)
                return False
        return True

    def unkobj(self, ab, st):
        o = self.fint('unk')
        self.bnd[o.get_id()] = (o, min(ab, st.age))
        return o

    def body(self, fr, L, order, head, inc):
        """run the loop body once from head; exits go to inc, back-edge states are returned"""
        inc2 = {L.header: [(head, None)]}
        backs = []
        loops = fr.fn.cfg[2]
        skip = set()
        for b in order:
            if b in skip or b not in inc2:
                continue
            sts = inc2.pop(b)
            if b in loops and b != L.header:
                st = self.merge([s for s, _ in sts]) if len(sts) > 1 else sts[0][0]
                self.do_loop(fr, loops[b], st, inc2)
                skip |= loops[b].blocks
                # back edges of the outer loop may leave the inner loop directly
                if L.header in inc2:
                    backs += [s for s, _ in inc2.pop(L.header)]
                continue
            self.block(fr, b, sts, inc2, L, backs)
        for b, x in inc2.items():
            inc.setdefault(b, []).extend(x)
        return backs

    def mkhead(self, fr, st0, mod, keep, pof, W, unk, alloc, gh):
        h = st0.copy()
        hv = {}
        h.pc = st0.pc
        if alloc:
            c = self.fint('ctr')
            self.fact(c >= st0.ctr)
            if self.lastctr is not None:
                self.fact(c >= self.lastctr)
            self.lastctr = c
            h.ctr = c
            h.age = self.newage(c)
            for k in KINDS + ('V',):
                nb = self.newbase(k)
                if k == 'P':
                    self.wfarr(nb[0], h.age)
                h.mem[k] = h.mem[k] + (('e', st0.ctr, st0.age, nb),)
        for v in mod:
            k = (fr.id, v)
            old = h.vars.get(k, UNDEF)
            t = fr.fn.promo[v]
            nm = fr.fn.varname.get(v, 'v' + v)
            if t[0] == 'p':
                if isinstance(old, Ptr) and not pof.get(v):
                    h.vars[k] = Ptr(old.o, self.fint(nm + '.f'))
                else:
                    o, f = self.fint(nm + '.o'), self.fint(nm + '.f')
                    self.bnd[o.get_id()] = (o, h.age)
                    self.assume(h, z3.And(o < h.ctr, o >= -100))
                    h.vars[k] = Ptr(o, f)
            else:
                h.vars[k] = self.typed(t, nm, h)
            hv[v] = h.vars[k]
        for k, ab in unk.items():
            nb = self.newbase(k)
            if k == 'P':
                self.wfarr(nb[0], h.age)
            L = h.mem[k]
            kept = []
            for e in L:
                if e[0] == 'o':
                    b = self.bornage(e[1])
                    if b is not None and b > ab:
                        kept.append(e)
            h.mem[k] = (('a', nb),) + tuple(kept)
            if k == 'V':
                pass
        for k, o in W:
            if k == 'V':
                self.setlive(h, o, self.fbool('lv'))
            else:
                self.setarr(h, k, o, self.fresharr(k, 'lp' + k, h.age))
        for g in gh:
            x = h.g[g]
            if isinstance(x, (bool,)) or (z3.is_expr(x) and z3.is_bool(x)):
                h.g[g] = self.fbool('g.' + g)
            elif isinstance(x, int) or z3.is_int(x):
                h.g[g] = self.fint('g.' + g)
                if g in MONO:
                    self.fact(h.g[g] >= I(x))
            else:
                h.g[g] = self._c(z3.Const('g.%s!%d' % (g, self.n), x.sort()))
        return h, hv

    def candidates(self, fr, L, lv0, lvh, mod, consts, wl, W, hv, unk):
        out = []
        # numeric templates over modified integers and pointer offsets
        names = []
        for v in mod:
            t = fr.fn.promo[v]
            if t[0] == 'i' and t[1] > 8:
                names.append(v)
            elif t[0] == 'i':
                if lv0.var(v) is not UNDEF:
                    out.append(('%s is 0 or 1' % fr.fn.varname.get(v, v), lambda lv, v=v: And(le(0, lv.var(v)), le(lv.var(v), 1)) if not (z3.is_expr(lv.var(v)) and z3.is_bool(lv.var(v))) and not isinstance(lv.var(v), bool) else True))
            elif t[0] == 'p':
                x = lvh.var(v)
                y = lv0.var(v)
                if isinstance(x, Ptr) and isinstance(y, Ptr):
                    if same(x.o, y.o):
                        names.append(v)
        # what the arguments point to lives on
        if any(k == 'V' for k, o in W) or 'V' in unk:
            for p in self.top.args:
                if isinstance(p, Ptr) and z3.is_expr(p.o):
                    out.append(('argument lives', lambda lv, p=p: lv.live(p.o)))
        lvh.names = lv0.names = names
        self._loopnames = names

        def nv(lv, v):
            x = lv.var(v)
            return x.f if isinstance(x, Ptr) else x
        others = [k for k in fr.fn.promo if k not in mod and fr.fn.promo[k][0] == 'i' and fr.fn.promo[k][1] > 8]
        bnds = []
        only = {}
        for k in others:
            val = lv0.var(k)
            if val is not UNDEF and val is not None:
                bnds.append((fr.fn.varname.get(k, k), (lambda kk: lambda lv: lv.var(kk))(k)))
        about = {}
        for c, w in consts:
            about.setdefault(c, set()).add(w)
        about[0] = {None}
        # in the big loop of a contract that says so, only bounds by constants it is compared with
        sparse = self.top.contract.opts.get('sparse') and len(L.blocks) > 12
        if sparse:
            bnds = []
        for c in sorted(about):
            if abs(c) < 2 ** 31:
                bnds.append((str(c), (lambda cc: lambda lv: cc)(c)))
                # a constant other variables are compared with says little about this one
                only[str(c)] = None if None in about[c] else about[c]
        for b in self.bounds:
            bnds.append((b[0], b[1]))
        for v in self.invbounds if not sparse else ():
            if not any(same(v, bf(lv0)) for bn, bf in bnds if bf(lv0) is not UNDEF):
                bnds.append((str(v)[:40].replace('\n', ' '), (lambda vv: lambda lv: vv)(v)))
        # promoted parameters and captured length terms count as bounds as well
        for v in names:
            nm = fr.fn.varname.get(v, v)
            e0 = lv0.var(v)
            if e0 is UNDEF:
                continue

            def ent(lv, v=v):
                x = lv.E.var(v)
                return x.f if isinstance(x, Ptr) else x
            out.append(('%s>=entry' % nm, lambda lv, v=v, ent=ent: ge(nv(lv, v), ent(lv))))
            out.append(('%s<=entry' % nm, lambda lv, v=v, ent=ent: le(nv(lv, v), ent(lv))))
            isp = isinstance(e0, Ptr)
            if isp:
                out.append(('%s-entry<=strlen(%s)' % (nm, nm), lambda lv, v=v, ent=ent: le(sub(nv(lv, v), ent(lv)), lv.E.slen(lv.E.var(v)))))
            for bn, bf in bnds:
                if isp:
                    out.append(('%s-entry<=%s' % (nm, bn), lambda lv, v=v, ent=ent, bf=bf: le(sub(nv(lv, v), ent(lv)), bf(lv))))
                    continue
                if only.get(bn) is not None and v not in only[bn]:
                    continue
                out.append(('%s<=%s' % (nm, bn), lambda lv, v=v, bf=bf: le(nv(lv, v), bf(lv))))
                out.append(('%s>=%s' % (nm, bn), lambda lv, v=v, bf=bf: ge(nv(lv, v), bf(lv))))
                out.append(('%s>=%s-1' % (nm, bn), lambda lv, v=v, bf=bf: ge(nv(lv, v), sub(bf(lv), 1))))
        for i in range(len(names) if not sparse else 0):
            for k in range(i + 1, len(names)):
                a, b = names[i], names[k]
                if lv0.var(a) is UNDEF or lv0.var(b) is UNDEF:
                    continue

                def rel(lv, a=a, b=b):
                    da = sub(nv(lv, a), nv(lv.E, a))
                    db = sub(nv(lv, b), nv(lv.E, b))
                    return eq(da, db)
                out.append(('lockstep %s %s' % (a, b), rel))

                def rel2(lv, a=a, b=b):
                    da = sub(nv(lv, a), nv(lv.E, a))
                    db = sub(nv(lv, b), nv(lv.E, b))
                    return le(da, db)

                def rel3(lv, a=a, b=b):
                    da = sub(nv(lv, a), nv(lv.E, a))
                    db = sub(nv(lv, b), nv(lv.E, b))
                    return ge(da, db)
                out.append(('le %s %s' % (a, b), rel2))
                out.append(('ge %s %s' % (a, b), rel3))
        # pointers that may be null or of another object
        for v in mod:
            if fr.fn.promo[v][0] == 'p' and v not in names:
                out.append(('%s same object' % v, lambda lv, v=v: eq(lv.var(v).o, lv.E.var(v).o) if isinstance(lv.var(v), Ptr) and isinstance(
                    lv.E.var(v), Ptr) else False))
                out.append(('%s same object or null' % v, lambda lv, v=v: Or(eq(lv.var(v).o, 0), eq(strip0(lv.var(v).o), strip0(lv.E.var(v).o)))
                            if isinstance(lv.var(v), Ptr) and isinstance(lv.E.var(v), Ptr) else False))
        # pointers kept in memory cells that the loop writes
        cells = set()
        for (k, o, lo, hi, wc, wn) in wl:
            if k == 'P' and isinstance(lo, int) and (str(o), lo) not in cells and any(k == kk and same(o, oo) for kk, oo in W):
                cells.add((str(o), lo))
                if sparse:
                    continue

                def cell(lv, o=o, lo=lo):
                    a, b = lv.arr('P', o).get(lo), lv.E.arr('P', o).get(lo)
                    return norm(a.o), norm(b.o)
                out.append(('cell %s+%s same object' % (o, lo), lambda lv, cell=cell: eq(*cell(lv))))
                out.append(('cell %s+%s same object or null' % (o, lo), lambda lv, cell=cell: Or(eq(cell(lv)[0], 0), eq(strip0(cell(lv)[0]), strip0(cell(lv)[1])))))
        # memory older than the loop that it writes nowhere by name
        for k in sorted(unk):
            out.append(('older memory %s unchanged' % k, lambda lv, k=k: self.oldmem(lv, k, [o for kk, o in W if kk == k])))
        # frames of written arrays: nothing outside the written window has changed
        seen = set()
        for (k, o, lo, hi, wc, wn) in wl:
            if lo is None or k == 'V' or not any(k == kk and same(o, oo) for kk, oo in W):
                continue
            for which, off in (('lo', lo), ('hi', hi)) if not sparse else ():
                key = (k, str(o), which, str(off))
                if key in seen or isinstance(off, int):
                    key2 = key
                    if key in seen:
                        continue
                seen.add(key)
                if not isinstance(off, int) and not self.only_head(off, hv, lvh):
                    continue
                fixed = isinstance(off, int)

                def at(lv, off=off, lvh=lvh):
                    return lvh.subst(off, lv)

                def above(lv, k=k, o=o, at=at):
                    return self.unchanged(lv, k, o, ge_=at(lv))

                def below0(lv, k=k, o=o, off=off, lvh=lvh):
                    return self.unchanged(lv, k, o, lt_=lvh.subst(off, lv.E))
                if which == 'lo':
                    out.append(('unchanged from %s[%s]' % (o, off), above))
                    out.append(('unchanged before %s[%s@entry]' % (o, off), below0))
                else:
                    out.append(('unchanged from end %s[%s]' % (o, off),
                                lambda lv, k=k, o=o, off=off, lvh=lvh: self.unchanged(lv, k, o, ge_=lvh.subst(off, lv.E))))
                    if not isinstance(off, int):
                        out.append(('unchanged before end %s[%s]' % (o, off),
                                    lambda lv, k=k, o=o, at=at: self.unchanged(lv, k, o, lt_=at(lv))))
        # templates of the contract
        for tn, tf in self.templates:
            try:
                for i, (nm, fnc) in enumerate(tf(lvh) or []):
                    out.append(('%s.%s' % (tn, nm), fnc))
            except Skip:
                pass
        return out

    def oldmem(self, lv, k, ws):
        o = z3.Int('?o')
        c = z3.And(o < I(lv.st0.ctr), *[o != I(w) for w in ws])
        if k == 'V':
            prs = [(self.rdlive(lv.st, o), self.rdlive(lv.E.st, o))]
        elif k == 'P':
            a, b = self.rd(lv.st, k, o), self.rd(lv.E.st, k, o)
            prs = [(a.o.expr(), b.o.expr()), (a.f.expr(), b.f.expr())]
        else:
            prs = [(self.rd(lv.st, k, o).expr(), self.rd(lv.E.st, k, o).expr())]
        out = []
        for a, b in prs:
            a = B(a) if k == 'V' else a
            b = B(b) if k == 'V' else b
            if a.eq(b):
                continue
            pats = []
            work = [a]
            while work:
                x = work.pop()
                if z3.is_app(x) and x.num_args() == 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.arg(0).eq(o):
                    if not any(x.eq(y) for y in pats):
                        pats.append(x)
                else:
                    work += x.children()
            if not pats:
                raise Skip()
            out.append(z3.ForAll([o], z3.Implies(c, a == b), patterns=pats[:1] if len(pats) == 1 else pats))
        return And(*out)

    def only_head(self, off, hv, lvh):
        """off is an expression over loop-head variables and loop-invariant terms only"""
        return self.inv_term(off, lvh.nhead)

    def unchanged(self, lv, k, o, ge_=None, lt_=None):
        j = z3.Int('?j')
        a, b = lv.arr(k, o), lv.E.arr(k, o)
        c = []
        if ge_ is not None:
            c.append(j >= I(ge_))
        if lt_ is not None:
            c.append(j < I(lt_))

        def one(x, y):
            x, y = self.named(lv.st, x), self.named(lv.E.st, y)
            if x.eq(y):
                return True
            return z3.ForAll([j], z3.Implies(z3.And(*c), T.sel(x, j) == T.sel(y, j)), patterns=[T.sel(x, j)])
        if k == 'P':
            return And(one(a.o, b.o), one(a.f, b.f))
        return one(a, b)


def fr_trigger(sz):
    return sz > 1


class Skip(Exception):
    pass


class PI:
    """a pointer converted to an integer"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def num(self):
        return add(T.paddr(I(self.p.o)), self.p.f)


class LoopView(View):
    def __init__(self, ex, fr, mod, st0, st, hv, lid):
        View.__init__(self, ex, st)
        self.fr, self.mod, self.hv, self.lid = fr, mod, hv, lid
        self.st0 = st0
        self.nhead = ex.n
        self.E = self if st is st0 else LoopView(ex, fr, mod, st0, st0, hv, lid)
        self.names = getattr(ex, '_loopnames', [])

    def var(self, v):
        return self.st.vars.get((self.fr.id, v), UNDEF)

    def subst(self, e, lv):
        """rewrite an expression over head constants into the state of lv"""
        if isinstance(e, int):
            return e
        pairs = []
        for v, x in self.hv.items():
            y = lv.var(v)
            if y is UNDEF:
                continue
            if isinstance(x, Ptr):
                if not isinstance(y, Ptr):
                    continue
                if not isinstance(x.f, int):
                    pairs.append((x.f, I(y.f)))
                if not isinstance(x.o, int) and not same(x.o, y.o):
                    pairs.append((x.o, I(y.o)))
            elif z3.is_expr(x) and z3.is_int(x):
                pairs.append((x, I(y)))
        if not pairs:
            return e
        return norm(z3.substitute(e, *pairs))

    def ints(self):
        """current values of the modified integers and, for pointers, their advance since the loop was entered"""
        out = []
        for v in self.ex._loopnames:
            x = self.var(v)
            y = self.E.var(v)
            if x is UNDEF or y is UNDEF:
                continue
            if isinstance(x, Ptr):
                out.append(sub(x.f, y.f))
            else:
                out.append(x)
        return out

    def intvars(self):
        return [v for v in self.ex._loopnames if self.st0.vars.get((self.fr.id, v), UNDEF) is not UNDEF]

    def ptrvars(self):
        """promoted pointer variables with a value on entry"""
        return [v for v, t in self.fr.fn.promo.items() if t[0] == 'p' and isinstance(self.st0.vars.get((self.fr.id, v), UNDEF), Ptr)]

    def modptrs(self):
        """those the loop changes"""
        return [v for v in self.ptrvars() if v in self.mod]

    def localints(self):
        """promoted integer variables with a value on entry"""
        return [v for v, t in self.fr.fn.promo.items() if t[0] == 'i' and t[1] > 8 and
                self.st0.vars.get((self.fr.id, v), UNDEF) is not UNDEF]

    def boolvars(self):
        """promoted one byte variables with a value on entry"""
        return [v for v, t in self.fr.fn.promo.items() if t[0] == 'i' and t[1] <= 8 and
                self.st0.vars.get((self.fr.id, v), UNDEF) is not UNDEF]

    def bv(self, v):
        x = self.var(v)
        if isinstance(x, bool):
            return x
        if z3.is_expr(x) and z3.is_bool(x):
            return x
        return Not(eq(x, 0))

    def iv(self, v):
        x = self.var(v)
        if isinstance(x, Ptr):
            return sub(x.f, self.E.var(v).f)
        return x

    @property
    def pre(self):
        return View(self.ex, self.ex.pre)


class CallCtx:
    """what a contract sees; mode 'verify' (body against contract) or 'call' (contract instead of body)"""

    def __init__(self, ex, st, contract, args, ins, mode):
        self.ex, self.st, self.contract, self.args, self.ins, self.mode = ex, st, contract, args, ins, mode
        pre = st.copy()
        self.S = View(ex, pre)
        self.pre = pre
        self.T = None
        self.mods = []
        self.ghosts = set()
        self.anyghost = False
        self.any = False
        self.loops = []
        self.bounds = []
        self.ret = None
        self.frees_ = []
        self.alloc = False
        self.dead = False
        self.nens = 0
        self.fn = None

    # --- precondition part
    def requires(self, cond, name='precondition', tags=None):
        if self.mode == 'verify':
            self.ex.assume(self.st, cond)
        else:
            self.ex.prove(self.st, cond, 'call of %s: %s' % (self.contract.name, name),
                          self.ex.safety | self.ex.all_tags if tags is None else tags, 'precondition')

    def requires_str(self, p, name='argument', maxlen=None):
        self.requires(self.S.isstr(p), '%s is a string' % name)
        if maxlen is not None:
            self.requires(le(self.S.slen(p), maxlen), '%s is not longer than %s' % (name, maxlen))

    def requires_buf(self, p, n, name='buffer', writable=True):
        c = [ne0(p.o), self.S.live(p.o), ge(p.f, 0), le(add(p.f, n), self.ex.size(p.o))]
        if writable:
            if isinstance(p.o, int):
                gi = self.ex.prog.ginfo.get(p.o)
                if gi is not None and gi[4]:
                    c.append(False)
            elif self.ex.bornage(p.o) is None:
                c.append(Not(T.oro(p.o)))
        self.requires(And(*c), '%s is valid memory' % name)

    def separate(self, *ps):
        """the objects are pairwise different"""
        for i in range(len(ps)):
            for k in range(i + 1, len(ps)):
                a, b = ps[i].o if isinstance(ps[i], Ptr) else ps[i], ps[k].o if isinstance(ps[k], Ptr) else ps[k]
                if self.ex.distinct(a, b):
                    continue
                self.requires(Not(eq(a, b)), 'arguments do not overlap')
                if self.mode == 'verify':
                    self.ex.add_distinct(a, b)

    def modifies(self, kind, o, lo=None, hi=None):
        o = o.o if isinstance(o, Ptr) else o
        self.mods.append((kind, o, lo, hi))
        if self.mode == 'verify' and not callable(o) and not isinstance(o, int) and self.ex.bornage(o) is None:
            self.ex.assume(self.st, Not(T.oro(o)))

    def modifies_ghost(self, *names):
        for n in names:
            self.ghosts.add(n)

    def glob(self, name):
        """pointer to the global variable with that name"""
        return Ptr(self.ex.prog.gname(name), 0)

    def on_exit(self, f):
        """f(view) must hold whenever the function ends the process"""
        if self.mode == 'verify':
            self.ex.exitcond.append((f, self.contract.tags))

    def environment(self, cond):
        """assumed about the surroundings, not asked of callers"""
        if self.mode == 'verify':
            self.ex.assume(self.st, cond)

    def allocates(self):
        self.alloc = True

    def frees(self, p):
        self.frees_.append(p)

    def loop(self, name, fnc):
        self.loops.append((name, fnc))

    def bound(self, name, fnc):
        self.bounds.append((name, fnc))

    # --- call mode
    def havoc(self):
        ex, st = self.ex, self.st
        if self.alloc:
            c = ex.fint('ctr')
            ex.fact(c >= st.ctr)
            if ex.lastctr is not None:
                ex.fact(c >= ex.lastctr)
            ex.lastctr = c
            octr, oage = st.ctr, st.age
            st.ctr = c
            st.age = ex.newage(c)
            for k in KINDS + ('V',):
                nb = ex.newbase(k)
                if k == 'P':
                    ex.wfarr(nb[0], st.age)
                st.mem[k] = st.mem[k] + (('e', octr, oage, nb),)
        for (kind, o, lo, hi) in self.mods:
            if callable(o):
                self.havoc_set(kind, o)
                continue
            for k in (KINDS if kind == '*' else (kind,)):
                if k == 'V':
                    self.havoc_set(k, lambda x, o=o: eq(x, o))
                elif lo is None:
                    ex.framecheck(st, k, o, None, None) if ex.bornage(o) is not None else self._fc(k, o)
                    ex.lockcheck(st, o, 'write')
                    ex.setarr(st, k, o, ex.fresharr(k, 'c' + k, st.age))
                else:
                    ex.region(st, k, o, lo, hi, 'c' + k)
        for p in self.frees_:
            ex.libc['free'](ex, st, [p], self.ins)
        for g in self.ghosts:
            x = st.g[g]
            if isinstance(x, bool) or (z3.is_expr(x) and z3.is_bool(x)):
                st.g[g] = ex.fbool('g.' + g)
            elif isinstance(x, int) or z3.is_int(x):
                st.g[g] = ex.fint('g.' + g)
                if g in MONO:
                    ex.fact(st.g[g] >= I(x))
            else:
                st.g[g] = ex._c(z3.Const('g.%s!%d' % (g, ex.n), x.sort()))
        rt = self.ins.a[0] if self.ins is not None else None
        self.post = View(ex, st)
        self.T = self.post
        if rt is not None and rt[0] not in ('v', 'f'):
            self.ret = ex.typed(rt, 'r.' + self.contract.name, st)

    def havoc_set(self, kind, pred):
        """the objects satisfying pred may be released (kind V)"""
        ex, st = self.ex, self.st
        assert kind == 'V'
        fc = ex.frame_ctx
        o = z3.Int('?o')
        fr = ex._c(z3.Int('freed!%d' % ex.n))       # an arbitrary object of the set
        if fc is not None and not ex.dry and not fc.get('any'):
            al = [ge(fr, ex.ctr0)]
            for (kk, oo, l, h) in fc['mod']:
                if kk == 'V':
                    al.append(oo(fr) if callable(oo) else eq(oo, fr))
            ex.prove(st, Imp(pred(fr), Or(*al)), 'releases only what its contract allows', fc['tags'], 'frame')
        if ex.wlog is not None:
            ex.wlog.append(('V', fr, None, None, And(st.pc, pred(fr)), len(ex.facts)))
        nb = ex.newbase('V')
        old = ex.rdlive(st, o)
        new = nb[0](o)
        ex.assume(st, z3.ForAll([o], z3.And(z3.Implies(B(And(old, Not(pred(o)))), new), z3.Implies(new, B(old))), patterns=[new]))
        st.mem['V'] = (('a', nb),)

    def _fc(self, k, o):
        ex, st = self.ex, self.st
        if ex.wlog is not None:
            ex.wlog.append((k, o, None, None, st.pc, len(ex.facts)))
        fc = ex.frame_ctx
        if fc is None or ex.dry or fc.get('any'):
            return
        al = [ge(o, ex.ctr0)]
        for (kk, oo, l, h) in fc['mod']:
            if kk not in ('*', k) or l is not None:
                continue
            if callable(oo):
                al.append(oo(o))
                continue
            c = eq(oo, o)
            if c is True:
                return
            al.append(c)
        ex.prove(st, Or(*al), 'writes only what its contract allows', fc['tags'], 'frame')

    # --- postcondition part
    def ensures(self, cond, name, tags=None):
        if self.mode == 'verify':
            self.nens += 1
            self.ex.prove(self.st, cond, '%s: %s' % (self.contract.name, name), self.contract.tags if tags is None else tags, 'ensures')
        else:
            self.ex.assume(self.st, cond)

    def ensures_fresh(self, size=None, name='result is a new allocation', minsize=None, tags=None):
        """the result points to the start of memory allocated by the call"""
        ex, st = self.ex, self.st
        if self.mode == 'verify':
            r = self.ret
            c = And(ge(r.o, ex.ctr0), self.T.live(r.o), eq(r.f, 0), T.oheap(I(r.o)), Not(T.oro(I(r.o))))
            if size is not None:
                c = And(c, eq(ex.size(r.o), size))
            if minsize is not None:
                c = And(c, ge(ex.size(r.o), minsize))
            ex.prove(st, c, '%s: %s' % (self.contract.name, name), self.contract.tags if tags is None else tags, 'ensures')
            self.nens += 1
        else:
            o = ex.newobj(st, size, True, 'n.' + self.contract.name)
            if minsize is not None:
                ex.assume(st, ge(T.osize(o), minsize))
            self.ret = Ptr(o, 0)

    def returns(self, v):
        """the result is exactly v (call mode substitutes it)"""
        self.ret = v

    def noreturn(self, cond=True):
        """call mode: the call does not return when cond holds"""
        if self.mode == 'call':
            if cond is True:
                self.dead = True
            else:
                self.ex.assume(self.st, Not(cond))


class Contract:
    noframe = frozenset()

    def __init__(self, name, spec, tags, safety=(), file=None):
        self.name, self.spec, self.tags, self.safety, self.file = name, spec, frozenset(tags), frozenset(safety), file
        self.inline = False
