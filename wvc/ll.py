"""Parser for the textual LLVM IR that clang -O0 emits for /repo's C files.

Types are tuples:  ('i',bits) ('p',) ('f',name) ('v',) ('a',n,t) ('s',[t..],packed)
('named',name) ('fn',)  ('meta',) ('label',)
Operands:  ('loc',name) ('glob',name) ('int',v) ('null',) ('undef',) ('float',txt) ('zero',)
('ce',op,...) constant expressions, ('arr',[(t,v)..]) ('struct',[(t,v)..]) ('str',bytes)
"""
import re

TOK = re.compile(r'''\s*(?:
   (?P<cstr>c"(?:[^"])*")
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#\d+)
 | (?P<dots>\.\.\.)
 | (?P<num>-?\d+(?:\.\d+)?(?:e[+-]?\d+)?)
 | (?P<hex>0x[0-9A-Fa-f]+)
 | (?P<id>[a-zA-Z_$.][-a-zA-Z_$.0-9]*)
 | (?P<p>[(){}\[\]<>,=*|:])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        if s.startswith('0x', i):
            m = re.compile(r'0x[0-9A-Fa-fKLMHR]+').match(s, i)
            out.append(('num', m.group(0)))
            i = m.end()
            continue
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise SyntaxError('cannot tokenize: ' + s[i:i + 60])
        k = m.lastgroup
        v = m.group(k)
        if k in ('loc', 'glob') and '"' in v:
            v = v[0] + v[2:-1]
        out.append((k, v))
        i = m.end()
    return out


class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '')

    def nxt(self):
        r = self.peek()
        self.i += 1
        return r

    def acc(self, v):
        if self.peek()[1] == v and self.peek()[0] in ('p', 'id', 'dots'):
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise SyntaxError('expected %s at %r' % (v, self.t[max(0, self.i - 5):self.i + 6]))

    def type(self):
        k, v = self.nxt()
        if k == 'loc':
            t = ('named', v[1:])
        elif v == 'void':
            t = ('v',)
        elif v == 'ptr':
            t = ('p',)
        elif k == 'id' and re.match(r'i\d+$', v):
            t = ('i', int(v[1:]))
        elif v in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
            t = ('f', v)
        elif v == '[':
            n = int(self.nxt()[1])
            self.exp('x')
            e = self.type()
            self.exp(']')
            t = ('a', n, e)
        elif v == '{':
            fs = []
            if not self.acc('}'):
                while True:
                    fs.append(self.type())
                    if self.acc('}'):
                        break
                    self.exp(',')
            t = ('s', tuple(fs))
        elif v == 'metadata':
            t = ('meta',)
        elif v == 'label':
            t = ('label',)
        elif v == 'opaque':
            t = ('opaque',)
        else:
            raise SyntaxError('type? %r in %r' % (v, self.t[max(0, self.i - 5):self.i + 6]))
        # function types in calls:  ret (args...)
        if self.peek()[1] == '(' and self.peek()[0] == 'p' and self._looks_fn_type():
            self.nxt()
            d = 1
            while d:
                w = self.nxt()[1]
                if w == '(':
                    d += 1
                elif w == ')':
                    d -= 1
        return t

    def _looks_fn_type(self):
        # only in a call/declare context: "ret (types) @callee("
        j = self.i + 1
        d = 1
        while d and j < len(self.t):
            if self.t[j] == ('p', '('):
                d += 1
            elif self.t[j] == ('p', ')'):
                d -= 1
            j += 1
        return j < len(self.t) and self.t[j][0] in ('glob', 'loc')

    PATTR = {'noundef', 'signext', 'zeroext', 'nonnull', 'noalias', 'nocapture', 'readonly', 'inreg',
             'returned', 'writeonly', 'immarg', 'readnone', 'nofree', 'nest', 'swiftself', 'allocalign', 'allocptr',
             'dead_on_unwind', 'writable', 'noundef'}

    def pattrs(self):
        at = {}
        while True:
            k, v = self.peek()
            if k == 'id' and v in self.PATTR:
                self.nxt()
                at[v] = True
            elif k == 'id' and v == 'align':
                self.nxt()
                if self.peek()[1] == '(':
                    self.nxt(); self.nxt(); self.nxt()
                else:
                    self.nxt()
            elif k == 'id' and v in ('byval', 'sret', 'byref', 'elementtype', 'preallocated'):
                self.nxt()
                self.exp('(')
                t = self.type()
                self.exp(')')
                at[v] = t
            elif k == 'id' and v in ('dereferenceable', 'dereferenceable_or_null', 'allocsize', 'range', 'memory'):
                self.nxt()
                if self.acc('('):
                    while not self.acc(')'):
                        self.nxt()
            else:
                return at

    def val(self, t):
        k, v = self.nxt()
        if k == 'loc':
            return ('loc', v[1:])
        if k == 'glob':
            return ('glob', v[1:])
        if k == 'num':
            if t[0] == 'i':
                return ('int', int(v))
            return ('float', v)
        if v == 'true':
            return ('int', 1)
        if v == 'false':
            return ('int', 0)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if k == 'cstr':
            return ('str', unescape(v[2:-1]))
        if v == '[':
            xs = []
            while not self.acc(']'):
                tt = self.type()
                xs.append((tt, self.val(tt)))
                self.acc(',')
            return ('arr', xs)
        if v == '{':
            xs = []
            while not self.acc('}'):
                tt = self.type()
                xs.append((tt, self.val(tt)))
                self.acc(',')
            return ('struct', xs)
        if v == 'getelementptr':
            while self.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                self.nxt()
            self.exp('(')
            et = self.type()
            self.exp(',')
            ops = []
            while True:
                tt = self.type()
                ops.append((tt, self.val(tt)))
                if self.acc(')'):
                    break
                self.exp(',')
            return ('ce', 'gep', et, ops)
        if v in ('inttoptr', 'ptrtoint', 'bitcast'):
            self.exp('(')
            ft = self.type()
            x = self.val(ft)
            self.exp('to')
            tt = self.type()
            self.exp(')')
            return ('ce', v, ft, x, tt)
        raise SyntaxError('value? %r near %r' % (v, self.t[max(0, self.i - 8):self.i + 6]))


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
                continue
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode('utf8')
            i += 1
    return bytes(out)


class Inst:
    __slots__ = ('op', 'res', 'a', 'dbg', 'fn', 'idx')

    def __init__(self, op, res, a, dbg):
        self.op, self.res, self.a, self.dbg = op, res, a, dbg

    def __repr__(self):
        return '%s = %s %r' % (self.res, self.op, self.a)


class Function:
    def __init__(self, name, ret, params, mod, internal):
        self.name, self.ret, self.params, self.mod = name, ret, params, mod
        self.internal = internal
        self.blocks = {}   # name -> [Inst]
        self.order = []
        self.varname = {}  # alloca -> source name
        self.file = None
        self.line = 0


class Module:
    def __init__(self, name):
        self.name = name
        self.types = {}
        self.globals = {}   # name -> (type, init or None, const, internal)
        self.functions = {}
        self.decls = {}
        self.di = {}

    # ---- layout
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t[0] == 'i':
            return max(1, (t[1] + 7) // 8)
        if t[0] == 'p':
            return 8
        if t[0] == 'f':
            return {'float': 4, 'double': 8}.get(t[1], 16)
        if t[0] == 'a':
            return self.align(t[2])
        if t[0] == 's':
            return max([self.align(x) for x in t[1]] + [1])
        raise ValueError(t)

    def size(self, t):
        t = self.resolve(t)
        if t[0] == 'i':
            return max(1, (t[1] + 7) // 8)
        if t[0] == 'p':
            return 8
        if t[0] == 'f':
            return {'float': 4, 'double': 8}.get(t[1], 16)
        if t[0] == 'a':
            return t[1] * self.size(t[2])
        if t[0] == 's':
            o = 0
            for x in t[1]:
                a = self.align(x)
                o = (o + a - 1) // a * a + self.size(x)
            a = self.align(t)
            return (o + a - 1) // a * a
        raise ValueError(t)

    def field(self, t, i):
        """offset and type of field i of struct t"""
        t = self.resolve(t)
        o = 0
        for j, x in enumerate(t[1]):
            a = self.align(x)
            o = (o + a - 1) // a * a
            if j == i:
                return o, x
            o += self.size(x)
        raise ValueError


BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'sext', 'zext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext',
        'fptrunc'}
FLAGS = {'nsw', 'nuw', 'exact', 'disjoint', 'nneg', 'fast', 'nnan', 'ninf', 'nsz'}


def parse_inst(line):
    p = P(tokenize(line))
    res = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        res = p.nxt()[1][1:]
        p.nxt()
    k, op = p.nxt()
    if op in ('tail', 'musttail', 'notail'):
        k, op = p.nxt()
    a = None
    if op in BIN:
        fl = set()
        while p.peek()[1] in FLAGS:
            fl.add(p.nxt()[1])
        t = p.type()
        x = p.val(t)
        p.exp(',')
        y = p.val(t)
        a = (t, x, y, fl)
        op = ('bin', op)
    elif op == 'fneg':
        t = p.type()
        a = (t, p.val(t))
    elif op in CAST:
        while p.peek()[1] in FLAGS:
            p.nxt()
        ft = p.type()
        x = p.val(ft)
        p.exp('to')
        a = (ft, x, p.type())
        op = ('cast', op)
    elif op in ('icmp', 'fcmp'):
        while p.peek()[1] in FLAGS:
            p.nxt()
        pred = p.nxt()[1]
        t = p.type()
        x = p.val(t)
        p.exp(',')
        a = (pred, t, x, p.val(t))
    elif op == 'alloca':
        t = p.type()
        n = None
        if p.acc(','):
            if p.peek()[1] != 'align':
                tt = p.type()
                n = (tt, p.val(tt))
        a = (t, n)
    elif op == 'load':
        p.acc('volatile')
        t = p.type()
        p.exp(',')
        p.type()
        a = (t, p.val(('p',)))
    elif op == 'store':
        p.acc('volatile')
        t = p.type()
        v = p.val(t)
        p.exp(',')
        p.type()
        a = (t, v, p.val(('p',)))
    elif op == 'getelementptr':
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
            p.nxt()
        et = p.type()
        p.exp(',')
        p.type()
        base = p.val(('p',))
        ix = []
        while p.acc(','):
            if p.peek()[0] == 'meta':
                break
            tt = p.type()
            ix.append((tt, p.val(tt)))
        a = (et, base, ix)
        op = 'gep'
    elif op == 'br':
        t = p.type()
        if t == ('label',):
            a = (None, p.nxt()[1][1:], None)
        else:
            c = p.val(t)
            p.exp(',')
            p.type()
            x = p.nxt()[1][1:]
            p.exp(',')
            p.type()
            a = (c, x, p.nxt()[1][1:])
    elif op == 'switch':
        t = p.type()
        v = p.val(t)
        p.exp(',')
        p.type()
        d = p.nxt()[1][1:]
        p.exp('[')
        cs = []
        while not p.acc(']'):
            tt = p.type()
            c = p.val(tt)
            p.exp(',')
            p.type()
            cs.append((c[1], p.nxt()[1][1:]))
        a = (t, v, d, cs)
    elif op == 'ret':
        t = p.type()
        a = (t, None if t == ('v',) else p.val(t))
    elif op == 'unreachable':
        a = ()
    elif op == 'phi':
        t = p.type()
        ins = []
        while True:
            p.exp('[')
            v = p.val(t)
            p.exp(',')
            l = p.nxt()[1][1:]
            p.exp(']')
            ins.append((v, l))
            if not (p.peek()[1] == ',' and p.peek(1)[1] == '['):
                break
            p.nxt()
        a = (t, ins)
    elif op == 'select':
        tc = p.type()
        c = p.val(tc)
        p.exp(',')
        t = p.type()
        x = p.val(t)
        p.exp(',')
        t2 = p.type()
        a = (c, t, x, p.val(t2))
    elif op == 'call':
        while p.peek()[1] in FLAGS or p.peek()[1] in ('ccc', 'fastcc'):
            p.nxt()
        p.pattrs()
        rt = p.type()
        k, v = p.peek()
        if k == 'glob':
            p.nxt()
            cal = ('glob', v[1:])
        elif k == 'loc':
            p.nxt()
            cal = ('loc', v[1:])
        else:
            raise SyntaxError('callee ' + line)
        p.exp('(')
        args = []
        meta = False
        while not p.acc(')'):
            t = p.type()
            at = p.pattrs()
            if t == ('meta',):
                # skip metadata operands, keep a local for dbg.declare
                d = 0
                got = None
                while True:
                    kk, vv = p.peek()
                    if d == 0 and (vv == ',' or vv == ')'):
                        break
                    if vv == '(':
                        d += 1
                    if vv == ')':
                        d -= 1
                    if kk == 'loc':
                        got = ('loc', vv[1:])
                    if kk == 'meta' and got is None:
                        got = ('meta', vv)
                    p.nxt()
                args.append((t, got, at))
            else:
                args.append((t, p.val(t), at))
            p.acc(',')
        a = (rt, cal, args)
    elif op == 'extractvalue':
        t = p.type()
        v = p.val(t)
        ix = []
        while p.acc(','):
            if p.peek()[0] == 'meta':
                break
            ix.append(int(p.nxt()[1]))
        a = (t, v, ix)
    elif op == 'insertvalue':
        t = p.type()
        v = p.val(t)
        p.exp(',')
        t2 = p.type()
        v2 = p.val(t2)
        ix = []
        while p.acc(','):
            if p.peek()[0] == 'meta':
                break
            ix.append(int(p.nxt()[1]))
        a = (t, v, t2, v2, ix)
    elif op == 'freeze':
        t = p.type()
        a = (t, p.val(t))
    else:
        raise SyntaxError('instruction ' + line)
    m = re.search(r'!dbg !(\d+)', line)
    return Inst(op, res, a, int(m.group(1)) if m else None)


def parse_module(text, name):
    m = Module(name)
    cur = None
    blk = None
    lines = text.split('\n')
    i = 0
    lin = ('private', 'internal')
    while i < len(lines):
        s = lines[i]
        i += 1
        if cur is not None:
            if s == '}':
                cur = None
                continue
            st = s.strip()
            if not st or st.startswith(';'):
                continue
            mm = re.match(r'([-a-zA-Z$._0-9]+):', s)
            if mm:
                blk = mm.group(1)
                cur.blocks[blk] = []
                cur.order.append(blk)
                continue
            if st.startswith('switch'):
                while ']' not in lines[i - 1]:
                    st += ' ' + lines[i].strip()
                    i += 1
            if blk is None:
                blk = cur.entry
                cur.blocks[blk] = []
                cur.order.append(blk)
            ins = parse_inst(st)
            cur.blocks[blk].append(ins)
            continue
        if s.startswith('define'):
            toks = tokenize(s)
            p = P(toks)
            p.nxt()
            internal = False
            while p.peek()[1] in ('internal', 'private', 'dso_local', 'weak', 'hidden', 'linkonce_odr', 'available_externally', 'local_unnamed_addr'):
                if p.nxt()[1] in lin:
                    internal = True
            p.pattrs()
            rt = p.type()
            nm = p.nxt()[1][1:]
            p.exp('(')
            ps = []
            va = False
            while not p.acc(')'):
                if p.acc('...'):
                    va = True
                    continue
                t = p.type()
                at = p.pattrs()
                pn = p.nxt()[1][1:]
                ps.append((t, pn, at))
                p.acc(',')
            cur = Function(nm, rt, ps, m, internal)
            cur.vararg = va
            # entry block number: number after the last unnamed param
            nums = [int(x[1]) for x in ps if x[1].isdigit()]
            cur.entry = str(max(nums) + 1) if nums else '0'
            mm = re.search(r'!dbg !(\d+)', s)
            cur.dbg = int(mm.group(1)) if mm else None
            blk = None
            m.functions[nm] = cur
            continue
        if s.startswith('declare'):
            mm = re.search(r'@([-a-zA-Z$._0-9]+)\(', s)
            m.decls[mm.group(1)] = s
            continue
        if s.startswith('%'):
            p = P(tokenize(s))
            nm = p.nxt()[1][1:]
            p.exp('=')
            p.exp('type')
            m.types[nm] = p.type()
            continue
        if s.startswith('@'):
            p = P(tokenize(s))
            nm = p.nxt()[1][1:]
            p.exp('=')
            ext = internal = const = False
            while True:
                v = p.peek()[1]
                if v in ('private', 'internal', 'unnamed_addr', 'dso_local', 'external', 'local_unnamed_addr', 'common',
                         'weak', 'hidden', 'thread_local'):
                    p.nxt()
                    ext |= v == 'external'
                    internal |= v in lin
                elif v in ('global', 'constant'):
                    p.nxt()
                    const = v == 'constant'
                    break
                else:
                    raise SyntaxError(s)
            t = p.type()
            init = None if ext else p.val(t)
            m.globals[nm] = (t, init, const, internal)
            continue
        if s.startswith('!'):
            mm = re.match(r'!(\d+) = (?:distinct )?(.*)$', s)
            if mm:
                m.di[int(mm.group(1))] = mm.group(2)
    for f in m.functions.values():
        if f.dbg is not None:
            d = m.di.get(f.dbg, '')
            mm = re.search(r'line: (\d+)', d)
            f.line = int(mm.group(1)) if mm else 0
        for b in f.order:
            for k, ins in enumerate(f.blocks[b]):
                ins.fn = f
                ins.idx = k
                if ins.op == 'call' and ins.a[1] == ('glob', 'llvm.dbg.declare'):
                    x = ins.a[2]
                    if x[0][1] and x[0][1][0] == 'loc' and x[1][1]:
                        d = m.di.get(int(x[1][1][1][1:]), '')
                        mm = re.search(r'name: "([^"]*)"', d)
                        if mm:
                            f.varname[x[0][1][1]] = mm.group(1)
    return m


def loc_line(mod, dbg):
    d = mod.di.get(dbg, '') if dbg is not None else ''
    mm = re.search(r'line: (\d+)', d)
    return int(mm.group(1)) if mm else 0
