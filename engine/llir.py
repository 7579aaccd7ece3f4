"""Textual LLVM IR reader and compiler to Python.

Every LLVM function becomes a Python function whose locals are the SSA registers.  A register holds
a Python int when its value is concrete and a z3 expression when it is symbolic, so the same code
runs concretely at full speed and symbolically where inputs reach.  The run-time support (memory
model, symbolic operators, path exploration) is in rt.py.
"""
import re
import rt

TOK = re.compile(
    r'\s*(?:(c"[^"]*"|"[^"]*")|([%@]"[^"]*"|[%@][\w.$-]+)|(![A-Za-z_.][\w.]*|![0-9]*|[A-Za-z_$][\w.$]*)'
    r'|(-?\d+(?:\.\d+)?(?:e[+-]?\d+)?)|(\.\.\.)|([\[\]{}()<>,=*#|:]))')


META = re.compile(r', ![A-Za-z_][\w.]* !(?:\d+|\{[^}]*\})')


class Unsupported(Exception):
    pass


def tokenize(s):
    out = []
    pos, n = 0, len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '' or s[pos:].lstrip().startswith(';'):
                break
            raise Unsupported('tokenize: %r' % s[pos:pos + 60])
        pos = m.end()
        out.append(m.group(m.lastindex))
    return out


VOID = ('void',)
PTR = ('p',)
FLOATS = {'half': 16, 'bfloat': 16, 'float': 32, 'double': 64, 'x86_fp80': 80, 'fp128': 128}
_sz = {}


def alignof(t):
    k = t[0]
    if k == 'i':
        n = (t[1] + 7) // 8
        a = 1
        while a < n and a < 16:
            a *= 2
        return a
    if k == 'p':
        return 8
    if k == 's':
        return 1 if t[2] or not t[1] else max(alignof(x) for x in t[1])
    if k == 'a':
        return alignof(t[2])
    if k == 'v':
        return sizeof(t)
    if k == 'f':
        return max(1, t[1] // 8)
    raise Unsupported('alignof %r' % (t,))


def sizeof(t):
    r = _sz.get(t)
    if r is None:
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            a = alignof(t)
            r = (n + a - 1) // a * a
        elif k == 'p':
            r = 8
        elif k == 's':
            offs, r = layout(t)
        elif k == 'a':
            r = t[1] * sizeof(t[2])
        elif k == 'v':
            r = (t[1] * bits(t[2]) + 7) // 8
        elif k == 'f':
            r = t[1] // 8
        else:
            raise Unsupported('sizeof %r' % (t,))
        _sz[t] = r
    return r


def bits(t):
    if t[0] in 'if':
        return t[1]
    if t[0] == 'p':
        return 64
    raise Unsupported('bits %r' % (t,))


def layout(t):
    offs = []
    o = 0
    al = 1
    for x in t[1]:
        a = 1 if t[2] else alignof(x)
        al = max(al, a)
        o = (o + a - 1) // a * a
        offs.append(o)
        o += sizeof(x)
    o = (o + al - 1) // al * al
    return offs, o


TYPE_START = re.compile(r'^(i\d+|ptr|void|half|bfloat|float|double|x86_fp80|fp128|label|metadata|token|[{<\[]|%.*)$')


class Parser:
    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise Unsupported('expected %r got %r in %s' % (x, y, ' '.join(self.t[:60])))

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def type(self):
        x = self.next()
        if x == 'ptr':
            if self.peek() == 'addrspace':
                self.next()
                self.skip_parens()
            return PTR
        if x[0] == 'i' and x[1:].isdigit():
            return ('i', int(x[1:]))
        if x == 'void':
            return VOID
        if x in FLOATS:
            return ('f', FLOATS[x])
        if x == '{':
            return self.struct(False, '}')
        if x == '<':
            if self.peek() == '{':
                self.next()
                s = self.struct(True, '}')
                self.expect('>')
                return s
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect('>')
            return ('v', n, t)
        if x == '[':
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect(']')
            return ('a', n, t)
        if x in ('label', 'metadata', 'token'):
            return (x,)
        if x[0] == '%':
            return self.m.named_type(x)
        raise Unsupported('type %r in %s' % (x, ' '.join(self.t[:40])))

    def struct(self, packed, end):
        ts = []
        if self.eat(end):
            return ('s', (), packed)
        while True:
            ts.append(self.type())
            if self.eat(end):
                break
            self.expect(',')
        return ('s', tuple(ts), packed)

    def skip_attrs(self):
        """Skip attribute words up to the start of a value / type / function name."""
        while True:
            x = self.peek()
            if x is None:
                return
            if x == 'align' or x == 'cc' or x == 'dereferenceable_or_null':
                self.next()
                if self.peek() == '(':
                    self.skip_parens()
                else:
                    self.next()
                continue
            if x == '#':
                self.next()
                self.next()
                continue
            if x.startswith('"'):
                self.next()
                if self.eat('='):
                    self.next()
                continue
            if x in VALUE_WORDS or TYPE_START.match(x):
                return
            if re.match(r'^[A-Za-z_]', x) and not x.startswith('c"'):
                self.next()
                if self.peek() == '(':
                    self.skip_parens()
                continue
            return

    # ---- constants & values.  Returns ('c', pyvalue) or ('r', regname)
    def value(self, t):
        x = self.next()
        if x[0] == '%':
            return ('r', x)
        return ('c', self.const_tok(x, t))

    def const(self, t):
        v = self.value(t)
        if v[0] != 'c':
            raise Unsupported('const expected')
        return v[1]

    def const_tok(self, x, t):
        c = x[0]
        if c == '@':
            return self.m.addr_of(x)
        if c.isdigit() or (c == '-' and len(x) > 1):
            if t[0] == 'i':
                return int(x) & ((1 << t[1]) - 1)
            if t[0] == 'f':
                import struct
                if t[1] == 64:
                    return struct.unpack('<Q', struct.pack('<d', float(x)))[0]
                if t[1] == 32:
                    return struct.unpack('<I', struct.pack('<f', float(x)))[0]
            raise Unsupported('num const %r %r' % (x, t))
        if x == 'true':
            return 1
        if x == 'false':
            return 0
        if x == 'null':
            return 0
        if x in ('undef', 'poison'):
            return mk_undef(t)
        if x == 'zeroinitializer':
            return mk_zero(t)
        if x == 'none':
            return 0
        if x.startswith('c"'):
            return tuple(unescape(x[2:-1]))
        if x in ('{', '[', '<'):
            if x == '<' and self.peek() == '{':
                self.next()
                v = self.agg('}')
                self.expect('>')
                return v
            return self.agg({'{': '}', '[': ']', '<': '>'}[x])
        if x == 'getelementptr':
            while self.peek() != '(':
                if self.next() == 'inrange':
                    self.skip_parens()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            self.type()
            base = self.const(PTR)
            idx = []
            while self.eat(','):
                it = self.type()
                v = self.const(it)
                w = it[1]
                if v >> (w - 1):
                    v -= 1 << w
                idx.append(v)
            self.expect(')')
            off = idx[0] * sizeof(bt)
            for k in idx[1:]:
                if bt[0] == 's':
                    off += layout(bt)[0][k]
                    bt = bt[1][k]
                else:
                    bt = bt[2]
                    off += k * sizeof(bt)
            return (base + off) & rt.M64
        if x in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'addrspacecast'):
            self.expect('(')
            st = self.type()
            v = self.const(st)
            self.expect('to')
            dt = self.type()
            self.expect(')')
            return v & ((1 << bits(dt)) - 1)
        if x in ('add', 'sub', 'mul', 'xor', 'and', 'or'):
            while self.peek() != '(':
                self.next()
            self.expect('(')
            at = self.type()
            a = self.const(at)
            self.expect(',')
            self.type()
            b = self.const(at)
            self.expect(')')
            m = (1 << bits(at)) - 1
            return {'add': a + b, 'sub': a - b, 'mul': a * b, 'xor': a ^ b, 'and': a & b, 'or': a | b}[x] & m
        if x.startswith('0x') and t[0] == 'f':
            return int(x, 16)
        raise Unsupported('const %r (%s)' % (x, ' '.join(self.t[:40])))

    def agg(self, end):
        vs = []
        if self.eat(end):
            return ()
        while True:
            t = self.type()
            vs.append(self.const(t))
            if self.eat(end):
                return tuple(vs)
            self.expect(',')


VALUE_WORDS = {'true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'none', 'getelementptr', 'inttoptr',
               'ptrtoint', 'bitcast', 'asm', 'sub', 'add'}


def unescape(s):
    out = bytearray()
    i = 0
    b = s.encode('latin1', 'replace')
    while i < len(b):
        if b[i] == 0x5c:
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return out


def mk_undef(t):
    if t[0] == 's':
        return tuple(mk_undef(x) for x in t[1])
    if t[0] in 'av':
        return (mk_undef(t[2]),) * t[1]
    return rt.UNDEF


def mk_zero(t):
    if t[0] == 's':
        return tuple(mk_zero(x) for x in t[1])
    if t[0] in 'av':
        return (mk_zero(t[2]),) * t[1]
    return 0


def const_bytes(t, v, out, off):
    """Lay constant v of type t into list out (None = undef)."""
    k = t[0]
    if k in 'ipf':
        n = sizeof(t)
        if v is rt.UNDEF:
            return
        out[off:off + n] = v.to_bytes(n, 'little')
    elif k == 's':
        offs, _ = layout(t)
        for x, y, o in zip(t[1], v, offs):
            const_bytes(x, y, out, off + o)
    elif k in 'av':
        s = sizeof(t[2])
        if t[2] == ('i', 8):
            for i, y in enumerate(v):
                out[off + i] = None if y is rt.UNDEF else y
        else:
            for i, y in enumerate(v):
                const_bytes(t[2], y, out, off + i * s)
    else:
        raise Unsupported('const_bytes %r' % (t,))


def uq(name):
    """strip sigil and quotes"""
    n = name[1:]
    return n[1:-1] if n.startswith('"') else n


class Module:
    def __init__(self, path):
        self.lines = open(path, encoding='latin1').read().split('\n')
        self.types = {}
        self.globals = {}      # name -> line
        self.defs = {}         # name -> (start,end)
        self.decls = {}        # name -> line
        self.aliases = {}
        self.addr = {}
        self.by_id = {}
        self.next_id = 1
        self.gcache = {}
        self.env = None
        self.sources = {}
        self._index()
        self.build_env()

    def _index(self):
        L = self.lines
        i, n = 0, len(L)
        while i < n:
            s = L[i]
            if s.startswith('define '):
                j = i
                while L[j] != '}':
                    j += 1
                name = re.search(r'@("[^"]*"|[\w.$-]+)\(', s).group(1).strip('"')
                self.defs[name] = (i, j)
                i = j
            elif s.startswith('declare '):
                name = re.search(r'@("[^"]*"|[\w.$-]+)\(', s).group(1).strip('"')
                self.decls[name] = s
            elif s.startswith('@'):
                m = re.match(r'@("[^"]*"|[\w.$-]+) = (.*)', s)
                nm = m.group(1).strip('"')
                if re.match(r'.*\balias\b', m.group(2)) and not re.search(r'\b(constant|global)\b', m.group(2)):
                    tgt = re.findall(r'@("[^"]*"|[\w.$-]+)', m.group(2))[-1].strip('"')
                    self.aliases[nm] = tgt
                else:
                    self.globals[nm] = m.group(2)
            elif s.startswith('%') and ' = type ' in s:
                m = re.match(r'(%"[^"]*"|%\S+) = type (.*)', s)
                self.types[m.group(1)] = m.group(2)
            i += 1
        # addresses are the same in every process: decisions recorded by one worker are replayed by another
        for name in [*self.globals, *self.defs, *self.decls]:
            self.addr_of('@"%s"' % name)

    def named_type(self, x):
        d = self.types[x]
        if isinstance(d, str):
            d = Parser(self, tokenize(d)).type()
            self.types[x] = d
        return d

    def addr_of(self, x):
        name = uq(x) if x[0] in '@' else x
        name = self.aliases.get(name, name)
        a = self.addr.get(name)
        if a is None:
            i = self.next_id
            self.next_id += 1
            if i >= rt.FIRST_DYN:
                raise Unsupported('too many globals')
            al = 16
            if name in self.globals:
                m = re.search(r', align (\d+)', self.globals[name])
                al = int(m.group(1)) if m else 16
            a = rt.mkbase(i, al)
            self.addr[name] = a
            self.by_id[i] = name
        return a

    def global_obj(self, gid):
        """-> (name, size, bytes-list, const) or ('func', name)."""
        r = self.gcache.get(gid)
        if r is not None:
            return r
        name = self.by_id.get(gid)
        if name is None:
            return None
        if name in self.defs or name in self.decls:
            r = ('func', name)
        else:
            d = self.globals[name]
            p = Parser(self, tokenize(d))
            const = False
            while True:
                x = p.next()
                if x == 'constant':
                    const = True
                    break
                if x == 'global':
                    break
                if x == 'thread_local' and p.peek() == '(':
                    p.skip_parens()
            t = p.type()
            data = [None] * sizeof(t)
            if 'external' in d.split('global')[0].split('constant')[0].split():
                raise Unsupported('external global ' + name)
            v = p.const(t)
            const_bytes(t, v, data, 0)
            r = ('data', name, sizeof(t), data, const)
        self.gcache[gid] = r
        return r

    # ------------------------------------------------------------------ compile
    def build_env(self):
        env = dict(rt.__dict__)
        self.env = env
        env['MOD'] = self
        self.fid = {}

    def fname(self, name):
        """python identifier for direct calls to `name`; installs lazy stub."""
        name = self.aliases.get(name, name)
        k = self.fid.get(name)
        if k is None:
            k = 'F%d' % len(self.fid)
            self.fid[name] = k
            self.env[k] = self.resolve(name, k)
        return k

    def resolve(self, name, k):
        h = rt.intercept(name)
        if h is not None:
            return h
        if name in self.defs:
            env = self.env

            def stub(*a):
                f = self.compile(name, k)
                env[k] = f
                return f(*a)
            return stub
        h = rt.EXTERN.get(name)
        if h is not None:
            return h

        def missing(*a):
            raise rt.EngineError('call to unsupported external ' + name)
        return missing

    def func(self, name):
        k = self.fname(name)
        return lambda *a: self.env[k](*a)

    def func_by_addr(self, a):
        gid = (a >> rt.SH)
        name = self.by_id.get(gid)
        if name is None or self.addr[name] != a or not (name in self.defs or name in self.decls):
            return None
        k = self.fname(name)
        return self.env[k]

    def compile(self, name, k):
        i, j = self.defs[name]
        try:
            src = FuncCompiler(self, name, self.lines[i:j]).compile(k)
        except Unsupported as e:
            msg = 'function %s: %s' % (name, e)

            def bad(*a):
                raise rt.EngineError('unsupported IR in ' + msg)
            return bad
        self.sources[name] = src
        code = compile(src, name, 'exec')
        exec(code, self.env)
        f = self.env[k]
        if rt.HOOK_ENTRY:
            pass
        rt.FUNCS_SEEN.add(name)
        return f


MASKS = {}


def mask(w):
    return (1 << w) - 1


class FuncCompiler:
    def __init__(self, mod, name, lines):
        self.m = mod
        self.name = name
        self.lines = lines
        self.regs = {}
        self.out = []
        self.has_alloca = False

    def reg(self, x):
        r = self.regs.get(x)
        if r is None:
            r = 'v%d' % len(self.regs)
            self.regs[x] = r
        return r

    def val(self, v):
        if v[0] == 'r':
            return self.reg(v[1])
        return self.lit(v[1])

    def lit(self, c):
        if c is rt.UNDEF:
            return 'UNDEF'
        if isinstance(c, tuple):
            return '(' + ''.join(self.lit(x) + ',' for x in c) + ')'
        return repr(c)

    def parse_blocks(self):
        hdr = self.lines[0]
        # params
        p = Parser(self.m, tokenize(hdr))
        while p.peek()[0] != '@':
            # return attributes / type
            if p.peek() == '{' or p.peek() == '[' or p.peek() == '<':
                p.type()
                continue
            p.next()
            if p.peek() == '(':
                p.skip_parens()
        p.next()
        p.expect('(')
        self.params = []
        n = 0
        while not p.eat(')'):
            if p.peek() == '...':
                p.next()
                continue
            t = p.type()
            p.skip_attrs_param() if hasattr(p, 'skip_attrs_param') else p.skip_attrs()
            x = p.peek()
            if x and x[0] == '%':
                p.next()
                self.params.append(x)
            else:
                self.params.append('%%%d' % n)
            n += 1
            p.eat(',')
        # join continued lines
        body = []
        sw = False
        for s in self.lines[1:]:
            if not s.strip():
                continue
            if sw:
                body[-1] += ' ' + s.strip()
                if s.strip().startswith(']'):
                    sw = False
                continue
            if s.startswith('          ') and body:
                body[-1] += ' ' + s.strip()
                continue
            body.append(s)
            st = s.lstrip()
            if st.startswith('switch ') and ']' not in s:
                sw = True
            if st.startswith('switch ') and s.rstrip().endswith('['):
                sw = True
        blocks = {}
        order = []
        cur = None
        anon = sum(1 for q in self.params if re.match(r'^%\d+$', q))
        for s in body:
            if not s.startswith(' '):
                m = re.match(r'^("[^"]*"|[\w.$-]+):', s)
                lab = '%' + m.group(1)
                cur = []
                blocks[lab] = cur
                order.append(lab)
            else:
                if cur is None:
                    lab = '%%%d' % len(self.params)
                    cur = []
                    blocks[lab] = cur
                    order.append(lab)
                c = META.sub('', self.strip_comment(s))
                if c.strip():
                    cur.append(tokenize(c))
        self.blocks = blocks
        self.order = order

    @staticmethod
    def strip_comment(s):
        if ';' in s:
            # no ';' inside strings in practice, check quotes
            q = False
            for i, ch in enumerate(s):
                if ch == '"':
                    q = not q
                elif ch == ';' and not q:
                    return s[:i]
        return s

    def compile(self, k):
        self.parse_blocks()
        # terminators and predecessor counts
        self.preds = {b: 0 for b in self.blocks}
        self.unw = set()
        self.phis = {}
        self.code = {}
        for b in self.order:
            insts = self.blocks[b]
            ph = []
            rest = []
            for t in insts:
                if len(t) > 2 and t[1] == '=' and t[2] == 'phi':
                    p = Parser(self.m, t)
                    dst = p.next()
                    p.i = 3
                    ty = p.type()
                    inc = {}
                    while True:
                        p.expect('[')
                        v = p.value(ty)
                        p.expect(',')
                        inc[p.next()] = v
                        p.expect(']')
                        if not p.eat(','):
                            break
                    ph.append((dst, inc))
                else:
                    rest.append(t)
            self.phis[b] = ph
            self.code[b] = rest
            term = rest[-1]
            i = 0
            while i < len(term):
                if term[i] == 'label':
                    self.preds[term[i + 1]] += 1
                    if term[i - 1] == 'unwind':
                        self.unw.add(term[i + 1])
                i += 1
        entry = self.order[0]
        self.heads = [entry]
        self.headidx = {entry: 0}
        if self.preds[entry]:
            pass
        for b in self.order[1:]:
            if self.preds[b] != 1 or b in self.unw:
                self.headidx[b] = len(self.heads)
                self.heads.append(b)
        # emit heads; inlining may add heads
        bodies = []
        hi = 0
        while hi < len(self.heads):
            self.out = []
            self.depth = 0
            self.emit_block(self.heads[hi], 0)
            bodies.append(self.out)
            hi += 1
        params = ','.join(self.reg(p) for p in self.params)
        src = ['def %s(%s):' % (k, params)]
        ind = 1
        src.append('    CALLS[0] += 1')
        if self.has_alloca:
            src.append('    fr = []')
            src.append('    try:')
            ind = 2
        if len(bodies) == 1 and not any('continue' in x for x in bodies[0]):
            for x in bodies[0]:
                src.append('    ' * ind + x)
        else:
            src.append('    ' * ind + 'b = 0')
            src.append('    ' * ind + 'while True:')
            src.append('    ' * (ind + 1) + 'T[0] += 1')
            src.append('    ' * (ind + 1) + 'if T[0] > LIM[0]: raise StepLimit(%r)' % self.name)
            self.dispatch(src, bodies, 0, len(bodies), ind + 1)
        if self.has_alloca:
            src.append('    finally:')
            src.append('        for o in fr: kill_stack(o)')
        return '\n'.join(src) + '\n'

    def dispatch(self, src, bodies, lo, hi, ind):
        if hi - lo == 1:
            for x in bodies[lo]:
                src.append('    ' * ind + x)
            return
        mid = (lo + hi) // 2
        src.append('    ' * ind + 'if b < %d:' % mid)
        self.dispatch(src, bodies, lo, mid, ind + 1)
        src.append('    ' * ind + 'else:')
        self.dispatch(src, bodies, mid, hi, ind + 1)

    def w(self, ind, s):
        self.out.append('    ' * ind + s)

    def edge(self, frm, to, ind, force_head=False):
        ph = self.phis[to]
        if ph:
            ds = [self.reg(d) for d, _ in ph]
            vs = [self.val(inc[frm]) for _, inc in ph]
            pairs = [(d, v) for d, v in zip(ds, vs) if d != v]
            if pairs:
                self.w(ind, '%s = %s' % (','.join(d for d, _ in pairs), ','.join(v for _, v in pairs)))
        if to not in self.headidx:
            if ind < 30 and not force_head:
                self.emit_block(to, ind)
                return
            self.headidx[to] = len(self.heads)
            self.heads.append(to)
        self.w(ind, 'b = %d' % self.headidx[to])
        self.w(ind, 'continue')

    def emit_block(self, b, ind):
        code = self.code[b]
        for t in code[:-1]:
            self.inst(t, ind)
        self.term(b, code[-1], ind)

    # ----------------------------------------------------------------- terminators
    def term(self, b, t, ind):
        op = t[0]
        p = Parser(self.m, t)
        if op == 'ret':
            p.i = 1
            ty = p.type()
            if ty == VOID:
                self.w(ind, 'return None')
            else:
                self.w(ind, 'return ' + self.val(p.value(ty)))
        elif op == 'br':
            if t[1] == 'label':
                self.edge(b, t[2], ind)
            else:
                p.i = 1
                ty = p.type()
                c = p.value(ty)
                p.expect(',')
                p.expect('label')
                x = p.next()
                p.expect(',')
                p.expect('label')
                y = p.next()
                if c[0] == 'c':
                    if c[1] is rt.UNDEF:
                        self.w(ind, 'decide(UNDEF)')
                        self.w(ind, 'raise EngineError("undef br")')
                    else:
                        self.edge(b, x if c[1] else y, ind)
                    return
                cv = self.val(c)
                self.w(ind, 'if (%s if %s.__class__ is int else decide(%s)):' % (cv, cv, cv))
                self.edge(b, x, ind + 1)
                self.edge(b, y, ind)
        elif op == 'switch':
            p.i = 1
            ty = p.type()
            v = self.val(p.value(ty))
            p.expect(',')
            p.expect('label')
            dflt = p.next()
            p.expect('[')
            cases = []
            while not p.eat(']'):
                ct = p.type()
                cv = p.const(ct)
                p.expect(',')
                p.expect('label')
                cases.append((cv, p.next()))
            tmp = 's%d' % len(self.regs)
            self.regs['%__sw' + str(len(self.regs))] = tmp
            vals = '(' + ''.join('%d,' % c for c, _ in cases) + ')'
            self.w(ind, '%s = %s if %s.__class__ is int else sw(%s,%s,%d)' % (tmp, v, v, v, vals, ty[1]))
            for c, l in cases:
                self.w(ind, 'if %s == %d:' % (tmp, c))
                self.edge(b, l, ind + 1, True)
            self.edge(b, dflt, ind, True)
        elif op == 'unreachable':
            self.w(ind, 'unreachable(%r)' % self.name)
        elif op == 'resume':
            p.i = 1
            ty = p.type()
            v = self.val(p.value(ty))
            self.w(ind, 'raise RustPanic(%s[0])' % v)
        elif op == 'invoke' or (len(t) > 2 and t[2] == 'invoke'):
            dst = None
            p.i = 1
            if t[1] == '=':
                dst = t[0]
                p.i = 3
            expr = self.call(p, dst, ind, True)
            # to label X unwind label Y
            while p.next() != 'to':
                pass
            p.expect('label')
            x = p.next()
            p.expect('unwind')
            p.expect('label')
            y = p.next()
            self.w(ind, 'try:')
            self.w(ind + 1, ('%s = %s' % (self.reg(dst), expr)) if dst else expr)
            self.w(ind, 'except RustPanic as e_:')
            self.w(ind + 1, 'exc = e_.h')
            self.edge(b, y, ind + 1, True)
            self.edge(b, x, ind)
        elif op in ('call', 'tail', 'musttail') or (len(t) > 2 and t[2] in ('call', 'tail')):
            self.inst(t, ind)
            self.w(ind, 'raise EngineError("fallthrough")')
        else:
            raise Unsupported('terminator ' + ' '.join(t[:6]))

    # ----------------------------------------------------------------- instructions
    def inst(self, t, ind):
        p = Parser(self.m, t)
        dst = None
        if len(t) > 1 and t[1] == '=':
            dst = t[0]
            p.i = 2
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        d = self.reg(dst) if dst else None
        if op == 'call':
            e = self.call(p, dst, ind, False)
            if e is None:
                return
            self.w(ind, '%s = %s' % (d, e) if d else e)
            return
        h = getattr(self, 'i_' + op, None)
        if h is None:
            raise Unsupported('instruction ' + op)
        h(p, d, ind, op)

    def operands(self, p, skip=()):
        while p.peek() in skip:
            p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return ty, a, b

    def chk(self, *vs):
        """python condition: all register operands are ints"""
        r = []
        for v in vs:
            if v[0] == 'r':
                r.append('%s.__class__ is int' % self.reg(v[1]))
            elif v[1] is rt.UNDEF:
                r.append('False')
        return ' and '.join(dict.fromkeys(r)) or 'True'

    def binop(self, p, d, ind, op):
        ty, a, b = self.operands(p, ('nuw', 'nsw', 'exact', 'disjoint', 'samesign'))
        if ty[0] == 'v':
            self.w(ind, '%s = vec_bin(%r,%s,%s,%d)' % (d, op, self.val(a), self.val(b), bits(ty[2])))
            return
        w = bits(ty)
        A, B, M = self.val(a), self.val(b), hex(mask(w))
        c = self.chk(a, b)
        if w == 1:
            f = {'and': '%s & %s', 'or': '%s | %s', 'xor': '%s ^ %s', 'add': '%s ^ %s', 'sub': '%s ^ %s',
                 'mul': '%s & %s'}.get(op)
            if not f:
                raise Unsupported('i1 ' + op)
            self.w(ind, '%s = %s if %s else b_%s(%s,%s)' % (d, f % (A, B), c, op, A, B))
            return
        f = {'add': '(%s + %s) & ' + M, 'sub': '(%s - %s) & ' + M, 'mul': '(%s * %s) & ' + M, 'and': '%s & %s',
             'or': '%s | %s', 'xor': '%s ^ %s'}.get(op)
        if f:
            self.w(ind, '%s = %s if %s else s_%s(%s,%s,%d)' % (d, f % (A, B), c, op, A, B, w))
        elif op == 'shl' and b[0] == 'c' and b[1] is not rt.UNDEF and b[1] < w:
            self.w(ind, '%s = (%s << %s) & %s if %s else s_shl(%s,%s,%d)' % (d, A, B, M, c, A, B, w))
        elif op == 'lshr' and b[0] == 'c' and b[1] is not rt.UNDEF and b[1] < w:
            self.w(ind, '%s = %s >> %s if %s else s_lshr(%s,%s,%d)' % (d, A, B, c, A, B, w))
        else:
            self.w(ind, '%s = s_%s(%s,%s,%d)' % (d, op, A, B, w))

    i_add = i_sub = i_mul = i_and = i_or = i_xor = i_shl = i_lshr = i_ashr = binop
    i_udiv = i_urem = i_sdiv = i_srem = binop

    def i_icmp(self, p, d, ind, op):
        while p.peek() in ('samesign',):
            p.next()
        pred = p.next()
        ty, a, b = self.operands(p)
        if ty[0] == 'v':
            self.w(ind, '%s = vec_icmp(%r,%s,%s,%d)' % (d, pred, self.val(a), self.val(b), bits(ty[2])))
            return
        w = bits(ty)
        A, B = self.val(a), self.val(b)
        c = self.chk(a, b)
        f = {'eq': '%s == %s', 'ne': '%s != %s', 'ult': '%s < %s', 'ugt': '%s > %s', 'ule': '%s <= %s',
             'uge': '%s >= %s'}.get(pred)
        if f:
            self.w(ind, '%s = (1 if %s else 0) if %s else c_%s(%s,%s,%d)' % (d, f % (A, B), c, pred, A, B, w))
        else:
            self.w(ind, '%s = c_%s(%s,%s,%d)' % (d, pred, A, B, w))

    def i_load(self, p, d, ind, op):
        atomic = p.eat('atomic')
        p.eat('volatile')
        ty = p.type()
        p.expect(',')
        p.type()
        a = p.value(PTR)
        order = None
        if atomic:
            if p.peek() == 'syncscope':
                p.next()
                p.skip_parens()
            order = p.next()
        if atomic:
            self.w(ind, '%s = aload(%s,%d,%r)' % (d, self.val(a), sizeof(ty), order))
            return
        self.w(ind, '%s = %s' % (d, self.load_expr(ty, self.val(a))))

    def load_expr(self, ty, a):
        k = ty[0]
        if k in 'pf' or (k == 'i' and ty[1] % 8 == 0):
            return 'load(%s,%d)' % (a, (bits(ty) + 7) // 8)
        if k == 'i':
            return 'load_odd(%s,%d)' % (a, ty[1])
        if k == 's':
            offs, _ = layout(ty)
            return '(' + ''.join(self.load_expr(x, 'padd(%s,%d)' % (a, o)) + ',' for x, o in zip(ty[1], offs)) + ')'
        if k in 'av':
            if k == 'v' and bits(ty[2]) < 8:
                raise Unsupported('load bit vector')
            s = sizeof(ty[2])
            return '(' + ''.join(self.load_expr(ty[2], 'padd(%s,%d)' % (a, i * s)) + ',' for i in range(ty[1])) + ')'
        raise Unsupported('load %r' % (ty,))

    def i_store(self, p, d, ind, op):
        atomic = p.eat('atomic')
        p.eat('volatile')
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        p.type()
        a = p.value(PTR)
        if atomic:
            if p.peek() == 'syncscope':
                p.next()
                p.skip_parens()
            order = p.next()
            self.w(ind, 'astore(%s,%s,%d,%r)' % (self.val(a), self.val(v), sizeof(ty), order))
            return
        self.store(ty, self.val(v), self.val(a), ind)

    def store(self, ty, v, a, ind):
        k = ty[0]
        if k in 'pf' or (k == 'i' and ty[1] % 8 == 0):
            self.w(ind, 'store(%s,%s,%d)' % (a, v, (bits(ty) + 7) // 8))
        elif k == 'i':
            self.w(ind, 'store_odd(%s,%s,%d)' % (a, v, ty[1]))
        elif k == 's':
            offs, _ = layout(ty)
            for i, (x, o) in enumerate(zip(ty[1], offs)):
                self.store(x, '%s[%d]' % (v, i), 'padd(%s,%d)' % (a, o), ind)
        elif k in 'av':
            s = sizeof(ty[2])
            for i in range(ty[1]):
                self.store(ty[2], '%s[%d]' % (v, i), 'padd(%s,%d)' % (a, i * s), ind)
        else:
            raise Unsupported('store %r' % (ty,))

    def i_getelementptr(self, p, d, ind, op):
        while p.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
            if p.next() == 'inrange':
                p.skip_parens()
        bt = p.type()
        p.expect(',')
        pt = p.type()
        if pt[0] == 'v':
            raise Unsupported('vector gep')
        base = p.value(PTR)
        idx = []
        while p.eat(','):
            if p.peek()[0] == '!':
                break
            it = p.type()
            idx.append((it, p.value(it)))
        off = 0
        syms = []
        regs = [base]
        first = True
        for it, v in idx:
            if first:
                s = sizeof(bt)
                first = False
            elif bt[0] == 's':
                off += layout(bt)[0][v[1]]
                bt = bt[1][v[1]]
                continue
            else:
                bt = bt[2]
                s = sizeof(bt)
            w = it[1]
            if v[0] == 'c':
                c = v[1]
                if c >> (w - 1):
                    c -= 1 << w
                off += c * s
            elif s:
                if w != 64:
                    syms.append(('sx(%s,%d)' % (self.val(v), w), s))
                else:
                    syms.append((self.val(v), s))
                regs.append(v)
        A = self.val(base)
        if not syms and off == 0:
            self.w(ind, '%s = %s' % (d, A))
            return
        fast = A
        for e, s in syms:
            fast += ' + ' + (e if s == 1 else '%s*%d' % (e, s))
        if off:
            fast += ' + %d' % off
        c = self.chk(*regs)
        slow = 's_gep(%s,%d,(%s))' % (A, off, ''.join('(%s,%d),' % x for x in syms))
        if any(it[1] != 64 for it, v in idx if v[0] == 'r'):
            self.w(ind, '%s = %s' % (d, slow))
        else:
            self.w(ind, '%s = (%s) & 0xffffffffffffffff if %s else %s' % (d, fast, c, slow))

    def i_alloca(self, p, d, ind, op):
        ty = p.type()
        n = 1
        al = alignof(ty) if ty[0] != 's' or ty[1] else 1
        nv = None
        while p.eat(','):
            if p.peek() == 'align':
                p.next()
                al = int(p.next())
            elif p.peek() and p.peek()[0] == '!':
                break
            else:
                it = p.type()
                nv = p.value(it)
        if nv is not None:
            raise Unsupported('alloca n')
        self.has_alloca = True
        self.w(ind, '%s = new_stack(%d,%d,fr)' % (d, sizeof(ty), al))

    def cast(self, p, d, ind, op):
        while p.peek() in ('nuw', 'nsw', 'nneg'):
            p.next()
        st = p.type()
        v = p.value(st)
        p.expect('to')
        dt = p.type()
        V = self.val(v)
        if st[0] == 'v' or dt[0] == 'v':
            if op == 'bitcast':
                self.w(ind, '%s = vec_bitcast(%s,%r,%r)' % (d, V, st, dt))
            else:
                self.w(ind, '%s = vec_cast(%r,%s,%d,%d)' % (d, op, V, bits(st[2]), bits(dt[2])))
            return
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            a, b = bits(st), bits(dt)
            if a == b:
                self.w(ind, '%s = %s' % (d, V))
                return
            op = 'zext' if a < b else 'trunc'
        a, b = bits(st), bits(dt)
        c = self.chk(v)
        if op == 'zext':
            self.w(ind, '%s = %s if %s else s_zext(%s,%d,%d)' % (d, V, c, V, a, b))
        elif op == 'trunc':
            self.w(ind, '%s = %s & %s if %s else s_trunc(%s,%d,%d)' % (d, V, hex(mask(b)), c, V, a, b))
        elif op == 'sext':
            self.w(ind, '%s = s_sext(%s,%d,%d)' % (d, V, a, b))
        else:
            raise Unsupported('cast ' + op)

    i_zext = i_sext = i_trunc = i_ptrtoint = i_inttoptr = i_bitcast = cast

    def i_select(self, p, d, ind, op):
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        p.type()
        b = p.value(ty)
        C, A, B = self.val(c), self.val(a), self.val(b)
        if ct[0] == 'v':
            self.w(ind, '%s = tuple((x if k else y) if k.__class__ is int else s_ite(k,x,y,%d) for k,x,y in zip(%s,%s,%s))' % (d, bits(ty[2]), C, A, B))
            return
        if ty[0] in 'i':
            slow = 's_ite(%s,%s,%s,%d)' % (C, A, B, ty[1])
        else:
            slow = '(%s if decide(%s) else %s)' % (A, C, B)
        self.w(ind, '%s = (%s if %s else %s) if %s.__class__ is int else %s' % (d, A, C, B, C, slow))

    def i_extractvalue(self, p, d, ind, op):
        ty = p.type()
        v = p.value(ty)
        s = self.val(v)
        while p.eat(','):
            if p.peek()[0] == '!':
                break
            s += '[%s]' % p.next()
        self.w(ind, '%s = %s' % (d, s))

    def i_insertvalue(self, p, d, ind, op):
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        et = p.type()
        e = p.value(et)
        idx = []
        while p.eat(','):
            if p.peek()[0] == '!':
                break
            idx.append(int(p.next()))
        if len(idx) == 1:
            A = self.val(v)
            i = idx[0]
            self.w(ind, '%s = %s[:%d] + (%s,) + %s[%d:]' % (d, A, i, self.val(e), A, i + 1))
        else:
            self.w(ind, '%s = insertv(%s,%s,%r)' % (d, self.val(v), self.val(e), tuple(idx)))

    def i_landingpad(self, p, d, ind, op):
        p.type()
        sel = 0
        while p.peek() is not None:
            x = p.next()
            if x == 'catch':
                sel = 1
                break
            if x == 'filter':
                sel = -1 & 0xffffffff
                break
        self.w(ind, '%s = (exc, %d)' % (d, sel))

    def i_freeze(self, p, d, ind, op):
        ty = p.type()
        v = p.value(ty)
        V = self.val(v)
        if ty[0] in 'ip':
            self.w(ind, '%s = %s if %s.__class__ is int else freeze(%s,%d)' % (d, V, V, V, bits(ty)))
        else:
            self.w(ind, '%s = %s' % (d, V))

    def i_fence(self, p, d, ind, op):
        if p.peek() == 'syncscope':
            p.next()
            p.skip_parens()
        self.w(ind, 'fence(%r)' % p.next())

    def i_atomicrmw(self, p, d, ind, op):
        p.eat('volatile')
        o = p.next()
        p.type()
        a = p.value(PTR)
        p.expect(',')
        ty = p.type()
        v = p.value(ty)
        if p.peek() == 'syncscope':
            p.next()
            p.skip_parens()
        order = p.next()
        s = 'armw(%r,%s,%s,%d,%r)' % (o, self.val(a), self.val(v), sizeof(ty), order)
        self.w(ind, '%s = %s' % (d, s) if d else s)

    def i_cmpxchg(self, p, d, ind, op):
        weak = p.eat('weak')
        p.eat('volatile')
        p.type()
        a = p.value(PTR)
        p.expect(',')
        ty = p.type()
        c = p.value(ty)
        p.expect(',')
        p.type()
        n = p.value(ty)
        if p.peek() == 'syncscope':
            p.next()
            p.skip_parens()
        o1 = p.next()
        o2 = p.next()
        s = 'acmpxchg(%s,%s,%s,%d,%r,%r,%r)' % (self.val(a), self.val(c), self.val(n), sizeof(ty), o1, o2, bool(weak))
        self.w(ind, '%s = %s' % (d, s))

    def i_extractelement(self, p, d, ind, op):
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        it = p.type()
        i = p.value(it)
        self.w(ind, '%s = %s[%s]' % (d, self.val(v), self.val(i)))

    def i_insertelement(self, p, d, ind, op):
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        et = p.type()
        e = p.value(et)
        p.expect(',')
        it = p.type()
        i = p.value(it)
        A, I = self.val(v), self.val(i)
        self.w(ind, '%s = %s[:%s] + (%s,) + %s[%s+1:]' % (d, A, I, self.val(e), A, I))

    def i_shufflevector(self, p, d, ind, op):
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        p.type()
        b = p.value(ty)
        p.expect(',')
        mt = p.type()
        m = p.const(mt)
        self.w(ind, '%s = shuf(%s,%s,%s)' % (d, self.val(a), self.val(b), self.lit(m)))

    # ----------------------------------------------------------------- calls
    def call(self, p, dst, ind, inv):
        # fast-math / cc / ret attrs
        p.skip_attrs()
        rty = p.type()
        if p.peek() == '(':
            # function type: need to tell args from fn type: callee follows parens
            p.skip_parens()
        x = p.peek()
        callee = None
        if x[0] == '@':
            p.next()
            callee = uq(x)
        elif x[0] == '%':
            p.next()
        elif x == 'asm':
            while p.peek() != '(':
                p.next()
            callee = '<asm>'
        else:
            a = p.const(PTR)
            x = ('c', a)
        p.expect('(')
        args = []
        tys = []
        while not p.eat(')'):
            t = p.type()
            if t == ('metadata',):
                # skip metadata operand
                dpt = 0
                while True:
                    y = p.peek()
                    if dpt == 0 and y in (',', ')'):
                        break
                    if y == '(':
                        dpt += 1
                    if y == ')':
                        dpt -= 1
                    p.next()
                args.append(('c', 0))
                tys.append(t)
            else:
                p.skip_attrs()
                args.append(p.value(t))
                tys.append(t)
            p.eat(',')
        A = [self.val(a) for a in args]
        if callee == '<asm>':
            # empty asm (black_box / compiler fence)
            return 'None'
        if callee is None:
            if isinstance(x, tuple):
                return 'icall(%d)(%s)' % (x[1], ','.join(A))
            return 'icall(%s)(%s)' % (self.reg(x), ','.join(A))
        if callee.startswith('llvm.'):
            return self.intrinsic(callee, A, args, tys, rty, inv)
        return '%s(%s)' % (self.m.fname(callee), ','.join(A))

    def intrinsic(self, n, A, args, tys, rty, inv):
        base = n[5:]
        none = 'None' if inv else None
        if base.startswith(('experimental.noalias', 'dbg.', 'invariant.', 'donothing', 'sideeffect', 'prefetch')):
            return none
        if base.startswith('lifetime.'):
            f = 'life_start' if 'start' in base else 'life_end'
            return '%s(%s)' % (f, A[-1])
        if base.startswith('assume'):
            if args[0] == ('c', 1):
                return none
            return 'llvm_assume(%s)' % A[0]
        if base.startswith('memcpy'):
            return 'memcpy(%s,%s,%s)' % tuple(A[:3])
        if base.startswith('memmove'):
            return 'memmove(%s,%s,%s)' % tuple(A[:3])
        if base.startswith('memset'):
            return 'memset(%s,%s,%s)' % tuple(A[:3])
        if base.startswith('trap') or base.startswith('ubsantrap'):
            return 'abort_(%r)' % 'llvm.trap'
        if base.startswith('expect'):
            return A[0]
        if base.startswith('is.constant'):
            return '0'
        if base.startswith('threadlocal.address'):
            return A[0]
        if base.startswith('x86.sse2.pause') or base.startswith('aarch64'):
            return none
        if base.startswith('objectsize'):
            return repr(rt.M64)
        parts = base.split('.')
        if tys and tys[0][0] == 'v' or rty[0] == 'v':
            f = 'vec_' + '_'.join(q for q in parts if not re.match(r'^v?\d*[ipv]\d+', q))
            if f in rt.__dict__:
                return '%s(%s,%d)' % (f, ','.join(A), bits(tys[0][2]))
            raise Unsupported('vector intrinsic ' + n)
        name = '_'.join(q for q in parts if not re.match(r'^[ipvf]\d+$', q))
        f = 'in_' + name
        if f not in rt.__dict__:
            raise Unsupported('intrinsic ' + n)
        w = bits(tys[0])
        if name in ('ucmp', 'scmp'):
            return '%s(%s,%d,%d)' % (f, ','.join(A), w, bits(rty))
        return '%s(%s,%d)' % (f, ','.join(A), w)
