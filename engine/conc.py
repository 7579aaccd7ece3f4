"""Concurrency: every thread of a scenario is executed symbolically on its own, each of its accesses to
shared memory becomes an event (reads return fresh symbols), and for every choice of one path per thread Z3
decides whether the C11 axioms (without SC total order: SeqCst counts as AcqRel) admit an execution that
breaks the property.

A scenario NAME is a set of entry points of the compiled harness: NAME_s (setup, before all threads),
NAME_1.. (threads), NAME_f (after all threads have been joined).
"""
import sys
import time

import z3
import rt
from rt import BVV, P, Violation, EngineError, PathEnd, RustPanic, StepLimit

SPIN = 2          # consecutive reads of one location without success before a path is cut
SPUR = 1          # spurious failures of weak compare-exchanges on one path
ACQ = {'acquire', 'acq_rel', 'seq_cst'}
REL = {'release', 'acq_rel', 'seq_cst'}


class Cut(Exception):
    """retry bound reached"""


LOCAL_STEPS = 20_000     # basic blocks a thread executes between two synchronising accesses


class Ev:
    __slots__ = ('k', 'loc', 'ro', 'wo', 'rv', 'wv', 'at', 'spur', 'site')

    def __init__(self, k, loc, ro=None, wo=None, rv=None, wv=None, at=True, spur=False):
        self.k = k          # R W U F(ence) D(ealloc) A(ccess to a block)
        self.loc = loc      # (object id, offset, size)   D, A: object id
        self.ro = ro
        self.wo = wo
        self.rv = rv
        self.wv = wv
        self.at = at        # atomic
        self.site = None    # reads: place in the code
        self.spur = spur    # spuriously failed weak compare-exchange

    def key(self):
        def s(x):
            return x.sexpr() if hasattr(x, 'sexpr') else repr(x)
        return (self.k, self.loc, self.ro, self.wo, s(self.rv), s(self.wv), self.at, self.spur)


class Hook:
    def __init__(self):
        self.active = False
        self.cells = {}        # object id -> sorted list of (offset, size) of shared cells
        self.shared = {}       # object id -> {byte offset: (offset, size)}
        self.domain = {}       # cell -> list of constants it can hold
        self.foot = {}         # (tid, object, offset, size, kind) -> True
        self.inits = {}
        self.reset(0)

    def reset(self, tid):
        self.tid = tid
        self.evs = []
        self.obl = []          # (position, condition, message)
        self.active = False
        self.bound = None
        self.seg = 0
        self.acc = set()
        self.nread = {}
        self.setup_inputs = 0
        self.nvar = 0
        self.nspur = 0
        self.allocs = []

    def switch(self):
        self.active = True
        self.bound = P.next_id
        self.setup_inputs = len(P.inputs)

    def fresh(self, size):
        self.nvar += 1
        return z3.BitVec('e%d_%d' % (self.tid, self.nvar), 8 * size)

    def mine(self, o):
        return not self.active or o.id >= self.bound or o.kind in ('const', 'func', 'stack')

    def note(self, o, off, n, kind):
        self.foot[(self.tid, o.id, off, n, kind)] = True
        if o.kind == 'heap' and (o.id, self.seg) not in self.acc:
            self.acc.add((o.id, self.seg))
            self.evs.append(Ev('A', o.id))

    def sync(self, e):
        self.seg += 1
        rt.LIM[0] = rt.T[0] + LOCAL_STEPS
        self.evs.append(e)

    def cell_read(self, o, c):
        """plain read of a whole shared cell"""
        off, size = c
        v = self.fresh(size)
        loc = (o.id, off, size)
        d = self.domain.get(loc)
        self.evs.append(Ev('R', loc, rv=v, at=False))
        if d is not None:
            rt.assume(z3.Or([v == BVV(x, 8 * size) for x in d]))
        return v

    def init_of(self, o, off, n):
        return rt.from_bytes(o.data[off:off + n])


H = Hook()
_load, _store, _memcpy, _memmove, _memset = rt.load, rt.store, rt.memcpy, rt.memmove, rt.memset
_alloc, _free, _realloc, _assert, _bytes = rt.sx_alloc, rt.sx_free, rt.sx_realloc, rt.sx_assert, rt._byte_list


def addr_of(a):
    return a if a.__class__ is int else rt.concretize(a)


def read_bytes(o, off, n):
    """byte cells of a range that may contain shared cells"""
    sh = H.shared.get(o.id)
    if not sh:
        return o.data[off:off + n]
    out = []
    i = off
    while i < off + n:
        c = sh.get(i)
        if c is None:
            out.append(o.data[i])
            i += 1
            continue
        if c[0] != i or c[0] + c[1] > off + n:
            raise Refine()
        out += rt.to_bytes(H.cell_read(o, c), c[1])
        i += c[1]
    return out


def write_bytes(o, off, bs):
    sh = H.shared.get(o.id)
    if not sh:
        o.data[off:off + len(bs)] = bs
        return
    i = 0
    while i < len(bs):
        c = sh.get(off + i)
        if c is None:
            o.data[off + i] = bs[i]
            i += 1
            continue
        if c[0] != off + i or i + c[1] > len(bs):
            raise Refine()
        v = rt.from_bytes(bs[i:i + c[1]])
        if rt.bad(v):
            v = H.fresh(c[1])
        H.evs.append(Ev('W', (o.id, c[0], c[1]), wv=v, at=False))
        i += c[1]


class Refine(Exception):
    """an access does not match the cells: footprints changed, explore again"""


def load(addr, n):
    if not H.active:
        return _load(addr, n)
    if addr.__class__ is not int:
        r = rt.load_table(addr, n)
        if r is not None:
            return r
        addr = rt.concretize(addr)
    o, off = rt.access(addr, n, 'read')
    if H.mine(o):
        return _load(addr, n)
    H.note(o, off, n, 'r')
    return rt.from_bytes(read_bytes(o, off, n))


def store(addr, v, n):
    if not H.active:
        return _store(addr, v, n)
    addr = addr_of(addr)
    o, off = rt.access(addr, n, 'write')
    if H.mine(o):
        return _store(addr, v, n)
    H.note(o, off, n, 'w')
    write_bytes(o, off, list(rt.to_bytes(v, n)))


def memmove(d, s, n):
    if not H.active:
        return _memmove(d, s, n)
    n = rt._len(n)
    if n == 0:
        return
    d, s = addr_of(d), addr_of(s)
    so, soff = rt.access(s, n, 'copy source read')
    do, doff = rt.access(d, n, 'copy destination write')
    if do.kind == 'const':
        raise Violation('ub', 'write to constant ' + do.name)
    if H.mine(so):
        bs = so.data[soff:soff + n]
    else:
        H.note(so, soff, n, 'r')
        bs = read_bytes(so, soff, n)
    if H.mine(do):
        do.data[doff:doff + n] = bs
    else:
        H.note(do, doff, n, 'w')
        write_bytes(do, doff, list(bs))


def memcpy(d, s, n):
    if not H.active:
        return _memcpy(d, s, n)
    memmove(d, s, n)


def memset(d, v, n):
    if not H.active:
        return _memset(d, v, n)
    n = rt._len(n)
    if n == 0:
        return
    d = addr_of(d)
    o, off = rt.access(d, n, 'fill')
    if H.mine(o):
        return _memset(d, v, n)
    H.note(o, off, n, 'w')
    write_bytes(o, off, [rt.cells(v, 1)[0]] * n)


def byte_list(p, n):
    if H.active:
        o, off = rt.access(p, n, 'read')
        if not H.mine(o):
            H.note(o, off, n, 'r')
            return read_bytes(o, off, n)
    return _bytes(p, n)


def aloc(a, n):
    """-> (object, cell) when the atomic is shared, else (object, None)"""
    o, off = rt.access(a, n, 'atomic access')
    if H.mine(o):
        return o, None
    H.note(o, off, n, 'a')
    sh = H.shared.get(o.id)
    c = sh.get(off) if sh else None
    if c is None:
        return o, None
    if c != (off, n):
        raise Refine()
    return o, (o.id, off, n)


def spin(loc):
    """reads of one location at one place of the code (with its callers) without a successful update in between"""
    f = sys._getframe(2)
    site = []
    while f is not None and f.f_code.co_name != 'explore':
        site.append((f.f_code.co_name, f.f_lineno))
        f = f.f_back
    site = hash(tuple(site))
    d = H.nread.setdefault(loc, {})
    k = d.get(site, 0) + 1
    d[site] = k
    H.evs[-1].site = site
    if k > SPIN:
        raise Cut()


class AHook:
    def aload(self, a, n, order):
        a = addr_of(a)
        o, loc = aloc(a, n)
        if loc is None:
            return _load(a, n)
        v = H.fresh(n)
        H.sync(Ev('R', loc, ro=order, rv=v))
        d = H.domain.get(loc)
        if d is not None:
            rt.assume(z3.Or([v == BVV(x, 8 * n) for x in d]))
        spin(loc)
        return v

    def astore(self, a, v, n, order):
        a = addr_of(a)
        o, loc = aloc(a, n)
        if loc is None:
            return _store(a, v, n)
        if z3.is_expr(v) and z3.is_bool(v):
            v = rt.bool_bv(v, 8 * n)
        H.sync(Ev('W', loc, wo=order, wv=v))
        H.nread[loc] = {}

    def armw(self, op, a, v, n, order):
        a = addr_of(a)
        o, loc = aloc(a, n)
        if loc is None:
            old = _load(a, n)
            if rt.bad(old):
                raise Violation('uninit', 'atomic update of uninitialised memory')
            _store(a, rt.rmw_val(op, old, v, 8 * n), n)
            return old
        old = H.fresh(n)
        H.sync(Ev('U', loc, ro=order, wo=order, rv=old, wv=rt.rmw_val(op, old, v, 8 * n)))
        H.nread[loc] = {}
        return old

    def acmpxchg(self, a, c, nv, n, o1, o2, weak):
        a = addr_of(a)
        o, loc = aloc(a, n)
        if loc is None:
            old = _load(a, n)
            eq = (1 if old == c else 0) if old.__class__ is int and c.__class__ is int else rt.c_eq(old, c, 8 * n)
            if rt.decide(eq):
                _store(a, nv, n)
                return (old, 1)
            return (old, 0)
        old = H.fresh(n)
        if rt.decide(old == rt.bv(c, 8 * n)):
            if weak and H.nspur < SPUR:
                s = z3.BitVec('s%d_%d' % (H.tid, H.nvar), 8)
                rt.P.inputs.append((s, 1))
                if rt.decide(s == BVV(1, 8)):
                    H.nspur += 1
                    H.sync(Ev('R', loc, ro=o2, rv=old, spur=True))
                    spin(loc)
                    return (old, 0)
            H.sync(Ev('U', loc, ro=o1, wo=o1, rv=old, wv=nv))
            H.nread[loc] = {}
            return (old, 1)
        H.sync(Ev('R', loc, ro=o2, rv=old))
        spin(loc)
        return (old, 0)

    def fence(self, order):
        if H.active:
            H.sync(Ev('F', None, ro=order, wo=order))


def sx_alloc(size, align, owner):
    b = _alloc(size, align, owner)
    if not H.active:
        H.allocs.append(b >> rt.SH)
    return b


def sx_free(p, size, align, owner):
    if H.active:
        p = addr_of(p)
        o = rt.find(p)
        if o is not None and o.id < H.bound and o.kind == 'heap':
            H.foot[(H.tid, o.id, 0, o.cap, 'f')] = True
            _free(p, size, align, owner)
            H.evs.append(Ev('D', o.id))
            return
    _free(p, size, align, owner)


def sx_realloc(p, old, align, new, owner):
    if H.active:
        raise EngineError('realloc in a concurrent scenario')
    return _realloc(p, old, align, new, owner)


def sx_assert(c, i):
    if not H.active:
        return _assert(c, i)
    rt.ST.asserts += 1
    msg = 'assertion %d' % i
    if c.__class__ is int:
        if not c:
            raise Violation('assert', msg)
        return
    if rt.bad(c):
        raise Violation('uninit', msg + ' on an uninitialised value')
    c = c if z3.is_bool(c) else c != BVV(0, c.size())
    H.obl.append((len(H.evs), c, msg))


def mk_input(nbytes):
    k = len(P.inputs)
    v = z3.BitVec('in%d_%d_%d' % (H.tid if H.active else 0, k, 8 * nbytes), 8 * nbytes)
    P.inputs.append((v, nbytes))
    return v


def must(c):
    """inside a thread the symbols of shared reads are unconstrained: an undecided check becomes a branch"""
    if not H.active:
        return _must(c)
    if c.__class__ is int:
        return True if c else rt.model()
    if rt.decide(c):
        return True
    return rt.model()


_must = rt.must


def install():
    for n in ('load', 'store', 'memcpy', 'memmove', 'memset', 'mk_input', 'must'):
        setattr(rt, n, globals()[n])
    rt._byte_list = byte_list
    for n, f in (('sx_alloc', sx_alloc), ('sx_free', sx_free), ('sx_realloc', sx_realloc), ('sx_assert', sx_assert)):
        rt.EXTERN[n] = f
        setattr(rt, n, f)
    rt.Conc.hook = AHook()


class TPath:
    """one path of one thread"""
    __slots__ = ('tid', 'evs', 'pc', 'obl', 'status', 'msg', 'group', 'inputs', 'covers', 'log', 'freed', 'live', 'init', 'key', 'blocks', 'rw', 'decl', 'pctxt',
                 'obtxt', 'inittxt')


def run_threads(mod, name, nth, max_paths, deadline):
    """explore every thread (and the final function) to a fixpoint of the shared cells"""
    rounds = 0
    global SPIN, SPUR
    full = SPIN, SPUR
    SPIN, SPUR = 1, 0
    while True:
        rounds += 1
        if rounds > 16:
            raise EngineError('shared memory does not stabilise')
        H.foot = {}
        paths = None
        try:
            paths = [explore(mod, name, t, max_paths, deadline) for t in range(1, nth + 2)]
        except Refine:
            pass
        new, dom = cells_from(H.foot, paths)
        if paths is not None and new == H.cells and dom == H.domain:
            if (SPIN, SPUR) == full:
                return paths
            SPIN, SPUR = full
            continue
        H.cells = new
        H.domain = dom if paths is not None else {}
        H.shared = {o: {b: c for c in cs for b in range(c[0], c[0] + c[1])} for o, cs in new.items()}


def cells_from(foot, paths):
    by = {}
    for t, o, off, n, k in foot:
        if k != 'f':
            by.setdefault(o, []).append((t, off, n, k))
    # cells that were shared stay shared
    out = {}
    for o, acc in by.items():
        who = {}
        for t, off, n, k in acc:
            for b in range(off, off + n):
                w = who.setdefault(b, {})
                w[t] = w.get(t, False) or k != 'r'
        sh = {b for b, w in who.items() if len(w) > 1 and any(w.values())}
        for c in H.cells.get(o, ()):
            sh |= set(range(c[0], c[0] + c[1]))
        # an atomic location is shared as a whole
        ch = True
        while ch:
            ch = False
            for t, off, n, k in acc:
                if k == 'a':
                    r = set(range(off, off + n))
                    if r & sh and not r <= sh:
                        sh |= r
                        ch = True
        if not sh:
            continue
        cuts = set()
        for t, off, n, k in acc:
            cuts.add(off)
            cuts.add(off + n)
        for c in H.cells.get(o, ()):
            cuts.add(c[0])
            cuts.add(c[0] + c[1])
        cs = []
        for b in sorted(sh):
            if cs and cs[-1][0] + cs[-1][1] == b and b not in cuts:
                cs[-1] = (cs[-1][0], cs[-1][1] + 1)
            else:
                cs.append((b, 1))
        out[o] = cs
    dom = {}
    if paths is not None:
        vals = {}
        for ps in paths:
            for p in ps:
                for loc, v in p.init.items():
                    vals.setdefault(loc, set()).add(v)
                for e in p.evs:
                    if e.k in 'WU':
                        v = e.wv
                        if z3.is_expr(v):
                            v = z3.simplify(v)
                            v = v.as_long() if z3.is_bv_value(v) else None
                        vals.setdefault(e.loc, set()).add(v)
        for loc, s in vals.items():
            if None not in s and len(s) <= 6 and all(x.__class__ is int for x in s):
                dom[loc] = sorted(s)
    return out, dom


def explore(mod, name, t, max_paths, deadline):
    rt.Mem.mod = mod
    rt.PENDING.clear()
    rt.PENDING.append([])
    setup = mod.func(name + '_s')
    nth = NTH[0]
    f = mod.func(name + ('_f' if t == nth + 1 else '_%d' % t))
    out = []
    seen = set()
    while rt.PENDING:
        if time.time() > deadline:
            raise EngineError('time budget exceeded')
        pre = rt.PENDING.pop()
        P.reset()
        P.prefix = pre
        rt.T[0] = 0
        rt.LIM[0] = 200_000
        H.reset(t)
        status, msg = 'done', ''
        group = ()
        try:
            setup()
            group = tuple(rt.val_in(rt.model(), v) for v, n in P.inputs)
            P.model = None
            H.switch()
            init = {}
            for o, cs in H.cells.items():
                ob = P.objs.get(o) or rt.find(o << rt.SH)
                if ob is None or ob.id >= H.bound:
                    continue
                for c in cs:
                    init[(o, c[0], c[1])] = H.init_of(ob, *c)
            live0 = [o.id for o in P.objs.values() if o.kind == 'heap' and o.live]
            f()
            leak = [o for o in P.objs.values() if o.kind == 'heap' and o.live and o.id >= H.bound]
            if leak:
                status, msg = 'bad', 'memory allocated by the thread is never released'
        except PathEnd:
            continue
        except Cut:
            status = 'cut'
        except RustPanic:
            status, msg = 'bad', 'unexpected panic'
        except StepLimit as e:
            status, msg = 'bad', 'no termination within the step bound in %s' % e
        except Violation as v:
            status, msg = 'bad', '%s: %s' % (v.kind, v.msg)
        if not H.active:
            raise EngineError('setup of %s fails: %s' % (name, msg))
        p = TPath()
        p.tid = t
        p.evs = H.evs
        p.pc = list(rt.STACK[:P.npc])
        p.obl = H.obl
        p.status = status
        p.msg = msg
        p.group = group
        p.inputs = [v for v, n in P.inputs[H.setup_inputs:] if str(v).startswith('in')]
        p.blocks = list(H.allocs)
        p.covers = set(P.covers)
        p.log = list(P.log)
        p.freed = {e.loc for e in p.evs if e.k == 'D'}
        p.live = live0
        p.init = init
        rt.ST.paths += 1
        ins = set(str(v) for v in p.inputs)
        prepare(p)
        p.key = (group, status, msg, tuple(e.key() for e in p.evs), tuple(c.sexpr() for _, c, _ in p.obl),
                 tuple(sorted(c.sexpr() for c in p.pc if mentions_events(c))), tuple(sorted(p.covers)))
        if p.key in seen:
            continue
        seen.add(p.key)
        out.append(p)
        if len(out) > max_paths:
            raise EngineError('more than %d paths in thread %d of %s' % (max_paths, t, name))
    return out


def mentions_events(c):
    """constraints on inputs alone do not matter for the combination"""
    st = [c]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if not x.decl().name().startswith('in'):
                return True
        st.extend(x.children())
    return False


NTH = [2]


# ------------------------------------------------------------------------------- combination of paths

def consts_of(exprs):
    out = {}
    st = list(exprs)
    seen = set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.decl().name()] = x.sort().sexpr()
        st.extend(x.children())
    return out


def txt(v, n):
    """value of n bytes as SMT-LIB text"""
    if v is None:
        return None
    if v.__class__ is int:
        return '(_ bv%d %d)' % (v, 8 * n)
    return z3.simplify(rt.bv(v, 8 * n)).sexpr()


def prepare(p):
    """text of everything that only depends on the path"""
    ex = list(p.pc) + [c for _, c, _ in p.obl]
    p.rw = []
    for e in p.evs:
        r = w = None
        if e.k in 'RU':
            r = txt(e.rv, e.loc[2])
            ex.append(e.rv)
        if e.k in 'WU':
            w = txt(e.wv, e.loc[2])
            if z3.is_expr(e.wv):
                ex.append(e.wv)
        p.rw.append((r, w))
    p.decl = consts_of(ex)
    p.pctxt = ''.join('(assert %s)' % c.sexpr() for c in p.pc)
    p.obtxt = [(c.sexpr(), m) for _, c, m in p.obl]
    p.inittxt = {loc: (txt(v, loc[2]) if not rt.bad(v) else None) for loc, v in p.init.items()}


def ge(a, b):
    """a >= b for a constant or named clock entry"""
    if a.__class__ is int:
        return 'true' if a >= b else 'false'
    return '(>= %s %d)' % (a, b)


class Combo:
    """one path for every thread (and for the function after the join): the C11 axioms as SMT-LIB text"""

    def __init__(self, paths, fin):
        self.paths = paths
        self.fin = fin
        self.n = len(paths)
        self.out = []
        self.build()

    def vmax(self, a, b, nm):
        if a.__class__ is int and b.__class__ is int:
            return max(a, b)
        if a == b or b == 0:
            return a
        if a == 0:
            return b
        self.out.append('(define-fun %s () Int (ite (>= %s %s) %s %s))' % (nm, a, b, a, b))
        return nm

    def build(self):
        O = self.out
        allp = self.paths + ([self.fin] if self.fin else [])
        init = {}
        decl = set()
        for p in allp:
            init.update(p.inittxt)
            for kv in p.decl.items():
                if kv not in decl:
                    decl.add(kv)
                    O.append('(declare-const %s %s)' % kv)
            O.append(p.pctxt)
        n = self.n
        W = {}
        R = {}
        for t, p in enumerate(allp):
            last = None
            for i, e in enumerate(p.evs):
                if e.k not in 'RWU':
                    continue
                x = 'ts_%d_%d' % (t, i)
                O.append('(declare-const %s Int)(assert %s)' % (x, '(>= %s 0)' % x if last is None else '(> %s %s)' % (x, last)))
                last = x
                if e.k != 'R':
                    W.setdefault(e.loc, []).append((t, i, e))
                    O.append('(declare-const mo_%d_%d Int)(assert (>= mo_%d_%d 1))' % (t, i, t, i))
                if e.k != 'W':
                    R.setdefault(e.loc, []).append((t, i, e))
                    O.append('(declare-const m_%d_%d Int)' % (t, i))
        for loc, ws in W.items():
            if len(ws) > 1:
                O.append('(assert (distinct %s))' % ' '.join('mo_%d_%d' % (t, i) for t, i, e in ws))
        self.rf = {}
        for loc, rs in R.items():
            ws = W.get(loc, [])
            iv = init.get(loc)
            for t, i, e in rs:
                rv = allp[t].rw[i][0]
                b0 = 'rf_%d_%d_i' % (t, i)
                O.append('(declare-const %s Bool)' % b0)
                c = '(= m_%d_%d 0)' % (t, i)
                if iv is not None:
                    c = '(and %s (= %s %s))' % (c, rv, iv)
                O.append('(assert (=> %s %s))' % (b0, c))
                self.rf[(t, i)] = [(b0, None)]
                for t2, i2, e2 in ws:
                    if t2 == t and i2 >= i or t2 == n and t != n:
                        continue
                    b = 'rf_%d_%d_%d_%d' % (t, i, t2, i2)
                    O.append('(declare-const %s Bool)(assert (=> %s (and (= m_%d_%d mo_%d_%d) (= %s %s) (< ts_%d_%d ts_%d_%d))))' % (
                        b, b, t, i, t2, i2, rv, allp[t2].rw[i2][1], t2, i2, t, i))
                    self.rf[(t, i)].append((b, (t2, i2)))
                bs = [b for b, _ in self.rf[(t, i)]]
                O.append('(assert (or %s))' % ' '.join(bs))
                for x in range(len(bs)):
                    for y in range(x):
                        O.append('(assert (not (and %s %s)))' % (bs[x], bs[y]))
                if e.k == 'U':
                    O.append('(assert (= mo_%d_%d (+ m_%d_%d 1)))' % (t, i, t, i))
        # vector clocks: entry k of the clock of an event = number of events of thread k that happen before
        zero = [0] * n
        VC = {}
        RVC = {}
        src = []
        for t, p in enumerate(self.paths):
            cur = list(zero)
            relf = None
            pend = []
            for i, e in enumerate(p.evs):
                cur = list(cur)
                cur[t] = i + 1
                if e.k == 'F':
                    if e.ro in ACQ:
                        for j, s in enumerate(pend):
                            cur = [self.vmax(a, b, 'f_%d_%d_%d_%d' % (t, i, j, k)) if k != t else a for k, (a, b) in enumerate(zip(cur, s))]
                    if e.wo in REL:
                        relf = cur
                elif e.k in 'RU' and e.at:
                    s = ['s_%d_%d_%d' % (t, i, k) for k in range(n)]
                    O.append(''.join('(declare-const %s Int)' % x for x in s))
                    src.append((t, i, s))
                    if e.ro in ACQ:
                        cur = [self.vmax(a, b, 'c_%d_%d_%d' % (t, i, k)) if k != t else a for k, (a, b) in enumerate(zip(cur, s))]
                    else:
                        pend.append(s)
                VC[(t, i)] = cur
                if e.k in 'WU':
                    if e.at and e.wo in REL:
                        rv = cur
                    elif e.at and relf is not None:
                        rv = relf
                    else:
                        rv = zero
                    if e.k == 'U':
                        # continues the release sequence of what it read
                        rv = [self.vmax(a, b, 'r_%d_%d_%d' % (t, i, k)) for k, (a, b) in enumerate(zip(rv, s))]
                    RVC[(t, i)] = rv
        for t, i, s in src:
            for b, w in self.rf[(t, i)]:
                v = zero if w is None else RVC[w]
                O.append('(assert (=> %s (and %s)))' % (b, ' '.join('(= %s %s)' % (x, y) for x, y in zip(s, v))))
        self.VC = VC
        # coherence
        for loc in set(W) | set(R):
            es = {}
            for t, i, e in W.get(loc, []) + R.get(loc, []):
                es[(t, i)] = e
            ks = sorted(es)
            for a in ks:
                for b in ks:
                    if a == b:
                        continue
                    if a[0] == b[0]:
                        if a[1] > b[1]:
                            continue
                        g = 'true'
                    elif b[0] == n:
                        g = 'true'
                    elif a[0] == n:
                        continue
                    else:
                        g = ge(VC[b][a[0]], a[1] + 1)
                    if g == 'false':
                        continue
                    ea, eb = es[a], es[b]
                    c = ''
                    wa, wb, ra, rb = 'mo_%d_%d' % a, 'mo_%d_%d' % b, 'm_%d_%d' % a, 'm_%d_%d' % b
                    if ea.k in 'WU' and eb.k in 'WU':
                        c += '(< %s %s)' % (wa, wb)
                    if ea.k in 'WU' and eb.k in 'RU':
                        c += '(<= %s %s)' % (wa, rb)
                    if ea.k in 'RU' and eb.k in 'WU':
                        c += '(< %s %s)' % (ra, wb)
                    if ea.k in 'RU' and eb.k in 'RU':
                        c += '(<= %s %s)' % (ra, rb)
                    O.append('(assert (and %s))' % c if g == 'true' else '(assert (=> %s (and %s)))' % (g, c))
        self.W, self.R = W, R

    def hb(self, a, b):
        """event a of one thread happens before event b of another"""
        return ge(self.VC[b][a[0]], a[1] + 1)

    def badness(self):
        """[(condition, description)]"""
        out = []
        n = self.n
        allp = self.paths + ([self.fin] if self.fin else [])
        complete = self.fin is not None and all(p.status == 'done' for p in allp)
        for t, p in enumerate(allp):
            if p.status == 'bad':
                out.append(('true', 'thread %d: %s' % (t + 1, p.msg)))
            for c, msg in p.obtxt:
                out.append(('(not %s)' % c, 'thread %d: %s' % (t + 1, msg)))
        # data races
        for loc in sorted(set(self.W) | set(self.R)):
            es = {(t, i): e for t, i, e in self.W.get(loc, []) + self.R.get(loc, []) if t < n}
            ks = sorted(es)
            for x, a in enumerate(ks):
                for b in ks[x + 1:]:
                    if a[0] == b[0]:
                        continue
                    ea, eb = es[a], es[b]
                    if ea.at and eb.at or ea.k == 'R' and eb.k == 'R':
                        continue
                    out.append(('(not (or %s %s))' % (self.hb(a, b), self.hb(b, a)),
                                'data race between threads %d and %d at %s' % (a[0] + 1, b[0] + 1, locname(loc, allp[0]))))
        # accesses against releases
        for t, p in enumerate(self.paths):
            for i, e in enumerate(p.evs):
                if e.k != 'D':
                    continue
                for t2, q in enumerate(allp):
                    if t2 == t:
                        continue
                    last = None
                    for i2, e2 in enumerate(q.evs):
                        if e2.k == 'A' and e2.loc == e.loc or e2.k in 'RWU' and e2.loc[0] == e.loc:
                            last = i2
                        if e2.k == 'D' and e2.loc == e.loc and t2 > t:
                            out.append(('true', 'block released by threads %d and %d' % (t + 1, t2 + 1)))
                    if last is None:
                        continue
                    if t2 == n:
                        out.append(('true', 'block used after the threads released it'))
                    else:
                        out.append(('(not %s)' % self.hb((t2, last), (t, i)),
                                    'memory released by thread %d while thread %d still uses it' % (t + 1, t2 + 1)))
        if complete:
            gone = set()
            for p in allp:
                gone |= p.freed
            for o in allp[0].live:
                if o not in gone:
                    out.append(('true', 'block is never released'))
        # a thread that keeps seeing the final value of a location and does not get on
        for t, p in enumerate(self.paths):
            if p.status != 'cut' or any(q.status != 'done' for k, q in enumerate(self.paths) if k != t):
                continue
            tail = [(i, e) for i, e in enumerate(p.evs) if e.k in 'RWU']
            if not tail:
                continue
            loc = tail[-1][1].loc
            tail = [(i, e) for i, e in tail if e.loc == loc]
            if len(tail) < 2 or any(e.k != 'R' or e.spur or e.site is None or e.site != tail[-1][1].site for i, e in tail[-2:]):
                continue
            cs = ['(>= m_%d_%d mo_%d_%d)' % (t, i, t2, i2) for i, e in tail[-2:] for t2, i2, e2 in self.W.get(loc, [])]
            out.append(('(and true %s)' % ' '.join(cs), 'thread %d waits forever' % (t + 1)))
        return [x for x in out if x[0] not in ('false', '(not true)')]

    def text(self, bad):
        s = ''.join(self.out)
        if bad is not None:
            s += '(assert (or %s))' % ' '.join(sorted({b for b, _ in bad}))
        return s


def locname(loc, p):
    if loc[0] in p.blocks:
        return 'block %d offset %d' % (p.blocks.index(loc[0]), loc[1])
    return 'static %s' % rt.Mem.mod.by_id.get(loc[0], loc[0])


class Stats:
    def __init__(self):
        self.combos = 0
        self.queries = 0
        self.time = 0.0
        self.sat = 0


class Model:
    def __init__(self, m):
        self.m = m
        self.d = {d.name(): m[d] for d in m.decls() if d.arity() == 0}

    def int(self, n):
        v = self.d.get(n)
        return 0 if v is None else v.as_long()

    def bool(self, n):
        v = self.d.get(n)
        return v is not None and z3.is_true(v)

    def val(self, e):
        if e.__class__ is int:
            return e
        e = z3.substitute(e, [(z3.Const(k, v.sort()), v) for k, v in self.d.items()])
        e = z3.simplify(e)
        if z3.is_true(e) or z3.is_false(e):
            return int(z3.is_true(e))
        if z3.is_bv_value(e):
            return e.as_long()
        return 0    # unconstrained

    def cond(self, c):
        return self.m.eval(c, model_completion=True)


def solve(text, st, timeout=120000):
    s = z3.Solver()
    s.set('timeout', timeout)
    t = time.time()
    s.from_string(text)
    r = s.check()
    st.time += time.time() - t
    st.queries += 1
    if r == z3.unknown:
        raise EngineError('solver gave no answer: ' + s.reason_unknown())
    return Model(s.model()) if r == z3.sat else None


def trace(c, m, bad):
    """a concrete execution: per thread inputs and the shared events in one total order"""
    allp = c.paths + ([c.fin] if c.fin else [])
    order = sorted(((t, i) for t, p in enumerate(allp) for i, e in enumerate(p.evs) if e.k in 'RWU'),
                   key=lambda k: (k[0] == c.n, m.int('ts_%d_%d' % k), k))
    evs = []
    p0 = allp[0]
    for t, i in order:
        e = allp[t].evs[i]
        d = {'thread': t + 1, 'kind': e.k, 'at': locname(e.loc, p0), 'block': p0.blocks.index(e.loc[0]) if e.loc[0] in p0.blocks else -1,
             'off': e.loc[1], 'size': e.loc[2], 'atomic': e.at, 'ro': e.ro, 'wo': e.wo, 'spurious': e.spur}
        if e.k in 'RU':
            d['read'] = m.val(rt.bv(e.rv, 8 * e.loc[2]))
            for b, w in c.rf[(t, i)]:
                if m.bool(b):
                    d['from'] = -1 if w is None else order.index(w)
        if e.k in 'WU':
            d['mo'] = m.int('mo_%d_%d' % (t, i))
            d['write'] = m.val(rt.bv(e.wv, 8 * e.loc[2]))
        evs.append(d)
    what = []
    if bad:
        for cnd, d in bad:
            if cnd == 'true':
                what.append(d)
                continue
            s = z3.Solver()
            s.from_string(c.text([(cnd, d)]))
            # the same execution
            for k, v in m.d.items():
                s.add(z3.Const(k, v.sort()) == v)
            if s.check() == z3.sat:
                what.append(d)
    return {'what': what, 'inputs': [[m.val(v) for v in p.inputs] for p in allp], 'setup': list(p0.group),
            'status': [p.status for p in allp], 'events': evs,
            'log': [[(a, m.val(b)) for a, b in p.log] for p in allp]}
