"""Run-time of the symbolic executor: memory model, symbolic operators, path exploration.

One process explores one harness.  Exploration is by decision replay: a path is a list of decisions;
to take the other side of a branch the harness is re-executed with the recorded prefix.  Every branch
on a symbolic value asks the solver which sides are feasible, every assertion and every memory access
with a symbolic extent is a solver query over all remaining values.
"""
import re
import sys
import time
import z3

sys.setrecursionlimit(20000)

SH = 24
WIN = 1 << SH
HALF = 1 << (SH - 1)
WM = WIN - 1
M64 = (1 << 64) - 1
FIRST_DYN = 1 << 20
HOOK_ENTRY = False
FUNCS_SEEN = set()

BVV = z3.BitVecVal
If = z3.If


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


class Part:
    """integer of which some bytes are uninitialised"""
    __slots__ = ('bs',)

    def __init__(self, bs):
        self.bs = bs


class EngineError(Exception):
    """the engine cannot answer (unsupported construct, solver unknown, bound exceeded)"""


class StepLimit(EngineError):
    pass


class RustPanic(Exception):
    def __init__(self, h=0, msg=''):
        self.h = h
        self.msg = msg


class PathEnd(Exception):
    """end of this path (assumption failed)"""


class Violation(Exception):
    def __init__(self, kind, msg):
        self.kind = kind
        self.msg = msg


def mkbase(i, align):
    return (i << SH) + HALF + (align & (HALF - 1))


class Obj:
    __slots__ = ('id', 'base', 'size', 'cap', 'data', 'live', 'kind', 'align', 'name', 'minsz', 'meta')

    def __init__(self, i, base, size, cap, data, kind, align, name=''):
        self.id = i
        self.base = base
        self.size = size      # int or BV64
        self.cap = cap        # int upper bound, len(data)
        self.data = data
        self.live = True
        self.kind = kind
        self.align = align
        self.name = name
        self.minsz = size if size.__class__ is int else 0
        self.meta = None


T = [0]
LIM = [3_000_000]
CALLS = [0]


class Path:
    """state of the path being executed"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.objs = {}
        self.next_id = FIRST_DYN
        self.inputs = []       # (var, bytes)
        self.log = []
        self.covers = set()
        self.pos = 0           # position in prefix
        self.prefix = []
        self.decisions = []
        self.npc = 0           # constraints in solver stack used by this path
        self.known = {}
        self.keep = []
        self.model = None
        self.exc = {}
        self.live_heap = 0
        self.flags = {}


P = Path()


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_time = 0.0
        self.paths = 0
        self.aborted = 0
        self.asserts = 0
        self.assert_queries = 0
        self.forks = 0


ST = Stats()

SOLVER = z3.SolverFor('QF_BV') if False else z3.Solver()
SOLVER.set('timeout', 120000)
STACK = []
PENDING = []


def _sync():
    """drop solver levels that do not belong to this path"""
    n = P.npc
    k = len(STACK)
    if k > n:
        SOLVER.pop(k - n)
        del STACK[n:]


def add_constraint(e):
    i = P.npc
    if i < len(STACK):
        if STACK[i].eq(e):
            P.npc = i + 1
            return
        _sync()
    SOLVER.push()
    SOLVER.add(e)
    STACK.append(e)
    P.npc = i + 1


def query(e=None):
    """sat(pc and e)?  returns True/False; sets P.model when sat"""
    _sync()
    t = time.time()
    ST.queries += 1
    if e is None:
        r = SOLVER.check()
    else:
        r = SOLVER.check(e)
    ST.solver_time += time.time() - t
    if r == z3.sat:
        return True, SOLVER.model()
    if r == z3.unsat:
        return False, None
    raise EngineError('solver gave no answer: ' + SOLVER.reason_unknown())


def model():
    if P.model is None:
        ok, m = query()
        if not ok:
            raise EngineError('path condition unsatisfiable')
        P.model = m
    return P.model


def mev(e):
    r = model().eval(e, model_completion=True)
    return r


def _notsimp(e):
    return z3.simplify(z3.Not(e))


def learn(c, truth):
    P.known[c.get_id()] = truth
    P.keep.append(c)


def decide(c):
    """branch on a boolean: returns Python bool"""
    if c.__class__ is int:
        return c != 0
    if c is UNDEF or c.__class__ is Part:
        raise Violation('uninit', 'branch on an uninitialised value')
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    k = P.known.get(c.get_id())
    if k is not None:
        return k
    nc = z3.simplify(z3.Not(c))
    k = P.known.get(nc.get_id())
    if k is not None:
        return not k
    if P.pos < len(P.prefix):
        d, forced = P.prefix[P.pos]
        P.pos += 1
        P.decisions.append((d, forced))
        if not forced:
            add_constraint(c if d else nc)
        learn(c, d)
        return d
    m = model()
    v = z3.is_true(m.eval(c, model_completion=True))
    other, om = query(nc if v else c)
    if other:
        # fork: the other side becomes a pending prefix
        PENDING.append(P.decisions + [(not v, False)])
        ST.forks += 1
        P.decisions.append((v, False))
        add_constraint(c if v else nc)
    else:
        P.decisions.append((v, True))
    P.pos += 1
    P.prefix = P.decisions
    learn(c, v)
    return v


def must(c):
    """is c true for every value on this path?  (returns True or a model of the negation)"""
    if c.__class__ is int:
        return True if c else model()
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return model()
    if P.known.get(c.get_id()):
        return True
    # replay of an already explored prefix: answers are recorded as forced decisions
    if P.pos < len(P.prefix):
        d, forced = P.prefix[P.pos]
        P.pos += 1
        P.decisions.append((d, forced))
        learn(c, True)
        return True
    ok, m = query(z3.Not(c))
    if ok:
        return m
    P.decisions.append((True, True))
    P.pos += 1
    P.prefix = P.decisions
    learn(c, True)
    return True


def assume(c):
    if c.__class__ is int:
        if not c:
            raise PathEnd()
        return
    if c is UNDEF:
        raise Violation('uninit', 'assume on an uninitialised value')
    c = z3.simplify(c)
    if z3.is_true(c):
        return
    if z3.is_false(c):
        raise PathEnd()
    if P.known.get(c.get_id()):
        return
    add_constraint(c)
    learn(c, True)
    if P.pos < len(P.prefix):
        P.pos += 1
        P.decisions.append((True, True))
        return
    P.decisions.append((True, True))
    P.pos += 1
    P.prefix = P.decisions
    if P.model is not None and z3.is_true(P.model.eval(c, model_completion=True)):
        return
    P.model = None
    ok, m = query()
    if not ok:
        raise PathEnd()
    P.model = m


def concretize(e):
    """fork over the feasible values of e"""
    if e.__class__ is int:
        return e
    if e is UNDEF or e.__class__ is Part:
        raise Violation('uninit', 'address, length or selector computed from an uninitialised value')
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    n = 0
    while True:
        # candidate value must be deterministic under replay: record it in the decision
        if P.pos < len(P.prefix):
            rec = P.prefix[P.pos]
            v = rec[2] if len(rec) > 2 else None
            if v is None:
                raise EngineError('replay mismatch')
            d, forced = rec[0], rec[1]
            P.pos += 1
            P.decisions.append(rec)
            c = z3.simplify(e == BVV(v, e.size()))
            if not forced:
                add_constraint(c if d else z3.simplify(z3.Not(c)))
            if d:
                learn(c, True)
                return v
            continue
        m = model()
        v = m.eval(e, model_completion=True).as_long()
        c = z3.simplify(e == BVV(v, e.size()))
        nc = z3.simplify(z3.Not(c))
        other, om = query(nc)
        n += 1
        if n > 600:
            raise EngineError('concretisation of more than 600 values')
        if other:
            PENDING.append(P.decisions + [(False, False, v)])
            ST.forks += 1
            P.decisions.append((True, False, v))
            add_constraint(c)
        else:
            P.decisions.append((True, True, v))
        P.pos += 1
        P.prefix = P.decisions
        learn(c, True)
        return v


def sw(v, vals, w):
    """switch on a symbolic value: returns the concrete case value or -1 for default"""
    if v is UNDEF or v.__class__ is Part:
        raise Violation('uninit', 'switch on an uninitialised value')
    for c in vals:
        if w == 1:
            t = v if c else z3.Not(v)
        else:
            t = v == BVV(c, w)
        if decide(t):
            return c
    return -1


# ------------------------------------------------------------------------- values

def bv(x, w):
    if x.__class__ is int:
        return BVV(x, w)
    return x


def bl(x):
    if x.__class__ is int:
        return z3.BoolVal(bool(x))
    return x


def bad(x):
    return x is UNDEF or x.__class__ is Part


def norm(e):
    """keep terms small: fold constants"""
    if z3.is_bv_value(e):
        return e.as_long()
    return e


def simp(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return e


def from_bytes(bs):
    """byte cells -> value"""
    if all(b.__class__ is int for b in bs):
        return int.from_bytes(bytes(bs), 'little')
    if all(b is None for b in bs):
        return UNDEF
    if any(b is None for b in bs):
        return Part(list(bs))
    n = len(bs)
    f = bs[0]
    if f.__class__ is tuple and f[1] == 0:
        e = f[0]
        if e.size() == 8 * n and all(b.__class__ is tuple and b[1] == i and b[0] is e for i, b in enumerate(bs)):
            return e
    parts = []
    i = 0
    while i < n:
        b = bs[i]
        if b.__class__ is int:
            parts.append(BVV(b, 8))
            i += 1
            continue
        e, k = b
        j = i + 1
        while j < n and bs[j].__class__ is tuple and bs[j][0] is e and bs[j][1] == k + (j - i):
            j += 1
        c = j - i
        if k == 0 and e.size() == 8 * c:
            parts.append(e)
        else:
            parts.append(z3.Extract(8 * (k + c) - 1, 8 * k, e))
        i = j
    if len(parts) == 1:
        return simp(parts[0])
    return simp(z3.Concat(*reversed(parts)))


def to_bytes(v, n):
    if v.__class__ is int:
        return v.to_bytes(n, 'little')
    if v is UNDEF:
        return [None] * n
    if v.__class__ is Part:
        bs = v.bs
        return bs[:n] + [0] * (n - len(bs))
    if z3.is_bool(v):
        v = If(v, BVV(1, 8 * n), BVV(0, 8 * n))
    return [(v, i) for i in range(n)]


def _bin(f):
    def g(a, b, w):
        if bad(a) or bad(b):
            return UNDEF
        return norm(f(bv(a, w), bv(b, w)))
    return g


s_add = _bin(lambda a, b: a + b)
s_sub = _bin(lambda a, b: a - b)
s_mul = _bin(lambda a, b: a * b)
_s_and = _bin(lambda a, b: a & b)
_s_or = _bin(lambda a, b: a | b)
s_xor = _bin(lambda a, b: a ^ b)


def cells(v, n):
    return list(to_bytes(v, n))


def s_and(a, b, w):
    for x, y in ((a, b), (b, a)):
        if y.__class__ is int and y == 0:
            return 0
    if a.__class__ is Part or b.__class__ is Part:
        p, o = (a, b) if a.__class__ is Part else (b, a)
        if o.__class__ is int:
            m = o.to_bytes(w // 8, 'little')
            out = []
            for c, k in zip(p.bs, m):
                if k == 0:
                    out.append(0)
                elif k == 255:
                    out.append(c)
                elif c is None:
                    out.append(None)
                else:
                    x = from_bytes([c])
                    out.append(cells(s_and(x, k, 8) if x.__class__ is not int else x & k, 1)[0])
            return from_bytes(out)
    return _s_and(a, b, w)


def s_or(a, b, w):
    if a.__class__ is Part or b.__class__ is Part or ((a is UNDEF or b is UNDEF) and w % 8 == 0):
        if a is UNDEF and b is UNDEF:
            return UNDEF
        x, y = cells(a, w // 8), cells(b, w // 8)
        out = []
        for c, k in zip(x, y):
            if c.__class__ is int and c == 0:
                out.append(k)
            elif k.__class__ is int and k == 0:
                out.append(c)
            elif c is None or k is None:
                out.append(None)
            else:
                p, q = from_bytes([c]), from_bytes([k])
                out.append(cells(p | q if p.__class__ is int and q.__class__ is int else _s_or(p, q, 8), 1)[0])
        return from_bytes(out)
    return _s_or(a, b, w)


def s_shl(a, b, w):
    if b.__class__ is int:
        if b >= w:
            return UNDEF
        if a.__class__ is int:
            return (a << b) & ((1 << w) - 1)
        if a is UNDEF and b and b % 8 == 0 and w % 8 == 0:
            return Part([0] * (b // 8) + [None] * (w // 8 - b // 8))
        if a.__class__ is Part:
            if b % 8 == 0:
                return from_bytes([0] * (b // 8) + a.bs[:w // 8 - b // 8])
            return UNDEF
    if bad(a) or bad(b):
        return UNDEF
    return norm(bv(a, w) << bv(b, w))


def s_lshr(a, b, w):
    if b.__class__ is int:
        if b >= w:
            return UNDEF
        if a.__class__ is int:
            return a >> b
        if a is UNDEF and b and b % 8 == 0 and w % 8 == 0:
            return Part([None] * (w // 8 - b // 8) + [0] * (b // 8))
        if a.__class__ is Part:
            if b % 8 == 0:
                return from_bytes(a.bs[b // 8:] + [0] * (b // 8))
            return UNDEF
    if bad(a) or bad(b):
        return UNDEF
    return norm(z3.LShR(bv(a, w), bv(b, w)))


def s_ashr(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        if a >> (w - 1):
            a -= 1 << w
        return (a >> min(b, w - 1)) & ((1 << w) - 1)
    if bad(a) or bad(b):
        return UNDEF
    return norm(bv(a, w) >> bv(b, w))


def _sg(a, w):
    return a - (1 << w) if a >> (w - 1) else a


def _div(name, conc, sym):
    def g(a, b, w):
        if bad(a) or bad(b):
            return UNDEF
        if b.__class__ is int:
            if b == 0:
                raise Violation('ub', 'division by zero')
            if a.__class__ is int:
                return conc(a, b, w)
        elif must(b != 0) is not True:
            raise Violation('ub', 'division by zero')
        return norm(sym(bv(a, w), bv(b, w)))
    return g


def _csdiv(a, b, w):
    a, b = _sg(a, w), _sg(b, w)
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0):
        q = -q
    return q & ((1 << w) - 1)


def _csrem(a, b, w):
    a, b = _sg(a, w), _sg(b, w)
    r = abs(a) % abs(b)
    if a < 0:
        r = -r
    return r & ((1 << w) - 1)


s_udiv = _div('udiv', lambda a, b, w: a // b, lambda a, b: z3.UDiv(a, b))
s_urem = _div('urem', lambda a, b, w: a % b, lambda a, b: z3.URem(a, b))
s_sdiv = _div('sdiv', _csdiv, lambda a, b: a / b)
s_srem = _div('srem', _csrem, lambda a, b: z3.SRem(a, b))


def b_and(a, b):
    if a.__class__ is int and a == 0 or b.__class__ is int and b == 0:
        return 0
    if bad(a) or bad(b):
        return UNDEF
    if a.__class__ is int:
        return b
    if b.__class__ is int:
        return a
    return z3.And(a, b)


def b_or(a, b):
    if a.__class__ is int and a == 1 or b.__class__ is int and b == 1:
        return 1
    if bad(a) or bad(b):
        return UNDEF
    if a.__class__ is int:
        return b
    if b.__class__ is int:
        return a
    return z3.Or(a, b)


def b_xor(a, b):
    if bad(a) or bad(b):
        return UNDEF
    if a.__class__ is int:
        return z3.Not(b) if a else b
    if b.__class__ is int:
        return z3.Not(a) if b else a
    return z3.Xor(a, b)


b_add = b_sub = b_xor
b_mul = b_and


def mkbool(e):
    if e is True or e is False:
        return int(e)
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


def _cmp(sym, boolsym=None):
    def g(a, b, w):
        if bad(a) or bad(b):
            return UNDEF
        if w == 1:
            a, b = bl(a), bl(b)
            return mkbool(boolsym(a, b))
        return mkbool(sym(bv(a, w), bv(b, w)))
    return g


c_eq = _cmp(lambda a, b: a == b, lambda a, b: a == b)
c_ne = _cmp(lambda a, b: a != b, lambda a, b: a != b)
c_ult = _cmp(z3.ULT, lambda a, b: z3.And(z3.Not(a), b))
c_ugt = _cmp(z3.UGT, lambda a, b: z3.And(a, z3.Not(b)))
c_ule = _cmp(z3.ULE, lambda a, b: z3.Or(z3.Not(a), b))
c_uge = _cmp(z3.UGE, lambda a, b: z3.Or(a, z3.Not(b)))


def _scmp(conc, sym):
    def g(a, b, w):
        if a.__class__ is int and b.__class__ is int:
            return 1 if conc(_sg(a, w), _sg(b, w)) else 0
        if bad(a) or bad(b):
            return UNDEF
        if w == 1:
            a, b = bool_bv(a, 1), bool_bv(b, 1)
        return mkbool(sym(bv(a, w), bv(b, w)))
    return g


c_slt = _scmp(lambda a, b: a < b, lambda a, b: a < b)
c_sgt = _scmp(lambda a, b: a > b, lambda a, b: a > b)
c_sle = _scmp(lambda a, b: a <= b, lambda a, b: a <= b)
c_sge = _scmp(lambda a, b: a >= b, lambda a, b: a >= b)


def bool_bv(x, w):
    if x.__class__ is int:
        return BVV(x, w)
    return If(x, BVV(1, w), BVV(0, w))


def s_zext(v, a, b):
    if v is UNDEF:
        if a % 8 == 0 and b % 8 == 0:
            return Part([None] * (a // 8) + [0] * (b // 8 - a // 8))
        return UNDEF
    if v.__class__ is Part:
        if a % 8 == 0 and b % 8 == 0:
            return from_bytes(v.bs + [0] * (b // 8 - a // 8))
        return UNDEF
    if a == 1:
        return bool_bv(v, b)
    return z3.ZeroExt(b - a, v)


def s_sext(v, a, b):
    if v.__class__ is int:
        return _sg(v, a) & ((1 << b) - 1)
    if bad(v):
        return UNDEF
    if a == 1:
        return If(v, BVV((1 << b) - 1, b), BVV(0, b))
    return z3.SignExt(b - a, v)


def s_trunc(v, a, b):
    if v is UNDEF:
        return UNDEF
    if v.__class__ is Part:
        if b % 8 == 0:
            return from_bytes(v.bs[:b // 8])
        r = from_bytes(v.bs[:1])
        if b < 8:
            if r.__class__ is int:
                return r & ((1 << b) - 1)
            return s_trunc(r, 8, b)
        return UNDEF
    if b == 1:
        # common: zext bool -> trunc
        if v.num_args() == 3 and z3.is_app_of(v, z3.Z3_OP_ITE):
            t, e = v.arg(1), v.arg(2)
            if z3.is_bv_value(t) and z3.is_bv_value(e) and t.as_long() & 1 == 1 and e.as_long() & 1 == 0:
                return v.arg(0)
        return mkbool(z3.simplify(z3.Extract(0, 0, v) == BVV(1, 1)))
    return simp(z3.Extract(b - 1, 0, v))


def s_ite(c, a, b, w):
    if c.__class__ is int:
        return a if c else b
    if bad(c):
        return UNDEF
    if a is b:
        return a
    if bad(a) or bad(b):
        return a if decide(c) else b
    if w == 1:
        return mkbool(z3.simplify(If(c, bl(a), bl(b))))
    return norm(If(c, bv(a, w), bv(b, w)))


def freeze(v, w):
    if v.__class__ is Part or v is UNDEF:
        n = P.flags['frz'] = P.flags.get('frz', 0) + 1
        if w == 1:
            return z3.Bool('frz%d' % n)
        return z3.BitVec('frz%d_%d' % (n, w), w)
    return v


def sx(v, w):
    return s_sext(v, w, 64)


def s_gep(base, off, syms):
    if bad(base):
        return UNDEF
    r = bv(base, 64)
    conc = off
    for e, s in syms:
        if e.__class__ is int:
            conc += e * s
        elif bad(e):
            return UNDEF
        else:
            r = r + (e if s == 1 else e * BVV(s, 64))
    if conc:
        r = r + BVV(conc & M64, 64)
    return simp(r)


def padd(a, o):
    if a.__class__ is int:
        return (a + o) & M64
    return s_add(a, o, 64)


def insertv(agg, e, idx):
    i = idx[0]
    x = e if len(idx) == 1 else insertv(agg[i], e, idx[1:])
    return agg[:i] + (x,) + agg[i + 1:]


# ------------------------------------------------------------------------- intrinsics

def _int2(conc, sym):
    def g(a, b, w):
        if a.__class__ is int and b.__class__ is int:
            return conc(a, b, w)
        if bad(a) or bad(b):
            return UNDEF
        return norm(sym(bv(a, w), bv(b, w), w))
    return g


in_umax = _int2(lambda a, b, w: max(a, b), lambda a, b, w: If(z3.UGE(a, b), a, b))
in_umin = _int2(lambda a, b, w: min(a, b), lambda a, b, w: If(z3.ULE(a, b), a, b))
in_smax = _int2(lambda a, b, w: a if _sg(a, w) >= _sg(b, w) else b, lambda a, b, w: If(a >= b, a, b))
in_smin = _int2(lambda a, b, w: a if _sg(a, w) <= _sg(b, w) else b, lambda a, b, w: If(a <= b, a, b))
in_usub_sat = _int2(lambda a, b, w: max(a - b, 0), lambda a, b, w: If(z3.UGE(a, b), a - b, BVV(0, w)))
in_uadd_sat = _int2(lambda a, b, w: min(a + b, (1 << w) - 1),
                    lambda a, b, w: If(z3.ULT(a + b, a), BVV((1 << w) - 1, w), a + b))


def _ovf(conc, sym):
    def g(a, b, w):
        if a.__class__ is int and b.__class__ is int:
            return conc(a, b, w)
        if bad(a) or bad(b):
            return (UNDEF, UNDEF)
        r, o = sym(bv(a, w), bv(b, w), w)
        return (simp(r), mkbool(z3.simplify(o)))
    return g


def _s(a, b, w, r):
    m = (1 << w) - 1
    return (r & m, 1 if not (-(1 << (w - 1)) <= r < (1 << (w - 1))) else 0)


def _umulo(a, b, w):
    # multiplication by a constant: compare with the quotient (keeps the query linear)
    for x, y in ((a, b), (b, a)):
        if z3.is_bv_value(x):
            c = x.as_long()
            if c == 0:
                return BVV(0, w), z3.BoolVal(False)
            return y * x, z3.UGT(y, BVV(((1 << w) - 1) // c, w))
    return a * b, z3.Not(z3.BVMulNoOverflow(a, b, False))


in_uadd_with_overflow = _ovf(lambda a, b, w: ((a + b) & ((1 << w) - 1), 1 if (a + b) >> w else 0),
                             lambda a, b, w: (a + b, z3.ULT(a + b, a)))
in_usub_with_overflow = _ovf(lambda a, b, w: ((a - b) & ((1 << w) - 1), 1 if a < b else 0),
                             lambda a, b, w: (a - b, z3.ULT(a, b)))
in_umul_with_overflow = _ovf(lambda a, b, w: ((a * b) & ((1 << w) - 1), 1 if (a * b) >> w else 0), _umulo)
in_sadd_with_overflow = _ovf(lambda a, b, w: _s(a, b, w, _sg(a, w) + _sg(b, w)),
                             lambda a, b, w: (a + b, z3.Not(z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)))))
in_ssub_with_overflow = _ovf(lambda a, b, w: _s(a, b, w, _sg(a, w) - _sg(b, w)),
                             lambda a, b, w: (a - b, z3.Not(z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)))))
in_smul_with_overflow = _ovf(lambda a, b, w: _s(a, b, w, _sg(a, w) * _sg(b, w)),
                             lambda a, b, w: (a * b, z3.Not(z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)))))


def in_ctpop(a, w):
    if a.__class__ is int:
        return bin(a).count('1')
    if bad(a):
        return UNDEF
    r = BVV(0, w)
    for i in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, a))
    return r


def in_ctlz(a, z, w):
    if a.__class__ is int:
        return w - a.bit_length()
    if bad(a):
        return UNDEF
    r = BVV(w, w)
    for i in range(w):
        r = If(z3.Extract(i, i, a) == BVV(1, 1), BVV(w - 1 - i, w), r)
    return r


def in_cttz(a, z, w):
    if a.__class__ is int:
        return (a & -a).bit_length() - 1 if a else w
    if bad(a):
        return UNDEF
    r = BVV(w, w)
    for i in reversed(range(w)):
        r = If(z3.Extract(i, i, a) == BVV(1, 1), BVV(i, w), r)
    return r


def in_bswap(a, w):
    if a.__class__ is int:
        return int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')
    if bad(a):
        return UNDEF
    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a) for i in range(w // 8)])


def in_fshl(a, b, c, w):
    if c.__class__ is int:
        c %= w
        if c == 0:
            return a
        if a.__class__ is int and b.__class__ is int:
            return ((a << c) | (b >> (w - c))) & ((1 << w) - 1)
        if bad(a) or bad(b):
            return UNDEF
        return norm((bv(a, w) << c) | z3.LShR(bv(b, w), w - c))
    raise EngineError('fshl symbolic amount')


def in_fshr(a, b, c, w):
    if c.__class__ is int:
        c %= w
        if c == 0:
            return b
        return in_fshl(a, b, w - c, w)
    raise EngineError('fshr symbolic amount')


def in_abs(a, z, w):
    if a.__class__ is int:
        return abs(_sg(a, w)) & ((1 << w) - 1)
    return If(a < 0, -a, a)


def in_ucmp(a, b, w, rw):
    if a.__class__ is int and b.__class__ is int:
        return ((a > b) - (a < b)) & ((1 << rw) - 1)
    if bad(a) or bad(b):
        return UNDEF
    a, b = bv(a, w), bv(b, w)
    return If(z3.ULT(a, b), BVV((1 << rw) - 1, rw), If(a == b, BVV(0, rw), BVV(1, rw)))


def in_scmp(a, b, w, rw):
    if a.__class__ is int and b.__class__ is int:
        a, b = _sg(a, w), _sg(b, w)
        return ((a > b) - (a < b)) & ((1 << rw) - 1)
    if bad(a) or bad(b):
        return UNDEF
    a, b = bv(a, w), bv(b, w)
    return If(a < b, BVV((1 << rw) - 1, rw), If(a == b, BVV(0, rw), BVV(1, rw)))


def in_bitreverse(a, w):
    if a.__class__ is int:
        return int(bin(a)[2:].zfill(w)[::-1], 2)
    raise EngineError('bitreverse')


# --- small vectors (tuples)

def vec_bin(op, a, b, w):
    g = globals()
    out = []
    for x, y in zip(a, b):
        if x.__class__ is int and y.__class__ is int:
            m = (1 << w) - 1
            if op == 'add':
                r = (x + y) & m
            elif op == 'sub':
                r = (x - y) & m
            elif op == 'mul':
                r = (x * y) & m
            elif op == 'and':
                r = x & y
            elif op == 'or':
                r = x | y
            elif op == 'xor':
                r = x ^ y
            else:
                r = g['s_' + op](x, y, w)
        elif w == 1:
            r = g['b_' + op](x, y)
        else:
            r = g['s_' + op](x, y, w)
        out.append(r)
    return tuple(out)


def vec_icmp(pred, a, b, w):
    g = globals()['c_' + pred]
    out = []
    for x, y in zip(a, b):
        r = g(x, y, w)
        if r.__class__ is not int and not bad(r):
            r = mkbool(z3.simplify(r))
        out.append(r)
    return tuple(out)


def vec_cast(op, v, a, b):
    g = globals()['s_' + op]
    return tuple((x & ((1 << b) - 1) if op == 'trunc' else x) if x.__class__ is int and op != 'sext' else g(x, a, b) for x in v)


def _tbits(t):
    return t[1] if t[0] in 'if' else 64


def vec_bitcast(v, st, dt):
    """via bit concatenation"""
    def flat(v, t):
        if t[0] == 'v':
            w = _tbits(t[2])
            n = t[1]
            if all(x.__class__ is int for x in v):
                r = 0
                for i, x in enumerate(v):
                    r |= x << (w * i)
                return r, w * n
            if any(bad(x) for x in v):
                return UNDEF, w * n
            es = [bool_bv(x, 1) if w == 1 else bv(x, w) for x in v]
            return simp(z3.Concat(*reversed(es))), w * n
        return v, _tbits(t)
    x, w = flat(v, st)
    if dt[0] != 'v':
        return x
    ew = _tbits(dt[2])
    n = dt[1]
    if x.__class__ is int:
        return tuple((x >> (ew * i)) & ((1 << ew) - 1) for i in range(n))
    if bad(x):
        return (UNDEF,) * n
    return tuple(simp(z3.Extract(ew * i + ew - 1, ew * i, x)) for i in range(n))


def vec_vector_reduce_add(v, w):
    r = v[0]
    for x in v[1:]:
        r = vec_bin('add', (r,), (x,), w)[0]
    return r


def vec_vector_reduce_or(v, w):
    r = v[0]
    for x in v[1:]:
        r = vec_bin('or', (r,), (x,), w)[0]
    return r


def vec_vector_reduce_and(v, w):
    r = v[0]
    for x in v[1:]:
        r = vec_bin('and', (r,), (x,), w)[0]
    return r


def shuf(a, b, m):
    ab = tuple(a) + tuple(b)
    return tuple(UNDEF if i is UNDEF else ab[i] for i in m)


# ------------------------------------------------------------------------- memory

class Mem:
    mod = None
    baseline = None


def new_stack(size, align, fr):
    i = P.next_id
    P.next_id = i + 1
    b = (i << SH) + HALF + align
    o = Obj(i, b, size, size, [None] * size, 'stack', align)
    P.objs[i] = o
    fr.append(o)
    return b


def kill_stack(o):
    o.live = False
    o.data = None


def new_heap(size, cap, align):
    i = P.next_id
    P.next_id = i + 1
    b = (i << SH) + HALF + align
    o = Obj(i, b, size, cap, [None] * cap, 'heap', align)
    P.objs[i] = o
    return o


def find(addr):
    i = addr >> SH
    o = P.objs.get(i)
    if o is None:
        g = Mem.mod.global_obj(i)
        if g is None:
            return None
        if g[0] == 'func':
            o = Obj(i, Mem.mod.addr[g[1]], 0, 0, [], 'func', 16, g[1])
        else:
            _, name, size, data, const = g
            o = Obj(i, Mem.mod.addr[name], size, size, data if const else list(data), 'const' if const else 'global', 16, name)
        P.objs[i] = o
    return o


def access(addr, n, what):
    """-> (obj, offset) of a valid access to n>0 bytes"""
    o = find(addr)
    if o is None:
        raise Violation('oob', '%s of %d bytes through an invalid pointer %#x' % (what, n, addr))
    off = addr - o.base
    if not o.live:
        raise Violation('uaf', '%s of %d bytes in freed or out-of-scope %s memory' % (what, n, o.kind))
    if off < 0 or off + n > o.minsz:
        check_range(o, off, n, what)
    return o, off


def check_range(o, off, n, what):
    if off < 0 or off + n > o.cap:
        raise Violation('oob', '%s of %d bytes at offset %d of %s object of %s bytes' % (what, n, off, o.kind, o.size))
    r = must(z3.UGE(o.size, BVV(off + n, 64)))
    if r is not True:
        P.model = r
        raise Violation('oob', '%s of %d bytes at offset %d beyond the allocated size' % (what, n, off))
    o.minsz = off + n


def load(addr, n):
    if addr.__class__ is not int:
        r = load_table(addr, n)
        if r is not None:
            return r
        addr = concretize(addr)
    o = P.objs.get(addr >> SH)
    if o is not None and o.live:
        off = addr - o.base
        if off < 0 or off + n > o.minsz:
            o, off = access(addr, n, 'read')
    else:
        o, off = access(addr, n, 'read')
    s = o.data[off:off + n]
    try:
        return int.from_bytes(bytes(s), 'little')
    except TypeError:
        return from_bytes(s)


def load_table(addr, n):
    """symbolic read from an object of which every byte is initialised: an if-then-else over intervals"""
    if bad(addr):
        raise Violation('uninit', 'address computed from an uninitialised value')
    addr = z3.simplify(addr)
    if z3.is_bv_value(addr):
        return load(addr.as_long(), n)
    if P.pos < len(P.prefix) and len(P.prefix[P.pos]) > 3:
        rec = P.prefix[P.pos]
        P.pos += 1
        P.decisions.append(rec)
        oid = rec[3]
        if oid is None:
            return None
    elif P.pos < len(P.prefix):
        return None
    else:
        v = model().eval(addr, model_completion=True).as_long()
        oid = v >> SH
        o = find(v)
        ok = False
        if o is not None and o.live and o.kind == 'const' and n <= 4 and o.cap <= 2048:
            lo, hi = o.base, o.base + o.cap - n
            bad_, _ = query(z3.Not(z3.And(z3.UGE(addr, BVV(lo, 64)), z3.ULE(addr, BVV(hi, 64)))))
            ok = not bad_
        rec = (True, True, 0, oid if ok else None)
        P.decisions.append(rec)
        P.pos += 1
        P.prefix = P.decisions
        if not ok:
            return None
    o = find(oid << SH)
    off = z3.simplify(addr - BVV(o.base, 64))
    vals = []
    for i in range(0, o.cap - n + 1):
        vals.append(from_bytes(o.data[i:i + n]))
    runs = []
    if n == 1:
        for i, v in enumerate(vals):
            if runs and runs[-1][1] == v:
                continue
            runs.append((i, v))
        e = BVV(runs[-1][1], 8)
        for k in range(len(runs) - 2, -1, -1):
            e = If(z3.ULT(off, BVV(runs[k + 1][0], 64)), BVV(runs[k][1], 8), e)
        return e
    e = BVV(0, 8 * n)
    for i in range(0, len(vals), n):
        e = If(off == BVV(i, 64), bv(vals[i], 8 * n), e)
    return e


def store(addr, v, n):
    if addr.__class__ is not int:
        addr = concretize(addr)
    o = P.objs.get(addr >> SH)
    if o is not None and o.live:
        off = addr - o.base
        if off < 0 or off + n > o.minsz:
            o, off = access(addr, n, 'write')
    else:
        o, off = access(addr, n, 'write')
    if o.kind == 'const':
        raise Violation('ub', 'write to constant ' + o.name)
    o.data[off:off + n] = v.to_bytes(n, 'little') if v.__class__ is int else to_bytes(v, n)


def load_odd(addr, w):
    n = (w + 7) // 8
    v = load(addr, n)
    if v.__class__ is int:
        return v & ((1 << w) - 1)
    return s_trunc(v, 8 * n, w)


def store_odd(addr, v, w):
    n = (w + 7) // 8
    if v.__class__ is not int:
        v = s_zext(v, w, 8 * n)
    store(addr, v, n)


def _len(n):
    return n if n.__class__ is int else concretize(n)


def memcpy(d, s, n):
    n = _len(n)
    if n == 0:
        return
    d = d if d.__class__ is int else concretize(d)
    s = s if s.__class__ is int else concretize(s)
    so, soff = access(s, n, 'copy source read')
    do, doff = access(d, n, 'copy destination write')
    if so is do and soff != doff and abs(soff - doff) < n:
        raise Violation('ub', 'copy_nonoverlapping of overlapping ranges')
    if do.kind == 'const':
        raise Violation('ub', 'write to constant ' + do.name)
    do.data[doff:doff + n] = so.data[soff:soff + n]


def memmove(d, s, n):
    n = _len(n)
    if n == 0:
        return
    d = d if d.__class__ is int else concretize(d)
    s = s if s.__class__ is int else concretize(s)
    so, soff = access(s, n, 'copy source read')
    do, doff = access(d, n, 'copy destination write')
    if do.kind == 'const':
        raise Violation('ub', 'write to constant ' + do.name)
    do.data[doff:doff + n] = so.data[soff:soff + n]


def memset(d, v, n):
    n = _len(n)
    if n == 0:
        return
    d = d if d.__class__ is int else concretize(d)
    do, doff = access(d, n, 'fill')
    do.data[doff:doff + n] = [cells(v, 1)[0]] * n


def c_memcpy(d, s, n):
    memcpy(d, s, n)
    return d


def c_memmove(d, s, n):
    memmove(d, s, n)
    return d


def c_memset(d, v, n):
    memset(d, v & 255 if v.__class__ is int else s_trunc(v, 32, 8), n)
    return d


def _byte_list(p, n):
    p = p if p.__class__ is int else concretize(p)
    o, off = access(p, n, 'compare')
    out = []
    for c in o.data[off:off + n]:
        if c is None:
            raise Violation('uninit', 'comparison of uninitialised memory')
        out.append(c if c.__class__ is int else from_bytes([c]))
    return out


def c_memcmp(a, b, n):
    n = _len(n)
    if n == 0:
        return 0
    x, y = _byte_list(a, n), _byte_list(b, n)
    if all(p.__class__ is int for p in x) and all(p.__class__ is int for p in y):
        for p, q in zip(x, y):
            if p != q:
                return 1 if p > q else 0xffffffff
        return 0
    r = BVV(0, 32)
    for p, q in reversed(list(zip(x, y))):
        p, q = bv(p, 8), bv(q, 8)
        r = If(p == q, r, If(z3.ULT(p, q), BVV(0xffffffff, 32), BVV(1, 32)))
    return simp(r)


def c_bcmp(a, b, n):
    n = _len(n)
    if n == 0:
        return 0
    x, y = _byte_list(a, n), _byte_list(b, n)
    cs = []
    for p, q in zip(x, y):
        if p.__class__ is int and q.__class__ is int:
            if p != q:
                return 1
        elif p is not q:
            cs.append(bv(p, 8) == bv(q, 8))
    if not cs:
        return 0
    return simp(If(z3.And(*cs), BVV(0, 32), BVV(1, 32)))


def c_strlen(p):
    n = 0
    while True:
        b = load(p + n, 1)
        if b.__class__ is not int:
            raise EngineError('strlen of symbolic string')
        if b == 0:
            return n
        n += 1


def life_start(a):
    if a.__class__ is int:
        o = P.objs.get(a >> SH)
        if o is not None and o.kind == 'stack':
            o.live = True
            o.data = [None] * o.cap


def life_end(a):
    if a.__class__ is int:
        o = P.objs.get(a >> SH)
        if o is not None and o.kind == 'stack':
            o.live = False


# ------------------------------------------------------------------------- atomics (sequential semantics)

class Conc:
    """hooks for the concurrency mode; None = sequential"""
    hook = None


def aload(a, n, order):
    if Conc.hook is not None:
        return Conc.hook.aload(a, n, order)
    return load(a, n)


def astore(a, v, n, order):
    if Conc.hook is not None:
        return Conc.hook.astore(a, v, n, order)
    store(a, v, n)


def rmw_val(op, old, v, w):
    if op == 'xchg':
        return v
    m = (1 << w) - 1
    if op in ('umax', 'umin'):
        return globals()['in_' + op](old, v, w)
    if old.__class__ is int and v.__class__ is int:
        if op == 'add':
            return (old + v) & m
        if op == 'sub':
            return (old - v) & m
        if op == 'and':
            return old & v
        if op == 'or':
            return old | v
        if op == 'xor':
            return old ^ v
        if op == 'nand':
            return ~(old & v) & m
    elif op in ('add', 'sub', 'and', 'or', 'xor'):
        return globals()['s_' + op](old, v, w)
    raise EngineError('atomicrmw ' + op)


def armw(op, a, v, n, order):
    if Conc.hook is not None:
        return Conc.hook.armw(op, a, v, n, order)
    old = load(a, n)
    if bad(old):
        raise Violation('uninit', 'atomic update of uninitialised memory')
    store(a, rmw_val(op, old, v, 8 * n), n)
    return old


def acmpxchg(a, c, nv, n, o1, o2, weak):
    if Conc.hook is not None:
        return Conc.hook.acmpxchg(a, c, nv, n, o1, o2, weak)
    old = load(a, n)
    if bad(old):
        raise Violation('uninit', 'atomic update of uninitialised memory')
    if old.__class__ is int and c.__class__ is int:
        eq = 1 if old == c else 0
    else:
        eq = c_eq(old, c, 8 * n)
    if decide(eq):
        store(a, nv, n)
        return (old, 1)
    return (old, 0)


def fence(order):
    if Conc.hook is not None:
        Conc.hook.fence(order)


# ------------------------------------------------------------------------- control

def unreachable(fn):
    raise Violation('ub', 'unreachable code reached in ' + fn)


def llvm_assume(c):
    if c.__class__ is int:
        if not c:
            raise Violation('ub', 'false compiler assumption')
        return
    if bad(c):
        raise Violation('uninit', 'compiler assumption on an uninitialised value')
    r = must(c)
    if r is not True:
        P.model = r
        raise Violation('ub', 'false compiler assumption')


def abort_(what):
    raise Violation('abort', what)


def icall(a):
    if a.__class__ is not int:
        a = concretize(a)
    f = Mem.mod.func_by_addr(a)
    if f is None:
        raise Violation('ub', 'call through an invalid function pointer')
    return f


# ------------------------------------------------------------------------- externs

def mk_input(nbytes):
    k = len(P.inputs)
    v = z3.BitVec('in%d_%d' % (k, 8 * nbytes), 8 * nbytes)
    P.inputs.append((v, nbytes))
    return v


def sx_u8():
    return mk_input(1)


def sx_u16():
    return mk_input(2)


def sx_u32():
    return mk_input(4)


def sx_u64():
    return mk_input(8)


def sx_bool():
    v = mk_input(1)
    assume(z3.ULE(v, 1))
    return v == BVV(1, 8)


def sx_range(lo, hi):
    """symbolic u64 in lo..=hi"""
    lo, hi = bv(lo, 64), bv(hi, 64)
    v = mk_input(8)
    assume(z3.And(z3.UGE(v, lo), z3.ULE(v, hi)))
    return v


def sx_choose(n):
    """forked choice: concrete on every path"""
    v = mk_input(8)
    assume(z3.ULT(v, bv(n, 64)))
    return concretize(v)


def sx_conc(v):
    return concretize(v)


def sx_assume(c):
    assume(c)


def sx_assert(c, i):
    ST.asserts += 1
    if c.__class__ is int:
        if not c:
            raise Violation('assert', 'assertion %d' % i)
        return
    if bad(c):
        raise Violation('uninit', 'assertion %d on an uninitialised value' % i)
    ST.assert_queries += 1
    r = must(c)
    if r is not True:
        P.model = r
        raise Violation('assert', 'assertion %d' % i)


def sx_log(tag, v):
    if bad(v):
        raise Violation('uninit', 'observed value (tag %s) is uninitialised' % tag)
    P.log.append((tag, v))


def sx_cover(i):
    P.covers.add(i)


HEAP_LIMIT = 1 << 16


def sx_alloc(size, align, owner):
    if align.__class__ is not int:
        align = concretize(align)
    if size.__class__ is int:
        o = new_heap(size, size, align)
    else:
        size = z3.simplify(size)
        if z3.is_bv_value(size):
            s = size.as_long()
            o = new_heap(s, s, align)
        else:
            o = new_heap(size, HEAP_LIMIT, align)
            if must(z3.ULE(size, BVV(HEAP_LIMIT, 64))) is not True:
                raise EngineError('symbolic allocation size not bounded by HEAP_LIMIT')
    o.meta = (align, owner)
    P.live_heap += 1
    return o.base


def _heap_obj(p, what):
    if p.__class__ is not int:
        p = concretize(p)
    o = find(p)
    if o is None or o.kind != 'heap' or o.base != p:
        raise Violation('alloc', what + ' of a pointer that is not an allocated block')
    if not o.live:
        raise Violation('alloc', what + ' of an already freed block')
    return o


def _check_layout(o, size, align, owner, what):
    if align.__class__ is not int:
        align = concretize(align)
    if owner.__class__ is not int:
        owner = concretize(owner)
    if owner != o.meta[1]:
        raise Violation('alloc', what + ' through a different allocator than the one that allocated the block')
    if align != o.meta[0]:
        raise Violation('alloc', what + ' with a different alignment than allocated')
    if size.__class__ is int and o.size.__class__ is int:
        ok = size == o.size
    else:
        r = must(bv(size, 64) == bv(o.size, 64))
        ok = r is True
        if not ok:
            P.model = r
    if not ok:
        raise Violation('alloc', what + ' with a different size than allocated')


def sx_free(p, size, align, owner):
    o = _heap_obj(p, 'free')
    _check_layout(o, size, align, owner, 'free')
    o.live = False
    o.data = None
    P.live_heap -= 1


def sx_realloc(p, old, align, new, owner):
    o = _heap_obj(p, 'realloc')
    _check_layout(o, old, align, owner, 'realloc')
    np = sx_alloc(new, align, owner)
    no = find(np)
    n = min(o.cap, no.cap)
    # bytes past the smaller size stay uninitialised only when both sizes are concrete; with symbolic
    # sizes bytes past either end are unreachable (every access is range-checked)
    no.data[:n] = o.data[:n]
    if old.__class__ is not int or new.__class__ is not int:
        # bytes beyond the *old* size were never initialised, they are None already
        pass
    o.live = False
    o.data = None
    P.live_heap -= 1
    return np


def sx_live():
    return P.live_heap


def sx_try(f, data):
    """call f(data), true when it returned, false when it panicked"""
    try:
        icall(f)(data)
        return 1
    except RustPanic:
        return 0


def sx_flag(i):
    """configuration constant: compiled-in parameters chosen by the driver"""
    return CONFIG.get(i, 0)


def sx_native():
    return 0


CONFIG = {}

EXTERN = {
    'memcpy': c_memcpy, 'memmove': c_memmove, 'memset': c_memset, 'memcmp': c_memcmp, 'bcmp': c_bcmp,
    'strlen': c_strlen, 'abort': lambda: abort_('abort()'),
    'rust_eh_personality': lambda *a: abort_('personality'),
}
for _n in ('sx_u8 sx_u16 sx_u32 sx_u64 sx_bool sx_range sx_choose sx_conc sx_assume sx_assert sx_log sx_cover sx_alloc '
           'sx_free sx_realloc sx_live sx_try sx_flag sx_native').split():
    EXTERN[_n] = globals()[_n]

# std allocator (harness-side std collections are not used, but core/alloc code may reach these)


_PANIC = re.compile(r'(4core9panicking9panic_fmt|3std9panicking|4core9panicking19panic_bounds|std10panic_any)')


def _panic(*a):
    raise RustPanic(1)


def _abort_panic(*a):
    raise Violation('abort', 'non-unwinding panic (undefined behaviour check or panic during unwinding)')


def intercept(name):
    if name.startswith('_R'):
        if re.search(r'4core9panicking(9panic_fmt|5panic|18panic_bounds_check|13assert_failed|19assert_failed_inner|13panic_display|'
                     r'9panic_str|13panic_explicit|26panic_str_2015|14panic_str_2015)', name) and not name.startswith('_RNvMs'):
            return _panic
        if re.search(r'4core9panicking\d*(19panic_cannot_unwind|20panic_in_cleanup|18panic_nounwind|16panic_in_cleanup|14panic_nounwind|'
                     r'22panic_invalid_enum|36panic_misaligned|30panic_null)', name):
            return _abort_panic
        if '9panicking19panic_nounwind_fmt' in name or '9panicking18panic_nounwind_fmt' in name:
            return _abort_panic
        if re.search(r'3std9panicking(11begin_panic|17rust_panic_without_hook|20rust_panic_with_hook|13begin_panic|19begin_panic_handler)', name):
            return _panic
        if re.search(r'4core(6option(13expect_failed|13unwrap_failed)|6result13unwrap_failed)', name):
            return _panic
        if '7___rustc' in name or '__rustc' in name:
            if 'rust_no_alloc_shim' in name:
                return lambda *a: 0
    return None


# ------------------------------------------------------------------------- driver

class Result:
    pass


def explore(mod, harness, prefixes=None, max_paths=1000000, slice_s=None, want_samples=24):
    """Explore the paths of `harness` below the given decision prefixes, for at most slice_s seconds.

    res['pending'] holds the prefixes that are still to be explored.
    """
    Mem.mod = mod
    PENDING.clear()
    PENDING.extend(prefixes if prefixes is not None else [[]])
    f = mod.func(harness)
    res = {'violations': [], 'paths': 0, 'aborted': 0, 'covers': set(), 'samples': [], 'steps': 0, 'hash': []}
    t0 = time.time()
    stride = 1
    while PENDING:
        if slice_s and time.time() - t0 > slice_s:
            break
        pre = PENDING.pop()
        P.reset()
        P.prefix = pre
        T[0] = 0
        try:
            f()
            res['paths'] += 1
            res['covers'] |= P.covers
            if res['paths'] % stride == 0:
                res['samples'].append(sample())
                if len(res['samples']) >= 2 * want_samples:
                    res['samples'] = res['samples'][::2]
                    stride *= 2
        except PathEnd:
            res['aborted'] += 1
        except RustPanic as e:
            res['violations'].append(report('panic', 'unexpected panic'))
        except StepLimit as e:
            res['violations'].append(report('hang', 'no termination within the step bound in %s' % e))
        except Violation as v:
            res['violations'].append(report(v.kind, v.msg))
        res['steps'] += T[0]
        if len(res['violations']) >= 3:
            PENDING.clear()
    res['pending'] = list(PENDING)
    PENDING.clear()
    res['time'] = time.time() - t0
    return res


def val_in(m, e):
    if e.__class__ is int:
        return e
    r = m.eval(e, model_completion=True)
    if z3.is_bool(e):
        return int(z3.is_true(r))
    return r.as_long()


def sample():
    m = model()
    return {'inputs': [val_in(m, v) for v, n in P.inputs], 'log': [(t, val_in(m, e)) for t, e in P.log]}


def report(kind, msg):
    try:
        m = model()
        ins = [val_in(m, v) for v, n in P.inputs]
        log = [(t, val_in(m, e)) for t, e in P.log]
    except EngineError:
        raise
    return {'kind': kind, 'msg': msg, 'inputs': ins, 'log': log}
