"""Symbolic executor for LLVM IR (see ir.py), path exploration by re-execution.

 integers   concrete Python ints or z3 bit-vectors (i1: z3 Bool)
 floats     concrete IEEE values, or EV = exact polynomial over the symbolic inputs + rigorous rounding error
 pointers   (object, byte offset), offsets may be bit-vectors
Every branch on symbolic data asks z3 which sides are feasible; both are followed.  Running out of
steps / paths, or meeting something not modelled, raises Unsupported: the check is then inconclusive.
"""
import math
import re
import struct
import sys
import time
from fractions import Fraction

import z3

import ir
import poly
from ir import IRError
from poly import EV, Poly, U, ETA, FMAX, eup, f_up, f_dn, iv_mul, up, dn

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    def __init__(self, kind, info=''):
        self.kind, self.info = kind, info


class Infeasible(Exception):
    pass


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return 'Ptr(%s+%s)' % (self.obj.name if self.obj else 'null', self.off)


NULL = Ptr(None, 0)


class Cat:
    """bytes of several cells: pieces = [(size, value, ty)]"""
    __slots__ = ('pieces',)

    def __init__(self, pieces):
        self.pieces = pieces


class Text:
    """formatted text held in memory: bytes and (64-bit value, printed in decimal) pieces, terminating zero included in the cell"""
    __slots__ = ('pieces',)

    def __init__(self, pieces):
        self.pieces = pieces


def dec_len(e):
    """number of characters of a signed 64-bit value in decimal, as a 64-bit expression"""
    neg = e < 0
    a = z3.If(neg, -e, e)           # the minimum stays itself: as an unsigned number it is its magnitude
    r = z3.BitVecVal(1, 64)
    for k in range(1, 20):
        r = z3.If(z3.UGE(a, 10 ** k), z3.BitVecVal(k + 1, 64), r)
    return r + z3.If(neg, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))


class Obj:
    __slots__ = ('name', 'size', 'cells', 'zero', 'const', 'alive', 'addr', 'heap', 'zeroed', 'va')

    def __init__(self, name, size, addr, const=False, heap=False):
        self.name, self.size, self.cells, self.addr = name, size, {}, addr
        self.const, self.alive, self.heap = const, True, heap


class FnObj:
    __slots__ = ('name', 'size', 'addr')

    def __init__(self, name, addr):
        self.name, self.size, self.addr = name, 0, addr


def mask(w):
    return (1 << w) - 1


def to_signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def f32(x):
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def fbits(x, ty):
    if ty == 'double':
        return struct.unpack('<Q', struct.pack('<d', x))[0]
    return struct.unpack('<I', struct.pack('<f', x))[0]


def bitsf(b, ty):
    if ty == 'double':
        return struct.unpack('<d', struct.pack('<Q', b))[0]
    return struct.unpack('<f', struct.pack('<I', b))[0]


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def bv(v, w):
    if isinstance(v, z3.BoolRef):
        if w == 1:
            return v
        raise Unsupported('bool as bv')
    if isinstance(v, z3.BitVecRef):
        return v
    if isinstance(v, int):
        return z3.BoolVal(bool(v)) if w == 1 else z3.BitVecVal(v, w)
    raise Unsupported('value %r as i%d' % (type(v), w))


def simp(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


# ------------------------------------------------------------------------------------------------ real context
class Reals:
    """Symbolic real inputs, their boxes, reciprocal variables, and z3 linear-real-arithmetic queries over monomials."""

    def __init__(self, stats):
        self.vars = []            # (name, lo, hi, kind)
        self.byname = {}
        self.recips = {}          # key -> (var, poly)
        self.assume = []          # Poly >= 0, assumed on the inputs
        self.stats = stats
        self._mb = {}
        self._mf = {}
        self._mv = {}
        poly.TIGHT[0] = self.tight

    def tight(self, p):
        """interval of a polynomial from its monomials"""
        lo = hi = 0.0
        for m, c in p.t.items():
            b = self._mf.get(m)
            if b is None:
                l, h = self.mon_bounds(m)
                b = self._mf[m] = f_dn(l), f_up(h)
            l, h = iv_mul(f_dn(c), f_up(c), *b)
            lo, hi = dn(lo + l), up(hi + h)
        return lo, hi

    def new(self, name, lo, hi, kind='double'):
        if name in self.byname:
            return self.ev(self.byname[name])
        lo, hi = Fraction(lo), Fraction(hi)
        self.vars.append((name, lo, hi, kind))
        self.byname[name] = len(self.vars) - 1
        return self.ev(len(self.vars) - 1)

    def ev(self, i):
        n, lo, hi, k = self.vars[i]
        return EV(Poly.var(i), 0.0, f_dn(lo), f_up(hi))

    def mon_bounds(self, m):
        b = self._mb.get(m)
        if b is not None:
            return b
        lo, hi = Fraction(1), Fraction(1)
        i = 0
        while i < len(m):
            j = i
            while j < len(m) and m[j] == m[i]:
                j += 1
            _, vl, vh, _ = self.vars[m[i]]
            k = j - i
            a, c = vl ** k, vh ** k
            if k % 2 == 0 and vl <= 0 <= vh:
                a, c = Fraction(0), max(a, c)
            elif a > c:
                a, c = c, a
            vals = (lo * a, lo * c, hi * a, hi * c)
            lo, hi = min(vals), max(vals)
            i = j
        self._mb[m] = (lo, hi)
        return lo, hi

    def mvar(self, m):
        v = self._mv.get(m)
        if v is None:
            v = self._mv[m] = z3.Real('m_' + '_'.join(map(str, m)))
        return v

    @staticmethod
    def rat(c):
        return z3.Q(c.numerator, c.denominator)

    def lin(self, p, used):
        ts = []
        for m, c in p.t.items():
            if m:
                used.add(m)
                ts.append(self.rat(c) * self.mvar(m))
            else:
                ts.append(self.rat(c))
        return z3.Sum(ts) if ts else z3.RealVal(0)

    def _base(self, s, extra, goals=()):
        """add relaxed assumptions; extra: list of Poly meaning p >= 0.  returns used monomials set"""
        used = set()
        ps = list(self.assume) + extra
        for p in ps:
            s.add(self.lin(p, used) >= 0)
        if self.recips:
            # the defining equations of the reciprocals that occur (leaving constraints out is sound)
            vs = set().union(*[p.vars() for p in ps], *[g.vars() for g in goals])
            for key, (v, den) in self.recips.items():
                if v in vs:
                    s.add(self.lin(den * Poly.var(v), used) == 1)
        return used

    def _bounds(self, s, used):
        for m in used:
            lo, hi = self.mon_bounds(m)
            s.add(self.mvar(m) >= self.rat(lo), self.mvar(m) <= self.rat(hi))

    def sat_relaxed(self, goals, extra=(), timeout=20000):
        """goals: list of Poly (disjunction of p > 0).  z3 result on the monomial relaxation (unsat is sound)."""
        s = z3.SolverFor('QF_LRA')
        s.set('timeout', timeout)
        used = self._base(s, list(extra), goals or ())
        if goals is not None:
            s.add(z3.Or([self.lin(g, used) > 0 for g in goals]))
        self._bounds(s, used)
        t = time.time()
        r = s.check()
        self.stats.query('lra', r, time.time() - t)
        return r

    def bound(self, p, extra=()):
        """(lo, hi) of poly p on the relaxation, by z3's simplex optimiser; None when unknown."""
        if all(not m for m in p.t):
            c = p.t.get((), Fraction(0))
            return c, c
        ilo = ihi = Fraction(0)
        for m, c in p.t.items():
            l, h = self.mon_bounds(m)
            ilo += c * (l if c > 0 else h)
            ihi += c * (h if c > 0 else l)
        # an assumption on the very same polynomial (up to a factor and a constant) bounds it directly
        q = {m: c for m, c in p.t.items() if m}
        m0 = min(q)
        for a in list(self.assume) + list(extra):
            if a.t.get(m0) and len([m for m in a.t if m]) == len(q):
                k = a.t[m0] / q[m0]
                if all(a.t.get(m) == k * c for m, c in q.items()):
                    b = p.t.get((), Fraction(0)) - a.t.get((), Fraction(0)) / k
                    if k > 0:
                        ilo = max(ilo, b)
                    else:
                        ihi = min(ihi, b)
        if ilo > ihi:
            raise Infeasible()
        if not ilo <= 0 <= ihi:
            return ilo, ihi
        out = []
        for sgn in (1, -1):
            o = z3.Optimize()
            o.set('timeout', 20000)
            used = self._base(o, list(extra), [p])
            obj = self.lin(p.scale(sgn), used)
            self._bounds(o, used)
            h = o.minimize(obj)
            t = time.time()
            r = o.check()
            self.stats.query('lra-opt', r, time.time() - t)
            if r == z3.unsat:
                raise Infeasible()
            if r != z3.sat:
                return None
            v = o.lower(h)
            if not z3.is_rational_value(v):
                return None
            out.append(sgn * Fraction(v.numerator_as_long(), v.denominator_as_long()))
        return out[0], out[1]

    def recip(self, den, extra):
        """EV den (machine) -> (EV-like exact reciprocal poly, |D| lower bound, rlo, rhi)."""
        p = den.p
        m0 = min(p.t)
        k = p.t[m0]
        pn = p.scale(1 / k)
        lo, hi = Fraction(den.lo), Fraction(den.hi)
        if lo <= 0 <= hi:
            b = self.bound(p, extra)
            if b is None:
                raise Unsupported('cannot bound a denominator')
            lo, hi = b
            if lo <= 0 <= hi:
                raise Unsupported('possible division by zero: denominator in [%g,%g]' % (lo, hi))
        dmin = min(abs(lo), abs(hi))
        if f_dn(dmin) <= den.e:
            raise Unsupported('denominator not separated from 0 by rounding error')
        key = frozenset(pn.t.items())
        a, b = 1 / (hi / k), 1 / (lo / k)
        if a > b:
            a, b = b, a
        # a variable made on another path may have a narrower range than this path allows
        n = 0
        while (key, n) in self.recips:
            v = self.recips[key, n][0]
            if self.vars[v][1] <= a and b <= self.vars[v][2]:
                break
            n += 1
        else:
            self.vars.append(('recip%d' % len(self.recips), a, b, 'recip'))
            v = len(self.vars) - 1
            self.recips[key, n] = (v, pn)
        rp = Poly({(v,): 1 / k})
        a, b = 1 / hi, 1 / lo
        return rp, dn(f_dn(dmin) - den.e), f_dn(min(a, b)), f_up(max(a, b))


class Stats:
    def __init__(self):
        self.q = {}
        self.time = 0.0
        self.steps = 0
        self.paths = 0
        self.forks = 0
        self.funcs = set()

    def query(self, kind, res, dt):
        k = '%s:%s' % (kind, res)
        self.q[k] = self.q.get(k, 0) + 1
        self.time += dt


class Calls:
    """several runs of the same entry point in different modules on the same symbols"""

    def __init__(self, items):
        self.items = items


# ------------------------------------------------------------------------------------------------ one path
class Wraps(Exception):
    pass


class BV2Int:
    """bit-vector terms as integers, exactly: every operation is shown by intervals not to wrap around"""

    def __init__(self, ranges):
        self.ranges, self.memo, self.vars = ranges, {}, {}

    def term(self, e):
        """(integer expression, lo, hi) of e read as a signed number"""
        k = e.get_id()
        if k not in self.memo:
            r = self._term(e)
            w = e.size()
            if r[1] < -(1 << (w - 1)) or r[2] >= 1 << (w - 1):
                raise Wraps()
            self.memo[k] = r + (e,)
        return self.memo[k][:3]

    def uterm(self, e):
        r = self.term(e)
        if r[1] < 0:
            raise Wraps()
        return r

    def _term(self, e):
        w = e.size()
        if z3.is_bv_value(e):
            v = e.as_signed_long()
            return z3.IntVal(v), v, v
        d = e.decl().kind()
        ch = e.children()
        if d == z3.Z3_OP_UNINTERPRETED and not ch:
            n = e.decl().name()
            lo, hi = self.ranges.get(n, (-(1 << (w - 1)), (1 << (w - 1)) - 1))
            x = z3.Int('i!' + n)
            self.vars[n] = (x, lo, hi)
            return x, lo, hi
        if d == z3.Z3_OP_BADD:
            t = [self.term(c) for c in ch]
            return z3.Sum([x[0] for x in t]), sum(x[1] for x in t), sum(x[2] for x in t)
        if d == z3.Z3_OP_BSUB:
            a, b = map(self.term, ch)
            return a[0] - b[0], a[1] - b[2], a[2] - b[1]
        if d == z3.Z3_OP_BNEG:
            a = self.term(ch[0])
            return -a[0], -a[2], -a[1]
        if d == z3.Z3_OP_BMUL:
            r = self.term(ch[0])
            for c in ch[1:]:
                b = self.term(c)
                ps = [r[i] * b[j] for i in (1, 2) for j in (1, 2)]
                r = (r[0] * b[0], min(ps), max(ps))
            return r
        if d == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
            a, k = self.term(ch[0]), 1 << ch[1].as_long()
            return a[0] * k, a[1] * k, a[2] * k
        if d == z3.Z3_OP_SIGN_EXT:
            return self.term(ch[0])
        if d == z3.Z3_OP_ZERO_EXT:
            return self.uterm(ch[0])
        if d == z3.Z3_OP_CONCAT:
            if z3.is_bv_value(ch[0]) and ch[0].as_long() == 0:
                return self.uterm(ch[1] if len(ch) == 2 else z3.Concat(*ch[1:]))
            if z3.is_bv_value(ch[-1]) and ch[-1].as_long() == 0:
                a, k = self.term(ch[0] if len(ch) == 2 else z3.Concat(*ch[:-1])), 1 << ch[-1].size()
                return a[0] * k, a[1] * k, a[2] * k
            # sign extension written as repeated sign bits
            x = ch[-1]
            for c in ch[:-1]:
                if c.decl().kind() != z3.Z3_OP_EXTRACT or c.params() != [x.size() - 1] * 2 or not c.arg(0).eq(x):
                    raise Wraps()
            return self.term(x)
        if d == z3.Z3_OP_EXTRACT:
            hi, lo = e.params()
            if lo == 0:
                return self.term(ch[0])      # the caller checks that it fits
            raise Wraps()
        if d == z3.Z3_OP_ITE:
            a, b = self.term(ch[1]), self.term(ch[2])
            return z3.If(self.form(ch[0]), a[0], b[0]), min(a[1], b[1]), max(a[2], b[2])
        if d in (z3.Z3_OP_BASHR, z3.Z3_OP_BLSHR) and z3.is_bv_value(ch[1]) and ch[1].as_long() < w:
            k, x = ch[1].as_long(), ch[0]
            sg = d == z3.Z3_OP_BASHR
            if x.decl().kind() == z3.Z3_OP_CONCAT and x.num_args() == 2 and z3.is_bv_value(x.arg(1)) and x.arg(1).as_long() == 0 and x.arg(1).size() == k:
                return (self.term if sg else self.uterm)(x.arg(0))       # extension of the low part
            a = (self.term if sg else self.uterm)(x)
            return a[0] / (1 << k), a[1] >> k, a[2] >> k
        if d in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(ch[1]) and ch[1].as_signed_long() > 0:
            a, k = self.uterm(ch[0]), ch[1].as_long()
            if d in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
                return a[0] / k, a[1] // k, a[2] // k
            return a[0] % k, 0, min(a[2], k - 1)
        raise Wraps()

    def form(self, f):
        d = f.decl().kind()
        ch = f.children()
        if d in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            return f
        if d == z3.Z3_OP_AND:
            return z3.And([self.form(c) for c in ch])
        if d == z3.Z3_OP_OR:
            return z3.Or([self.form(c) for c in ch])
        if d == z3.Z3_OP_NOT:
            return z3.Not(self.form(ch[0]))
        if d == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.form(ch[0]), self.form(ch[1]))
        if d == z3.Z3_OP_ITE:
            return z3.If(*[self.form(c) for c in ch])
        if d in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(ch) == 2:
            if z3.is_bool(ch[0]):
                a, b = map(self.form, ch)
            else:
                a, b = (self.term(c)[0] for c in ch)
            return a == b if d == z3.Z3_OP_EQ else a != b
        ops = {z3.Z3_OP_SLEQ: '<=', z3.Z3_OP_SGEQ: '>=', z3.Z3_OP_SLT: '<', z3.Z3_OP_SGT: '>', z3.Z3_OP_ULEQ: 'u<=', z3.Z3_OP_UGEQ: 'u>=', z3.Z3_OP_ULT: 'u<', z3.Z3_OP_UGT: 'u>'}
        if d in ops:
            o = ops[d]
            a, b = ((self.uterm if o[0] == 'u' else self.term)(c)[0] for c in ch)
            return {'<=': lambda: a <= b, '>=': lambda: a >= b, '<': lambda: a < b, '>': lambda: a > b}[o.lstrip('u')]()
        raise Wraps()


def int_query(ints, cs, ranges):
    """unsat if the query is unsatisfiable over the integers (path conditions that do not translate are left out), else unknown"""
    t = BV2Int(ranges)
    try:
        fs = [t.form(c) for c in cs]
    except Wraps:
        return z3.unknown
    for c in ints:
        try:
            fs.append(t.form(c))
        except Wraps:
            pass
    s = z3.Solver()
    s.set('timeout', 15000)
    for x, lo, hi in t.vars.values():
        s.add(x >= lo, x <= hi)
    s.add(*fs)
    r = s.check()
    return r if r == z3.unsat else z3.unknown


class Path:
    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.dec = []
        self.pending = []         # alternative decision lists to explore
        self.ints = []            # z3 constraints
        self.reals = []           # Poly >= 0
        self.solver = z3.Solver()
        self.ranges = {}          # (lo, hi) of the symbolic integer inputs
        self.hard = True
        self.events = []
        self.notes = []

    def add_int(self, c):
        self.ints.append(c)
        self.solver.add(c)

    def int_sat(self, *cs):
        t = time.time()
        if self.hard:
            self.solver.set('timeout', 4000)
        r = self.solver.check(*cs)
        self.ex.stats.query('bv', r, time.time() - t)
        if r == z3.unknown and self.hard:
            # bit-blasting is slow on products: the same query over the integers, where no operation can wrap around
            t = time.time()
            r = int_query(self.ints, cs, self.ranges)
            self.ex.stats.query('lia', r, time.time() - t)
            if r == z3.unknown:
                t = time.time()
                self.solver.set('timeout', 60000)
                r = self.solver.check(*cs)
                self.ex.stats.query('bv', r, time.time() - t)
        if r == z3.unknown:
            raise Unsupported('bit-vector solver gave no answer')
        return r == z3.sat

    def choose(self, options):
        """options: list of (feasible_fn, apply_fn).  Follow one, queue the rest."""
        k = len(self.dec)
        if k < len(self.prefix):
            i = self.prefix[k]
            self.dec.append(i)
            options[i][1]()
            return i
        feas = [i for i, o in enumerate(options) if o[0]()]
        if not feas:
            raise Infeasible()
        for i in feas[1:]:
            self.pending.append(self.dec + [i])
        if len(feas) > 1:
            self.ex.stats.forks += 1
        self.dec.append(feas[0])
        options[feas[0]][1]()
        return feas[0]

    def branch_bool(self, c):
        """c: z3 Bool -> concrete bool, forking."""
        n = z3.Not(c)
        i = self.choose([(lambda: self.int_sat(c), lambda: self.add_int(c)),
                         (lambda: self.int_sat(n), lambda: self.add_int(n))])
        return i == 0

    def concretize(self, e, w, limit=4096):
        """enumerate (solver-proved exhaustive) values of a bit-vector expression, forking over them."""
        k = len(self.dec)
        if k < len(self.prefix):
            v = self.prefix[k]
            self.dec.append(v)
            self.add_int(e == z3.BitVecVal(v, w))
            return v
        vals = []
        self.solver.push()
        try:
            while True:
                if not self.int_sat():
                    break
                m = self.solver.model().eval(e, model_completion=True).as_long()
                vals.append(m)
                if len(vals) > limit:
                    raise Unsupported('too many values to case-split')
                if len(vals) % 64 == 0 and time.time() > self.ex.deadline:
                    raise Unsupported('time bound exceeded in a case split')
                self.solver.add(e != z3.BitVecVal(m, w))
        finally:
            self.solver.pop()
        if not vals:
            raise Infeasible()
        vals.sort()
        for v in vals[1:]:
            self.pending.append(self.dec + [v])
        if len(vals) > 1:
            self.ex.stats.forks += 1
        self.dec.append(vals[0])
        self.add_int(e == z3.BitVecVal(vals[0], w))
        return vals[0]

    def real_feasible(self, p):
        """may p >= 0 hold (with the path so far)?"""
        R = self.ex.reals
        try:
            r = R.sat_relaxed(None, self.reals + [p], timeout=5000)
        except Infeasible:
            return False
        return r != z3.unsat

    def branch_real(self, options):
        """options: list of list-of-Poly (conjunction of p>=0)."""
        def mk(cs):
            return (lambda: all(True for _ in cs) and (not cs or self._rf(cs)), lambda: self.reals.extend(cs))
        return self.choose([mk(cs) for cs in options])

    def _rf(self, cs):
        R = self.ex.reals
        return R.sat_relaxed(None, self.reals + list(cs), timeout=5000) != z3.unsat


# ------------------------------------------------------------------------------------------------ executor
NOOP_INTR = ('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.donothing',
             'llvm.va_end', 'llvm.prefetch', 'llvm.stackrestore')


class Executor:
    def __init__(self, mod, max_steps=3_000_000, max_paths=20000):
        self.mod = mod
        self.stats = Stats()
        self.reals = Reals(self.stats)
        self.max_steps, self.max_paths = max_steps, max_paths
        self.max_events, self.deadline = 60000, float('inf')
        self.fn_objs = {}
        self.check_wrap = False

    # ---- per-path state
    def _reset(self, path):
        self.path = path
        self.steps = 0
        self.gobjs = {}
        self.next_addr = 0x10000
        self.byaddr = []
        self.nfresh = 0
        self.stack_depth = 0
        self.live_heap = []
        self.va = []

    def new_obj(self, name, size, const=False, heap=False):
        o = Obj(name, size, self.next_addr, const, heap)
        self.next_addr += (size + 63) // 64 * 64 + 64
        self.byaddr.append(o)
        return o

    def fn_ptr(self, name):
        o = self.fn_objs.get(name)
        if o is None:
            o = self.fn_objs[name] = FnObj(name, 0x7f000000 + 16 * len(self.fn_objs))
        return Ptr(o, 0)

    def global_ptr(self, name):
        name = self.mod.aliases.get(name, name)
        o = self.gobjs.get(name)
        if o is None:
            if name in self.mod.funcs:
                return self.fn_ptr(name)
            if name not in self.mod.globals:
                raise Unsupported('unknown global ' + name)
            ty, c, isconst = self.mod.globals[name]
            o = self.new_obj('@' + name, self.mod.size_align(ty)[0], const=bool(isconst))
            self.gobjs[name] = o
            if c is not None:
                self.init_const(o, 0, ty, c)
            elif name in ('stderr', 'stdout'):
                o.cells[0] = (8, Ptr(self.new_obj('FILE:' + name, 216), 0))
        return Ptr(o, 0)

    def init_const(self, o, off, ty, c):
        ty = self.mod.resolve(ty)
        if c[0] in ('undef', 'poison'):
            return
        if c[0] == 'zero':
            self.zero_fill(o, off, self.mod.size_align(ty)[0])
            return
        if c[0] == 'bytes':
            for i, b in enumerate(c[1]):
                o.cells[off + i] = (1, b)
            return
        if c[0] == 'agg':
            if ty[0] == 'struct':
                offs, _, _ = self.mod.struct_layout(ty)
                for (t, cc), of in zip(c[1], offs):
                    self.init_const(o, off + of, t, cc)
            else:
                s = self.mod.size_align(ty[2])[0]
                for i, (t, cc) in enumerate(c[1]):
                    self.init_const(o, off + i * s, t, cc)
            return
        o.cells[off] = (self.mod.size_align(ty)[0], self.const(ty, c))

    def zero_fill(self, o, off, n):
        i = 0
        while i < n:
            k = 8 if (off + i) % 8 == 0 and n - i >= 8 else (4 if (off + i) % 4 == 0 and n - i >= 4 else 1)
            o.cells[off + i] = (k, 0)
            i += k

    # ---- constants
    def const(self, ty, c):
        k = c[0]
        ty = self.mod.resolve(ty)
        if k == 'int':
            return c[1] & mask(ty[1])
        if k == 'fp':
            return f32(c[1]) if ty[0] == 'float' else c[1]
        if k == 'null':
            return NULL
        if k in ('undef', 'poison'):
            if ty[0] in ('array', 'vec'):
                return [self.const(ty[2], c) for _ in range(ty[1])]
            if ty[0] == 'struct':
                return [self.const(t, c) for t in ty[1]]
            return UNDEF
        if k == 'zero':
            if ty[0] in ('array', 'vec'):
                return [self.const(ty[2], c) for _ in range(ty[1])]
            if ty[0] == 'struct':
                return [self.const(t, c) for t in ty[1]]
            return NULL if ty[0] == 'ptr' else (0.0 if ty[0] in ('float', 'double') else 0)
        if k == 'agg':
            return [self.const(t, cc) for t, cc in c[1]]
        if k == 'bytes':
            return list(c[1])
        if k == 'glob':
            return self.global_ptr(c[1])
        if k == 'gep':
            base = self.const(*c[2])
            return self.gep(c[1], base, [(t, self.const(t, cc)) for t, cc in c[3]])
        if k == 'cast':
            return self.cast(c[1], c[2][0], self.const(*c[2]), c[3])
        if k == 'bin':
            return self.binop(c[1], c[2][0], self.const(*c[2]), self.const(*c[3]), ())
        raise Unsupported('constant ' + k)

    # ---- memory
    def mem_off(self, p, size, what):
        """resolve pointer to (obj, concrete offset), forking on symbolic offsets; bounds checked."""
        if not isinstance(p, Ptr):
            if isinstance(p, int):
                p = self.int2ptr(p)
            elif p is UNDEF:
                raise PathEnd('ub', what + ' through an uninitialised pointer')
            else:
                raise Unsupported('memory access through %r' % (p,))
        o = p.obj
        if o is None:
            raise PathEnd('ub', what + ' through null')
        if isinstance(o, FnObj):
            raise Unsupported('memory access to function')
        if not o.alive:
            raise PathEnd('ub', what + ' to dead object ' + o.name)
        off = p.off
        if is_sym(off):
            inb = z3.And(z3.ULE(off, o.size - size), True) if o.size >= size else z3.BoolVal(False)
            if not self.path.branch_bool(inb):
                raise PathEnd('ub', '%s of %d bytes out of bounds of %s (size %d)' % (what, size, o.name, o.size))
            off = self.path.concretize(off, 64)
        off = to_signed(off & mask(64), 64)
        if off < 0 or off + size > o.size:
            raise PathEnd('ub', '%s of %d bytes at offset %d out of bounds of %s (size %d)' % (what, size, off, o.name, o.size))
        return o, off

    def overlapping(self, o, off, size):
        return [k for k in range(max(0, off - 15), off + size) if k in o.cells and k + o.cells[k][0] > off]

    def explode(self, o, k):
        """split cell k into byte cells (concrete values only) or pieces"""
        sz, v = o.cells.pop(k)
        if isinstance(v, float):
            v = fbits(v, 'double' if sz == 8 else 'float')
        if isinstance(v, int):
            for i in range(sz):
                o.cells[k + i] = (1, (v >> (8 * i)) & 255)
        elif v is UNDEF:
            pass
        elif isinstance(v, z3.BitVecRef):
            for i in range(sz):
                o.cells[k + i] = (1, simp(z3.Extract(8 * i + 7, 8 * i, v)))
        else:
            raise Unsupported('partial overlap of a symbolic cell')

    def store(self, p, size, v, what='write'):
        o, off = self.mem_off(p, size, what)
        if o.const:
            raise PathEnd('ub', 'write to constant ' + o.name)
        self.put(o, off, size, v)

    def put(self, o, off, size, v):
        for k in self.overlapping(o, off, size):
            s = o.cells[k][0]
            if k >= off and k + s <= off + size:
                del o.cells[k]
            else:
                self.explode(o, k)
                for j in range(off, off + size):
                    o.cells.pop(j, None)
        if isinstance(v, Cat):
            for s, pv in v.pieces:
                if pv is not UNDEF:
                    o.cells[off] = (s, pv)
                off += s
        elif isinstance(v, list):
            raise Unsupported('aggregate store')
        else:
            o.cells[off] = (size, v)

    def load_cell(self, o, off, size):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        ks = self.overlapping(o, off, size)
        if not ks:
            return UNDEF
        # exact tiling by smaller cells?
        pieces, pos, conc = [], off, True
        for k in sorted(ks):
            s, v = o.cells[k]
            if k != pos or k + s > off + size:
                break
            pieces.append((s, v))
            conc = conc and isinstance(v, (int, float))
            pos += s
        else:
            if pos == off + size:
                if conc:
                    r, sh = 0, 0
                    for s, v in pieces:
                        if isinstance(v, float):
                            v = fbits(v, 'double' if s == 8 else 'float')
                        r |= v << sh
                        sh += 8 * s
                    return r
                if all(isinstance(v, (int, z3.BitVecRef)) for s, v in pieces):
                    return simp(z3.Concat([bv(v, 8 * s) for s, v in reversed(pieces)]))
                return Cat(pieces)
        # misaligned/partial
        for k in ks:
            self.explode(o, k)
        if not all((off + i) in o.cells for i in range(size)):
            if not any((off + i) in o.cells for i in range(size)):
                return UNDEF
            return Cat([o.cells.get(off + i, (1, UNDEF)) for i in range(size)])
        return self.load_cell(o, off, size)

    def load(self, ty, p):
        ty = self.mod.resolve(ty)
        if ty[0] in ('array', 'vec'):
            s = self.mod.size_align(ty[2])[0]
            return [self.load(ty[2], self.padd(p, i * s)) for i in range(ty[1])]
        if ty[0] == 'struct':
            offs, _, _ = self.mod.struct_layout(ty)
            return [self.load(t, self.padd(p, of)) for t, of in zip(ty[1], offs)]
        size = self.mod.size_align(ty)[0]
        o, off = self.mem_off(p, size, 'read')
        return self.as_type(self.load_cell(o, off, size), ty)

    def as_type(self, v, ty):
        k = ty[0]
        if k in ('float', 'double'):
            if isinstance(v, (float, EV)) or v is UNDEF:
                return v
            if isinstance(v, int):
                return bitsf(v, k)
            if isinstance(v, Cat) and len(v.pieces) == 1:
                return v.pieces[0][1]
            if isinstance(v, Cat) and any(x is UNDEF for _, x in v.pieces):
                return UNDEF
            raise Unsupported('reinterpret %r as %s' % (type(v), k))
        if k == 'int':
            if isinstance(v, float):
                return fbits(v, 'double' if ty[1] == 64 else 'float')
            if isinstance(v, int):
                return v & mask(ty[1])
            if ty[1] == 1 and isinstance(v, z3.BitVecRef):
                return simp(z3.Extract(0, 0, v) == 1)
            if ty[1] == 8 and isinstance(v, z3.BoolRef):
                return z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            return v
        if k == 'ptr':
            if isinstance(v, int):
                return self.int2ptr(v)
            if isinstance(v, Cat) and any(x is UNDEF for _, x in v.pieces):
                return UNDEF
            return v
        raise Unsupported('load of ' + k)

    def store_typed(self, ty, v, p):
        ty = self.mod.resolve(ty)
        if ty[0] in ('array', 'vec'):
            s = self.mod.size_align(ty[2])[0]
            for i in range(ty[1]):
                self.store_typed(ty[2], v[i], self.padd(p, i * s))
            return
        if ty[0] == 'struct':
            offs, _, _ = self.mod.struct_layout(ty)
            for t, of, x in zip(ty[1], offs, v):
                self.store_typed(t, x, self.padd(p, of))
            return
        if ty[0] == 'int' and ty[1] == 1 and isinstance(v, z3.BoolRef):
            v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        self.store(p, self.mod.size_align(ty)[0], v)

    def padd(self, p, n):
        if not isinstance(p, Ptr):
            return p
        if n == 0:
            return p
        if is_sym(p.off):
            return Ptr(p.obj, p.off + z3.BitVecVal(n & mask(64), 64))
        return Ptr(p.obj, (p.off + n) & mask(64))

    def int2ptr(self, n):
        if n == 0:
            return NULL
        for o in self.byaddr:
            if o.addr <= n <= o.addr + o.size:
                return Ptr(o, n - o.addr)
        for o in self.fn_objs.values():
            if o.addr == n:
                return Ptr(o, 0)
        raise Unsupported('inttoptr of unknown address')

    def ptr2int(self, p):
        if isinstance(p, int):
            return p
        if p.obj is None:
            return p.off
        if is_sym(p.off):
            return z3.BitVecVal(p.obj.addr, 64) + p.off
        return (p.obj.addr + p.off) & mask(64)

    def memcpy(self, d, s, n):
        if is_sym(n):
            n = self.path.concretize(n, n.size())
        if n == 0:
            return
        so, soff = self.mem_off(s, n, 'copy-read')
        do, doff = self.mem_off(d, n, 'copy-write')
        if do.const:
            raise PathEnd('ub', 'write to constant ' + do.name)
        for k in self.overlapping(so, soff, n):
            sz = so.cells[k][0]
            if k < soff or k + sz > soff + n:
                self.explode(so, k)
        cells = [(k - soff, so.cells[k]) for k in self.overlapping(so, soff, n) if k >= soff and k + so.cells[k][0] <= soff + n]
        for k in self.overlapping(do, doff, n):
            sz = do.cells[k][0]
            if k >= doff and k + sz <= doff + n:
                del do.cells[k]
            else:
                self.explode(do, k)
                for j in range(doff, doff + n):
                    do.cells.pop(j, None)
        for k, c in cells:
            do.cells[doff + k] = c

    # ---- scalar operations
    def gep(self, sty, base, idx):
        p = base
        if isinstance(p, int):
            p = self.int2ptr(p)
        if p is UNDEF:
            return UNDEF
        if not isinstance(p, Ptr):
            raise Unsupported('gep on %r' % (p,))
        off = 0
        sym = None
        ty = sty
        for n, (it, iv) in enumerate(idx):
            if iv is UNDEF:
                return UNDEF
            if n == 0:
                sz = self.mod.size_align(ty)[0]
            else:
                ty = self.mod.resolve(ty)
                if ty[0] == 'struct':
                    offs, _, _ = self.mod.struct_layout(ty)
                    off += offs[iv]
                    ty = ty[1][iv]
                    continue
                ty = ty[2]
                sz = self.mod.size_align(ty)[0]
            w = it[1]
            if is_sym(iv):
                e = z3.SignExt(64 - w, iv) if w < 64 else iv
                e = e * z3.BitVecVal(sz, 64)
                sym = e if sym is None else sym + e
            else:
                off += to_signed(iv, w) * sz
        if sym is None:
            return self.padd(p, off)
        po = p.off if is_sym(p.off) else z3.BitVecVal(p.off & mask(64), 64)
        return Ptr(p.obj, simp(po + sym + z3.BitVecVal(off & mask(64), 64)))

    def binop(self, op, ty, a, b, flags):
        ty = self.mod.resolve(ty)
        if ty[0] == 'vec':
            return [self.binop(op, ty[2], x, y, flags) for x, y in zip(a, b)]
        if op[0] == 'f':
            return self.fbin(op, ty[0], a, b)
        if a is UNDEF or b is UNDEF:
            if op == 'and' and (a == 0 or b == 0):
                return 0
            return UNDEF
        w = ty[1]
        if isinstance(a, Ptr):
            a = self.ptr2int(a)
        if isinstance(b, Ptr):
            b = self.ptr2int(b)
        if isinstance(a, (EV, Cat)) or isinstance(b, (EV, Cat)):
            # sign tricks on a symbolic float held in an integer register
            if isinstance(a, EV) and isinstance(b, int):
                if op == 'xor' and b == 1 << (w - 1):
                    return -a
                if op == 'and' and b == mask(w - 1):
                    return self.fabs(a)
            raise Unsupported('integer %s on a symbolic float' % op)
        if isinstance(a, int) and isinstance(b, int):
            return self.cint(op, w, a, b, flags)
        if w == 1:
            x, y = bv(a, 1), bv(b, 1)
            if op in ('and', 'mul'):
                return simp(z3.And(x, y))
            if op == 'or':
                return simp(z3.Or(x, y))
            if op in ('xor', 'add', 'sub'):
                return simp(z3.Xor(x, y))
            raise Unsupported('i1 ' + op)
        x, y = bv(a, w), bv(b, w)
        if op == 'add':
            r = x + y
        elif op == 'sub':
            r = x - y
        elif op == 'mul':
            r = x * y
        elif op == 'and':
            r = x & y
        elif op == 'or':
            r = x | y
        elif op == 'xor':
            r = x ^ y
        elif op in ('shl', 'lshr', 'ashr'):
            if is_sym(y):
                ok = z3.ULT(y, w)
                if not self.path.branch_bool(ok):
                    raise PathEnd('ub', 'shift amount out of range')
            r = x << y if op == 'shl' else (z3.LShR(x, y) if op == 'lshr' else x >> y)
        else:
            if is_sym(y):
                if not self.path.branch_bool(y != 0):
                    raise PathEnd('ub', 'integer division by zero')
            elif b == 0:
                raise PathEnd('ub', 'integer division by zero')
            if op in ('sdiv', 'srem'):
                ov = z3.And(x == z3.BitVecVal(1 << (w - 1), w), y == z3.BitVecVal(mask(w), w))
                if not self.path.branch_bool(z3.Not(ov)):
                    raise PathEnd('ub', 'integer division overflow')
            r = {'sdiv': lambda: x / y, 'udiv': lambda: z3.UDiv(x, y), 'srem': lambda: z3.SRem(x, y), 'urem': lambda: z3.URem(x, y)}[op]()
        return simp(r)

    def cint(self, op, w, a, b, flags=()):
        m = mask(w)
        if op == 'add':
            return (a + b) & m
        if op == 'sub':
            return (a - b) & m
        if op == 'mul':
            return (a * b) & m
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op in ('shl', 'lshr', 'ashr'):
            if b >= w:
                return UNDEF
            if op == 'shl':
                return (a << b) & m
            if op == 'lshr':
                return a >> b
            return (to_signed(a, w) >> b) & m
        if b == 0:
            raise PathEnd('ub', 'integer division by zero')
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        sa, sb = to_signed(a, w), to_signed(b, w)
        q = abs(sa) // abs(sb)
        if (sa < 0) != (sb < 0):
            q = -q
        if op == 'sdiv':
            return q & m
        return (sa - q * sb) & m

    def fround(self, z, ty, mul=False):
        """add the rounding error of one machine operation to exact EV z"""
        m = z.mag() + z.e
        if not m < FMAX[ty]:
            raise Unsupported('possible floating overflow')
        return EV(z.p, eup(z.e + U[ty] * m + (ETA[ty] if mul else 0.0)), z.lo, z.hi)

    def fbin(self, op, ty, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, float) and isinstance(b, float):
            try:
                if op == 'fadd':
                    r = a + b
                elif op == 'fsub':
                    r = a - b
                elif op == 'fmul':
                    r = a * b
                elif op == 'fdiv':
                    if b == 0.0:
                        r = math.nan if (a == 0.0 or a != a) else math.copysign(math.inf, a) * math.copysign(1.0, b)
                    else:
                        r = a / b
                else:
                    r = math.fmod(a, b)
            except OverflowError:
                raise Unsupported('overflow')
            return f32(r) if ty == 'float' else r
        for v in (a, b):
            if isinstance(v, float) and (math.isinf(v) or math.isnan(v)):
                raise Unsupported('inf/nan meets a symbolic value')
            if not isinstance(v, (float, EV)):
                raise Unsupported('float op on %r' % type(v))
        if isinstance(a, float):
            if op == 'fmul' and a == 1.0:
                return b
            if op == 'fadd' and a == 0.0:
                return b
            ax = EV.const(Fraction(a))
        else:
            ax = a
        if isinstance(b, float):
            if op in ('fmul', 'fdiv') and b == 1.0:
                return a
            if op in ('fadd', 'fsub') and b == 0.0:
                return a
            bx = EV.const(Fraction(b))
        else:
            bx = b
        if op == 'fadd':
            return self.fround(ax + bx, ty)
        if op == 'fsub':
            return self.fround(ax - bx, ty)
        if op == 'fmul':
            pow2 = any(isinstance(v, float) and v and math.frexp(abs(v))[0] == 0.5 for v in (a, b))
            z = ax * bx
            if pow2:           # exact, up to underflow
                return EV(z.p, eup(z.e + ETA[ty]), z.lo, z.hi)
            return self.fround(z, ty, True)
        if op == 'fdiv':
            if isinstance(b, float):
                if b == 0.0:
                    raise Unsupported('symbolic value divided by zero')
                z = ax * (1 / Fraction(b))
                return self.fround(z, ty, True)
            rp, dmin, rlo, rhi = self.reals.recip(bx, self.path.reals)
            lo, hi = iv_mul(ax.lo, ax.hi, rlo, rhi)
            mq = max(abs(lo), abs(hi))
            e = ax.e / dmin + mq * bx.e / dmin
            return self.fround(EV(ax.p * rp, eup(e * (1 + 1e-15)), lo, hi), ty, True)
        raise Unsupported('symbolic ' + op)

    def fabs(self, a):
        if isinstance(a, float):
            return abs(a)
        if a is UNDEF:
            return a
        if a.lo >= a.e:
            return a
        if a.hi <= -a.e:
            return -a
        e = Poly.const(Fraction(a.e))
        i = self.path.branch_real([[a.p + e], [(-a.p) + e]])
        return a if i == 0 else -a

    def fcmp(self, pred, ty, a, b):
        ty = self.mod.resolve(ty)
        if ty[0] == 'vec':
            return [self.fcmp(pred, ty[2], x, y) for x, y in zip(a, b)]
        if pred == 'true':
            return 1
        if pred == 'false':
            return 0
        if a is UNDEF or b is UNDEF:
            raise PathEnd('uninit', 'comparison of an uninitialised value')
        if isinstance(a, float) and isinstance(b, float):
            un = a != a or b != b
            if pred == 'ord':
                return int(not un)
            if pred == 'uno':
                return int(un)
            r = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]]
            if pred[0] == 'o':
                return int(r and not un)
            return int(r or un)
        for v in (a, b):
            if isinstance(v, float) and v != v:
                return int(pred[0] == 'u')
        if pred == 'ord':
            return 1
        if pred == 'uno':
            return 0
        k = pred[1:]
        for v, o, sw in ((a, b, False), (b, a, True)):
            if isinstance(v, float) and math.isinf(v):      # symbolic side is finite
                lt = (v > 0) if sw else (v < 0)             # a < b ?
                return int({'eq': False, 'ne': True, 'lt': lt, 'le': lt, 'gt': not lt, 'ge': not lt}[k])
        d = EV.lift(Fraction(a) if isinstance(a, float) else a) - EV.lift(Fraction(b) if isinstance(b, float) else b)
        e = d.e
        ep = Poly.const(Fraction(e))
        # machine(a) - machine(b) lies within e of d.p
        if d.p.is_const() and e == 0.0:
            c = d.p.cval()
            return int({'eq': c == 0, 'ne': c != 0, 'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0}[k])
        if d.lo > e:
            return int(k in ('gt', 'ge', 'ne'))
        if d.hi < -e:
            return int(k in ('lt', 'le', 'ne'))
        gt, lt = [d.p + ep], [(-d.p) + ep]
        if k in ('gt', 'ge'):
            return int(self.path.branch_real([gt, lt]) == 0)
        if k in ('lt', 'le'):
            return int(self.path.branch_real([lt, gt]) == 0)
        i = self.path.branch_real([[], [d.p + ep, (-d.p) + ep]])      # different first: the equality path is the thin one
        return int((i == 1) == (k == 'eq'))

    def icmp(self, pred, ty, a, b):
        ty = self.mod.resolve(ty)
        if ty[0] == 'vec':
            return [self.icmp(pred, ty[2], x, y) for x, y in zip(a, b)]
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if ty[0] == 'ptr':
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                a, b, w = a.off, b.off, 64
            elif pred in ('eq', 'ne') and isinstance(a, Ptr) and isinstance(b, Ptr):
                return int(pred == 'ne')
            else:
                a, b, w = self.ptr2int(a), self.ptr2int(b), 64
        else:
            w = ty[1]
            if isinstance(a, Ptr):
                a = self.ptr2int(a)
            if isinstance(b, Ptr):
                b = self.ptr2int(b)
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's':
                a, b = to_signed(a, w), to_signed(b, w)
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred if pred in ('eq', 'ne') else pred[1:]])
        if isinstance(a, (EV, Cat)) or isinstance(b, (EV, Cat)):
            raise Unsupported('integer comparison of a symbolic float')
        x, y = bv(a, w), bv(b, w)
        if pred == 'eq':
            return simp(x == y)
        if pred == 'ne':
            return simp(x != y)
        if w == 1:
            x = z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            y = z3.If(y, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        f = {'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y,
             'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y)}[pred]
        return simp(f())

    def cast(self, op, t1, v, t2):
        t1, t2 = self.mod.resolve(t1), self.mod.resolve(t2)
        if t1[0] == 'vec' and t2[0] == 'vec' and t1[1] == t2[1]:
            return [self.cast(op, t1[2], x, t2[2]) for x in v]
        if op == 'bitcast':
            if t1[0] == 'vec' or t2[0] == 'vec':
                o = self.new_obj('bitcast', self.mod.size_align(t1)[0])
                self.store_typed(t1, v, Ptr(o, 0))
                return self.load(t2, Ptr(o, 0))
            if v is UNDEF:
                return v
            return self.as_type(v, t2)
        if v is UNDEF:
            return v
        if op == 'ptrtoint':
            return self.ptr2int(v)
        if op in ('inttoptr', 'addrspacecast'):
            if isinstance(v, Ptr):
                return v
            if is_sym(v):
                # base + symbolic offset of a known object
                for o in self.byaddr:
                    if not self.path.int_sat(z3.Not(z3.And(z3.UGE(v, o.addr), z3.ULE(v, o.addr + o.size)))):
                        return Ptr(o, simp(v - z3.BitVecVal(o.addr, 64)))
                raise Unsupported('symbolic inttoptr')
            return self.int2ptr(v)
        if op in ('zext', 'sext', 'trunc'):
            w1, w2 = t1[1], t2[1]
            if isinstance(v, Ptr):
                v = self.ptr2int(v)
            if isinstance(v, int):
                if op == 'sext':
                    v = to_signed(v, w1)
                return v & mask(w2)
            if isinstance(v, Cat):
                if op == 'trunc':
                    if v.pieces[0][0] * 8 == w2:
                        return v.pieces[0][1]
                raise Unsupported('cast of Cat')
            if isinstance(v, EV):
                raise Unsupported('cast of float bits')
            if isinstance(v, z3.BoolRef):
                if op == 'zext':
                    return z3.If(v, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
                return z3.If(v, z3.BitVecVal(mask(w2), w2), z3.BitVecVal(0, w2))
            if op == 'trunc':
                if w2 == 1:
                    return simp(z3.Extract(0, 0, v) == 1)
                return simp(z3.Extract(w2 - 1, 0, v))
            return simp(z3.SignExt(w2 - w1, v) if op == 'sext' else z3.ZeroExt(w2 - w1, v))
        if op in ('sitofp', 'uitofp'):
            w = t1[1]
            if isinstance(v, z3.BoolRef):
                v = int(self.path.branch_bool(v))
            elif is_sym(v):
                v = self.path.concretize(v, w)
            if op == 'sitofp':
                v = to_signed(v, w)
            if t2[0] == 'float':
                import numpy as np
                return float(np.float32(v)) if abs(v) < 2 ** 53 else f32(float(v))
            return float(v)
        if op == 'fpext':
            return v
        if op == 'fptrunc':
            if isinstance(v, float):
                return f32(v)
            return self.fround(v, t2[0], True)
        if op in ('fptosi', 'fptoui'):
            w = t2[1]
            if isinstance(v, float):
                if v != v or math.isinf(v):
                    return UNDEF
                return int(v) & mask(w)
            k0, k1 = math.floor(v.lo - v.e), math.ceil(v.hi + v.e)
            if k1 - k0 > 256:
                raise Unsupported('fptosi of a wide symbolic value')
            opts, vals = [], []
            ep = Poly.const(Fraction(v.e))
            for k in range(k0, k1 + 1):
                lo, hi = (k, k + 1) if k > 0 else ((k - 1, k) if k < 0 else (-1, 1))
                opts.append([v.p - Poly.const(lo) + ep, Poly.const(hi) - v.p + ep])
                vals.append(k)
            return vals[self.path.branch_real(opts)] & mask(w)
        raise Unsupported('cast ' + op)

    # ---- execution
    def val(self, fr, v):
        if v[0] == 'loc':
            return fr[v[1]]
        return self.const(v[1], v[2])

    def truth(self, c, what):
        if c is UNDEF:
            raise PathEnd('uninit', what + ' on an uninitialised value')
        if isinstance(c, int):
            return bool(c)
        return self.path.branch_bool(c)

    def call(self, name, args):
        name = self.mod.aliases.get(name, name)
        f = self.mod.funcs.get(name)
        if f is None or f.declared or not f.blocks:
            return self.external(name, args)
        if len(args) < len(f.params):
            raise Unsupported('argument count')
        self.stats.funcs.add(name)
        self.stack_depth += 1
        if self.stack_depth > 400:
            raise Unsupported('call depth')
        fr = {}
        for (t, n, byval), a in zip(f.params, args):
            if byval is not None:
                sz = self.mod.size_align(byval)[0]
                o = self.new_obj('byval', sz)
                self.memcpy(Ptr(o, 0), a, sz)
                a = Ptr(o, 0)
            fr[n] = a
        allocas = []
        self.va.append(args[len(f.params):])
        r = self.run(f, fr, allocas)
        self.va.pop()
        for o in allocas:
            o.alive = False
        self.stack_depth -= 1
        return r

    def run(self, f, fr, allocas):
        prev, cur = None, f.entry
        blocks = f.blocks
        mod = self.mod
        val = self.val
        while True:
            blk = blocks[cur]
            nxt = None
            # phis are parallel
            i = 0
            if blk and blk[0][0] == 'phi':
                upd = []
                while blk[i][0] == 'phi':
                    ins = blk[i]
                    upd.append((ins[1], val(fr, ins[3][prev])))
                    i += 1
                fr.update(upd)
            self.steps += len(blk)
            if self.steps > self.max_steps or time.time() > self.deadline or len(self.path.events) > self.max_events:
                # a candidate for an endless loop: replayed natively, inconclusive if it does return there
                raise PathEnd('stuck', 'still running after %d instructions, %d calls' % (self.steps, len(self.path.events)))
            n = len(blk)
            while i < n:
                ins = blk[i]
                i += 1
                op = ins[0]
                if op == 'bin':
                    fr[ins[1]] = self.binop(ins[2], ins[3], val(fr, ins[4]), val(fr, ins[5]), ins[6])
                elif op == 'load':
                    fr[ins[1]] = self.load(ins[2], val(fr, ins[3]))
                elif op == 'store':
                    self.store_typed(ins[2], val(fr, ins[3]), val(fr, ins[4]))
                elif op == 'gep':
                    base = val(fr, ins[3])
                    if isinstance(base, list):
                        raise Unsupported('vector gep')
                    fr[ins[1]] = self.gep(ins[2], base, [(t, val(fr, v)) for t, v in ins[4]])
                elif op == 'cast':
                    fr[ins[1]] = self.cast(ins[2], ins[3], val(fr, ins[4]), ins[5])
                elif op == 'icmp':
                    fr[ins[1]] = self.icmp(ins[2], ins[3], val(fr, ins[4]), val(fr, ins[5]))
                elif op == 'fcmp':
                    fr[ins[1]] = self.fcmp(ins[2], ins[3], val(fr, ins[4]), val(fr, ins[5]))
                elif op == 'jmp':
                    nxt = ins[2]
                elif op == 'br':
                    nxt = ins[3] if self.truth(val(fr, ins[2]), 'branch') else ins[4]
                elif op == 'call':
                    args = []
                    for t, v, bvl in ins[4]:
                        args.append(None if v is None else val(fr, v))
                    cal = ins[3]
                    if cal[0] == 'glob':
                        nm = cal[1]
                    else:
                        p = fr[cal[1]]
                        if not isinstance(p, Ptr) or not isinstance(p.obj, FnObj):
                            raise Unsupported('indirect call')
                        nm = p.obj.name
                    r = self.call(nm, args)
                    if ins[1] is not None:
                        fr[ins[1]] = r
                    if ins[5] is not None:
                        nxt = ins[5]
                elif op == 'select':
                    fr[ins[1]] = self.select(ins, fr)
                elif op == 'alloca':
                    cnt = val(fr, ins[4])
                    o = self.new_obj('%' + str(ins[1]) + '.' + f.name[:40], self.mod.size_align(ins[2])[0] * cnt)
                    allocas.append(o)
                    fr[ins[1]] = Ptr(o, 0)
                elif op == 'ret':
                    return None if ins[3] is None else val(fr, ins[3])
                elif op == 'fneg':
                    v = val(fr, ins[3])
                    fr[ins[1]] = [self.neg(x) for x in v] if isinstance(v, list) else self.neg(v)
                elif op == 'switch':
                    nxt = self.switch(ins, val(fr, ins[3]))
                elif op == 'extractvalue':
                    v = val(fr, ins[3])
                    for k in ins[6]:
                        v = v[k]
                    fr[ins[1]] = v
                elif op == 'insertvalue':
                    fr[ins[1]] = self.insertv(val(fr, ins[3]), ins[6], val(fr, ins[5]))
                elif op == 'freeze':
                    fr[ins[1]] = val(fr, ins[3])
                elif op == 'extractelement':
                    v = val(fr, ins[3])
                    fr[ins[1]] = v[val(fr, ins[5])]
                elif op == 'insertelement':
                    v = list(val(fr, ins[3]))
                    v[val(fr, ins[7])] = val(fr, ins[5])
                    fr[ins[1]] = v
                elif op == 'shufflevector':
                    v = list(val(fr, ins[3])) + list(val(fr, ins[4]))
                    fr[ins[1]] = [UNDEF if k is UNDEF else v[k] for k in val(fr, ins[6])]
                elif op == 'unreachable':
                    raise PathEnd('ub', 'reached unreachable in ' + f.name)
                else:
                    raise Unsupported('op ' + op)
            if nxt is None:
                raise Unsupported('fell off block')
            prev, cur = cur, nxt

    def neg(self, v):
        return v if v is UNDEF else -v

    def insertv(self, agg, idx, v):
        agg = list(agg)
        if len(idx) == 1:
            agg[idx[0]] = v
        else:
            agg[idx[0]] = self.insertv(agg[idx[0]], idx[1:], v)
        return agg

    def switch(self, ins, v):
        if v is UNDEF:
            raise PathEnd('uninit', 'switch on an uninitialised value')
        if isinstance(v, int):
            for c, l in ins[5]:
                if c == v:
                    return l
            return ins[4]
        w = ins[2][1]
        opts = []
        labs = []
        conds = []
        for c, l in ins[5]:
            e = v == z3.BitVecVal(c, w)
            conds.append(e)
            opts.append(e)
            labs.append(l)
        opts.append(z3.And([z3.Not(c) for c in conds]) if conds else z3.BoolVal(True))
        labs.append(ins[4])
        k = self.path.choose([((lambda e=e: self.path.int_sat(e)), (lambda e=e: self.path.add_int(e))) for e in opts])
        return labs[k]

    def select(self, ins, fr):
        c = self.val(fr, ins[4])
        a, b = ins[5], ins[6]
        if isinstance(c, list):
            av, bv_ = self.val(fr, a), self.val(fr, b)
            return [x if self.truth(k, 'select') else y for k, x, y in zip(c, av, bv_)]
        if isinstance(c, int):
            return self.val(fr, a if c else b)
        av, bv_ = self.val(fr, a), self.val(fr, b)
        if c is UNDEF:
            return av if av is bv_ or (isinstance(av, (int, float)) and av == bv_) else UNDEF
        if av is UNDEF or bv_ is UNDEF:
            return av if self.truth(c, 'select') else bv_
        ty = self.mod.resolve(ins[2])
        if ty[0] == 'int' and isinstance(av, (int, z3.ExprRef)) and isinstance(bv_, (int, z3.ExprRef)):
            x, y = bv(av, ty[1]), bv(bv_, ty[1])
            return simp(z3.If(c, x, y))
        return av if self.truth(c, 'select') else bv_

    # ---- externals
    def external(self, name, args):
        if name.startswith('llvm.'):
            return self.intrinsic(name, args)
        if name.startswith('cb_'):
            self.path.events.append((name, tuple(args)))
            return None
        if name in ('abort',):
            raise PathEnd('abort')
        if name == '__trap':
            raise PathEnd('trap')
        if name in ('exit', '_exit', 'quick_exit', '_Exit'):
            raise PathEnd('exit', str(args[0]))
        if name in ('__assert_fail', '_ZSt9terminatev', '__cxa_pure_virtual') or name.startswith('_ZSt') and '__throw' in name:
            raise PathEnd('abort', name)
        if name.startswith('__ubsan_handle'):
            raise PathEnd('trap', name)
        if self.mod.device and name in ('vprintf', 'printf', 'puts', 'putchar'):
            return UNDEF           # text printed by device code is not followed
        if name in ('fprintf', 'vfprintf', 'printf', 'vprintf', 'puts', 'putchar', 'fputc', 'fputs', 'fwrite', 'fflush', 'putc'):
            self.stdio(name, args)
            return UNDEF
        if name in ('snprintf', 'vsnprintf', 'sprintf', 'vsprintf', '__snprintf_chk', '__vsnprintf_chk'):
            return self.sprint(name, args)
        if name in ('strlen', 'strnlen'):
            return self.text_len(self.ctext(args[0])) if name == 'strlen' else len(self.cstr(args[0]))
        if name in ('memcpy', 'memmove'):
            self.memcpy(args[0], args[1], args[2])
            return args[0]
        if name == 'memset':
            self.memset(args[0], args[1], args[2])
            return args[0]
        if name in ('malloc', '_Znwm', '_Znam'):
            n = args[0]
            if is_sym(n):
                n = self.path.concretize(n, 64)
            o = self.new_obj('heap%d' % len(self.live_heap), n, heap=True)
            self.live_heap.append(o)
            self.path.events.append(('alloc', (name, n)))
            return Ptr(o, 0)
        if name in ('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm'):
            p = args[0]
            if p.obj is None:
                return None
            if not p.obj.alive or not p.obj.heap or p.off != 0:
                raise PathEnd('ub', 'invalid free')
            p.obj.alive = False
            self.path.events.append(('free', (name,)))
            return None
        fn = {'sqrt': math.sqrt, 'fabs': abs, 'sin': math.sin, 'cos': math.cos, 'exp': math.exp, 'log': math.log, 'floor': math.floor, 'ceil': math.ceil, 'cbrt': getattr(math, 'cbrt', None)}.get(name)
        if name in ('fabs', 'fabsf'):
            return self.fabs(args[0])
        if name in ('sqrt', 'sqrtf'):
            return self.fsqrt(args[0], 'double' if name == 'sqrt' else 'float')
        if name == 'pow' and all(isinstance(a, float) for a in args):
            return math.pow(*args)
        if fn and isinstance(args[0], float):
            return float(fn(args[0]))
        raise Unsupported('external function ' + name)

    def fsqrt(self, a, ty):
        if isinstance(a, float):
            if a < 0:
                return math.nan
            return f32(math.sqrt(a)) if ty == 'float' else math.sqrt(a)
        raise Unsupported('sqrt of a symbolic value')

    def cstr(self, p, n=None):
        """bytes of a constant C string (or n bytes)"""
        if not isinstance(p, Ptr) or p.obj is None or is_sym(p.off):
            raise Unsupported('symbolic string')
        s, k = bytearray(), p.off
        while n is None or len(s) < n:
            o, off = self.mem_off(Ptr(p.obj, k), 1, 'read')
            c = self.load_cell(o, off, 1)
            if not isinstance(c, int):
                raise Unsupported('symbolic string')
            if c == 0 and n is None:
                break
            s.append(c)
            k += 1
        return bytes(s)

    def ctext(self, p):
        """the pieces of a C string"""
        if isinstance(p, Ptr) and p.obj is not None and not is_sym(p.off):
            c = p.obj.cells.get(p.off) if not isinstance(p.obj, FnObj) else None
            if c is not None and isinstance(c[1], Text) and p.obj.alive:
                return list(c[1].pieces)
        return [self.cstr(p)]

    @staticmethod
    def text_len(pieces):
        n = sum(len(p) for p in pieces if isinstance(p, bytes))
        sym = [dec_len(p) for p in pieces if not isinstance(p, bytes)]
        return simp(sum(sym, z3.BitVecVal(n, 64))) if sym else n

    def valist(self, ap):
        v = self.load(('ptr',), ap).obj.va
        return v[1][v[0]:]

    def sprint(self, name, args):
        """formatting into memory, with its truncation"""
        nm = name.strip('_').replace('_chk', '')
        dst, k = args[0], 1
        n = None
        if 'snprintf' in nm:
            n, k = args[1], 2
            if is_sym(n):
                n = self.path.concretize(n, 64)
        if name.startswith('__'):
            k += 2
        va = self.valist(args[k + 1]) if nm[0] == 'v' else list(args[k + 1:])
        pieces = self.format(self.cstr(args[k]), va)
        ln = self.text_len(pieces)
        ret = simp(z3.Extract(31, 0, ln)) if is_sym(ln) else ln
        if n == 0:
            return ret
        if n is not None and (self.path.branch_bool(z3.UGE(ln, z3.BitVecVal(n, 64))) if is_sym(ln) else ln >= n):
            cut, left = [], n - 1
            for p in pieces:
                if not isinstance(p, bytes):
                    d = dec_len(p)
                    m = self.path.concretize(d, 64)
                    if m > left:
                        if left:
                            raise Unsupported('text cut inside a symbolic number')
                        break
                    cut.append(p)
                    left -= m
                    continue
                cut.append(p[:left])
                left -= len(cut[-1])
                if not left:
                    break
            pieces = cut
        sym = any(not isinstance(p, bytes) for p in pieces)
        room = sum(len(p) if isinstance(p, bytes) else 20 for p in pieces) + 1
        o, off = self.mem_off(dst, 1, 'write')
        if sym:
            room = min(room, o.size - off) if n is not None else room     # the longest text that can be there
            if n is not None:
                room = min(room, n)
        self.mem_off(dst, room, 'write')
        if sym:
            self.put(o, off, room, Text([p for p in pieces if p != b'']))
        else:
            for i, b in enumerate(b''.join(pieces) + b'\0'):
                self.put(o, off + i, 1, b)
        return ret

    def stdio(self, name, args):
        """the text written to stdout/stderr, as pieces (bytes, or (64-bit value) printed in signed decimal)"""
        out = []
        if name in ('printf', 'vprintf', 'puts', 'putchar'):
            stream = 'stdout'
        else:
            a = args[{'fprintf': 0, 'vfprintf': 0, 'fputc': 1, 'putc': 1, 'fputs': 1, 'fwrite': 3, 'fflush': 0}[name]]
            stream = a.obj.name.split(':')[-1] if isinstance(a, Ptr) and a.obj is not None else '?'
        if name in ('puts', 'fputs'):
            out += self.ctext(args[0]) + ([b'\n'] if name == 'puts' else [])
        elif name in ('putchar', 'fputc', 'putc'):
            if is_sym(args[0]):
                raise Unsupported('symbolic character')
            out.append(bytes([args[0] & 255]))
        elif name == 'fwrite':
            t, n = self.ctext(args[0]) if not isinstance(args[0], Ptr) or any(isinstance(c[1], Text) for c in args[0].obj.cells.values()) else [b''], args[1] * args[2] if not is_sym(args[1]) or not is_sym(args[2]) else None
            if any(not isinstance(p, bytes) for p in t):
                ln = self.text_len(t)
                if n is None or self.path.branch_bool(bv(n, 64) != ln):
                    raise Unsupported('part of a symbolic text written')
                out += t
            else:
                out.append(self.cstr(args[0], n if not is_sym(n) else self.path.concretize(n, 64)))
        elif name != 'fflush':
            if name[0] == 'v':
                fmt, ap = args[-2], args[-1]
                va = self.valist(ap)
            else:
                k = 0 if name == 'printf' else 1
                fmt, va = args[k], list(args[k + 1:])
            out = self.format(self.cstr(fmt), va)
        for p in out:
            self.path.events.append((stream, p))

    def format(self, fmt, va):
        out, i = [], 0
        for m in re.finditer(rb'%([-+ #0]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|j|z|t)?([a-zA-Z%])', fmt):
            out.append(fmt[i:m.start()])
            i = m.end()
            c, ln = m.group(5), m.group(4)
            if c == b'%':
                out.append(b'%')
                continue
            if not va:
                raise PathEnd('ub', 'printf argument missing')
            a = va.pop(0)
            if a is UNDEF:
                raise PathEnd('uninit', 'printf of an uninitialised value')
            if c == b's':
                out += self.ctext(a)
            elif c in b'diuxXc':
                w = 64 if ln in (b'l', b'll', b'j', b'z', b't') else 32
                if isinstance(a, Ptr) or isinstance(a, (float, EV)):
                    raise PathEnd('ub', 'printf argument type')
                if is_sym(a) and c == b'c':
                    a = self.path.concretize(a, a.size())
                if is_sym(a):
                    if a.size() != w or c not in b'diu' or m.group(1) or m.group(2):
                        raise Unsupported('printf of a symbolic value with %r' % m.group(0))
                    out.append(simp(a if w == 64 else z3.SignExt(32, a) if c != b'u' else z3.ZeroExt(32, a)))
                else:
                    v = to_signed(a & mask(w), w) if c in b'di' else a & mask(w)
                    out.append(bytes([v & 255]) if c == b'c' else (m.group(0).replace(ln or b'', b'').replace(b'u', b'd').decode() % v).encode())
            elif c in b'fgeFGE' and isinstance(a, float):
                out.append((m.group(0).decode() % a).encode())
            else:
                raise Unsupported('printf conversion %r' % m.group(0))
        out.append(fmt[i:])
        return [p for p in out if is_sym(p) or p]

    def memset(self, p, v, n):
        if is_sym(n):
            n = self.path.concretize(n, n.size())
        if n == 0:
            return
        o, off = self.mem_off(p, n, 'memset')
        for k in self.overlapping(o, off, n):
            s = o.cells[k][0]
            if k >= off and k + s <= off + n:
                del o.cells[k]
            else:
                self.explode(o, k)
                for j in range(off, off + n):
                    o.cells.pop(j, None)
        if v == 0:
            self.zero_fill(o, off, n)
        elif v is UNDEF:
            pass
        else:
            if is_sym(v):
                raise Unsupported('symbolic memset')
            for i in range(n):
                o.cells[off + i] = (1, v & 255)

    def intrinsic(self, name, args):
        for p in NOOP_INTR:
            if name.startswith(p):
                return None
        b = name.split('.')
        op = b[1]
        ty = b[-1]
        if op in ('memcpy', 'memmove'):
            return self.memcpy(args[0], args[1], args[2])
        if op == 'memset':
            return self.memset(args[0], args[1], args[2])
        if op == 'va_start' or name.startswith('llvm.va_start'):
            o = self.new_obj('va', 24)
            o.va = [0, list(self.va[-1])]
            self.store(args[0], 8, Ptr(o, 0), 'va_start')
            return None
        if name.startswith('llvm.va_copy'):
            v = self.load(('ptr',), args[1])
            o = self.new_obj('va', 24)
            o.va = [v.obj.va[0], list(v.obj.va[1])]
            self.store(args[0], 8, Ptr(o, 0), 'va_copy')
            return None
        if op in ('trap', 'ubsantrap', 'debugtrap'):
            raise PathEnd('trap', str(args))
        if op == 'stacksave':
            return NULL
        if op in ('expect', 'ssa_copy', 'annotation', 'launder', 'strip'):
            return args[0]
        if op == 'objectsize':
            return mask(64)
        if op == 'is' and 'constant' in name:
            return 0
        fty = {'f64': 'double', 'f32': 'float'}.get(ty)
        if fty and not name.startswith('llvm.fpto'):
            if op == 'fabs':
                return self.fabs(args[0])
            if op in ('fmuladd', 'fma'):
                if op == 'fma':
                    if all(isinstance(a, float) for a in args):
                        r = Fraction(args[0]) * Fraction(args[1]) + Fraction(args[2])
                        return f32(float(r)) if fty == 'float' else float(r)
                    z = EV.lift(self.fr(args[0])) * EV.lift(self.fr(args[1])) + EV.lift(self.fr(args[2]))
                    return self.fround(z, fty, True)
                return self.fbin('fadd', fty, self.fbin('fmul', fty, args[0], args[1]), args[2])
            if op == 'sqrt':
                return self.fsqrt(args[0], fty)
            if op in ('minnum', 'maxnum', 'minimum', 'maximum'):
                c = self.fcmp('olt', (fty,), args[0], args[1])
                return args[0] if bool(c) == op.startswith('min') else args[1]
            if op == 'copysign':
                s = args[1]
                if isinstance(s, float):
                    m = self.fabs(args[0])
                    return -m if math.copysign(1.0, s) < 0 else m
                c = self.fcmp('olt', (fty,), s, 0.0)
                m = self.fabs(args[0])
                return self.neg(m) if c else m
            if op in ('floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'round', 'sin', 'cos', 'exp', 'log', 'pow', 'powi'):
                if all(isinstance(a, (float, int)) for a in args):
                    if op == 'rint' or op == 'nearbyint':
                        return float(round(args[0]))
                    if op == 'powi':
                        return float(args[0]) ** to_signed(args[1], 32)
                    f = {'round': lambda x: math.copysign(math.floor(abs(x) + 0.5), x)}.get(op) or getattr(math, op)
                    return float(f(*args))
                if op == 'powi' and isinstance(args[0], EV) and isinstance(args[1], int):
                    n = to_signed(args[1], 32)
                    if 0 <= n < 16:
                        r = 1.0
                        for _ in range(n):
                            r = self.fbin('fmul', fty, r, args[0])
                        return r
            if op == 'is' and 'fpclass' in name:
                raise Unsupported(name)
        if ty.startswith('i') and ty[1:].isdigit():
            w = int(ty[1:])
            it = ('int', w)
            if any(a is UNDEF for a in args):
                return UNDEF
            if op in ('smax', 'smin', 'umax', 'umin'):
                c = self.icmp({'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[op], it, args[0], args[1])
                if isinstance(c, int):
                    return args[0] if c else args[1]
                return simp(z3.If(c, bv(args[0], w), bv(args[1], w)))
            if op == 'abs':
                c = self.icmp('slt', it, args[0], 0)
                n = self.binop('sub', it, 0, args[0], ())
                if isinstance(c, int):
                    return n if c else args[0]
                return simp(z3.If(c, bv(n, w), bv(args[0], w)))
            if op in ('fshl', 'fshr') and all(isinstance(a, int) for a in args):
                s = args[2] % w
                x = (args[0] << w | args[1])
                return ((x << s) >> w if op == 'fshl' else x >> s) & mask(w)
            if op == 'ctpop' and isinstance(args[0], int):
                return bin(args[0]).count('1')
            if op == 'ctlz' and isinstance(args[0], int):
                return w - args[0].bit_length()
            if op == 'cttz' and isinstance(args[0], int):
                return w if args[0] == 0 else (args[0] & -args[0]).bit_length() - 1
            if op in ('sadd', 'ssub', 'smul', 'uadd', 'usub', 'umul') and 'with' in name:
                sg = op[0] == 's'
                base = op[1:]
                r = self.binop(base, it, args[0], args[1], ())
                if all(isinstance(a, int) for a in args):
                    a, b_ = (to_signed(x, w) for x in args) if sg else args
                    t = {'add': a + b_, 'sub': a - b_, 'mul': a * b_}[base]
                    ov = not (-(1 << (w - 1)) <= t < (1 << (w - 1))) if sg else not (0 <= t <= mask(w))
                    return [r, int(ov)]
                ext = w if base == 'mul' else 1
                E = z3.SignExt if sg else z3.ZeroExt
                x, y = E(ext, bv(args[0], w)), E(ext, bv(args[1], w))
                t = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y}[base]()
                ov = simp(t != E(ext, bv(r, w)))
                return [r, ov]
            if op in ('sadd', 'uadd', 'usub', 'ssub') and 'sat' in name and all(isinstance(a, int) for a in args):
                sg = op[0] == 's'
                a, b_ = (to_signed(x, w) for x in args) if sg else args
                t = a + b_ if op.endswith('add') else a - b_
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, mask(w))
                return max(lo, min(hi, t)) & mask(w)
            if op in ('scmp', 'ucmp'):
                pass
        raise Unsupported('intrinsic ' + name)

    def fr(self, a):
        return Fraction(a) if isinstance(a, float) else a

    # ---- exploration
    def explore(self, setup, fname, collect, max_paths=None):
        """setup(ex) -> args;  collect(ex, path, outcome, info, ret) is called at the end of every feasible path."""
        work = [[]]
        n = 0
        mp = max_paths or self.max_paths
        while work:
            prefix = work.pop()
            n += 1
            if n > mp:
                raise Unsupported('path bound %d exceeded' % mp)
            if n > 1 and time.time() > self.deadline:
                raise Unsupported('time bound exceeded after %d paths' % n)
            path = Path(self, prefix)
            self._reset(path)
            try:
                args = setup(self)
                path.rel = []
                mod0 = self.mod
                for mod, args in (args.items if isinstance(args, Calls) else [(mod0, args)]):
                    if path.rel:
                        self.gobjs, self.stack_depth = {}, 0
                    self.mod = mod
                    ret, n0 = None, len(path.events)
                    try:
                        ret = self.call(fname, args)
                        kind, info = 'ret', ''
                    except PathEnd as pe:
                        kind, info = pe.kind, pe.info
                    except BaseException:
                        self.mod = mod0
                        raise
                    path.rel.append((kind, info, ret, path.events[n0:]))
                self.mod = mod0
                kind, info, ret, _ = path.rel[0]
                self.stats.steps += self.steps
                self.stats.paths += 1
                collect(self, path, kind, info, ret)
            except Infeasible:
                self.stats.steps += self.steps
            work.extend(path.pending)
        return n
