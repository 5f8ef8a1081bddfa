"""Exact polynomial + rigorous rounding-error domain for machine floating point.

EV(p, e, lo, hi):  a machine (or exact) real quantity v with |v - p(x)| <= e for every assignment x of
the symbolic inputs inside their boxes, where p is an exact rational polynomial and [lo, hi] encloses p.
Machine operations add the standard-model rounding error  |fl(z) - z| <= u|z| + eta  (IEEE-754, round to
nearest), so whatever is proved about p with slack e holds for the machine result itself.
"""
import math
from fractions import Fraction

INF = math.inf
U = {'double': 2.0 ** -53, 'float': 2.0 ** -24}
ETA = {'double': 2.0 ** -1074, 'float': 2.0 ** -149}
FMAX = {'double': 1.7e308, 'float': 3.4e38}


def up(x):
    return math.nextafter(x, INF)


def dn(x):
    return math.nextafter(x, -INF)


def eup(x):
    """Upward rounding of an accumulated non-negative error term (several float ops were used)."""
    return x * (1 + 2e-15) if x else 0.0


def f_up(fr):
    f = float(fr)
    return f if Fraction(f) >= fr else up(f)


def f_dn(fr):
    f = float(fr)
    return f if Fraction(f) <= fr else dn(f)


class Poly:
    __slots__ = ('t',)

    def __init__(self, t=None):
        self.t = t if t is not None else {}

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c}) if c else Poly()

    @staticmethod
    def var(i):
        return Poly({(i,): Fraction(1)})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), Fraction(0))

    def __add__(self, o):
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m)
            if v is None:
                r[m] = -c
            else:
                v = v - c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return Poly(r)

    def scale(self, k):
        if not k:
            return Poly()
        if k == 1:
            return self
        return Poly({m: c * k for m, c in self.t.items()})

    def __mul__(self, o):
        if self.is_const():
            return o.scale(self.cval())
        if o.is_const():
            return self.scale(o.cval())
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                if not m1:
                    m = m2
                elif not m2:
                    m = m1
                else:
                    m = tuple(sorted(m1 + m2))
                v = r.get(m)
                r[m] = c1 * c2 if v is None else v + c1 * c2
        return Poly({m: c for m, c in r.items() if c})

    def __pow__(self, n):
        r = Poly.const(1)
        for _ in range(n):
            r = r * self
        return r

    def vars(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def subs(self, env):
        """env: var -> Fraction; partial substitution."""
        r = {}
        for m, c in self.t.items():
            rest = []
            for v in m:
                if v in env:
                    c = c * env[v]
                else:
                    rest.append(v)
            if c:
                rest = tuple(rest)
                r[rest] = r.get(rest, 0) + c
        return Poly({m: c for m, c in r.items() if c})

    def eval(self, env):
        s = Fraction(0)
        for m, c in self.t.items():
            for v in m:
                c = c * env[v]
            s += c
        return s

    def degree_in(self, v):
        return max((m.count(v) for m in self.t), default=0)

    def __repr__(self):
        return ' + '.join('%s*%s' % (float(c), '*'.join('x%d' % v for v in m)) for m, c in list(self.t.items())[:8]) or '0'


def iv_mul(a, b, c, d):
    v = (a * c, a * d, b * c, b * d)
    return dn(min(v)), up(max(v))


TIGHT = [None]      # interval of a polynomial in the variables of the current case
FEW = 48


def mk(p, e, lo, hi):
    """EV whose interval is also evaluated from the polynomial (terms may have cancelled)"""
    if TIGHT[0] and p.t and len(p.t) <= FEW:
        l, h = TIGHT[0](p)
        lo, hi = max(lo, l), min(hi, h)
    elif not p.t:
        lo = hi = 0.0
    return EV(p, e, lo, hi)


class EV:
    __slots__ = ('p', 'e', 'lo', 'hi')

    def __init__(self, p, e, lo, hi):
        self.p, self.e, self.lo, self.hi = p, e, lo, hi

    @staticmethod
    def const(c):
        c = Fraction(c)
        return EV(Poly.const(c), 0.0, f_dn(c), f_up(c))

    def mag(self):
        return max(abs(self.lo), abs(self.hi))

    @staticmethod
    def lift(o):
        return o if isinstance(o, EV) else EV.const(o)

    def __add__(self, o):
        o = EV.lift(o)
        return mk(self.p + o.p, eup(self.e + o.e), dn(self.lo + o.lo), up(self.hi + o.hi))

    __radd__ = __add__

    def __neg__(self):
        return EV(-self.p, self.e, -self.hi, -self.lo)

    def __sub__(self, o):
        o = EV.lift(o)
        return mk(self.p - o.p, eup(self.e + o.e), dn(self.lo - o.hi), up(self.hi - o.lo))

    def __rsub__(self, o):
        return EV.lift(o) - self

    def __mul__(self, o):
        o = EV.lift(o)
        lo, hi = iv_mul(self.lo, self.hi, o.lo, o.hi)
        if self is o:
            lo = max(lo, 0.0)
        ma, mb = self.mag(), o.mag()
        e = (ma * o.e if o.e else 0.0) + (mb * self.e if self.e else 0.0) + self.e * o.e
        return mk(self.p * o.p, eup(e), lo, hi)

    __rmul__ = __mul__

    def __pow__(self, n):
        r = EV.const(1)
        for _ in range(n):
            r = r * self
        return r

    def __truediv__(self, c):
        if isinstance(c, EV):
            raise TypeError('division of EV by EV: clear denominators in the oracle')
        return self * (Fraction(1) / Fraction(c))

    def is_exact_const(self):
        return self.e == 0.0 and self.p.is_const()

    def __repr__(self):
        return 'EV(%r, e=%.3g, [%g,%g])' % (self.p, self.e, self.lo, self.hi)
