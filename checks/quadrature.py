"""C06 / C07: support points and quadrature rules."""
from fractions import Fraction as Fr

from fw import B, Case, Check, Close, Ge, G, I, OF, L, Unit


# ---- independent oracle: exact rational bisection of the defining polynomials
def legendre(n):
    p0, p1 = [Fr(1)], [Fr(0), Fr(1)]
    if n == 0:
        return p0
    for k in range(1, n):
        q = [Fr(0)] * (k + 2)
        for i, c in enumerate(p1):
            q[i + 1] += c * Fr(2 * k + 1, k + 1)
        for i, c in enumerate(p0):
            q[i] -= c * Fr(k, k + 1)
        p0, p1 = p1, q
    return p1


def ev(p, x):
    r = Fr(0)
    for c in reversed(p):
        r = r * x + c
    return r


def deriv(p):
    return [c * k for k, c in enumerate(p)][1:]


def roots(p, n):
    """the n simple roots of p in (-1,1), to 2^-100"""
    m = 64 * n + 1           # odd grid: no root on it except possibly 0
    out, xs = [], [Fr(-1) + Fr(2 * k, m) for k in range(m + 1)]
    for a, b in zip(xs, xs[1:]):
        fa, fb = ev(p, a), ev(p, b)
        if fa * fb < 0:
            for _ in range(110):
                c = (a + b) / 2
                fc = ev(p, c)
                if fc == 0:
                    a = b = c
                    break
                if fa * fc < 0:
                    b = c
                else:
                    a, fa = c, fc
                a, b = a.limit_denominator(2 ** 130), b.limit_denominator(2 ** 130)
            out.append(((a + b) / 2).limit_denominator(2 ** 120))
    assert len(out) == n
    return out


_c = {}


def points(kind, n):
    if (kind, n) not in _c:
        if kind == 'equal':
            r = [Fr(-1) + Fr(2 * k, n - 1) for k in range(n)]
        elif kind == 'gl':
            r = roots(legendre(n), n)
        else:
            r = [Fr(-1)] + (roots(deriv(legendre(n - 1)), n - 2) if n > 2 else []) + [Fr(1)]
        _c[kind, n] = r
    return _c[kind, n]


ALL = [('equal', n) for n in range(2, 10)] + [('gl', n) for n in (2, 3, 4)] + [('gll', n) for n in range(2, 10)]


def ctol(ty, kind, n):
    if ty == 'float':
        return Fr(8, 2 ** 24)
    if kind == 'gll' and n >= 6:
        return Fr(1, 10 ** 13)              # tables given with 13 to 16 digits
    return Fr(8, 2 ** 53)


def spacing(work, tier):
    units, cases = [], []
    for ty in ('double', 'float'):
        u = Unit(work, 'quadrature.cpp', 0, ['REAL=' + ty])
        units.append(u)
        for kind, n in ALL:
            pts, tol = points(kind, n), ctol(ty, kind, n)
            nm = '%s_%d' % (kind, n)

            def cpost(i, o, pts=pts, tol=tol, n=n):
                x = o.o
                cl = [Close('coordinate<%d>' % k, x[k], pts[k], tol) for k in range(n)]
                cl += [Ge('strictly increasing', x[k + 1] - x[k], Fr(1, 100)) for k in range(n - 1)]
                cl += [Ge('inside [-1,1]', x[0], -1), Ge('inside [-1,1]', -x[n - 1], -1)]
                cl += [Close('symmetric', x[k] + x[n - 1 - k], 0, tol) for k in range((n + 1) // 2)]
                return cl
            cases.append(Case('points_%s_%s' % (nm, ty), u, 'ct_' + nm, [OF('o', n, ty)], cpost, samples=1))

            def rpost(i, o, pts=pts, tol=tol, n=n):
                return [B('coordinate(%d)' % k, L.Implies(i.i == k, abs(o.ret - pts[k]) <= tol)) for k in range(n)]
            cases.append(Case('runtime_%s_%s' % (nm, ty), u, 'rt_' + nm, [I('i', 0, n - 1)], rpost, ret=ty, samples=n, box='every index 0..%d' % (n - 1)))

            def kpost(i, o, pts=pts, tol=tol, n=n):
                return [Close('constant evaluation %d' % k, o.o[k], pts[k % n], tol) for k in range(2 * n)]
            cases.append(Case('constant_%s_%s' % (nm, ty), u, 'ce_' + nm, [OF('o', 2 * n, ty)], kpost, samples=1))
            cases.append(Case('count_%s_%s' % (nm, ty), u, 'np_' + nm, [], lambda i, o, n=n: [B('number of points', o.ret == n)], ret='i32', samples=1))
            if kind == 'equal':
                cases.append(Case('interval_%s_%s' % (nm, ty), u, 'interval_%d' % n, [], lambda i, o, n=n, tol=tol: [Close('interval', o.ret, Fr(2, n - 1), tol)], ret=ty, samples=1))
    return units, cases


def integral(c):
    r = 0
    for k, x in enumerate(c):
        if k % 2 == 0:
            r = r + x * Fr(2, k + 1)
    return r


def horner(c, x):
    r = 0
    for k in reversed(c):
        r = r * x + k
    return r


def quadrature(work, tier):
    units, cases = [], []
    for ty in ('double', 'float'):
        u = Unit(work, 'quadrature.cpp', 0, ['REAL=' + ty])
        units.append(u)
        for kind, n in [('gl', n) for n in (2, 3, 4)] + [('gll', n) for n in range(2, 10)]:
            deg = 2 * n - 1 if kind == 'gl' else 2 * n - 3
            nm = '%s_%d' % (kind, n)
            tol = Fr(1, 2 ** 18) if ty == 'float' else (Fr(1, 10 ** 14) * 2 if n <= 5 else Fr(1, 10 ** 12))

            def post(i, o, n=n, tol=tol):
                w, x = o.o[:n], o.o[n:2 * n]
                s = 0
                for a, b in zip(w, x):
                    s = s + a * horner(i.c, b)
                t = 0
                for a in w:
                    t = t + a
                return [Close('quadrature of a polynomial', s, integral(i.c), tol * len(i.c)), Close('weights sum to two', t, 2, tol)] + \
                    [Ge('positive weight', a, Fr(1, 100)) for a in w] + [Close('symmetric weights', w[k], w[n - 1 - k], tol) for k in range(n // 2)]
            a = [OF('o', 2 * n, ty), G('c', deg + 1, (-1, 1), ty)]
            cases.append(Case('exact_%s_%s' % (nm, ty), u, 'ctw_' + nm, a, post, samples=2, box='all polynomials of degree <= %d with coefficients in [-1,1]' % deg))
            cases.append(Case('count_%s_%s' % (nm, ty), u, 'npq_' + nm, [], lambda i, o, n=n: [B('number of points', o.ret == n)], ret='i32', samples=1))
            wts = weights(kind, n)
            wt = Fr(8, 2 ** 24) if ty == 'float' else (Fr(8, 2 ** 53) if n <= 5 else Fr(1, 10 ** 13))

            def kpost(i, o, n=n, wts=wts, wt=wt):
                return [Close('constant evaluation of weight %d' % (k % n), o.o[k], wts[k % n], wt) for k in range(len(o.o))]
            cases.append(Case('constant_%s_%s' % (nm, ty), u, 'cew_' + nm, [OF('o', 2 * n if n <= 5 else n, ty)], kpost, samples=1))
            if n <= 5:
                cases.append(Case('exactrt_%s_%s' % (nm, ty), u, 'rtr_' + nm, a, post, samples=2, box='all polynomials of degree <= %d with coefficients in [-1,1]' % deg))

                def wpost(i, o, n=n, wts=wts, wt=wt):
                    return [B('weight(%d)' % k, L.Implies(i.i == k, abs(o.ret - wts[k]) <= wt)) for k in range(n)]
                cases.append(Case('runtime_%s_%s' % (nm, ty), u, 'rtw_' + nm, [I('i', 0, n - 1)], wpost, ret=ty, samples=n, box='every index'))
    return units, cases


def weights(kind, n):
    x = points(kind, n)
    if kind == 'gl':
        d = deriv(legendre(n))
        return [2 / ((1 - t * t) * ev(d, t) ** 2) for t in x]
    p = legendre(n - 1)
    return [Fr(2, n * (n - 1)) / ev(p, t) ** 2 for t in x]


ASSUME = ['compile-time parameters (points, real type) are instantiated as listed in bounds', 'the published tables for 6 to 9 Lobatto points carry 13 to 16 digits: tolerance 1e-13 there, 8 ulp elsewhere',
          'clang 18 -O1 IR; concrete runs compared with g++ -O0']
CHECKS = [Check('C06', spacing, 'equal spacing 2-9 points, Gauss-Legendre 2-4, Gauss-Lobatto 2-9; every index (run-time index symbolic); float and double', ASSUME),
          Check('C07', quadrature, 'Gauss-Legendre 2-4 points, Gauss-Lobatto 2-9; every polynomial of degree <= 2N-1 / 2N-3 with coefficients in [-1,1]; float and double', ASSUME)]
