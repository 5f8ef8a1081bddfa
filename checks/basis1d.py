"""C08 / C09: one-dimensional Lagrange bases."""
from fractions import Fraction as Fr

from fw import B, Case, Check, Close, F, G, I, OF, OI, L, Unit

KINDS = [('equal', n) for n in range(2, 7)] + [('gl', n) for n in range(2, 5)] + [('gll', n) for n in range(2, 10)]


def horner(c, x):
    r = 0
    for k in reversed(range(len(c))):
        r = r * x + c[k]
    return r


def dhorner(c, x):
    r = 0
    for k in reversed(range(1, len(c))):
        r = r * x + c[k] * k
    return r


def tols(ty, n, wide):
    # generous against rounding (the proof compares the derived rounding bound with it), tight against errors
    u = Fr(1, 2 ** 52) if ty == 'double' else Fr(1, 2 ** 23)
    amp = {2: 4, 3: 8, 4: 16, 5: 32, 6: 64, 7: 128, 8: 256, 9: 512}[n]
    w = Fr(3) ** (n - 1) if wide else 1
    return u * amp * 2000 * w


def values(work, tier):
    units, cases = [], []
    for ty in ('double', 'float'):
        u = Unit(work, 'lagrange.cpp', 0, ['REAL=' + ty])
        units.append(u)
        for s, n in KINDS:
            boxes = [('unit', Fr(-1), Fr(1))]
            if n <= 6:
                boxes.append(('wide', Fr(-3), Fr(3)))
            for bn, lo, hi in boxes:
                tol = tols(ty, n, bn == 'wide')

                def post(i, o, tol=tol, n=n):
                    x = i.x[0] if isinstance(i.x, list) else i.x
                    tot = 0
                    for a in range(n):
                        tot = tot + o.v[a] * horner(i.c, o.nodes[a])
                    return [Close('sum_a p(x_a) phi_a(x) = p(x)', tot, horner(i.c, x), tol)]
                cases.append(Case('reproduce_%s_%d_%s_%s' % (s, n, ty, bn), u, 'lag_%s_%d' % (s, n),
                                  [F('x', lo, hi, ty), OF('v', n, ty), OF('g', n, ty), OF('nodes', n, ty), G('c', n, (-1, 1), ty)], post, heavy=n, samples=2,
                                  box='x in [%s,%s], coefficients in [-1,1]' % (lo, hi)))
            ktol = (Fr(1, 2 ** 52) if ty == 'double' else Fr(1, 2 ** 23)) * 64

            def kpost(i, o, ktol=ktol):
                # paths fix a and b (solver case split); the target is the Kronecker delta
                return [Close('phi_a(x_b) = delta_ab', o.ret, o.delta, ktol)]
            cases.append(Case('kronecker_%s_%d_%s' % (s, n, ty), u, 'kron_%s_%d' % (s, n), [I('a', 0, n - 1), I('b', 0, n - 1)],
                              mk_kron(ktol), ret=ty, samples=4, box='all (a,b) with 0<=a,b<%d' % n))
            cases.append(Case('counts_%s_%d_%s' % (s, n, ty), u, 'meta_%s_%d' % (s, n), [OI('o', 3)],
                              lambda i, o, n=n: [B('order', o.o[0] == n - 1), B('support points', o.o[1] == n), B('points', o.o[2] == n)], samples=1))
    return units, cases


def mk_kron(tol):
    def post(i, o):
        # |ret - 1| <= tol when a == b, |ret| <= tol otherwise; ret is concrete on each path
        r = o.ret
        d1, d0 = abs(r - 1) <= tol, abs(r) <= tol
        return [B('phi_a(x_b) = delta_ab', L.And(L.Implies(i.a == i.b, d1), L.Implies(L.Not(i.a == i.b), d0)))]
    return post


def gradients(work, tier):
    units, cases = [], []
    for ty in ('double', 'float'):
        u = Unit(work, 'lagrange.cpp', 0, ['REAL=' + ty])
        units.append(u)
        for s, n in KINDS:
            boxes = [('unit', Fr(-1), Fr(1))]
            if n <= 6:
                boxes.append(('wide', Fr(-3), Fr(3)))
            for bn, lo, hi in boxes:
                tol = tols(ty, n, bn == 'wide') * 2 * n

                def post(i, o, tol=tol, n=n):
                    tot = 0
                    for a in range(n):
                        tot = tot + o.g[a] * horner(i.c, o.nodes[a])
                    return [Close("sum_a p(x_a) phi'_a(x) = p'(x)", tot, dhorner(i.c, i.x), tol)]
                cases.append(Case('dreproduce_%s_%d_%s_%s' % (s, n, ty, bn), u, 'lag_%s_%d' % (s, n),
                                  [F('x', lo, hi, ty), OF('v', n, ty), OF('g', n, ty), OF('nodes', n, ty), G('c', n, (-1, 1), ty)], post, heavy=n, samples=2,
                                  box='x in [%s,%s], coefficients in [-1,1]' % (lo, hi)))
    return units, cases


BOUNDS = 'orders 1-5 equally spaced, 1-3 Gauss-Legendre points, 1-8 Gauss-Lobatto points; float and double; x in [-1,1] (and [-3,3] up to order 5); every polynomial of degree <= order with coefficients in [-1,1]'
ASSUME = ['floating point: IEEE-754 round-to-nearest, bounded by |fl(z)-z| <= u|z|+eta (valid for every input in the box)',
          'compile-time parameters (order, spacing, real type) are instantiated as listed in bounds, not symbolic',
          'clang 18 -O1 IR without vectorisation or FP contraction; concrete runs compared with g++ -O0']
CHECKS = [Check('C08', values, BOUNDS, ASSUME), Check('C09', gradients, BOUNDS, ASSUME)]
