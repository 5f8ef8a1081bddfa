"""C10 / C11: product bases, interpolated shapes, parent elements."""
import itertools
from fractions import Fraction as Fr

from fw import B, Case, Check, Close, FA, G, OF, OI, Unit

COMBOS = {'a': (2, 2, 2), 'b': (2, 3, 4), 'c': (4, 2, 3), 'd': (3, 3, 3), 'e': (5, 3), 'f': (6,), 'g': (2, 3, 2, 2), 'h': (4, 4, 4)}
U = {'double': Fr(1, 2 ** 52), 'float': Fr(1, 2 ** 23)}


def tuples(ns):
    return list(itertools.product(*[range(n) for n in ns]))


def split(v, ns):
    out, k = [], 0
    for n in ns:
        out.append(v[k:k + n])
        k += n
    return out


def prods(ns, bv, bg):
    """independent oracle: products of the one-dimensional values / gradients"""
    v, g = [], []
    for t in tuples(ns):
        p = 1
        for d, a in enumerate(t):
            p = p * bv[d][a]
        v.append(p)
        for i in range(len(ns)):
            p = 1
            for d, a in enumerate(t):
                p = p * (bg[d][a] if d == i else bv[d][a])
            g.append(p)
    return v, g


def total(ns):
    p = 1
    for n in ns:
        p *= n
    return p


def shapes(work, tier):
    units, cases = [], []
    for ty in ('double', 'float'):
        us = [Unit(work, 'product.cpp', 0, ['REAL=' + ty, 'SHAPES', 'PART=%d' % p]) for p in (1, 2)]
        units += us
        for c, ns in COMBOS.items():
            D, T, S = len(ns), total(ns), sum(ns)
            u = us[c not in 'bdh']
            tol = U[ty] * (100000 if c == 'h' else 20000)

            def post(i, o, ns=ns, tol=tol, D=D):
                v, g = prods(ns, split(o.bv, ns), split(o.bg, ns))
                return [Close('value%s' % (t,), o.v[k], v[k], tol) for k, t in enumerate(tuples(ns))] + \
                    [Close('gradient%s[%d]' % (t, d), o.g[k * D + d], g[k * D + d], tol) for k, t in enumerate(tuples(ns)) for d in range(D)]
            for kind in ('prod', 'shape', 'parent', 'array'):
                cases.append(Case('%s_%s_%s' % (kind, c, ty), u, '%s_%s' % (kind, c),
                                  [FA('x', D, (-1, 1), ty), OF('v', T, ty), OF('g', T * D, ty), OF('bv', S, ty), OF('bg', S, ty), OF('pt', S, ty)], post,
                                  samples=2, heavy=T * T, box='x in [-1,1]^%d' % D))
            if c in ('a', 'c', 'e', 'f', 'g'):
                cases.append(Case('prod_%s_far_%s' % (c, ty), u, 'prod_%s' % c,
                                  [FA('x', D, (-2, 2), ty), OF('v', T, ty), OF('g', T * D, ty), OF('bv', S, ty), OF('bg', S, ty), OF('pt', S, ty)],
                                  lambda i, o, post=post, t=tol * 4000: post(i, o, tol=t), samples=2, heavy=T * T, box='x in [-2,2]^%d' % D, amp={'*': 1 << 12}))
            if ty == 'double':
                want = [('cb_e%d' % D, t) for t in tuples(ns)]
                for kind in ('ploop', 'sloop'):
                    cases.append(Case('%s_%s' % (kind, c), u, '%s_%s' % (kind, c), [], lambda i, o, w=want: [B('visits', o.events == w)], samples=1))
                exp = [D, D, D, 2 ** D, D] + list(ns) * 5
                cases.append(Case('counts_%s' % c, u, 'counts_%s' % c, [OI('o', len(exp))], lambda i, o, e=exp: [B('counts', list(o.o) == e)], samples=1))
    return units, cases


def interpolation(work, tier):
    units, cases = [], []
    for ty in ('double', 'float'):
        us = [Unit(work, 'product.cpp', 0, ['REAL=' + ty, 'PART=%d' % p]) for p in (1, 2)]
        units += us
        for c, ns in COMBOS.items():
            D, T, S = len(ns), total(ns), sum(ns)
            u = us[c not in 'bdh']
            if c == 'h' and ty == 'float':
                continue
            tol = U[ty] * 50000 * T

            def post(i, o, ns=ns, tol=tol, D=D):
                v, g = prods(ns, split(o.bv, ns), split(o.bg, ns))
                s = [0] * (D + 1)
                for k in range(len(v)):
                    s[0] = s[0] + i.f[k] * v[k]
                    for d in range(D):
                        s[1 + d] = s[1 + d] + i.f[k] * g[k * D + d]
                return [Close('value', o.r[0], s[0], tol)] + [Close('gradient[%d]' % d, o.r[1 + d], s[1 + d], tol) for d in range(D)]
            for kind in ('interp', 'interpfn'):
                cases.append(Case('%s_%s_%s' % (kind, c, ty), u, '%s_%s' % (kind, c),
                                  [FA('x', D, (-1, 1), ty), FA('f', T, (-1, 1), ty), OF('r', D + 1, ty), OF('bv', S, ty), OF('bg', S, ty), OF('pt', S, ty)], post,
                                  samples=2, heavy=T * T, box='x in [-1,1]^%d, nodal values in [-1,1]' % D))

                # other magnitudes of the nodal field, points outside the reference cell (extrapolation)
                if kind == 'interp' and c in ('a', 'c', 'e', 'f', 'g'):
                    for nm, fb, xb, amp in (('big', 10 ** 6, 1, 10 ** 6), ('small', Fr(1, 10 ** 9), 1, Fr(1, 10 ** 9)), ('far', 1, 2, 1000)):
                        cases.append(Case('%s_%s_%s_%s' % (kind, c, nm, ty), u, '%s_%s' % (kind, c),
                                          [FA('x', D, (-xb, xb), ty), FA('f', T, (-fb, fb), ty), OF('r', D + 1, ty), OF('bv', S, ty), OF('bg', S, ty), OF('pt', S, ty)],
                                          lambda i, o, post=post, t=tol * amp: post(i, o, tol=t), samples=2, heavy=T * T, box='x in [-%d,%d]^%d, nodal values in +-%s' % (xb, xb, D, fb), amp={'r': amp, '*': 1 << 12} if xb > 1 else {'r': amp}))

            def rpost(i, o, ns=ns, tol=tol, D=D):
                s = [0] * (D + 1)
                for k, t in enumerate(tuples(ns)):
                    m = i.c[k]
                    for d, a in enumerate(t):
                        m = m * i.x[d] ** a if a else m
                    s[0] = s[0] + m
                    for j in range(D):
                        if t[j]:
                            m = i.c[k] * t[j]
                            for d, a in enumerate(t):
                                p = a - (d == j)
                                m = m * i.x[d] ** p if p else m
                            s[1 + j] = s[1 + j] + m
                return [Close('polynomial', o.r[0], s[0], tol * 10)] + [Close('its gradient[%d]' % d, o.r[1 + d], s[1 + d], tol * 20) for d in range(D)]
            if c != 'h':
                cases.append(Case('repro_%s_%s' % (c, ty), u, 'repro_%s' % c, [FA('x', D, (-1, 1), ty), FA('c', T, (-1, 1), ty), OF('r', D + 1, ty)], rpost,
                                  samples=2, heavy=T * T, box='x in [-1,1]^%d, coefficients in [-1,1]' % D))
    return units, cases


SETS = '1 to 4 directions: (1,1,1), (1,2,3), (3,1,2), (2,2,2), (4,2), (5), (1,2,1,1), (3,3,3) orders mixing equal, Gauss-Legendre and Gauss-Lobatto spacing'
ASSUME = ['floating point: IEEE-754 round-to-nearest, bounded by |fl(z)-z| <= u|z|+eta (valid for every input in the box)',
          'compile-time parameters (orders, spacings, dimensions, real type) are instantiated as listed in bounds', 'clang 18 -O1 IR without vectorisation or FP contraction; concrete runs compared with g++ -O0']
CHECKS = [Check('C10', shapes, SETS + '; float and double; every coordinate in [-1,1]^D; every index tuple', ASSUME),
          Check('C11', interpolation, SETS + '; float and double; every coordinate in [-1,1]^D; every nodal field / polynomial coefficient set in [-1,1]', ASSUME)]
