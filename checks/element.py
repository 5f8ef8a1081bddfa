"""C27: element matrices and bilinear forms assembled with the library are those of exact integration."""
import itertools
import math
from fractions import Fraction as Fr

from checks.mapping import HEXES, LIN1, PERMS, det3, flat
from fw import Case, Check, Close, F, FA, K, OF, Unit

U = {'double': Fr(1, 2 ** 52), 'float': Fr(1, 2 ** 23)}


def root(q):
    """square root of a fraction to 50 digits"""
    n = 10 ** 100 * q.numerator // q.denominator
    return Fr(math.isqrt(n), 10 ** 50)


# support points, from the definitions (equal spacing; roots of the Legendre polynomial / of its derivative)
POINTS = {'e1': [-1, 1], 'e2': [-1, 0, 1], 'e3': [-1, Fr(-1, 3), Fr(1, 3), 1], 'l1': [-1, 1], 'l2': [-1, 0, 1], 'l3': [-1, -root(Fr(1, 5)), root(Fr(1, 5)), 1],
          'g1': [-root(Fr(1, 3)), root(Fr(1, 3))], 'g2': [-root(Fr(3, 5)), 0, root(Fr(3, 5))]}


def mul(p, q):
    r = [Fr(0)] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            r[i + j] += a * b
    return r


def integ(p):
    return sum(c * Fr(2, k + 1) for k, c in enumerate(p) if k % 2 == 0)


def der(p):
    return [k * c for k, c in enumerate(p)][1:] or [Fr(0)]


def lagrange(pts):
    out = []
    for a, x in enumerate(pts):
        p = [Fr(1)]
        for b, y in enumerate(pts):
            if b != a:
                p = mul(p, [Fr(-y) / (x - y), Fr(1) / (x - y)])
        out.append(p)
    return out


BASIS = {k: lagrange([Fr(x) for x in v]) for k, v in POINTS.items()}
# bases whose rule has its points at the nodes: the mass matrix is the diagonal of the weights
LUMPED = {'l2': [Fr(1, 3), Fr(4, 3), Fr(1, 3)], 'l1': [Fr(1), Fr(1)], 'g1': [Fr(1), Fr(1)]}


def one(b, lumped=False):
    P = BASIS[b]
    n = range(len(P))
    m = [[integ(mul(P[i], P[j])) for j in n] for i in n]
    if lumped:
        m = [[LUMPED[b][i] if i == j else Fr(0) for j in n] for i in n]
    return dict(n=len(P), m=m, k=[[integ(mul(der(P[i]), der(P[j]))) for j in n] for i in n], c=[[integ(mul(der(P[i]), P[j])) for j in n] for i in n], i=[integ(p) for p in P])


def tuples(bs):
    return list(itertools.product(*[range(b['n']) for b in bs]))


def scaled_post(bs, ty, s, uniform, stiff, row=None):
    t = tuples(bs)
    tol = U[ty] * 4000

    def post(i, o):
        h = [i.h] * 3 if uniform else list(i.h)
        V = h[0] * h[1] * h[2]
        # K V = sum over directions of (product of the two other edges) squared / 2 times the reference matrix
        S = [h[1] * h[1] * h[2] * h[2], h[0] * h[0] * h[2] * h[2], h[0] * h[0] * h[1] * h[1]]
        cl = []
        for a, x in enumerate(t):
            if row not in (None, a):
                continue
            r = len(t) * (a if row is None else 0)
            for b, y in enumerate(t):
                m = [bs[d]['m'][x[d]][y[d]] for d in range(3)]
                cl.append(Close('mass(%d,%d)' % (a, b), o.M[r + b], V * (m[0] * m[1] * m[2] / 8), tol * s ** 3))
                if stiff:
                    k = [bs[d]['k'][x[d]][y[d]] for d in range(3)]
                    want = S[0] * (k[0] * m[1] * m[2] / 2) + S[1] * (m[0] * k[1] * m[2] / 2) + S[2] * (m[0] * m[1] * k[2] / 2)
                    cl.append(Close('stiffness(%d,%d) times volume' % (a, b), o.K[r + b] * V, want, tol * 400 * s ** 4))
        return cl
    return post


def par_post(ty):
    b = one('e1')
    t = tuples([b] * 3)

    def post(i, o):
        # columns of the Jacobian are half the edges
        J = [[i.e[3 * c + r] * Fr(1, 2) for c in range(3)] for r in range(3)]
        det = det3(J)
        # A[c] = cofactor vectors: row c of the adjugate, (J^-1)[c][r] = A[c][r] / det
        A = [[J[(r + 1) % 3][(c + 1) % 3] * J[(r + 2) % 3][(c + 2) % 3] - J[(r + 1) % 3][(c + 2) % 3] * J[(r + 2) % 3][(c + 1) % 3] for r in range(3)] for c in range(3)]
        G = [[A[c][0] * A[d][0] + A[c][1] * A[d][1] + A[c][2] * A[d][2] for d in range(3)] for c in range(3)]
        cl = []
        for p, x in enumerate(t):
            for q, y in enumerate(t):
                m = [b['m'][x[d]][y[d]] for d in range(3)]
                cl.append(Close('mass(%d,%d)' % (p, q), o.M[8 * p + q], det * (m[0] * m[1] * m[2]), U[ty] * 4000))
                want = 0
                for c in range(3):
                    for d in range(3):
                        f = [b['k'][x[r]][y[r]] if r == c == d else b['c'][x[r]][y[r]] if r == c else b['c'][y[r]][x[r]] if r == d else m[r] for r in range(3)]
                        want = want + G[c][d] * (f[0] * f[1] * f[2])
                cl.append(Close('stiffness(%d,%d) times determinant' % (p, q), o.K[8 * p + q] * det, want, U[ty] * 400000))
        return cl
    return post


def par_pre(sg):
    def pre(i):
        return [det3([[i.e[3 * c + r] * Fr(1, 2) for c in range(3)] for r in range(3)]) * sg - Fr(1, 4)]
    return pre


_M5 = {}


def mass5():
    """M_ab = sum_cde x_c y_d z_e T_abcde, for the trilinear hexahedron"""
    if not _M5:
        tab = {}
        for s in itertools.product(range(2), repeat=5):
            for w in range(3):
                f = mul(LIN1[s[0]], LIN1[s[1]])
                for k in range(3):
                    f = mul(f, der(LIN1[s[2 + k]]) if k == w else LIN1[s[2 + k]])
                tab[s, w] = integ(f)
        node = list(itertools.product(range(2), repeat=3))
        for a in range(8):
            for b in range(a, 8):
                row = []
                for c, d, e in itertools.product(range(8), repeat=3):
                    v = [node[n] for n in (a, b, c, d, e)]
                    t = sum(sg * tab[tuple(x[0] for x in v), pm.index(0)] * tab[tuple(x[1] for x in v), pm.index(1)] * tab[tuple(x[2] for x in v), pm.index(2)] for pm, sg in PERMS)
                    if t:
                        row.append((c, d, e, t))
                _M5[a, b] = row
    return _M5


def hex_post(ty, s, row):
    def post(i, o):
        p, mono, cl = i.p, {}, []
        for (a, b), terms in mass5().items():
            if row >= 0 and row not in (a, b):
                continue
            w = 0
            for c, d, e, t in terms:
                k = c, d, e
                if k not in mono:
                    mono[k] = p[3 * c] * p[3 * d + 1] * p[3 * e + 2]
                w = w + mono[k] * t
            for x, y in {(a, b), (b, a)}:
                if row < 0 or row == x:
                    cl.append(Close('mass(%d,%d)' % (x, y), o.M[y + (8 * x if row < 0 else 0)], w, U[ty] * 20000 * s ** 3))
        return cl
    return post


def forms_post(bs, ty):
    t = tuples(bs)
    D = len(bs)

    def post(i, o):
        s, m, g = 0, 0, 0
        for a, x in enumerate(t):
            w = Fr(1)
            for d in range(D):
                w *= bs[d]['i'][x[d]]
            s = s + i.u[a] * w
            rm, rg = 0, 0
            for b, y in enumerate(t):
                mm = [bs[d]['m'][x[d]][y[d]] for d in range(D)]
                kk = [bs[d]['k'][x[d]][y[d]] for d in range(D)]
                rm = rm + i.w[b] * math.prod(mm)
                rg = rg + i.w[b] * sum(math.prod(kk[e] if e == d else mm[e] for e in range(D)) for d in range(D))
            m, g = m + i.u[a] * rm, g + i.u[a] * rg
        tol = U[ty] * 4000 * len(t)
        return [Close('integral of u', o.o[0], s, tol), Close('integral of u w', o.o[1], m, tol * len(t)), Close('integral of grad u . grad w', o.o[2], g, tol * 16 * len(t))]
    return post


EDGES = {'cube': (2, 0, 0, 0, 2, 0, 0, 0, 2), 'sheared': (2, Fr(1, 4), 0, Fr(1, 2), 1, Fr(-1, 4), 0, Fr(1, 2), 2), 'mirrored': (-2, Fr(1, 8), 0, 0, 2, Fr(1, 4), Fr(1, 2), 0, 2), 'turned': (0, 0, 2, 2, 0, Fr(1, 8), Fr(-1, 4), 2, 0)}


def elements(work, tier):
    units, cases, full = [], [], tier == 'thorough'
    for ty in ('double', 'float'):
        def unit(part):
            u = Unit(work, 'element.cpp', 0, ['REAL=' + ty, 'PART=%d' % part])
            units.append(u)
            return u
        ext = 100 if ty == 'double' else 25
        SC = [('unit', Fr(1)), ('tiny', Fr(1, 2 ** ext)), ('huge', Fr(2 ** ext))]
        for part, els in ((1, {'p1g2': ('e1 e1 e1', 0, 'SU'), 'p1g3': ('e1 e1 e1', 0, 'SU'), 'p1l3': ('e1 e1 e1', 0, 'SU'), 'g1g2': ('g1 g1 g1', 1, 'SU'), 'l1l2': ('l1 l1 l1', 1, 'SU')}),
                          (2, {'p2g3': ('l2 l2 l2', 0, 'UR'), 'l2l3': ('l2 l2 l2', 1, 'M')}), (3, {'mixg4': ('e1 l2 e3', 0, 'UR'), 'moxg3': ('l2 g1 e1', 0, 'SU')})):
            u = unit(part)
            for nm, (b, lump, how) in els.items():
                bs = [one(x, lump) for x in b.split()]
                T = len(tuples(bs))
                for sn, s in SC:
                    bx = (s / 2, 2 * s)
                    opt = dict(samples=2, box='every edge length in [%s,%s]' % bx, amp={'M': s ** 3, 'K': s})
                    M, Kk = OF('M', T * T, ty), OF('K', T * T, ty)
                    nx = '%s_%s_%s' % (nm, sn, ty)
                    if 'S' in how and (full or T < 12 or (sn, ty) in (('unit', 'double'), ('tiny', 'double'), ('huge', 'float'))):
                        cases.append(Case('scaling_' + nx, u, 'sc_' + nm, [FA('h', 3, bx, ty), M, Kk], scaled_post(bs, ty, s, False, True), heavy=T * T, **opt))
                    if 'M' in how:
                        cases.append(Case('scaling_' + nx, u, 'scm_' + nm, [FA('h', 3, bx, ty), M], scaled_post(bs, ty, s, False, False), heavy=T * T, **opt))
                    if 'U' in how and (T < 16 or s == 1 and ty == 'double' or full):
                        cases.append(Case('uniform_' + nx, u, 'us_' + nm, [F('h', *bx, ty), M, Kk], scaled_post(bs, ty, s, True, True), heavy=T * T, **opt))
                    if 'R' in how:
                        for row in range(T) if full and s == 1 else (0, 7, T // 2 + 1, T - 1) if s == 1 else (T // 2,):
                            cases.append(Case('row%d_%s' % (row, nx), u, 'row_' + nm, [FA('h', 3, bx, ty), K(row), OF('M', T, ty), OF('K', T, ty)], scaled_post(bs, ty, s, False, True, row), heavy=T, **opt))
            if part == 1:
                for nm, e in EDGES.items():
                    e = [Fr(x) for x in e]
                    sg = 1 if det3([[e[3 * c + r] for c in range(3)] for r in range(3)]) > 0 else -1
                    for k in range(3) if full else {'cube': (0, 1, 2), 'sheared': (1,), 'mirrored': (0,), 'turned': (2,)}[nm] if ty == 'double' else {'cube': (1,), 'turned': (2,)}.get(nm, ()):
                        box = [(c - Fr(1, 8), c + Fr(1, 8)) if q // 3 == k else c for q, c in enumerate(e)]
                        cases.append(Case('parallelepiped_%s_%d_%s' % (nm, k, ty), u, 'par_g2', [FA('e', 9, box, ty), OF('M', 64, ty), OF('K', 64, ty)], par_post(ty), pre=par_pre(sg), samples=2, heavy=64,
                                          box='edges %s, edge %d moved by up to 1/8 in each component' % (nm, k)))
        u = unit(4)
        for q in ('g3', 'l4'):
            for sn, s in SC if q == 'g3' else SC[:1]:
                for row in range(8) if full else (5,) if q == 'g3' and s == 1 and ty == 'double' else ():
                    cases.append(Case('hexrow%d_%s_%s_%s' % (row, q, sn, ty), u, 'hexm_' + q, [FA('p', 24, (-2 * s, 2 * s), ty), K(row), OF('M', 8, ty)], hex_post(ty, s, row), samples=2, heavy=300,
                                      box='all vertices in +-%s' % (2 * s), amp={'M': s ** 3}))
            for h in ('box', 'mirrored', 'warped') if q == 'g3' else ('tapered',):
                vs = HEXES[h]
                for k in range(8) if full else (1, 6):
                    box = [(c - Fr(1, 8), c + Fr(1, 8)) if n // 3 == k else c for n, c in enumerate(flat(vs))]
                    cases.append(Case('hexmass_%s_%s_%d_%s' % (q, h, k, ty), u, 'hexm_' + q, [FA('p', 24, box, ty), K(-1), OF('M', 64, ty)], hex_post(ty, Fr(4), -1), samples=2, heavy=100,
                                      box='%s, vertex %d moved by up to 1/8 in each component' % (h, k)))
        u = unit(5)
        for nm in ('e1', 'l2', 'e3', 'l3', 'g2', 'e1e1', 'l2e1', 'e1g2', 'e1e1e1', 'e1l2e1', 'e1e1e1e1'):
            bs = [one(nm[k:k + 2]) for k in range(0, len(nm), 2)]
            T = len(tuples(bs))
            cases.append(Case('form_%s_%s' % (nm, ty), u, 'form_' + nm, [FA('u', T, (-1, 1), ty), FA('w', T, (-1, 1), ty), OF('o', 3, ty)], forms_post(bs, ty), samples=2, heavy=T * T, box='every pair of nodal fields in [-1,1]'))
    return units, cases


CHECKS = [Check('C27', elements, 'three-dimensional elements of 8, 12, 24 and 27 nodes (equal, Gauss-Legendre and Lobatto nodes, orders 1 to 3) with Gauss-Legendre 2 to 4 and Lobatto 2 to 4 points; cells given by every set of edge lengths within a factor 4 at scales 1 and 2^+-100 (float 2^+-25), '
                                 'parallelepipeds of four shapes with one edge vector anywhere in +-1/8, hexahedra with all 24 vertex coordinates symbolic (mass); bilinear forms of every pair of nodal fields in [-1,1] in one to four dimensions; float and double',
                ['floating point: IEEE-754 round-to-nearest, bounded by |fl(z)-z| <= u|z|+eta (valid for every input in the box)',
                 'compile-time parameters (orders, spacings, rules, real type) are instantiated as listed in bounds', 'clang 18 -O1 IR without vectorisation or FP contraction; concrete runs compared with g++ -O0'])]
