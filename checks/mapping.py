"""C12 / C13 / C15 / C24: linear transforms."""
import itertools
import math
from fractions import Fraction as Fr

from checks.arrays import rowmajor, sel
from checks.product import prods, split
from fw import B, Case, Check, Close, F, FA, G, I, OF, OI, Unit

ELS = {'hex': (2, 2, 2), 'mix': (2, 3, 4), 'mox': (4, 2, 3), 'quad': (3, 3, 3)}
ALLELS = dict(ELS, cubic=(4, 4, 4))
U = {'double': Fr(1, 2 ** 52), 'float': Fr(1, 2 ** 23)}
TY = ('double', 'float')


def N(ns):
    return math.prod(ns)


def data(work, tier):
    units, cases = [], []
    for ty in TY:
        u = Unit(work, 'mapping.cpp', 0, ['REAL=' + ty, 'PART=1'])
        units.append(u)
        for e, ns in ELS.items():
            n = N(ns)
            big = 2 ** (1000 if ty == 'double' else 120)     # contents are only copied

            def post(i, o, ns=ns):
                cl = []
                na, nb, nc = ns
                for a, b, c, k in itertools.product(*map(range, ns + (3,))):
                    # documented layout of the flat list: first direction fastest
                    cl.append(Close('data(%d,%d,%d,%d)' % (a, b, c, k), o.out[((a * nb + b) * nc + c) * 3 + k], i.p[(a + na * (b + nb * c)) * 3 + k], 0))
                return cl
            for f in ('setget', 'setgeta'):
                cases.append(Case('%s_%s_%s' % (f, e, ty), u, '%s_%s' % (f, e), [FA('p', 3 * n, (-big, big), ty), OF('out', 3 * n, ty)], post, samples=2, box='every content up to %.0e' % big))

            def wpost(i, o, ns=ns, n=n):
                na, nb, nc = ns
                at = ((i.a * nb + i.b) * nc + i.c) * 3 + i.i
                cl = []
                for k, (a, b, c, q) in enumerate(itertools.product(*map(range, ns + (3,)))):
                    old = i.p[(a + na * (b + nb * c)) * 3 + q]
                    cl += sel('entry after writing one', o.out[k], at, k, i.v, old, True)
                    cl.append(Close('copy is independent of its source', o.cp[k], old, 0))
                return cl
            if e in ('hex', 'mix'):
                cases.append(Case('write_%s_%s' % (e, ty), u, 'write_' + e, [I('a', 0, ns[0] - 1), I('b', 0, ns[1] - 1), I('c', 0, ns[2] - 1), I('i', 0, 2), F('v', 2, 3, ty), F('w', 4, 5, ty),
                                  FA('p', 3 * n, (-big, big), ty), OF('out', 3 * n, ty), OF('cp', 3 * n, ty)], wpost, samples=2, heavy=n, box='every entry, every content'))
            cases.append(Case('meta_%s_%s' % (e, ty), u, 'meta_' + e, [OI('o', 6)], lambda i, o, ns=ns, n=n: [B('counts', list(o.o) == [3, 8, 0] + list(ns)), B('size', o.ret == 3 * n)], ret='i32', samples=1))
    return units, cases


def jac_oracle(ns, p, bv, bg):
    """J[i][j] = sum over nodes of coordinate i times the j-th derivative of the product shape function"""
    _, g = prods(ns, bv, bg)
    D = len(ns)
    J = [[0] * D for _ in range(D)]
    for k in range(N(ns)):
        for i in range(D):
            for j in range(D):
                J[i][j] = J[i][j] + p[D * k + i] * g[D * k + j]
    return J


def jacobians(work, tier):
    units, cases, full = [], [], tier == 'thorough'
    JQ = {5: [('hex', 'GL2', '011'), ('hex', 'GL3', '012'), ('hex', 'LL3', '201'), ('hex', 'LL5', '134')],
          6: [('mix', 'GL3', '201'), ('mix', 'LL3', '012'), ('mox', 'GL3', '120'), ('mox', 'LL5', '412')],
          15: [('quad', 'GL3', '021'), ('quad', 'LL5', '304'), ('quad', 'GL2', '100')], 16: [('cubic', 'GL3', '220')]}
    ALL = {7: ('hex', 'GL2', 8), 8: ('hex', 'GL3', 27), 9: ('mix', 'LL3', 27)}
    for ty in TY:
        def unit(part):
            u = Unit(work, 'mapping.cpp', 0, ['REAL=' + ty, 'PART=%d' % part])
            units.append(u)
            return u

        def post(i, o, e=None, ty=ty, amp=1):
            ns = ALLELS[e]
            J = jac_oracle(ns, i.p, split(o.v, ns), split(o.g, ns))
            return [Close('J(%d,%d)' % (a, b), o.j[3 * a + b], J[a][b], U[ty] * 4000 * N(ns) * amp) for a in range(3) for b in range(3)]
        us = dict.fromkeys(('hex', 'mix', 'mox'), unit(2))
        us['quad'] = unit(15)
        us['cubic'] = unit(16)
        for e, u in us.items():
            ns = ALLELS[e]
            if e == 'cubic' and ty == 'float':
                continue     # the derived rounding bound is of the order of the values
            for f in ('jac', 'jaca', 'jacv'):
                cases.append(Case('%s_%s_%s' % (f, e, ty), u, '%s_%s' % (f, e),
                                  [FA('p', 3 * N(ns), (-2, 2), ty), FA('x', 3, (-1, 1), ty), OF('j', 9, ty, (-100, 100)), OF('v', sum(ns), ty), OF('g', sum(ns), ty)],
                                  lambda i, o, e=e, post=post: post(i, o, e), samples=2, heavy=N(ns), box='nodes in [-2,2]^3, parent coordinate in [-1,1]^3, every prior content of J'))
            ext = 100 if ty == 'double' else 35
            for nm, b, amp in (('big', 10 ** 5, 10 ** 5), ('small', Fr(1, 10 ** 6), Fr(1, 10 ** 6)), ('huge', 2 ** ext, 2 ** ext), ('tiny', Fr(1, 2 ** ext), Fr(1, 2 ** ext))):
                cases.append(Case('jac_%s_%s_%s' % (e, nm, ty), u, 'jac_%s' % e,
                                  [FA('p', 3 * N(ns), (-b, b), ty), FA('x', 3, (-1, 1), ty), OF('j', 9, ty, (-100, 100)), OF('v', sum(ns), ty), OF('g', sum(ns), ty)],
                                  lambda i, o, e=e, post=post, amp=amp: post(i, o, e, amp=amp), samples=2, heavy=N(ns), box='nodes in +-%s, parent coordinate in [-1,1]^3' % b, amp={'j': amp}))
            if e == 'hex':
                cases.append(Case('jac_%s_far_%s' % (e, ty), u, 'jac_%s' % e,
                                  [FA('p', 3 * N(ns), (-2, 2), ty), FA('x', 3, (-2, 2), ty), OF('j', 9, ty, (-100, 100)), OF('v', sum(ns), ty), OF('g', sum(ns), ty)],
                                  lambda i, o, e=e, post=post: post(i, o, e, amp=1000), samples=2, heavy=N(ns), box='nodes in [-2,2]^3, parent coordinate in [-2,2]^3', amp={'*': 1 << 12}))
        for part, qs in JQ.items():
            u = us['quad'] if part == 15 else us['cubic'] if part == 16 else unit(part)
            for e, q, k in qs:
                ns = ALLELS[e]
                for nm, b, amp in (('big', 10 ** 5, 10 ** 5), ('small', Fr(1, 10 ** 6), Fr(1, 10 ** 6)), ('huge', 2 ** ext, 2 ** ext), ('tiny', Fr(1, 2 ** ext), Fr(1, 2 ** ext))):
                    cases.append(Case('jq_%s_%s_%s_%s_%s' % (e, q, k, nm, ty), u, 'jq_%s_%s_%s' % (e, q, k),
                                      [FA('p', 3 * N(ns), (-b, b), ty), OF('j', 9, ty, (-100, 100)), OF('v', sum(ns), ty), OF('g', sum(ns), ty)],
                                      lambda i, o, e=e, post=post, amp=amp: post(i, o, e, amp=amp), samples=2, heavy=N(ns), box='nodes in +-%s' % b, amp={'j': amp}))
                cases.append(Case('jq_%s_%s_%s_%s' % (e, q, k, ty), u, 'jq_%s_%s_%s' % (e, q, k),
                                  [FA('p', 3 * N(ns), (-2, 2), ty), OF('j', 9, ty, (-100, 100)), OF('v', sum(ns), ty), OF('g', sum(ns), ty)],
                                  lambda i, o, e=e, post=post: post(i, o, e), samples=2, heavy=N(ns), box='nodes in [-2,2]^3, every prior content of J'))
        # other numbers of dimensions
        u = unit(17)
        u.optional = True
        for ns, qs in (((3,), ['0']), ((4,), []), ((2, 2), ['01']), ((2, 3), ['20']), ((4, 2), ['31']), ((2, 2, 2, 2), []), ((2, 2, 2, 3), [])):
            nm, D = ''.join(map(str, ns)), len(ns)

            def apost(i, o, ns=ns, D=D, ty=ty, amp=1):
                J = jac_oracle(ns, i.p, split(o.v, ns), split(o.g, ns))
                return [Close('J(%d,%d)' % (a, b), o.j[D * a + b], J[a][b], U[ty] * 4000 * N(ns) * amp) for a in range(D) for b in range(D)]
            for sn, b in (('unit', Fr(2)), ('tiny', Fr(1, 2 ** ext)), ('huge', Fr(2 ** ext))) if D < 4 or full else (('unit', Fr(2)),):
                io = [OF('j', D * D, ty, (-100, 100)), OF('v', sum(ns), ty), OF('g', sum(ns), ty)]
                opt = dict(samples=2, heavy=N(ns), amp={'j': b})
                cases.append(Case('dims_%s_%s_%s' % (nm, sn, ty), u, 'anyj_' + nm, [FA('p', D * N(ns), (-b, b), ty), FA('x', D, (-1, 1), ty)] + io, lambda i, o, f=apost, b=b: f(i, o, amp=b),
                                  box='%d dimensions, nodes in +-%s, parent coordinate in [-1,1]^%d' % (D, b, D), **opt))
                for q in qs:
                    cases.append(Case('dimsq_%s_%s_%s_%s' % (nm, q, sn, ty), u, 'anyq_%s_%s' % (nm, q), [FA('p', D * N(ns), (-b, b), ty)] + io, lambda i, o, f=apost, b=b: f(i, o, amp=b),
                                      box='%d dimensions, nodes in +-%s' % (D, b), **opt))
        for part, (e, q, nq) in ALL.items():
            u = unit(part)
            ns = ELS[e]
            tol = U[ty] * 4000 * N(ns)
            cases.append(Case('jqall_%s_%s_%s' % (e, q, ty), u, 'jqall_%s_%s' % (e, q), [FA('p', 3 * N(ns), (-2, 2), ty), OF('j', 9 * nq, ty), OF('jr', 9 * nq, ty)],
                              lambda i, o, nq=nq, tol=tol: [Close('point %d entry %d: both overloads' % (k // 9, k % 9), o.j[k], o.jr[k], tol) for k in range(9 * nq)],
                              samples=2, heavy=nq * N(ns), box='nodes in [-2,2]^3, all quadrature points into one Jacobian'))
    return units, cases


CUBE = [(2 * a - 1, 2 * b - 1, 2 * c - 1) for a in (0, 1) for b in (0, 1) for c in (0, 1)]


def hexa(f):
    return [tuple(Fr(x) for x in f(*v)) for v in CUBE]


HEXES = {'cube': hexa(lambda x, y, z: (x, y, z)),
         'box': hexa(lambda x, y, z: (x, 2 * y, 8 * z)),
         'sheared': hexa(lambda x, y, z: (x + y, y + Fr(1, 2) * z, z + Fr(1, 4) * x)),
         'mirrored': hexa(lambda x, y, z: (-x, y + Fr(1, 4) * x, 2 * z)),
         'swapped': hexa(lambda x, y, z: (y, x, 2 * z + x * y * Fr(1, 8))),
         'rotated': hexa(lambda x, y, z: (-y, x, z)),
         'warped': hexa(lambda x, y, z: (x + Fr(1, 8) * y * z, y + Fr(1, 8) * x * z * y, z - Fr(1, 8) * x * y)),
         'tapered': hexa(lambda x, y, z: (x * (4 + z) / 4, y * (4 + z) / 4, z)),
         'tiny': hexa(lambda x, y, z: (x / Fr(1024), y / Fr(512) + z / Fr(2048), z / Fr(1024))),
         'micro': hexa(lambda x, y, z: (x / Fr(2 ** 20), y / Fr(2 ** 20) + z / Fr(2 ** 22), z / Fr(2 ** 19))),
         'huge': hexa(lambda x, y, z: (x * 4096, y * 2048 + z * 512, z * 1024))}
DET = {'tiny': Fr(1, 2 ** 31), 'micro': Fr(1, 2 ** 61), 'huge': Fr(2 ** 30), 'box': Fr(8)}
SCALE = {'tiny': Fr(1, 1024), 'micro': Fr(1, 2 ** 19), 'huge': Fr(4096), 'box': Fr(4)}


def flat(h):
    return [c for v in h for c in v]


def vg1(ns, xi):
    """1-d linear values / gradients (hexahedron)"""
    return [[(1 - x) / 2, (1 + x) / 2] for x in xi], [[Fr(-1, 2), Fr(1, 2)] for x in xi]


def det3(J):
    return J[0][0] * (J[1][1] * J[2][2] - J[1][2] * J[2][1]) - J[0][1] * (J[1][0] * J[2][2] - J[1][2] * J[2][0]) + J[0][2] * (J[1][0] * J[2][1] - J[1][1] * J[2][0])


def inv_post(i, o, ns, u, s, vg, amp):
    """s: length scale of the element"""
    bv, bg = vg(ns, i.x)
    J = jac_oracle(ns, i.p, bv, bg)
    cl = [Close('determinant', o.ret, det3(J), u * amp * s ** 3)]
    M = [[o.j[3 * a + b] for b in range(3)] for a in range(3)]
    for a in range(3):
        for b in range(3):
            # the product in both orders
            cl.append(Close('(invJ J)(%d,%d)' % (a, b), M[a][0] * J[0][b] + M[a][1] * J[1][b] + M[a][2] * J[2][b], int(a == b), u * amp * 100))
            cl.append(Close('jacobian(%d,%d)' % (a, b), o.j0[3 * a + b], J[a][b], u * amp * s))
    return cl


def hex_pre(sign, dmin):
    def pre(i):
        bv, bg = vg1((2, 2, 2), i.x)
        d = det3(jac_oracle((2, 2, 2), i.p, bv, bg))
        return [d * sign - dmin]
    return pre


def sign_of(h):
    bv, bg = vg1((2, 2, 2), (0, 0, 0))
    return 1 if det3(jac_oracle((2, 2, 2), flat(h), bv, bg)) > 0 else -1


def inverses(work, tier):
    units, cases = [], []
    for ty in TY:
        u = Unit(work, 'mapping.cpp', 0, ['REAL=' + ty, 'PART=3'])
        units.append(u)
        io = [OF('j', 9, ty, (-100, 100)), OF('j0', 9, ty, (-100, 100))]
        for f in ('inv', 'invv'):
            for h, vs in HEXES.items():
                if f == 'invv' and h not in ('warped', 'swapped', 'tiny', 'micro'):
                    continue
                sg, s = sign_of(vs), SCALE.get(h, Fr(1))
                dmin = DET.get(h, Fr(1, 4))

                def post(i, o, s=s, ty=ty):
                    return inv_post(i, o, (2, 2, 2), U[ty], s, vg1, 80000)
                cases.append(Case('%s_%s_%s' % (f, h, ty), u, f + '_hex', [FA('p', 24, flat(vs), ty), FA('x', 3, (-1, 1), ty)] + io, post, pre=hex_pre(sg, dmin), ret=ty,
                                  samples=2, heavy=20, box='element %s, parent coordinate in [-1,1]^3' % h, amp={'j': 1 / s, 'j0': s, 'ret': s ** 3}))
            # symbolic vertices at fixed parent coordinates
            for xi in [(0, 0, 0), (Fr(1, 2), Fr(-1, 4), Fr(3, 4)), (-1, 1, -1), (1, 1, 0)]:
                for h in ('cube', 'mirrored'):
                    if f == 'invv' and (h == 'cube' or xi[0] == -1):
                        continue
                    vs = HEXES[h]
                    r = Fr(1, 16)
                    box = [(c - r, c + r) for c in flat(vs)]

                    def post(i, o, ty=ty):
                        return inv_post(i, o, (2, 2, 2), U[ty], 1, vg1, 4000)
                    cases.append(Case('%s_verts_%s_%s_%s' % (f, h, '_'.join(str(x).replace('/', 'o').replace('-', 'm') for x in xi), ty), u, f + '_hex',
                                      [FA('p', 24, box, ty), FA('x', 3, [Fr(c) for c in xi], ty)] + io, post, pre=hex_pre(sign_of(vs), Fr(1, 4)), ret=ty,
                                      samples=2, heavy=100, box='vertices of %s +- 1/16, parent coordinate %s' % (h, xi)))
    # elements of higher and mixed order; 1-d values and gradients come from the basis itself (checked by C08/C09)
    for ty in TY:
        for part, e in ((12, 'mix'), (13, 'mox'), (14, 'quad')):
            u = Unit(work, 'mapping.cpp', 0, ['REAL=' + ty, 'PART=%d' % part])
            units.append(u)
            ns, S = ELS[e], sum(ELS[e])
            io = [OF('j', 9, ty, (-100, 100)), OF('j0', 9, ty, (-100, 100)), OF('v', S, ty), OF('g', S, ty)]

            def post(i, o, ns=ns, ty=ty, s=1, amp=1):
                bv, bg = split(o.v, ns), split(o.g, ns)
                return inv_post(i, o, ns, U[ty], s, lambda *_: (bv, bg), 80000 * amp)
            EXT = 60 if ty == 'double' else 20
            kd = KINDS[e]
            for h, s in [(h, Fr(1)) for h in SHAPE] + [('shear', Fr(1, 2 ** EXT)), ('mirror', Fr(2 ** EXT))]:
                p = [c * s for c in nodes(e, SHAPE[h])]
                nm = h if s == 1 else h + ('_tiny' if s < 1 else '_huge')
                for f in ('invg', 'invgv'):
                    if f == 'invgv' and h != 'bent':
                        continue
                    # the parent coordinate runs over a whole line or face of the cell
                    for k, xb in enumerate(XB):
                        if h not in ('bent', 'mirror') and k > 1:
                            continue
                        cases.append(Case('%s_%s_%s_%d_%s' % (f, e, nm, k, ty), u, '%s_%s' % (f, e), [FA('p', 3 * N(ns), p, ty), FA('x', 3, xb, ty)] + io,
                                          lambda i, o, post=post, s=s: post(i, o, s=s), pre=lag_pre(ns, kd, p, xb, s), ret=ty, samples=2, heavy=100, box='%s element, nodes %s, parent coordinate %s' % (e, nm, xb), amp={'j': 1 / s, 'j0': s, 'ret': s ** 3}))
            # one node anywhere within a box
            for h, xi, k in (('bent', (Fr(1, 2), Fr(-1, 4), Fr(3, 4)), 5), ('mirror', (-1, Fr(1, 8), 1), 0), ('shear', (0, 0, 0), 11)):
                r = Fr(1, 16)
                box = [(c - r, c + r) if q // 3 == k else c for q, c in enumerate(nodes(e, SHAPE[h]))]
                cases.append(Case('node_%s_%s_%d_%s' % (e, h, k, ty), u, 'invg_' + e, [FA('p', 3 * N(ns), box, ty), FA('x', 3, [Fr(c) for c in xi], ty)] + io,
                                  post, ret=ty, samples=2, heavy=100, box='%s element, node %d of %s +- 1/16, parent coordinate %s' % (e, k, h, xi)))
    return units, cases


def lag1(pts, x):
    """1-d Lagrange values and gradients at x, from the nodes"""
    v, g = [], []
    for a, xa in enumerate(pts):
        den, num, der = Fr(1), 1, 0
        for b, xb in enumerate(pts):
            if b != a:
                den *= Fr(xa) - Fr(xb)
                num, der = num * (x - Fr(xb)), der * (x - Fr(xb)) + num
        v.append(num * (1 / den))
        g.append(der * (1 / den))
    return v, g


def lag_det(ns, kd, p, x):
    vg = [lag1(PTS[n][k], c) for n, k, c in zip(ns, kd, x)]
    return det3(jac_oracle(ns, p, [v for v, _ in vg], [g for _, g in vg]))


def lag_pre(ns, kd, p, xb, s):
    """the determinant is at least half of its smallest value on a grid over the box (no restriction for these elements)"""
    grid = [[b[0] + (b[1] - b[0]) * Fr(k, 4) for k in range(5)] if isinstance(b, tuple) else [Fr(b)] for b in xb]
    ds = [lag_det(ns, kd, [float(c / s) for c in p], [float(c) for c in x]) for x in itertools.product(*grid)]
    sg = 1 if ds[0] > 0 else -1
    dmin = Fr(min(d * sg for d in ds)).limit_denominator(64) / 2
    assert dmin > 0

    def pre(i):
        # scaled to order one
        return [lag_det(ns, kd, [c * (1 / s) for c in p], list(i.x)) * sg - dmin]
    return pre


XB = [[(-1, 1), (-1, 1), Fr(1, 4)], [(-1, 1), Fr(-1, 2), (-1, 1)], [Fr(3, 4), (-1, 1), (-1, 1)], [(-1, 1), 1, Fr(-5, 8)]]
SHAPE = {'cube': lambda x, y, z: (x, y, z), 'shear': lambda x, y, z: (x + y / 2, y + z / 4, z - x / 4), 'mirror': lambda x, y, z: (-x, 2 * y + x / 4, z + y / 8),
         'bent': lambda x, y, z: (x + y * z / 8, y + z * z / 16, z - x * y / 8), 'turned': lambda x, y, z: (z, x, y * 2)}
# positions of the support points to double precision (the oracle uses the nodes as given, any position would do)
PTS = {2: {'e': (-1, 1), 'g': (-0.5773502691896257, 0.5773502691896257), 'l': (-1, 1)}, 3: {'e': (-1, 0, 1), 'l': (-1, 0, 1)},
       4: {'e': (-1, Fr(-1, 3), Fr(1, 3), 1), 'l': (-1, -0.4472135954999579, 0.4472135954999579, 1)}}
KINDS = {'hex': 'eee', 'mix': 'ele', 'mox': 'lge', 'quad': 'lll'}


def nodes(e, f):
    out = []
    for v in itertools.product(*[PTS[n][k] for n, k in zip(ELS[e], KINDS[e])]):
        # rounded to multiples of 1/1024: representable in both precisions
        out += [Fr(round(c * 1024), 1024) for c in f(*map(Fr, v))]
    return out


# ---- exact element volume: V = sum x_a y_b z_c T_abc with T from exact integration of the product shape functions
PERMS = [((0, 1, 2), 1), ((1, 2, 0), 1), ((2, 0, 1), 1), ((0, 2, 1), -1), ((2, 1, 0), -1), ((1, 0, 2), -1)]
LIN1 = [[Fr(1, 2), Fr(-1, 2)], [Fr(1, 2), Fr(1, 2)]]                       # 1-d shape functions as coefficient lists
QUA1 = [[Fr(0), Fr(-1, 2), Fr(1, 2)], [Fr(1), Fr(0), Fr(-1)], [Fr(0), Fr(1, 2), Fr(1, 2)]]


def tensor(one):
    """T_abc = integral of grad(phi_a) . (grad(phi_b) x grad(phi_c)): products of 1-d integrals; node numbers row-major"""
    def der(c):
        return [k * x for k, x in enumerate(c)][1:]

    def integ(fs):
        p = [Fr(1)]
        for f in fs:
            q = [Fr(0)] * (len(p) + len(f) - 1)
            for x, c in enumerate(p):
                for y, d in enumerate(f):
                    q[x + y] += c * d
            p = q
        return sum(c * Fr(2, k + 1) for k, c in enumerate(p) if k % 2 == 0)
    m = len(one)
    tab = {(s, w): integ([der(one[s[k]]) if w == k else one[s[k]] for k in range(3)]) for s in itertools.product(range(m), repeat=3) for w in range(3)}
    node = list(itertools.product(range(m), repeat=3))
    T = {}
    for a, b, c in itertools.product(range(m ** 3), repeat=3):
        i, j, k = node[a], node[b], node[c]
        t = 0
        for pm, sg in PERMS:
            # direction d is differentiated in the factor k with pm[k] == d
            u = tab[(i[0], j[0], k[0]), pm.index(0)]
            u = u and u * tab[(i[1], j[1], k[1]), pm.index(1)]
            u = u and u * tab[(i[2], j[2], k[2]), pm.index(2)]
            t += sg * u
        if t:
            T[a, b, c] = t
    return T


_T = {}


def volume(p, one=LIN1):
    m = len(one)
    if m not in _T:
        _T[m] = tensor(one)
    s = 0
    part = {}
    num = lambda v: isinstance(v, (int, float, Fr))
    # the constant part first: most coordinates of the larger elements are numbers
    for (a, b, c), t in _T[m].items():
        k, sym = t, []
        for v in (p[3 * a], p[3 * b + 1], p[3 * c + 2]):
            if num(v):
                k = k * Fr(v)
            else:
                sym.append(v)
        if not sym:
            s = s + k
        elif k:
            key = tuple(id(v) for v in sym)
            part[key] = (part[key][0] + k if key in part else k, sym)
    for k, sym in part.values():
        for v in sym:
            k = v * k
        s = s + k
    return s


def totals_post(nq, one, ty, s, f=1):
    def post(i, o):
        V = volume(i.p, one)
        t = U[ty] * 3000 * s ** 3 * f
        dv, cl = 0, [Close('volume', o.vol[0], V, t), Close('mass', o.mass[0], V, t)]
        for q in range(nq):
            dv = dv + o.dv[q]
            cl += [Close('point %d: gradient of one' % q, o.grad[3 * q + k], 0, t / s) for k in range(3)]
            cl += [Close('point %d: gradient of position' % q, o.ident[9 * q + k], o.dv[q] if k % 4 == 0 else 0, t) for k in range(9)]
        return cl + [Close('volume elements', dv, V, t)]
    return post


def integrals(work, tier):
    units, cases = [], []
    for ty in TY:
        def unit(part):
            u = Unit(work, 'mapping.cpp', 0, ['REAL=' + ty, 'PART=%d' % part])
            units.append(u)
            return u
        ext = 100 if ty == 'double' else 25
        for part, qs in ((4, ['GL2']), (10, ['GL3']), (11, ['LL3']), (17, ['GL4']), (18, ['LL5']), (22, ['LL4'])):
            if part in (18, 22) and tier == 'quick':
                continue
            u = unit(part)
            for q in qs:
                cases.append(Case('volume_%s_%s' % (q, ty), u, 'vol_' + q, [FA('p', 24, (-2, 2), ty)], lambda i, o, ty=ty: [Close('volume', o.ret, volume(i.p), U[ty] * 200000)], ret=ty,
                                  samples=3, heavy=500, box='all vertices in [-2,2]^3'))
            if part != 4:
                continue
            for nm, b in (('big', 4096), ('small', Fr(1, 4096)), ('tiny', Fr(1, 2 ** ext)), ('huge', 2 ** ext)):
                cases.append(Case('volume_%s_%s_%s' % (qs[0], nm, ty), u, 'vol_' + qs[0], [FA('p', 24, (-b, b), ty)],
                                  lambda i, o, ty=ty, b=b: [Close('volume', o.ret, volume(i.p), U[ty] * 200000 * (Fr(b) / 2) ** 3)], ret=ty, samples=3, heavy=500, box='all vertices in +-%s' % b, amp={'ret': Fr(b) ** 3}))
            for h, s in [(h, Fr(1)) for h in ('cube', 'sheared', 'mirrored', 'tapered')] + [(h, x) for x in (Fr(2 ** 12), Fr(2 ** 20), Fr(2 ** ext)) for h, x in (('sheared', 1 / x), ('mirrored', x))]:
                totals(cases, u, 'GL2', 8, h, s, [(k,) for k in range(8)] + [(2, 5)] * (tier == 'thorough' or h == 'sheared') if s == 1 or tier == 'thorough' else [(7,)], ty)
        u = unit(20)
        for h in ('sheared', 'mirrored'):
            totals(cases, u, 'LL3', 27, h, Fr(1), [(6,)], ty)
        # quadratic elements: two nodes anywhere within a box
        u = {'totals': u}
        if ty == 'double' or tier == 'thorough':
            u['GL3'] = unit(19)
        if tier == 'thorough':
            u['GL4'] = unit(21)
        for h, s in [(h, Fr(1)) for h in SHAPE] + [('shear', Fr(1, 2 ** ext)), ('mirror', Fr(2 ** ext))]:
            p = nodes('quad', SHAPE[h])
            for sub in ((13, 26), (0, 4)) if s == 1 else ((22, 3),):
                box = [(c - Fr(1, 16), c + Fr(1, 16)) if k // 3 in sub else c for k, c in enumerate(p)]
                box = [(b[0] * s, b[1] * s) if isinstance(b, tuple) else b * s for b in box]
                nm = h + ('' if s == 1 else '_tiny' if s < 1 else '_huge')
                for q in [q for q in (('GL3', 'GL4') if s == 1 and h in ('bent', 'turned') else ('GL3',)) if q in u]:
                    cases.append(Case('volume_quad_%s_%s_%d_%s' % (q, nm, sub[0], ty), u[q], 'vol_quad_' + q, [FA('p', 81, box, ty)],
                                      lambda i, o, ty=ty, s=s: [Close('volume', o.ret, volume(i.p, QUA1), U[ty] * 200000 * s ** 3)], ret=ty, samples=2, heavy=400, box='quadratic element %s, nodes %s +- 1/16' % (nm, sub), amp={'ret': s ** 3}))
                one = [b if isinstance(b, tuple) and k // 3 == sub[0] else s * p[k] for k, b in enumerate(box)]
                if sub[0] != 0:
                    cases.append(Case('totals_quad_%s_%s' % (nm, ty), u['totals'], 'totals_quad_GL3', [FA('p', 81, one, ty), OF('vol', 1, ty), OF('mass', 1, ty), OF('dv', 27, ty), OF('grad', 81, ty), OF('ident', 243, ty)],
                                      totals_post(27, QUA1, ty, s, 20), samples=2, heavy=900, box='quadratic element %s, node %d +- 1/16' % (nm, sub[0]), amp=tamp(s)))
    return units, cases


def tamp(s):
    return {'vol': s ** 3, 'mass': s ** 3, 'dv': s ** 3, 'grad': s ** 2, 'ident': s ** 3}


def totals(cases, u, q, nq, h, s, subs, ty):
    vs = [tuple(c * s for c in v) for v in HEXES[h]]
    r = s / 8
    for sub in subs:
        box = [(c - r, c + r) if k // 3 in sub else c for k, c in enumerate(flat(vs))]
        cases.append(Case('totals_%s%s%s_%s_%s' % ('' if q == 'GL2' else q + '_', h, '' if s == 1 else '_x%.0e' % s if s > 1 else '_d%.0e' % (1 / s), ''.join(map(str, sub)), ty), u, 'totals_' + q,
                          [FA('p', 24, box, ty), OF('vol', 1, ty), OF('mass', 1, ty), OF('dv', nq, ty), OF('grad', 3 * nq, ty), OF('ident', 9 * nq, ty)], totals_post(nq, LIN1, ty, s),
                          samples=2, heavy=300, box='%s times %s, vertices %s moved by up to 1/8 of the half edge in each direction' % (h, s, sub), amp=tamp(s)))


ASSUME = ['floating point: IEEE-754 round-to-nearest, bounded by |fl(z)-z| <= u|z|+eta (valid for every input in the box)',
          'compile-time parameters (orders, spacings, quadrature points, real type) are instantiated as listed in bounds', 'clang 18 -O1 IR without vectorisation or FP contraction; concrete runs compared with g++ -O0']
CHECKS = [Check('C12', data, 'support points 2x2x2, 2x3x4, 4x2x3, 3x3x3; every content (exact equality), every entry written; float and double', ASSUME),
          Check('C13', jacobians, 'hexahedron and mixed-order elements (2x3x4, 4x2x3 support points); node coordinates in [-2,2], parent coordinate in [-1,1]^3, every prior content of the output; Gauss-Legendre 2/3 and Lobatto 3/5 points; lines, quadrilaterals (equal and mixed orders) and four-dimensional elements; float and double', ASSUME),
          Check('C15', inverses, 'eleven hexahedra (both orientations, sizes 1e-6 to 4e3) at every parent coordinate in [-1,1]^3, and hexahedra with all 24 vertex coordinates symbolic (+-1/16) at four parent coordinates, |det| >= 1/4 (scaled); float and double', ASSUME),
          Check('C24', integrals, 'volume: every hexahedron with vertices in [-2,2]^3 (also scaled by 2^+-12 and 2^+-100, float 2^+-25), Gauss-Legendre 2, 3, 4 and Lobatto 3 points (Lobatto 4, 5 in thorough), quadratic hexahedra of five shapes with two nodes anywhere in +-1/16; mass/gradient totals: hexahedra with one or two vertices symbolic at scales 1, 2^+-12, 2^+-20, 2^+-100 and quadratic hexahedra with one node symbolic; float and double', ASSUME)]
