"""C14 / C16 / C17 / C19 / C23: inversion, scaling, counts, assertions and wrappers, integer helpers."""
import math
from fractions import Fraction as Fr

from fw import B, Case, Check, Close, F, FA, Ge, I, K, OF, OI, L, NS, Unit, err_contains

U = {'double': Fr(1, 2 ** 52), 'float': Fr(1, 2 ** 23)}
TY = ('double', 'float')


def det3(M):
    return M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0]) + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0])


def rows(v):
    return [v[0:3], v[3:6], v[6:9]]


def inversion(work, tier):
    units, cases = [], []
    # (name, row scales, column scales)
    S = {'unit': ([1] * 3, [1] * 3), 'small': ([Fr(1, 2 ** 20)] * 3, [1] * 3), 'large': ([2 ** 20] * 3, [1] * 3),
         'rows': ([1, Fr(1, 2 ** 10), 2 ** 10], [1] * 3), 'columns': ([1] * 3, [2 ** 12, 1, Fr(1, 2 ** 6)])}
    for ty in TY:
        ext = 100 if ty == 'double' else 35
        S.update(tiny=([Fr(1, 2 ** ext)] * 3, [1] * 3), huge=([2 ** ext] * 3, [1] * 3))
        u = Unit(work, 'math.cpp', 0, ['REAL=' + ty, 'PART=1'])
        units.append(u)
        for fn in ('inv_raw', 'inv_array', 'inv_view'):
            for sn, (r, c) in S.items():
                for sg in (1, -1):
                    for dmin in ((Fr(1, 16),) if sn != 'unit' else (Fr(1, 16), Fr(1, 1024) if ty == 'double' else Fr(1, 2))):
                        rs, cs = [Fr(x) for x in r], [Fr(x) for x in c]
                        vol = rs[0] * rs[1] * rs[2] * cs[0] * cs[1] * cs[2]
                        box = [(-rs[a] * cs[b], rs[a] * cs[b]) for a in range(3) for b in range(3)]

                        def post(i, o, rs=rs, cs=cs, vol=vol, ty=ty, dmin=dmin):
                            A, M = rows(i.m), rows(o.m)
                            cl = [Close('determinant', o.ret, det3(A), vol * U[ty] * 100)]
                            for a in range(3):
                                for b in range(3):
                                    cl.append(Close('(inv A)(%d,%d)' % (a, b), M[a][0] * A[0][b] + M[a][1] * A[1][b] + M[a][2] * A[2][b], int(a == b), U[ty] * 480 / dmin ** 2 * cs[b] / cs[a]))
                                    cl.append(Close('(A inv)(%d,%d)' % (a, b), A[a][0] * M[0][b] + A[a][1] * M[1][b] + A[a][2] * M[2][b], int(a == b), U[ty] * 480 / dmin ** 2 * rs[a] / rs[b]))
                            return cl

                        def pre(i, sg=sg, vol=vol, dmin=dmin):
                            return [det3(rows(i.m)) * sg - dmin * vol]

                        def sample(rng, rs=rs, cs=cs, sg=sg, vol=vol, dmin=dmin, ty=ty):
                            from fw import nearest
                            while True:
                                m = [nearest(rs[k // 3] * cs[k % 3] * Fr(rng.randrange(-256, 257), 256), ty) for k in range(9)]
                                if det3(rows([Fr(x) for x in m])) * sg >= dmin * vol:
                                    return NS(m=m)
                        cases.append(Case('%s_%s_%s_%d_%s' % (fn, sn, 'pos' if sg > 0 else 'neg', 1 / dmin, ty), u, fn, [OF('m', 9, ty, box)], post, pre=pre, ret=ty, sample=sample,
                                          samples=3, heavy=3, amp={'m': max(1 / (x * y) for x in rs for y in cs), 'ret': vol}, box='entries up to scale %s, |det| >= %s of the scale' % (sn, dmin)))
    return units, cases


def scaling(work, tier):
    units, cases = [], []
    for ty in TY:
        u = Unit(work, 'math.cpp', 0, ['REAL=' + ty, 'PART=1'])
        units.append(u)
        P = (-100, 100)
        ext = 300 if ty == 'double' else 40
        for nm, lo, hi in (('unit', Fr(1, 2), Fr(2)), ('tiny', Fr(1, 2 ** (ext + 1)), Fr(1, 2 ** (ext - 1))), ('huge', Fr(2 ** (ext - 1)), Fr(2 ** (ext + 1))), ('small', Fr(1, 2 ** 21), Fr(1, 2 ** 19)), ('large', Fr(2 ** 19), Fr(2 ** 21)), ('wide', Fr(1, 16), Fr(16))):
            def post(i, o, ty=ty, lo=lo, hi=hi):
                h = i.h
                d = h[0] * h[1] * h[2] * Fr(1, 8)
                dt = hi ** 3 * U[ty] * 4
                cl = [Close('determinant', o.ret, d, dt), Close('determinant by value', o.dv[0], d, dt)]
                for k in range(3):
                    cl += [Close('stored length %d' % n, o.data[3 * n + k], h[k] if n != 2 else 1, 0) for n in range(4)]
                    cl += [Close('jacobian(%d)' % k, x[k], h[k] * Fr(1, 2), hi * U[ty]) for x in (o.j, o.jv)]
                    cl += [Close('inverse(%d) times edge' % k, x[k] * h[k], 2, U[ty] * 16 * hi / lo) for x in (o.inv, o.inv2)]
                return cl
            cases.append(Case('scaling_%s_%s' % (nm, ty), u, 'sc_all', [FA('h', 3, (lo, hi), ty), OF('j', 3, ty, P), OF('inv', 3, ty, P), OF('jv', 3, ty), OF('inv2', 3, ty), OF('dv', 1, ty), OF('data', 12, ty)],
                              post, ret=ty, samples=3, box='edge lengths in [%s,%s]' % (lo, hi), amp={'j': hi, 'jv': hi, 'data': hi, 'inv': 1 / lo, 'inv2': 1 / lo, 'dv': hi ** 3, 'ret': hi ** 3}))

            def upost(i, o, ty=ty, lo=lo, hi=hi):
                h = i.h
                d = h * h * h * Fr(1, 8)
                dt = hi ** 3 * U[ty] * 4
                cl = [Close('determinant', o.ret, d, dt), Close('determinant by value', o.dv[0], d, dt)]
                cl += [Close('stored length %d' % n, o.data[n], h if n != 2 else 1, 0) for n in range(4)]
                cl += [Close('jacobian', x[0], h * Fr(1, 2), hi * U[ty]) for x in (o.j, o.jv)]
                cl += [Close('inverse times edge', x[0] * h, 2, U[ty] * 16 * hi / lo) for x in (o.inv, o.inv2)]
                return cl
            cases.append(Case('uniform_%s_%s' % (nm, ty), u, 'us_all', [F('h', lo, hi, ty), OF('j', 1, ty, P), OF('inv', 1, ty, P), OF('jv', 1, ty), OF('inv2', 1, ty), OF('dv', 1, ty), OF('data', 4, ty)],
                              upost, ret=ty, samples=3, box='edge length in [%s,%s]' % (lo, hi), amp={'j': hi, 'jv': hi, 'data': hi, 'inv': 1 / lo, 'inv2': 1 / lo, 'dv': hi ** 3, 'ret': hi ** 3}))
        if ty == 'double':
            cases.append(Case('constant', u, 'sc_const', [], lambda i, o: [B('jacobian is constant in the cell', o.ret == 3)], ret='i32', samples=1))
    return units, cases


def table(label, got, keys, val):
    """got equals val(key) for the symbolic key"""
    return [B('%s%s' % (label, (k,)), L.Implies(c, got == val(*k))) for k, c in keys]


def counts(work, tier):
    u = Unit(work, 'math.cpp', 0, ['PART=2'])
    cases = []
    C = math.comb
    for fn, top, cnt in (('cube', 12, lambda n, m: 2 ** (n - m) * C(n, m)), ('simplex', 11, lambda n, m: C(n + 1, m + 1))):
        def post(i, o, top=top, cnt=cnt):
            ks = [((n, m), L.And(i.n == n, i.m == m)) for n in range(1, top + 1) for m in range(n + 1)]
            return table('number of sub-elements', o.ret, ks, cnt)

        def pre(i):
            return [i.m <= i.n]
        cases.append(Case('%s_counts' % fn, u, fn + '_count', [I('n', 1, top), I('m', 0, top)], post, pre=pre, ret='i32', samples=20, heavy=9, box='every 1<=n<=%d, 0<=m<=n' % top))

        def npost(i, o, top=top, cnt=cnt):
            cl = []
            for n in range(1, top + 1):
                want = [n, cnt(n, 0), cnt(n, 1), cnt(n, 2) if n > 1 else 0, cnt(n, 3) if n > 2 else 0, cnt(n, n - 1)]
                cl += [B('named count %d of dimension %d' % (k, n), L.Implies(i.n == n, o.o[k] == w)) for k, w in enumerate(want)]
            return cl
        cases.append(Case('%s_named' % fn, u, fn + '_named', [I('n', 1, top), OI('o', 6)], npost, ret='i32', samples=top, box='every 1<=n<=%d' % top))
    BOX = {'a': (1, -1, 1, 1), 'b': (3, -1, 1, 1), 'c': (2, 0, 1, 1), 'd': (3, -1, 1, 2), 'e': (2, -3, 5, 4), 'f': (4, 1, 2, 3), 'g': (5, -7, -2, 2), 'h': (3, 0, 10, 1)}
    for b, (n, lo, hi, d) in BOX.items():
        for fn, div in (('cubebox', 1), ('simplexbox', math.factorial(n))):
            vol = Fr(hi - lo, d) ** n / div
            want = [Fr(lo, d), Fr(hi, d), Fr(hi - lo, d), vol]
            cases.append(Case('%s_%s' % (fn, b), u, '%s_%s' % (fn, b), [OF('o', 8)],
                              lambda i, o, want=want: [Close('bound %d' % k, o.o[k], want[k % 4], max(abs(want[k % 4]), Fr(1, 1000)) * 16 * U['double' if k < 4 else 'float']) for k in range(8)], samples=1))
    al = []
    for n, f in ((3, 'c'), (2, 'c'), (3, 's'), (2, 's')):
        g = (lambda m, n=n: 2 ** (n - m) * C(n, m)) if f == 'c' else (lambda m, n=n: C(n + 1, m + 1))
        al += [n, g(0), g(1), g(2), g(3) if n > 2 else 0, g(n - 1)]
    cases.append(Case('aliases', u, 'aliases', [OI('o', 24)], lambda i, o: [B('count %d' % k, o.o[k] == al[k]) for k in range(24)], samples=1))
    ab = [Fr(x) for x in (-1, 1, 2, 8, -1, 1, 2, 4, 0, 1, 1, Fr(1, 6), 0, 1, 1, Fr(1, 2))]
    cases.append(Case('alias_boxes', u, 'aliasbox', [OF('o', 16)], lambda i, o: [Close('%s %s' % (n, q), o.o[4 * k + j], ab[4 * k + j], Fr(1, 2 ** 20))
                                                                                  for k, n in enumerate(('Cube', 'Square', 'Tetrahedron', 'Triangle')) for j, q in enumerate(('min', 'max', 'length', 'volume'))], samples=1))
    return [u], cases


def integers(work, tier):
    u = Unit(work, 'math.cpp', 0, ['PART=2'])
    units, cases = [u], []
    for fn, top, r in (('fact_int', 12, 'i32'), ('fact_long', 20, 'i64'), ('fact_ulong', 20, 'u64'), ('fact_u8', 5, 'u8')):
        cases.append(Case(fn, u, fn, [I('n', 0, top)], lambda i, o, top=top: table('factorial', o.ret, [((n,), i.n == n) for n in range(top + 1)], math.factorial), ret=r, samples=8, box='every n <= %d' % top))
    for fn, top, r in (('binom_int', 12, 'i32'), ('binom_long', 20, 'i64')):
        cases.append(Case(fn, u, fn, [I('n', 0, top), I('k', 0, top)],
                          lambda i, o, top=top: table('binomial', o.ret, [((n, k), L.And(i.n == n, i.k == k)) for n in range(top + 1) for k in range(n + 1)], math.comb),
                          pre=lambda i: [i.k <= i.n], ret=r, samples=10, heavy=9, box='every 0<=k<=n<=%d' % top))

    def ipow(x, e, sym):
        p = 1
        for _ in range(e):
            p = p * x
        return p
    for ty, w, sg, exps in (('int', 32, True, (0, 1, 2, 3, 4, 5, 7, 10)), ('long', 64, True, (2, 3, 6, 9)), ('unsigned', 32, False, (2, 3))):
        for e in exps:
            lim = 2 ** (w - 1) - 1 if sg else 2 ** w - 1
            k = lim if e < 2 else int(round(lim ** (1.0 / e))) + 2
            while e >= 2 and k ** e > lim:
                k -= 1
            if w == 64 and e < 6:
                k = min(k, 2 ** 12)     # wide multiplications: bounded range
            if tier == 'quick' and e in (2, 3):
                k = min(k, 2 ** 9)

            def post(i, o, e=e):
                return [B('power', o.ret == ipow(i.x, e, True))]
            cases.append(Case('pow_%s_%d' % (ty, e), u, 'pow_%s_%d' % (ty, e), [I('x', -k if sg else 0, k, w, sg)], post, ret=('i%d' if sg else 'u%d') % w, samples=4, heavy=20,
                              box='|base| <= %d' % k))
    for fn, b, top, r in (('pow2', 2, 30, 'i32'), ('pow3', 3, 39, 'i64'), ('powm7', -7, 22, 'i64')):
        cases.append(Case(fn, u, fn, [I('e', 0, top)], lambda i, o, b=b, top=top: table('power', o.ret, [((e,), i.e == e) for e in range(top + 1)], lambda e: b ** e), ret=r, samples=8, box='every exponent <= %d' % top))
    for ty in TY:
        ur = Unit(work, 'math.cpp', 0, ['REAL=' + ty, 'PART=1'])
        units.append(ur)
        for e in range(9):
            cases.append(Case('powr_%d_%s' % (e, ty), ur, 'powr_%d' % e, [F('x', -2, 2, ty)], lambda i, o, e=e, ty=ty: [Close('power', o.ret, i.x ** e if e else 1, U[ty] * 2 ** e * (e + 1) if e > 1 else 0)], ret=ty, samples=3))
        # separate constant-evaluation branches: run-time index against the compiler's own evaluation
        uq = Unit(work, 'quadrature.cpp', 0, ['REAL=' + ty])
        units.append(uq)
        from checks.quadrature import ALL
        for kind, n in ALL:
            cases.append(Case('constexpr_%s_%d_%s' % (kind, n, ty), uq, 'cr_%s_%d' % (kind, n), [I('i', 0, n - 1), OF('o', n, ty)],
                              lambda i, o, n=n: [B('coordinate(%d): compiler and run time' % k, L.Implies(i.i == k, o.o[k] == o.ret)) for k in range(n)], ret=ty, samples=n, box='every index'))
        for kind, n in [('gl', n) for n in (2, 3, 4)] + [('gll', n) for n in range(2, 6)]:
            cases.append(Case('constexprw_%s_%d_%s' % (kind, n, ty), uq, 'cwr_%s_%d' % (kind, n), [I('i', 0, n - 1), OF('o', n, ty)],
                              lambda i, o, n=n: [B('weight(%d): compiler and run time' % k, L.Implies(i.i == k, o.o[k] == o.ret)) for k in range(n)], ret=ty, samples=n, box='every index'))
    return units, cases


def assertions(work, tier):
    u = Unit(work, 'math.cpp', 0, ['PART=3'])
    units, cases = [u], []
    FULL = (-2 ** 31, 2 ** 31 - 1)

    def quiet(o):
        return B('nothing on stderr', len(o.err) == 0)

    def plain(i, o):
        if o.kind == 'abort':
            return [B('stops only when the condition is false', i.a <= 3), err_contains('message', o.err, ['Assertion failed [', 'math.cpp', 'plain message', 'Aborting'])]
        return [B('true condition', i.a > 3), B('condition evaluated once', o.ret == 1), quiet(o)]
    cases.append(Case('assert_plain', u, 'assert_plain', [I('a', *FULL)], plain, kinds=('ret', 'abort'), ret='i32', samples=4, sample=lambda r: NS(a=r.choice([3, 4, -9, 100]))))

    def fmt(i, o):
        if o.kind == 'abort':
            return [B('stops only when the condition is false', i.a >= i.b), err_contains('message', o.err, ['Assertion failed [', 'math.cpp', ':', 'values ', i.a, ' and ', i.b, ', letter ', ', text some text, end', '\n', 'Aborting'])]
        return [B('true condition', i.a < i.b), quiet(o), B('value', o.ret == 5)]
    cases.append(Case('assert_fmt', u, 'assert_fmt', [I('a', *FULL), I('b', -2 ** 63, 2 ** 63 - 1, 64), I('c', 65, 68)], fmt, kinds=('ret', 'abort'), ret='i32', samples=6,
                      sample=lambda r: NS(a=r.randrange(-5, 5), b=r.randrange(-5, 5), c=65)))

    def two(i, o):
        if o.kind == 'abort':
            return [B('stops when one is false', L.Or(i.a < 0, i.b < 0))]
        return [B('both true', L.And(i.a >= 0, i.b >= 0)), quiet(o)]
    cases.append(Case('assert_two', u, 'assert_two', [I('a', *FULL), I('b', *FULL)], two, kinds=('ret', 'abort'), ret='i32', samples=6, sample=lambda r: NS(a=r.randrange(-5, 5), b=r.randrange(-5, 5))))

    def iff(i, o):
        if o.kind == 'abort':
            return [B('nested condition false', L.And(i.a > 0, i.b <= 0)), err_contains('message', o.err, ['nested ', i.b, 'Aborting'])]
        return [B('value', o.ret == L.If(i.a > 0, 4, 9)), B('condition', L.Or(i.a <= 0, i.b > 0)), quiet(o)]
    cases.append(Case('assert_if', u, 'assert_if', [I('a', *FULL), I('b', *FULL)], iff, kinds=('ret', 'abort'), ret='i32', samples=6, sample=lambda r: NS(a=r.randrange(-5, 5), b=r.randrange(-5, 5))))

    def call(i, o):
        cl = [err_contains('location and formatted message', o.err, ['Assertion failed [some/file.cpp:', i.line, ']: value ', i.v, ' of ', i.w, '\n'])]
        if o.kind == 'abort':
            return cl + [B('abort only when asked', L.Not(i.f == 0)), err_contains('abort announced', o.err, ['\n', 'Aborting'])]
        return cl + [B('return only when no abort asked', i.f == 0), B('continues', o.ret == 3)]
    cases.append(Case('fail_call', u, 'fail_call', [I('line', 0, 2 ** 31 - 1), I('f', 0, 1), I('v', *FULL), I('w', -2 ** 63, 2 ** 63 - 1, 64)], call, kinds=('ret', 'abort'), ret='i32', samples=4))

    def long(i, o):
        h = '0123456789 a long fixed text before the first value of the message, '
        cl = [err_contains('location and whole message', o.err, ['Assertion failed [some/directory/with/a/rather/long/name/for/a/source/file.cpp:', i.line, ']: ' + h * 10 + 'first ', i.v, ' then ' + h * 3 + ' and last ', i.w, '.\n'])]
        if o.kind == 'abort':
            return cl + [B('abort only when asked', L.Not(i.f == 0)), err_contains('abort announced', o.err, ['\n', 'Aborting'])]
        return cl + [B('return only when no abort asked', i.f == 0), B('continues', o.ret == 3)]
    cases.append(Case('fail_long', u, 'fail_long', [I('line', 0, 2 ** 31 - 1), I('f', 0, 1), I('v', *FULL), I('w', -2 ** 63, 2 ** 63 - 1, 64)], long, kinds=('ret', 'abort'), ret='i32', samples=4))

    def none(i, o):
        cl = [err_contains('location and message', o.err, ['Assertion failed [f.hpp:', i.line, ']: no values\n'])]
        if o.kind == 'abort':
            return cl + [B('abort only when asked', L.Not(i.f == 0))]
        return cl + [B('return only when no abort asked', i.f == 0), B('continues', o.ret == 3)]
    cases.append(Case('fail_none', u, 'fail_none', [I('line', 0, 2 ** 31 - 1), I('f', 0, 1)], none, kinds=('ret', 'abort'), ret='i32', samples=4))
    # kernel wrappers
    cases.append(Case('kernel0', u, 'kernel0', [I('v', *FULL), I('flag', 0, 1)], lambda i, o: [B('called once', len(o.events) == 1)] + ([B('data', o.events[0][1][0] == i.v), B('first call', o.events[0][1][1] == 1), B('effect', o.ret == i.v)] if o.events else []), ret='i32', samples=2))
    cases.append(Case('kernel0r', u, 'kernel0r', [I('v', -1000, 1000)], lambda i, o: [B('called once', len(o.events) == 1), B('effect', o.ret == i.v + 1)], ret='i32', samples=2))

    def kn(i, o):
        return [B('called once', len(o.events) == 1)] + [B('caller data', L.Implies(i.k == k, L.And(o.events[0][1][0] == i.data[k], *[o.data[m] == (i.v if m == k else i.data[m]) for m in range(6)]))) for k in range(6) if o.events]
    cases.append(Case('kernelN', u, 'kernelN', [OI('data', 6, 32, True, FULL), I('k', 0, 5), I('v', *FULL), I('flag', 0, 1)], kn, samples=3, box='every data, index and value'))
    cases.append(Case('dealloc', u, 'dealloc', [I('a', *FULL), I('b', *FULL), I('c', *FULL)],
                      lambda i, o: [B('every element destroyed once, last first', L.And(len(o.events) == 3, *[e[1][0] == w for e, w in zip(o.events, (i.c, i.b, i.a))]))],
                      ret='i32', samples=2))
    for ty in TY:
        ur = Unit(work, 'math.cpp', 0, ['REAL=' + ty, 'PART=1'])
        units.append(ur)
        for nm, s in (('unit', Fr(1)), ('small', Fr(1, 2 ** 30)), ('large', Fr(2 ** 20))):
            sl = U[ty] * 64 * s * s

            def post(i, o, sl=sl):
                if is_sym(o.ret):
                    return [B('decided', False)]
                d = (i.a - i.b) * (i.a - i.b) - i.t * i.t
                return [Ge('false only when not closer than the tolerance', d, -sl)] if o.ret == 0 else [Ge('true only when closer than the tolerance', -d, -sl)]
            cases.append(Case('check_%s_%s' % (nm, ty), ur, 'tolcheck', [F('a', -s, s, ty), F('b', -s, s, ty), F('t', s / 64, s, ty)], post, ret='i32', samples=6, box='|a|,|b| <= %s, tolerance %s to %s' % (s, s / 64, s)))
    return units, cases


def is_sym(x):
    import z3
    return isinstance(x, z3.ExprRef)


FP = 'floating point: IEEE-754 round-to-nearest, bounded by |fl(z)-z| <= u|z|+eta (valid for every input in the box)'
CL = 'clang 18 -O1 IR without vectorisation or FP contraction; concrete runs compared with g++ -O0'
TP = 'compile-time parameters are instantiated as listed in bounds'
CHECKS = [
    Check('C14', inversion, 'all 3x3 matrices with entries up to 2^-20, 1, 2^20 (and rows / columns of mixed scale 2^-10..2^12), both signs, |det| at least 1/16 (unit scale also 1/1024) of the scale volume; raw array, CArray, CArray view; float and double', [FP, CL]),
    Check('C16', scaling, 'edge lengths in [1/2,2], [2^-21,2^-19], [2^19,2^21], [1/16,16]; every prior content of the outputs; float and double', [FP, CL]),
    Check('C17', counts, 'cubes to dimension 12, simplices to 11, every sub-dimension (symbolic, dispatched to the compile-time functions); eight bound sets, float and double', [TP, CL]),
    Check('C19', assertions, 'every 32-bit / 64-bit argument of the asserted condition and message; tolerance test for values and tolerances at scales 2^-30, 1, 2^20 up to rounding of the squares; wrappers for every data content', [FP, CL, 'stdio is modelled: text written to stderr is recorded as constant pieces and decimal values']),
    Check('C23', integers, 'factorial to the largest representable argument (int, long, unsigned long, unsigned char), binomial wherever the factorial is representable, power for every base whose result fits (powers 2 and 3: |base| <= 512, thorough: int full range, 64-bit 4096), floating bases in [-2,2] to power 8; every run-time index of every point set and weight table against constant evaluation', [FP, TP, CL])]
