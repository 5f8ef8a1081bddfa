"""C01 / C02 / C18: CArray."""
from fractions import Fraction as Fr

from fw import B, Case, Check, Close, F, FA, I, IA, OF, OI, L, Unit

SHAPES = {'s1': (1,), 's7': (7,), 's23': (2, 3), 's52': (5, 2), 's14': (1, 4), 's41': (4, 1), 's33': (3, 3), 's234': (2, 3, 4), 's432': (4, 3, 2), 's313': (3, 1, 3),
          's2345': (2, 3, 4, 5), 's3124': (3, 1, 2, 4), 's23232': (2, 3, 2, 3, 2), 's213222': (2, 1, 3, 2, 2, 2),
          's2121322': (2, 1, 2, 1, 3, 2, 2), 's12112123': (1, 2, 1, 1, 2, 1, 2, 3), 's1111': (1, 1, 1, 1), 's9a': (9, 11)}
IDX = {'int': (32, True), 'long': (64, True), 'short': (16, True), 'uint8_t': (8, False), 'unsigned': (32, False), 'size_t': (64, False), 'signed char': (8, True)}
NAMES = 'ijklmnpq'


def size(d):
    n = 1
    for x in d:
        n *= x
    return n


def rowmajor(d, idx):
    r = 0
    for n, i in zip(d, idx):
        r = r * n + i
    return r


def idx_args(d, ty, full=False):
    w, s = IDX[ty]
    if full:
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        return [I(NAMES[k], lo, hi, w, s) for k in range(len(d))]
    return [I(NAMES[k], 0, n - 1, w, s) for k, n in enumerate(d)]


def ivals(i, d):
    return [i[NAMES[k]] for k in range(len(d))]


WHO = ['owning', 'const owning', 'view', 'const view', 'view of const', 'const view of const']
FORM = ['call', 'brackets', 'bracket then call']


def access(work, tier):
    units, cases = [], []
    confs = [('int', 'double', 0), ('int', 'double', 1), ('long', 'short', 0), ('uint8_t', 'float', 1), ('size_t', 'char', 1)]
    confs += [(t, e, b) for t in IDX for e in (('double', 'char') if tier == 'quick' else ('double', 'char', 'short', 'float')) for b in (0, 1) if (t, e, b) not in confs]
    for ty, el, bc in confs:
        u = Unit(work, 'carray.cpp', bc, ['PART=1', 'IDX=' + ty, 'ELT=' + el])
        units.append(u)
        fl = el if el in ('double', 'float') else None
        for s, d in SHAPES.items():
            N = size(d)
            buf = OF('buf', N, fl, (0, 0)) if fl else OI('buf', N, {'short': 16, 'char': 8}[el], True, (0, 0))

            def post(i, o, d=d, N=N):
                want = rowmajor(d, ivals(i, d))
                cl = []
                for a, who in enumerate(WHO):
                    for f, form in enumerate(FORM):
                        cl.append(B('%s %s offset' % (who, form), o.o[4 * a + f] == want))
                    cl.append(B('%s data start' % who, o.o[4 * a + 3] == 0))
                cl.append(B('inside', L.And(o.o[0] >= 0, o.o[0] < N)))
                return cl
            cases.append(Case('access_%s_%s_%s_b%d' % (s, ty, el, bc), u, 'acc_' + s, [buf, OI('o', 24, 64)] + idx_args(d, ty), post, samples=2, heavy=N,
                              box='all in-range indices of shape %s' % (d,)))
            if True:
                def cpost(i, o, d=d, N=N, el=el):
                    r = len(d)
                    cl = [B('compile-time indices, %s' % WHO[k // N], o.o[k] == k % N) for k in range(4 * N)]
                    cl += [B('rank', o.o[4 * N] == r), B('size', o.o[4 * N + 1] == N), B('rank', o.o[4 * N + 2] == r), B('size', o.o[4 * N + 3] == N)]
                    cl += [B('contiguous', o.o[4 * N + 4] == N * {'double': 8, 'short': 2, 'float': 4, 'char': 1}[el])]
                    cl += [B('extent', o.o[4 * N + 5 + k] == d[k % r]) for k in range(2 * r)]
                    return cl
                cases.append(Case('compiletime_%s_%s_%s_b%d' % (s, ty, el, bc), u, 'ct_' + s, [buf, OI('o', 4 * N + 5 + 2 * len(d), 64)], cpost, samples=1, heavy=N))
        if ty == 'int':
            cases.append(Case('scalarview_meta_b%d' % bc, u, 'scalarview_meta', [], lambda i, o: [B('rank, size, extent', o.ret == 111)], ret='i32', samples=1))
            cases.append(Case('scalar_meta_b%d' % bc, u, 'scalar_meta', [], lambda i, o: [B('rank, size, extent', o.ret == 111)], ret='i32', samples=1))
    # large arrays: only addresses are formed, nothing is read or written
    for ty, el, bc in (('int', 'char', 0), ('long', 'double', 1), ('uint8_t', 'double', 0), ('signed char', 'char', 1), ('short', 'char', 0), ('size_t', 'double', 0)):
        u = Unit(work, 'carray.cpp', bc, ['PART=4', 'IDX=' + ty, 'ELT=' + el])
        units.append(u)
        buf = OF('buf', 24, 'double', (0, 0)) if el == 'double' else OI('buf', 24, 8, True, (0, 0))
        for s, d in BIG.items():
            if max(d) > (1 << IDX[ty][0] - IDX[ty][1]):
                continue

            def post(i, o, d=d, sg=IDX[ty][1]):
                want = rowmajor(d, [ext64(v, sg) for v in ivals(i, d)])
                cl = [B('view %s offset' % f, o.o[k] == want) for k, f in enumerate(FORM + ['data start']) if k < 3]
                cl += [B('view of const %s offset' % f, o.o[4 + k] == want) for k, f in enumerate(FORM) if k < 3]
                cl.append(B('data start', o.o[3] == 0))
                last = rowmajor(d, [n - 1 for n in d])
                cl += [B('compile-time indices', o.o[8] == last), B('compile-time indices', o.o[9] == rowmajor(d, [n // 2 for n in d])), B('size', o.o[10] == last + 1), B('rank', o.o[11] == len(d))]
                cl += [B('extent %d' % k, o.o[12 + k] == n) for k, n in enumerate(d)]
                return cl
            cases.append(Case('big_%s_%s_%s_b%d' % (s, ty, el, bc), u, 'big_' + s, [buf, OI('o', 12 + len(d), 64)] + idx_args(d, ty), post, samples=3, box='every in-range index of shape %s' % (d,)))
        for s, d, tys in (('s234', (2, 3, 4), ((8, True), (64, False), (32, True))), ('s2345', (2, 3, 4, 5), ((32, False), (64, True), (16, False), (8, False)))):
            def mpost(i, o, d=d):
                # indices of different widths: the bounds of the arguments make the products small
                want = 0
                for k, n in enumerate(d):
                    want = want * n + ext64(i[NAMES[k]], SIGN[len(d)][k])
                return [B('offset with mixed index types', o.o[k] == want) for k in range(4)]
            cases.append(Case('mixed_%s_%s_b%d' % (s, el, bc), u, 'mixed_' + s, [buf if len(d) == 3 else (OF('buf', 120, 'double', (0, 0)) if el == 'double' else OI('buf', 120, 8, True, (0, 0))), OI('o', 4, 64)] +
                              [I(NAMES[k], 0, n - 1, *tys[k]) for k, n in enumerate(d)], mpost, samples=3, box='every in-range index, index types of different width and sign in one call'))
    return units, cases


SIGN = {3: (True, False, True), 4: (False, True, False, False)}
BIG = {'b1': (2, 300, 200), 'b2': (70000, 3), 'b3': (5, 40000), 'b4': (1100, 1000, 1100), 'b5': (40, 60, 50, 70), 'b6': (100000,), 'b7': (200, 3), 'b8': (3, 250, 2), 'b9': (2, 120, 100), 'b10': (256, 256), 'b11': (128, 129)}


def ext64(v, signed):
    import z3
    if not isinstance(v, z3.ExprRef):
        return v
    return z3.SignExt(64 - v.size(), v) if signed else z3.ZeroExt(64 - v.size(), v)


def bounds(work, tier):
    units, cases = [], []
    tys = list(IDX)
    for ty in tys:
        u = Unit(work, 'carray.cpp', 1, ['PART=2', 'IDX=' + ty, 'ELT=double'])
        units.append(u)
        w, sg = IDX[ty]
        for s, d in SHAPES.items():
            N = size(d)

            def ok(i, d=d):
                return L.And(*[c for n, v in zip(d, ivals(i, d)) for c in inrange(v, n)])

            def post(i, o, d=d, ok=ok):
                good = ok(i)
                if o.kind == 'abort':
                    return [B('abort only when out of range', L.Not(good)), B('message on stderr', len(o.err) > 0)]
                return [B('no return when out of range', good), B('row-major offset', o.ret == rowmajor(d, ivals(i, d)))]
            a = idx_args(d, ty, True)
            smp = mk_sample(d, ty)
            for fn, args in (('chk_', [OF('buf', N, 'double', (0, 0))] + a), ('chko_', a)):
                cases.append(Case('%s%s_%s' % (fn, s, ty.replace(' ', '_')), u, fn + s, args, post, kinds=('ret', 'abort'), ret='i64', sample=smp, samples=4, heavy=N,
                                  box='every %s index' % ty))
            if ty == 'int':
                for fn, args in (('chkb_', [OF('buf', N, 'double', (0, 0))] + a), ('chkbo_', a)):
                    cases.append(Case('%s%s_%s' % (fn, s, ty), u, fn + s, args, post, kinds=('ret', 'abort'), ret='i64', sample=smp, samples=4, heavy=N,
                                      box='every int index, slicing'))

                def wpost(i, o, d=d, ok=ok, N=N):
                    good = ok(i)
                    if o.kind == 'abort':
                        return [B('abort only when out of range', L.Not(good)), B('message on stderr', len(o.err) > 0)]
                    return [B('no return when out of range', good)]
                # the guard page / object bounds show that nothing is touched before the abort
                cases.append(Case('chkw_%s' % s, u, 'chkw_' + s, [OF('buf', N, 'double', (-1, 1)), F('w', -1, 1)] + a, wpost, kinds=('ret', 'abort'), sample=smp, samples=4, heavy=N))
    # large extents: only addresses are formed
    for ty, el in (('int', 'double'), ('long', 'char'), ('unsigned', 'char'), ('size_t', 'double'), ('uint8_t', 'char'), ('short', 'char'), ('signed char', 'double')):
        u = Unit(work, 'carray.cpp', 1, ['PART=4', 'CHECKED', 'IDX=' + ty, 'ELT=' + el])
        units.append(u)
        buf = OF('buf', 24, 'double', (0, 0)) if el == 'double' else OI('buf', 24, 8, True, (0, 0))
        for s, d in BIG.items():
            def post(i, o, d=d, sg=IDX[ty][1]):
                v = [ext64(x, sg) for x in ivals(i, d)]
                # the widened value of a 64-bit unsigned index is compared as unsigned
                good = L.And(*[c for n, x in zip(d, v) for c in ((x >= 0, x < n) if sg or not is_sym(x) else (ult(x, n),))])
                if o.kind == 'abort':
                    return [B('abort only when out of range', L.Not(good)), B('message on stderr', len(o.err) > 0)]
                return [B('no return when out of range', good), B('row-major offset', o.ret == rowmajor(d, v))]
            for fn in ('chk_', 'chkb_', 'chkm_'):
                if max(d) > (1 << IDX[ty][0] - IDX[ty][1]) or (fn != 'chk_' and not (ty == 'int' or IDX[ty][0] < 32)):     # slicing takes an int
                    continue
                cases.append(Case('%s%s_%s' % (fn, s, ty.replace(' ', '_')), u, fn + s, [buf] + idx_args(d, ty, True), post, kinds=('ret', 'abort'), ret='i64', sample=mk_sample(d, ty), samples=6,
                                  box='every %s index, shape %s' % (ty, d)))
    return units, cases


def is_sym(x):
    import z3
    return isinstance(x, z3.ExprRef)


def ult(x, n):
    import z3
    return z3.ULT(x, n)


def inrange(v, n):
    return [v >= 0, v < n]


def mk_sample(d, ty):
    w, s = IDX[ty]
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)

    def sample(rng):
        from fw import NS
        r = NS()
        bad = rng.randrange(-1, len(d))
        for k, n in enumerate(d):
            v = rng.randrange(n)
            if k == bad:
                v = rng.choice([n, n + 1, -1, hi, lo, n - 1, 0])
                v = min(max(v, lo), hi)
            r[NAMES[k]] = v
        return r
    return sample


def contents(work, tier):
    units, cases = [], []
    confs = [('double', 0), ('int', 0), ('double', 1)]
    if tier == 'thorough':
        confs += [('float', 0), ('char', 0), ('int', 1), ('long', 0)]
    W = {'int': 32, 'char': 8, 'long': 64}
    for el, bc in confs:
        u = Unit(work, 'carray.cpp', bc, ['PART=3', 'IDX=int', 'ELT=' + el])
        units.append(u)
        fl = el in ('double', 'float')
        big = 2 ** (1000 if el == 'double' else 120)     # contents are only copied
        lo, hi = (-big, big) if fl else (-(1 << (W[el] - 1)), (1 << (W[el] - 1)) - 1)

        def arr_in(n, m):
            return FA(n, m, (lo, hi), el) if fl else IA(n, m, lo, hi, W[el])

        def arr_out(n, m, prior=None):
            return OF(n, m, el, prior) if fl else OI(n, m, W[el], True, prior)
        for s, d in SHAPES.items():
            N = size(d)
            if N > 40 and tier == 'quick' and (el, bc) != ('double', 0):
                continue

            def eq(label, a, b, fl=fl):
                if fl:
                    return Close(label, a, b, 0)
                return B(label, a == b)

            def cpost(i, o, N=N, eq=eq):
                cl = []
                names = ['list-initialised', 'const list-initialised', 'copy', 'assigned copy', 'view', 'view of const', 'copied view', 'empty initialiser']
                for f, nm in enumerate(names):
                    cl += [eq('%s array content' % nm, o.o[f * N + k], i['in'][k] if f < 7 else 0) for k in range(N)]
                return cl
            cases.append(Case('content_%s_%s_b%d' % (s, el, bc), u, 'cont_' + s, [arr_in('in', N), arr_out('o', 8 * N)], cpost, samples=2, heavy=N,
                              box='every content'))

            def wpost(i, o, N=N, d=d, eq=eq, fl=fl):
                # decided per path: the index is case-split, so each element is compared with an explicit choice
                at = rowmajor(d, ivals(i, d))
                cl = []
                for k in range(N):
                    cl += sel('owning array element', o.o[k], at, k, i.w, i['in'][k], fl)
                    cl += sel('viewed buffer element', o.viewed[k], at, k, i.w, i.viewed[k], fl)
                    cl.append(eq('copy taken before the write', o.o[N + k], i['in'][k]))
                for k in range(3):
                    cl.append(eq('read back', o.o[2 * N + k], i.w))
                return cl
            for f in range(3):
                if tier == 'quick' and (N > 24 or (N > 9 and (f == 2 or (el, bc) != ('double', 0)))):
                    continue
                w = F('w', 2, 3, el) if fl else I('w', lo, hi, W[el])
                from fw import K
                cases.append(Case('write%d_%s_%s_b%d' % (f, s, el, bc), u, 'wr_' + s, [K(f), arr_in('in', N), arr_out('viewed', N, (lo, hi)), w, arr_out('o', 2 * N + 3)] + idx_args(d, 'int'),
                                  wpost, samples=2, heavy=3 * N, box='every content, written value and in-range index'))
        if (el, bc) in (('double', 0), ('int', 0), ('double', 1)):
            LONG = {'1': [[(32760, 32775)], [(39995, 39999)]], '2': [[(32764, 32770), (0, 1)], [(16382, 16386), (0, 1)]], '3': [[(0, 1), (32766, 32770)], [(0, 1), (65533, 65538)]],
                    '4': [[(0, 1), (250, 258), (126, 128)]]}
            for nm, wins in LONG.items():
                for q, win in enumerate(wins):
                    for f in range(3):
                        if tier == 'quick' and (el, bc) != ('double', 0) and (f == 2 or q):
                            continue
                        idx = [I(NAMES[k], lo_, hi_) for k, (lo_, hi_) in enumerate(win)]
                        cases.append(Case('long%s_%d_w%d_%s_b%d' % (nm, f, q, el, bc), u, 'long%s_%d' % (nm, f), idx + [F('w', 2, 3, el) if fl else I('w', 1, 100, W[el]), arr_out('o', 8)],
                                          lambda i, o, eq=eq: [eq('element written', o.o[k], i.w) for k in range(4)] + [eq('another element', o.o[k], 0) for k in (4, 5)] , samples=2, heavy=20,
                                          box='long array, indices in %s' % (win,)))
        if el == 'double':
            cases.append(Case('scalar_b%d' % bc, u, 'scalar_all', [FA('in', 3, (-1, 1)), OF('o', 8)],
                              lambda i, o: [Close('scalar', o.o[k], i['in'][j], 0) for k, j in enumerate([0, 0, 0, 0, 0, 1, 2, 0])], samples=2))
    return units, cases


def sel(label, got, at, k, w, old, fl):
    """element k after writing w at position `at`"""
    import z3
    if isinstance(at, z3.ExprRef):
        if not fl:
            return [B(label, got == L.If(at == k, w, old))]
        from poly import EV
        # floating cells stay symbolic expressions; equality with one of two is decided by identity
        g, a, b = EV.lift(got), EV.lift(w), EV.lift(old)
        is_w, is_old = (g.e == 0 and g.p == a.p), (g.e == 0 and g.p == b.p)
        return [B(label, L.And(L.Implies(at == k, is_w), L.Implies(L.Not(at == k), is_old)))]
    return [Close(label, got, w if at == k else old, 0)] if fl else [B(label, got == (w if at == k else old))]


SH = 'shapes ' + ', '.join('x'.join(map(str, d)) for d in SHAPES.values())
ASSUME = ['shapes, element and index types are instantiated as listed in bounds, not symbolic', 'clang 18 -O1 IR; concrete runs compared with g++ -O0']
CHECKS = [Check('C01', access, SH + '; index types int (bounds checking off/on), long, uint8_t, size_t; every in-range index', ASSUME),
          Check('C02', bounds, SH + '; every value of int, unsigned, long, size_t, signed char, uint8_t indices; slicing with every int', ASSUME + ['stdio is modelled: the text written is recorded as constant pieces and decimal values']),
          Check('C18', contents, SH + '; every content (double up to 2^1000, every int; exact), every in-range index', ASSUME)]
