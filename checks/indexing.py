"""C03 / C04 / C05: index ranges and compile-time loops."""
import itertools

from fw import B, Case, Check, I, OI, L, Unit

N6 = 'ijklmnpq'
LIN = {'i7': ('int', (7,)), 'i23': ('int', (2, 3)), 'i52': ('int', (5, 2)), 'i14': ('int', (1, 4)), 'i234': ('int', (2, 3, 4)), 'i432': ('int', (4, 3, 2)), 'i313': ('int', (3, 1, 3)),
       'i2345': ('int', (2, 3, 4, 5)), 'i32232': ('int', (3, 2, 2, 3, 2)), 'i213222': ('int', (2, 1, 3, 2, 2, 2)), 'big': ('int', (1000, 1200, 1500)),
       'l234': ('long', (2, 3, 4)), 'lbig': ('long', (3, 70000, 80000)), 'u432': ('unsigned', (4, 3, 2)), 'i2121322': ('int', (2, 1, 2, 1, 3, 2, 2)), 'i12312123': ('int', (1, 2, 3, 1, 2, 1, 2, 3)),
       'uc540': ('uchar', (5, 40)), 'sc227': ('schar', (2, 2, 7)), 's1003': ('short', (100, 300)), 'us5': ('ushort', (30, 40, 50)), 'szbig': ('size_t', (3, 70000, 80000, 9)),
       'llbig': ('llong', (2000000000, 5)), 'ubig': ('unsigned', (60000, 70000))}
WID = {'int': (32, True), 'long': (64, True), 'unsigned': (32, False), 'uchar': (8, False), 'schar': (8, True), 'short': (16, True), 'ushort': (16, False), 'size_t': (64, False), 'llong': (64, True)}


def prod(d):
    n = 1
    for x in d:
        n *= x
    return n


def linear(work, tier):
    cases = []
    units = []
    for std in ('c++17', 'c++20'):
        u = Unit(work, 'index.cpp', 0, std=std)
        units.append(u)
        for s, (ty, d) in LIN.items():
            w, sg = WID[ty]

            def post(i, o, d=d):
                r = 0
                for k, n in enumerate(d):
                    r = r * n + i[N6[k]]
                return [B('row-major linear index', o.ret == r), B('within the range', L.And(o.ret >= 0, o.ret < prod(d)))]
            cases.append(Case('linear_%s_%s' % (s, std), u, 'lin_' + s, [I(N6[k], 0, n - 1, w, sg) for k, n in enumerate(d)], post, ret=('i' if sg else 'u') + str(w), samples=4,
                              box='every in-range index of range %s' % (d,)))

            def mpost(i, o, d=d):
                n = len(d)
                want = [n] + list(d) * 2 + [0] * n + [0]
                return [B('range metadata', o.o[k] == v) for k, v in enumerate(want)]
            cases.append(Case('meta_%s_%s' % (s, std), u, 'linmeta_' + s, [OI('o', 2 + 3 * len(d), 64)], mpost, samples=1))
        for s, n, w in (('i1', 1, 32), ('i3', 3, 32), ('l2', 2, 64), ('l6', 6, 64)):
            def upost(i, o, n=n):
                return [B('starts at the origin', o.o[k] == 0) for k in range(n)] + [B('copy keeps the assigned index', o.o[n + k] == (i.a if k == n - 1 else 0)) for k in range(n)] + \
                       [B('assignment', o.o[2 * n] == i.b), B('index type', o.o[2 * n + 1] == 1)]
            cases.append(Case('multi_%s_%s' % (s, std), u, 'multi_' + s, [I('a', -2**(w-1), 2**(w-1) - 1, w), I('b', -2**(w-1), 2**(w-1) - 1, w), OI('o', 2 * n + 2, 64)], upost, samples=3,
                              box='every pair of index values'))
        cases.append(Case('linear_index_%s' % std, u, 'linlinear', [I('a', -2**31, 2**31 - 1)], lambda i, o: [B('identity', o.ret == i.a)], ret='i32'))
        cases.append(Case('linear_indexl_%s' % std, u, 'linlinearl', [I('a', -2**63, 2**63 - 1, 64)], lambda i, o: [B('identity', o.ret == i.a)], ret='i64'))
        for s, d in LOOPS.items():
            if s in FAR:
                continue

            def lpost(i, o, d=d):
                return [B('numbering along the loop', len(o.events) == prod(d))] + [B('numbering along the loop', e[1][0] == k) for k, e in enumerate(o.events)]
            cases.append(Case('numbering_%s_%s' % (s, std), u, 'looplin_' + s, [], lpost, samples=1))
    return units, cases


LOOPS = {'r4': (4,), 'r0': (0,), 'r23': (2, 3), 'r32': (3, 2), 'r03': (0, 3), 'r30': (3, 0), 'r234': (2, 3, 4), 'r312': (3, 1, 2), 'r2232': (2, 2, 3, 2), 'r21212': (2, 1, 2, 1, 2), 'r121221': (1, 2, 1, 2, 2, 1),
         'r2112121': (2, 1, 1, 2, 1, 2, 1), 'r11211212': (1, 1, 2, 1, 1, 2, 1, 2), 'r300': (300,), 'r3130': (3, 130), 'r2340': (2, 3, 40), 'r2003': (200, 3), 'r203': (2, 0, 3),
         'rb1': (100000,), 'rb2': (40000, 70000), 'rb3': (200, 300, 70000)}
# start values explored instead of the whole neighbourhood of the range
FAR = {'rb1': [(99997, 100001)], 'rb2': [(39998, 40000), (69998, 70001)], 'rb3': [(198, 200), (299, 300), (69998, 70000)]}
STATE = {'r4': (4,), 'r32': (3, 2), 'r234': (2, 3, 4), 'r2232': (2, 2, 3, 2)}
NEAR = {'r300': [(255, 301)], 'r3130': [(0, 3), (126, 131)], 'r2340': [(0, 2), (1, 3), (36, 41)], 'r2003': [(125, 129), (1, 3)]}


def lexi(d, start, events):
    """the events are the lexicographic enumeration of the box start..d"""
    n = len(d)
    ev = [e[1] for e in events]
    empty = L.Or(*[s >= r for s, r in zip(start, d)])
    if not ev:
        return [B('no call for an empty range only', empty)]
    cl = [B('no call for an empty range', L.Not(empty)), B('one call per index, all indices passed', all(len(e) == n for e in ev))]
    cl.append(B('first call at the start', L.And(*[a == s for a, s in zip(ev[0], start)])))
    for p, q in zip(ev, ev[1:]):
        opts = []
        for k in range(n):
            # position k advances, later positions restart after reaching their end
            c = [p[k] + 1 < d[k], q[k] == p[k] + 1]
            c += [q[j] == p[j] for j in range(k)]
            c += [L.And(p[j] + 1 >= d[j], q[j] == start[j]) for j in range(k + 1, n)]
            opts.append(L.And(*c))
        cl.append(B('lexicographic successor', L.Or(*opts)))
    cl.append(B('last call at the end', L.And(*[a + 1 == r for a, r in zip(ev[-1], d)])))
    return cl


def loops(work, tier):
    units, cases = [], []
    lo, hi = -3, 2
    for std in ('c++17', 'c++20'):
        u = Unit(work, 'index.cpp', 0, std=std)
        units.append(u)
        for s, d in LOOPS.items():
            n = len(d)
            for fn in ('loop_', 'loopf_'):
                l = lo if n <= 3 else -1
                if n > 4:
                    l = 0

                def post(i, o, d=d):
                    return lexi(d, [i[N6[k]] for k in range(len(d))], o.events)
                if s in FAR or s in NEAR:
                    win = FAR.get(s) or NEAR[s]
                    cases.append(Case('%s%s_%s' % (fn, s, std), u, fn + s, [I(N6[k], *w) for k, w in enumerate(win)], post, samples=4, heavy=1000, max_events=2000, box='start indices in %s of range %s' % (win, d)))
                    continue
                cases.append(Case('%s%s_%s' % (fn, s, std), u, fn + s, [I(N6[k], l, r + (hi if n <= 3 else 0)) for k, r in enumerate(d)], post, samples=4, heavy=10 ** n, max_events=4 * prod([r + 4 for r in d]) + 100,
                                  box='start indices %d .. end%+d in each dimension of %s' % (l, hi if n <= 3 else 0, d)))
        for s, d in STATE.items():
            def stpost(i, o, d=d):
                v = i.x
                for w in itertools.product(*[range(max(0, r - 2), r) for r in d]):
                    v = L.If(L.And(*[i[N6[k]] <= a for k, a in enumerate(w)]), v * 3 + 1 + sum(w), v)
                return [B('state of the function object after the loop', o.ret == v)]
            cases.append(Case('loopst_%s_%s' % (s, std), u, 'loopst_' + s, [I('x', -9, 9)] + [I(N6[k], max(0, r - 2), r) for k, r in enumerate(d)], stpost, ret='i32', samples=4, heavy=100,
                              box='stateful function object'))
        for ty, d, sg in (('long', (2, 3), 1), ('unsigned', (2, 1, 3), 0), ('short', (3, 2), 1), ('uchar', (5,), 0), ('llong', (4,), 1)):
            def typost(i, o, d=d):
                ev = [e for e in o.events if e[0] == 'cb_e%d' % len(d)]
                if len(d) == 1:
                    ev, nums = o.events[::2], o.events[1::2]
                else:
                    nums = [e for e in o.events if e[0] == 'cb_e1']
                cl = lexi(d, [i[N6[k]] for k in range(len(d))], ev) + [B('one linear index per visit', len(nums) == len(ev))]
                for e, q in zip(ev, nums):
                    r = 0
                    for a, m in zip(e[1], d):
                        r = r * m + a
                    cl.append(B('linear index of the visited entry', q[1][0] == r))
                return cl
            cases.append(Case('loopty_%s_%s' % (ty, std), u, 'loopty_' + ty, [I(N6[k], lo if sg else 0, r + hi) for k, r in enumerate(d)], typost, samples=4, heavy=10 ** len(d),
                              max_events=8 * prod([r + 4 for r in d]) + 100, box='start indices %d .. end%+d, index type %s' % (lo if sg else 0, hi, ty)))

        def llpost(i, o):
            return lexi((i.n,), [i.a], o.events)
        cases.append(Case('linear_loop_%s' % std, u, 'linloop', [I('a', -2, 4), I('n', -2, 9)], llpost, samples=4, max_events=400))
    return units, cases


LENGTHS = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 33, 64, 130)
NEST = {'n4': (4,), 'n1': (1,), 'n23': (2, 3), 'n32': (3, 2), 'n15': (1, 5), 'n234': (2, 3, 4), 'n413': (4, 1, 3), 'n2322': (2, 3, 2, 2), 'n21232': (2, 1, 2, 3, 2), 'n212212': (2, 1, 2, 2, 1, 2),
        'n203': (2, 0, 3), 'n320': (3, 2, 0), 'n2112121': (2, 1, 1, 2, 1, 2, 1), 'n12111212': (1, 2, 1, 1, 1, 2, 1, 2), 'n172': (17, 2), 'n320a': (3, 20), 'n40': (40,), 'n444': (4, 4, 4), 'n0': (0,), 'n022': (0, 2, 2)}
I32 = (-2**31, 2**31 - 1)


def sequences(work, tier):
    units, cases = [], []
    for std in ('c++17', 'c++20'):
        u = Unit(work, 'index.cpp', 0, std=std)
        units.append(u)
        for n in LENGTHS:
            def fpost(i, o, n=n):
                return [B('one call per index', len(o.events) == n)] + [B('call %d' % k, L.And(e[1][0] == i.x, e[1][1] == k)) for k, e in enumerate(o.events)]
            for f in ('forseq_', 'forseqt_'):
                cases.append(Case('%s%d_%s' % (f, n, std), u, f + str(n), [I('x', *I32)], fpost))

            def fst(i, o, n=n):
                v = i.x
                for k in list(range(n)) + [0] + list(range(n)):
                    v = v * 3 + 1 + k
                return [B('state of the function object after the calls', o.ret == v)]
            if n <= 8:
                cases.append(Case('forseqst_%d_%s' % (n, std), u, 'forseqst_%d' % n, [I('x', -3, 3)], fst, ret='i32', samples=2))

            def e0(i, o, n=n):
                return [B('index pack', o.o[k] == v) for k, v in enumerate(list(range(n)) + [-9])]
            cases.append(Case('exec0_%d_%s' % (n, std), u, 'exec0_%d' % n, [OI('o', n + 1, 64)], e0, samples=1))

            def et(i, o, n=n):
                return [B('arguments and index pack', o.o[k] == v) for k, v in enumerate([i.a, i.b] + list(range(n)) + [-9])]
            cases.append(Case('exect_%d_%s' % (n, std), u, 'exect_%d' % n, [I('a', *I32), I('b', *I32), OI('o', n + 3, 64)], et))
            tot = 100 * n * (n - 1) // 2
            for f in ('execret_', 'execret0_'):
                cases.append(Case('%s%d_%s' % (f, n, std), u, f + str(n), [I('a', -10**6, 10**6)], lambda i, o, tot=tot: [B('returned value', o.ret == i.a + tot)], ret='i64'))

            def er(i, o, n=n):
                return [B('rvalue argument', o.o[0] == i.b), B('const reference argument', o.o[1] == i.c), B('reference argument', o.o[2] == i.a + 1 + n * (n - 1) // 2)]
            cases.append(Case('execref_%d_%s' % (n, std), u, 'execref_%d' % n, [I('a', -10**6, 10**6), I('b', *I32), I('c', *I32), OI('o', 3)], er))
            def em(i, o, n=n):
                t = n * (n - 1) // 2
                want = [i.a, i.a, i.a, i.b + 1 + t, i.a, i.a, i.a, i.b + 2 + 2 * t, i.a + i.b + 2 + 3 * t]
                return [B('class and reference arguments, function- and template-argument form', o.o[k] == v) for k, v in enumerate(want)]
            cases.append(Case('execmv_%d_%s' % (n, std), u, 'execmv_%d' % n, [I('a', -10**6, 10**6), I('b', -10**6, 10**6), OI('o', 9)], em))
            cases.append(Case('execstate_%d_%s' % (n, std), u, 'execstate_%d' % n, [I('a', -10**6, 10**6)],
                              lambda i, o, n=n: [B('the function object itself is called', o.ret == 2 * (i.a + n))], ret='i32'))
        for n in (1, 4, 9):
            def rp(i, o, n=n):
                return [B('value of the last call', o.ret == i.x + 10 * (n - 1)), B('calls', [int(e[1][0]) for e in o.events] == list(range(n)))]
            cases.append(Case('forseqret_%d_%s' % (n, std), u, 'forseqret_%d' % n, [I('x', -10**6, 10**6)], rp, ret='i32'))
        for s, d in NEST.items():
            def npost(i, o, d=d):
                want = list(itertools.product(*[range(r) for r in d]))
                return [B('one call per tuple', len(o.events) == len(want))] + [B('tuple %d' % k, len(e[1]) == len(w) and all(int(a) == b for a, b in zip(e[1], w))) for k, (e, w) in enumerate(zip(o.events, want))]
            for f in ('nest_', 'nests_'):
                cases.append(Case('%s%s_%s' % (f, s, std), u, f + s, [], npost, samples=1))

            def spost(i, o, d=d, npost=npost):
                v = i.x
                for w in itertools.product(*[range(r) for r in d]):
                    v = v * 3 + 1 + sum(w)
                return npost(i, o, d) + [B('state carried through the calls', wrap32(o.ret, v))]
            for f in ('nestst_', 'nestss_'):
                cases.append(Case('%s%s_%s' % (f, s, std), u, f + s, [I('x', -9, 9)] if prod(d) <= 16 else [I('x', 0, 0)], spost if prod(d) <= 16 else npost, ret='i32', samples=2))
        want = [4, 9, -2, 7, 7, 4, 9, -2, 7, 11, 3]
        cases.append(Case('packs_%s' % std, u, 'packs', [OI('o', 11, 64)], lambda i, o: [B('pack', o.o[k] == v) for k, v in enumerate(want)] + [B('length', o.ret == 5)], ret='i32', samples=1))
    return units, cases


def wrap32(a, b):
    return a == b


ASSUME = ['ranges and sequence lengths are template parameters, instantiated as listed', 'clang 18 -O1 IR; concrete runs compared with g++ -O0']
CHECKS = [Check('C03', linear, 'ranges %s; every in-range index; C++17 and C++20' % ', '.join(str(d) for _, d in LIN.values()), ASSUME),
          Check('C04', loops, 'ranges %s; start values from -1 (0 for rank 4 and up) to one past the end; linear loops with start -2..4, end -2..9; index types int, long, long long, short, unsigned, unsigned char' % ', '.join(map(str, LOOPS.values())), ASSUME),
          Check('C05', sequences, 'sequence lengths %s; nested ends %s; every int argument value; C++17 and C++20' % (', '.join(map(str, LENGTHS)), ', '.join(map(str, NEST.values()))), ASSUME)]
