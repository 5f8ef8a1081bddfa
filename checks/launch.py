"""C26: the kernel wrappers on a device back end (host code of CUDA and HIP builds over a model of the runtime)."""
from fractions import Fraction as Fr

from fw import B, Case, Check, Close, DeviceUnit, F, I, L, OF, OI, err_contains

FULL = (-2 ** 31, 2 ** 31 - 1)
BYTE = (-128, 127)
BIG = (-2 ** 62, 2 ** 62)


def wrap8(x):
    """the low byte as a signed number"""
    y = x & 255
    return L.If(y > 127, y - 256, y)


def launches(work, tier):
    units, cases = [], []

    def add(u, lang, name, args, good, flag=True, fault=True, many=1, data=True):
        places = 5 if data else 2       # without data: allocation and copies are the caller's
        if fault:
            args = args + [I('fault', 1, 999), I('where', 0, places)]
        if flag:
            args = args + [I('flag', 0, 1)]

        def post(i, o):
            broken = L.Not(i.where == 0) if fault else False
            stop = L.Not(i.flag == 0) if flag else True
            if o.kind == 'abort':
                return [B('aborts only when the kernel failed and abort was asked for', L.And(broken, stop))]
            whole = o.ret == 1000 * many
            cl = [B('kernel launched as often as asked with one thread, copies in bounds and in the right direction, device memory released', L.Or(whole, L.And(broken, o.ret == 0)) if fault else whole),
                  B('returns only when the kernel succeeded or abort was not asked for', L.Not(L.And(broken, stop))),
                  B('a failed kernel is reported', L.Implies(broken, err_contains('', o.said, ['the device fault']).cond))]
            if broken is False or not (o.kind == 'ret' and len(o.said)):     # nothing printed: this run had no fault
                for l, c in good(i, o):
                    cl.append(B(l, L.Implies(L.Not(broken), c)) if not isinstance(c, Close) else c)
            return cl
        cases.append(Case('%s_%s' % (name, lang), u, name, args, post, ret='i32', kinds=('ret', 'abort'), samples=6, box='every data content, value, element count 1 to 6, fault or none at each runtime call, abort flag'))

    def at(i, n, want):
        """claims for the entry n given the list want(n) of expected elements"""
        return [('n=%d data[%d]' % (n, m), L.Implies(i.n == n, w)) for m, w in enumerate(want)]

    for lang in ('cuda', 'hip'):
        for std in ('c++17',) if tier == 'quick' else ('c++17', 'c++20'):
            u = DeviceUnit(work, 'launch.cpp', 0, [], std, lang, host=True)
            units.append(u)
            nm = lang + ('' if std == 'c++17' else '20')

            def ints(i, o):
                if len(o.events) != 1:
                    return [('kernel called once', False)]
                return [('kernel sees the caller data', L.Implies(i.k == k, o.events[0][1][0] == i.data[k])) for k in range(6)] + \
                    [('data[%d]' % m, o.data[m] == L.If(i.k == m, i.v, i.data[m])) for m in range(6)]
            add(u, nm, 'launch_int', [OI('data', 6, 32, True, FULL), I('n', 6, 6), I('k', 0, 5), I('v', *FULL)], ints)
            add(u, nm, 'launch_all', [OI('data', 6, 32, True, FULL), I('n', 1, 6), I('v', *FULL)],
                lambda i, o: [c for n in range(1, 7) for c in at(i, n, [o.data[m] == (i.data[m] ^ i.v if m < n else i.data[m]) for m in range(6)])])

            def dbl(i, o):
                r = []
                for n in range(1, 7):
                    want = list(i.data)
                    want[n - 1] = i.v
                    if n > 1:
                        want[0] = want[n - 2]
                    r += at(i, n, [o.data[m] == want[m] for m in range(6)])
                return r
            add(u, nm, 'launch_byte', [OI('data', 6, 8, True, BYTE), I('n', 1, 6), I('v', *BYTE)],
                lambda i, o: [c for n in range(1, 7) for c in at(i, n, [o.data[m] == (i.v if m == n - 1 else i.data[m]) for m in range(6)])])
            add(u, nm, 'launch_long', [OI('data', 6, 64, True, BIG), I('n', 1, 6), I('v', *BIG, w=64)], dbl)

            def wide(i, o):
                r = []
                for n in range(1, 5):
                    r += at(i, n, [o.a[m] == (i.a[m] + i.v if m == n - 1 else i.a[m]) for m in range(4)])
                    r += at(i, n, [o.c[m] == (i.c[0] if m == n - 1 else i.c[m]) for m in range(4)])
                return r
            add(u, nm, 'launch_wide', [OI('a', 4, 64, True, BIG), OI('c', 4, 8, True, BYTE), I('n', 1, 4), I('v', -2 ** 61, 2 ** 61, w=64)], wide)
            add(u, nm, 'launch_twice', [OI('data', 6, 32, True, FULL), I('n', 1, 6), I('v', -2 ** 31 + 1, 2 ** 31 - 1)],
                lambda i, o: [c for n in range(1, 7) for c in at(i, n, [o.data[m] == (i.v - 1 if m == 0 else i.v if m == n - 1 else i.data[m]) for m in range(6)])], fault=False, many=2)
            add(u, nm, 'launch_default', [OI('data', 6, 32, True, FULL), I('n', 1, 6)],
                lambda i, o: [c for n in range(1, 7) for c in at(i, n, [o.data[m] == (7 if m == n - 1 else i.data[m]) for m in range(6)])], flag=False)
            add(u, nm, 'launch_alone', [OI('o', 3, 32), I('v', *FULL)],
                lambda i, o: [('kernel called once', len(o.events) == 1), ('data', L.And(o.o[0] == 5, o.o[1] == i.v, o.o[2] == 5))], data=False)
            add(u, nm, 'launch_alone_default', [I('v', *FULL)], lambda i, o: [('kernel called once', L.And(len(o.events) == 1, *[e[1][0] == i.v for e in o.events]))], flag=False, data=False)
            for ty, size in (('byte', 1), ('int', 4), ('double', 8), ('wide', 32)):
                def ext(i, o, size=size):
                    return [('all elements are copied to the device', o.o[0] == i.n * size), ('and back', o.o[1] == i.n * size)]
                add(u, nm, 'extents_' + ty, [I('n', 1, 2 ** 31 - 1), OI('o', 2, 64, False)], ext)
    return units, cases


CHECKS = [Check('C26', launches, 'kernel wrappers with and without data, deallocation; element types int, signed char, long and a struct; 1 to 6 elements (extents of the runtime calls: 1 to 2^31-1 elements), every content, every captured value; fault schedules (none, or an error code from 1 to 999 at allocation, copy to the device, launch, execution, copy back); abort flag both ways and defaulted; two launches in sequence; CUDA and HIP builds',
                ['host pass of a device build (clang 18 -x cuda / -x hip --cuda-host-only): the launch goes through the stub the compiler generates for <<< >>>',
                 'the runtime is a model: allocation, copies (direction and extent checked against live device blocks), launch configuration, synchronisation and error text; a kernel runs as its callable on a copy of the launch arguments; one fault strikes at the symbolic place; a kernel that fails on the device (or that is launched without memory) makes later calls return the error, the other faults only show in the failing call and in the last-error query',
                 'the kernel body (one call of the callable) is checked in the host build (C19) and as device code (C25)', 'stdio is modelled'])]
