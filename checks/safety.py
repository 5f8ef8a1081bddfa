"""C21: no undefined behaviour in valid use, only own memory touched, inputs unmodified."""
import os

from checks import arrays, basis1d, indexing, mapping, maths, product, quadrature
from fw import B, Case, Check, Unit

SAN = ['-fsanitize=undefined,float-divide-by-zero,float-cast-overflow', '-fno-sanitize=pointer-overflow', '-fsanitize-trap=all']
_units = {}


def san(u, std=None):
    std = std or u.std
    k = (u.work, u.name, std)
    if k not in _units:
        _units[k] = Unit(u.work, os.path.basename(u.src), u.bounds, u.defs, std, name=u.name + '_san' + std[-2:], extra_ir=SAN)
    return _units[k]


def post(i, o):
    # traps, accesses outside objects, writes to inputs and uninitialised results end in other outcomes
    return [B('no undefined behaviour', o.kind in ('ret', 'abort'))]


def valid(work, tier):
    quick = tier == 'quick'
    units, cases = [], []

    def take(f, pred, stds=(None,)):
        for c in f(work, 'quick')[1]:
            if not pred(c.name):
                continue
            for std in stds:
                u = san(c.unit, std)
                if u not in units:
                    units.append(u)
                cases.append(Case(c.name + ('' if std is None else '_' + std.replace('+', '')), u, c.fn, c.args, post, pre=c.pre, ret=c.ret, kinds=c.kinds, samples=1, sample=c.sample, heavy=c.heavy, box=c.box))
    stds = (None,) if quick else (None, 'c++20')
    dbl = (lambda s: 'float' not in s) if quick else (lambda s: True)
    take(arrays.access, (lambda s: s.startswith('access') and 'int_double' in s or 'scalar' in s or 'char' in s or s.startswith('compiletime') and s.endswith('b1') and 's23_' in s) if quick else (lambda s: True))
    take(arrays.bounds, (lambda s: s.endswith(('_int', 'size_t')) and ('s23' in s or 's234' in s or 's1_' in s)) if quick else (lambda s: True))
    take(arrays.contents, (lambda s: s.startswith('content') and s.endswith('double_b0') or s.startswith('scalar')) if quick else (lambda s: True))
    take(indexing.linear, (lambda s: s.endswith('17')) if quick else (lambda s: True))
    take(indexing.loops, (lambda s: any(x in s for x in ('_r23_', '_r03_', '_r234_', 'linear', '_r2232_'))) if quick else (lambda s: True))
    take(indexing.sequences, (lambda s: s.endswith('17')) if quick else (lambda s: True))
    take(quadrature.CHECKS[0].cases, dbl, stds)
    take(quadrature.CHECKS[1].cases, dbl, stds)
    take(basis1d.values, lambda s: dbl(s) and 'wide' not in s, stds)
    take(product.shapes, (lambda s: dbl(s) and s.split('_')[1] in 'aceg') if quick else (lambda s: True), stds)
    take(product.interpolation, (lambda s: dbl(s) and s.split('_')[1] in 'aceg' and not s.startswith('repro')) if quick else (lambda s: True), stds)
    take(mapping.data, dbl, stds)
    take(mapping.jacobians, (lambda s: dbl(s) and not s.startswith('jqall')) if quick else (lambda s: True), stds)
    take(mapping.inverses, (lambda s: dbl(s) and 'verts' not in s) if quick else (lambda s: True))
    take(mapping.integrals, (lambda s: s == 'volume_GL2_double') if quick else (lambda s: True))
    take(maths.inversion, lambda s: dbl(s) or 'unit' in s)
    take(maths.scaling, lambda s: True)
    take(maths.counts, lambda s: True)
    take(maths.assertions, lambda s: not s.startswith('check_') or 'unit' in s)
    take(maths.integers, lambda s: not s.startswith('constexpr') and not s.startswith('pow_'))
    return units, cases


CHECKS = [Check('C21', valid, 'the entry points and input boxes of C01 to C19 and C23 (quick: a selection of shapes and ranges, double precision)',
                ['undefined behaviour is what clang -fsanitize=undefined,float-divide-by-zero,float-cast-overflow instruments, plus out-of-bounds, uninitialised and read-only accesses checked by the executor on every load and store',
                 'inputs are read-only objects', 'compile-time parameters are instantiated as listed in bounds', 'clang 18 -O1 IR; concrete runs with g++ -O0 and UBSan'])]
