"""C20: results do not depend on the build configuration (relational: two configurations on the same symbols)."""
import re
from fractions import Fraction as Fr

from checks import arrays, basis1d, indexing, mapping, maths, product, quadrature
from fw import B, Case, Check, Close, DeviceUnit, FA, IA, I, F, OF, OI, NS, Unit

U = {'double': Fr(1, 2 ** 52), 'float': Fr(1, 2 ** 23)}
_units = {}


def reconf(u, bounds, std):
    k = (u.work, u.name, bounds, std)
    if k not in _units:
        import os
        _units[k] = Unit(u.work, os.path.basename(u.src), bounds, u.defs, std)
    return _units[k]


def device(u, bounds, std, lang):
    k = (u.work, u.name, bounds, std, lang)
    if k not in _units:
        import os
        _units[k] = DeviceUnit(u.work, os.path.basename(u.src), bounds, u.defs, std, lang.split('-')[0], host=lang.endswith('-host'))
    return _units[k]


FAILED = ('abort', 'trap')


def pair(c, conf, tol):
    """the case in the base configuration against the same entry in conf"""
    dev = len(conf) > 2
    base = reconf(c.unit, conf[0] if dev else 0, 'c++17')
    other = device(c.unit, *conf) if dev else reconf(c.unit, *conf)
    outs = [a for a in c.args if isinstance(a, (OF, OI))]
    real = c.ret in ('double', 'float')

    def size(n):
        # large or small values bring their size into the rounding errors
        return tol * c.amp.get(n, c.amp.get('*', 1))

    def post(i, o):
        o2 = o.B
        cl = [B('same outcome', o.kind == o2.kind or o.kind in FAILED and o2.kind in FAILED)]
        if o.kind != 'ret' or o2.kind != 'ret':
            return cl
        for a in outs:
            for k, (x, y) in enumerate(zip(o[a.name], o2[a.name])):
                if isinstance(a, OF):
                    cl.append(Close('%s[%d]' % (a.name, k), x, y, size(a.name)))
                else:
                    cl.append(B('%s[%d]' % (a.name, k), x == y))
        if c.ret:
            cl.append(Close('result', o.ret, o2.ret, size('ret')) if real else B('result', o.ret == o2.ret))
        cl.append(B('same number of calls', len(o.events) == len(o2.events)))
        for k, (e, f) in enumerate(zip(o.events, o2.events)):
            cl.append(B('call %d' % k, e[0] == f[0] and len(e[1]) == len(f[1])))
            cl += [B('argument of call %d' % k, p == q) for p, q in zip(e[1], f[1])]
        return cl
    return [base, other], Case('%s__%s_b%d%s' % (c.name, conf[1].replace('+', ''), conf[0], '_' + conf[2] if dev else ''), base, c.fn, c.args, post, pre=c.pre, ret=c.ret, samples=min(c.samples, 2), sample=c.sample,
                               heavy=c.heavy, box=c.box, rel=other, kinds=c.kinds)


A, BC, D = (0, 'c++20'), (1, 'c++17'), (1, 'c++23')


def devices(work, tier):
    """the device build against the host build"""
    langs = ('cuda', 'hip')
    force = [(0, 'c++17', l) for l in langs]
    if tier != 'quick':
        force += [(b, s, l) for b, s in ((1, 'c++17'), (0, 'c++20')) for l in langs] + [(0, 'c++17', 'cuda-host'), (0, 'c++17', 'hip-host')]
    units, cases = configs(work, tier, force)
    for c in arrays.bounds(work, 'quick')[1]:
        if tier == 'quick' and not (c.name.endswith('_int') or c.name.endswith(('size_t', 'uint8_t')) and c.name.startswith(('chk_', 'chko_')) and re.search(r's23_|s234|s1_|s2121322|_b[127]_', c.name)):
            continue
        if re.search(r'_b[45]_', c.name):
            continue
        # a refused index: the message goes elsewhere, the computation stops in both
        for lang in langs:
            us, k = pair(c, (1, 'c++17', lang), 0)
            units.extend(u for u in us if u not in units)
            cases.append(k)
    return units, cases


def configs(work, tier, force=None):
    quick = tier == 'quick'
    units, cases = [], []

    def take(src, confs, pred, tol):
        for c in src:
            if not pred(c.name):
                continue
            ty = 'float' if 'float' in c.name else 'double'
            for cf in force or confs:
                us, k = pair(c, cf, tol * U[ty])
                units.extend(u for u in us if u not in units)
                cases.append(k)

    def has(*w):
        return lambda n: any(n.startswith(x) for x in w)

    def src(f):
        return f(work, 'quick')[1]
    lag = basis1d.values(work, 'quick')[1]
    take(lag, [A, D], lambda s: s.startswith('reproduce_') and s.endswith('double_unit' if quick else 'unit'), 4000 * 512)
    take(lag, [A, D], lambda s: s.startswith(('counts_', 'kronecker_')) and (not quick or s.endswith('double')), 64)
    sh = src(product.shapes)
    take(sh, [A, D], lambda s: s.split('_')[0] in ('prod', 'shape', 'parent', 'array', 'ploop', 'sloop', 'counts') and s.split('_')[1] in ('abcefg' if not quick else 'aceg') and (not quick or not s.endswith('float')), 20000)
    take(src(product.interpolation), [A, D], lambda s: s.split('_')[1] in ('ac' if quick else 'abceg') and (not quick or not s.endswith('float')) and s.split('_')[0] != 'repro', 50000 * 27)
    take(src(quadrature.CHECKS[0].cases), [A, D], lambda s: True, 64)
    take(src(quadrature.CHECKS[1].cases), [A, D], lambda s: True, 64)
    take(src(mapping.data), [A, BC] if quick else [A, BC, D], lambda s: not s.startswith('write') and s.endswith('double') or not quick, 0)
    take(src(mapping.jacobians), [BC, A] if quick else [A, BC, D], lambda s: s.startswith(('jac_', 'jaca_', 'jacv_')) and (not quick or ('mox' not in s and s.endswith('double') and ('cubic' not in s or s == 'jac_cubic_double'))), 4000 * 64)
    inv = src(mapping.inverses)
    take(inv, [BC] if quick else [A, BC, D], lambda s: (s.startswith(('inv_warped', 'invv_warped', 'inv_mirrored', 'inv_micro', 'invg_mix_bent_', 'invg_quad_shear_tiny_', 'invgv_quad_bent_0')) if quick else '_verts_' not in s) and (not quick or s.endswith('double')), 20000 * 100)
    take(src(mapping.integrals), [BC] if quick else [A, BC, D], lambda s: s.startswith('volume_GL2'), 200000)
    take(src(maths.inversion), [BC] if quick else [A, BC, D], lambda s: 'unit_pos_16' in s or '_tiny_' in s or '_huge_' in s, 120 * 256)
    take(src(maths.scaling), [BC] if quick else [A, BC, D], lambda s: True, 64 * 64)
    take(src(maths.counts), [A] if quick else [A, D], lambda s: 'named' in s or 'counts' in s or s == 'aliases', 0)
    take(src(maths.integers), [A] if quick else [A, D], has('fact', 'binom_int', 'powr', 'pow2', 'pow3'), 5000)
    take(src(arrays.access), [BC, A] if quick else [A, BC, D], lambda s: s.endswith('int_double_b0') or not quick and s.endswith('_b0'), 0)
    take(src(arrays.contents), [BC, A] if quick else [A, BC, D], lambda s: s.startswith('content') and s.endswith('int_b0' if quick else 'b0') or (s.startswith('write') and s.endswith('_b0') and 's23_' in s), 0)
    take(src(indexing.linear), [A] if quick else [A, D], lambda s: s.endswith('c++17') and not s.startswith('linear_index'), 0)
    take(src(indexing.loops), [A] if quick else [A, D], lambda s: s.endswith('c++17') and (not quick or s.split('_')[-2] in ('r23', 'r4', 'r234')), 0)
    take(src(indexing.sequences), [A] if quick else [A, D], lambda s: s.endswith('c++17') and (not quick or s.startswith(('nest', 'exec', 'packs'))), 0)
    return units, cases


CHECKS = [Check('C20', configs, 'C++17 without bounds checks against C++20 without, C++17 with, C++23 with bounds checks (quick: the pair or pairs relevant to each part), over the entries and boxes of C01, C03-C08, C10-C18, C23',
                ['floating-point results equal up to rounding (tolerance as in the base properties); integer results, calls and outcomes exactly', 'floating point: IEEE-754 round-to-nearest, bounded by |fl(z)-z| <= u|z|+eta',
                 'host compilation only; clang 18 -O1 IR, concrete runs with g++ -O0']),
          Check('C25', devices, 'CUDA and HIP device code (C++17; thorough: also C++20, with bounds checks, and the host pass of the device builds) against the host build in the same configuration, over the entries and boxes of C01-C08, C10-C18, C23',
                ['floating-point results equal up to rounding (tolerance as in the base properties); integer results, calls and outcomes exactly; a refused index stops both (abort on the host, trap on the device)',
                 'device code is what clang 18 compiles with --cuda-device-only for sm_70 and gfx90a (NVPTX and AMDGCN IR at -O1, constexpr functions callable on the device as with --expt-relaxed-constexpr); CUDA and HIP runtime declarations and cuda::std::tuple are stand-ins; text printed by device code is not compared',
                 'replay: the same sources with the device branches selected (__CUDA_ARCH__ / __HIP_DEVICE_COMPILE__), built for the host', 'floating point: IEEE-754 round-to-nearest, bounded by |fl(z)-z| <= u|z|+eta'])]
