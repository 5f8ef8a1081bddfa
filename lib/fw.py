"""Check framework: harness compilation, symbolic cases, claims, replay on the native build, evidence."""
import ctypes
import glob
import json
import math
import mmap
import multiprocessing as mp
import os
import pickle
import random
import re
import select
import shutil
import signal
import struct
import subprocess
import sys
import time
import traceback
from fractions import Fraction

import z3

import ir
import symex
from poly import EV, Poly, f_up, f_dn
from symex import Calls, Executor, Infeasible, Ptr, UNDEF, Unsupported, Cat, is_sym, to_signed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SHIVA_REPO', '/repo')
CLANG = '/usr/lib/llvm-18/bin/clang++'
GXX = 'g++'
SEED = int(os.environ.get('VERIF_SEED', '1'))
JOBS = min(8, os.cpu_count() or 8)

IRFLAGS = ['-std=c++17', '-O1', '-ffp-contract=off', '-fno-vectorize', '-fno-slp-vectorize', '-fno-math-errno',
           '-fno-exceptions', '-Wno-everything', '-fbracket-depth=4096', '-ftemplate-depth=4096', '-fconstexpr-steps=100000000']
NATFLAGS = ['-std=c++17', '-ffp-contract=off', '-w', '-fPIC', '-shared', '-DNATIVE_HARNESS', '-ftemplate-depth=4096']
NATVAR = {
    'O0': ['-O0'],
    'O2': ['-O2'],
    'ubsan': ['-O0', '-fsanitize=undefined,float-divide-by-zero', '-fsanitize-undefined-trap-on-error'],
    'pattern': ['-O0', '-ftrivial-auto-var-init=pattern'],
    'zero': ['-O0', '-ftrivial-auto-var-init=zero'],
}


class BuildError(Exception):
    def __init__(self, msg, both=False, cmd=None):
        super().__init__(msg)
        self.both, self.cmd = both, cmd


# ------------------------------------------------------------------------------------------------ configuration
def write_config(dirname, bounds, device=''):
    """ShivaConfig.hpp generated from the repository's own template (host configuration, or with a device back end)."""
    d = os.path.join(dirname, 'cfg%d%s' % (bounds, device), 'shiva')
    os.makedirs(d, exist_ok=True)
    src = open(os.path.join(REPO, 'include/shiva/ShivaConfig.hpp.in')).read()
    out = []
    for ln in src.split('\n'):
        m = re.match(r'\s*#cmakedefine\s+(\w+)(.*)', ln)
        if m:
            if m.group(1) == 'SHIVA_ENABLE_BOUNDS_CHECK' and bounds:
                out.append('#define SHIVA_ENABLE_BOUNDS_CHECK' + re.sub(r'@\w+@', '1', m.group(2)))
            elif device and m.group(1) == 'SHIVA_ENABLE_' + device.upper():
                out.append('#define ' + m.group(1) + re.sub(r'@\w+@', '1', m.group(2)))
            else:
                out.append('/* #undef %s */' % m.group(1))
        else:
            out.append(re.sub(r'@\w+@', '0', ln))
    with open(os.path.join(d, 'ShivaConfig.hpp'), 'w') as f:
        f.write('\n'.join(out))
    return os.path.dirname(d)


def sh(cmd, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


class Unit:
    """One harness translation unit in one configuration: IR for the solver, shared library for replay."""

    def __init__(self, work, src, bounds=0, defs=(), std='c++17', name=None, extra_ir=()):
        self.work, self.src, self.bounds, self.defs, self.std = work, os.path.join(VERIF, 'harness', src), bounds, list(defs), std
        self.name = name or '%s_b%d%s%s' % (os.path.splitext(src)[0], bounds, '_'.join(re.sub(r'\W', '', d) for d in defs), '' if std == 'c++17' else std.replace('+', 'p'))
        self.extra_ir = list(extra_ir)
        self.optional = self.failed = False      # optional: uses the documentation does not promise; left out if they do not compile
        self._mod = None
        self._libs = {}

    def incs(self):
        return ['-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(REPO, 'include'), '-I' + write_config(self.work, self.bounds)]

    def ir_cmd(self, out):
        fl = ['-std=' + self.std if f == '-std=c++17' else f for f in IRFLAGS]
        return [CLANG] + fl + self.extra_ir + ['-D' + d for d in self.defs] + self.incs() + ['-S', '-emit-llvm', self.src, '-o', out]

    def nat_cmd(self, var, out):
        fl = ['-std=' + self.std if f == '-std=c++17' else f for f in NATFLAGS]
        return [GXX] + fl + NATVAR[var] + ['-D' + d for d in self.defs] + self.incs() + [self.src, '-o', out]

    def build(self, native=True):
        """returns list of Popen-like jobs to run"""
        os.makedirs(self.work, exist_ok=True)
        self.incs()
        self.ll = os.path.join(self.work, self.name + '.ll')
        jobs = [(self, 'ir', self.ir_cmd(self.ll))]
        if native:
            so = os.path.join(self.work, self.name + '.O0.so')
            self._libs['O0'] = so
            jobs.append((self, 'O0', self.nat_cmd('O0', so)))
        return jobs

    def lib(self, var):
        so = self._libs.get(var)
        if so is None or not os.path.exists(so):
            so = os.path.join(self.work, '%s.%s.so' % (self.name, var))
            tmp = so + '.%d' % os.getpid()
            rc, out = sh(self.nat_cmd(var, tmp))
            if rc:
                raise BuildError('g++ (%s) failed on %s\n%s' % (var, self.src, out[-3000:]))
            os.rename(tmp, so)
            self._libs[var] = so
        return so

    @property
    def mod(self):
        if self._mod is None:
            self._mod = ir.Module(open(self.ll).read())
        return self._mod


class DeviceUnit(Unit):
    """The same harness as CUDA device code: IR for the device; for replay, its device branches built for the host.
    host=True: the host pass of a device build, for both."""
    LANG = {'cuda': ['-x', 'cuda', '-nocudainc', '-nocudalib', '-Xclang', '-target-sdk-version=11.0'], 'hip': ['-x', 'hip', '-nogpuinc', '-nogpulib', '-fno-builtin-printf']}
    COMMON = ['-Xclang', '-fcuda-allow-variadic-functions']
    ARCH = {'cuda': '--cuda-gpu-arch=sm_70', 'hip': '--offload-arch=gfx90a'}
    device = True

    def __init__(self, work, src, bounds=0, defs=(), std='c++17', lang='cuda', host=False):
        super().__init__(work, src, bounds, defs, std)
        self.lang, self.host = lang, host
        self.name += '_' + lang + ('_host' if host else '_device')

    def incs(self):
        cfg = write_config(self.work, self.bounds, self.lang)
        inc = os.path.join(REPO, 'include')
        hs = re.findall(r'^#include "(shiva/[^"]+)"', open(self.src).read(), re.M)
        with open(os.path.join(cfg, os.path.basename(self.src) + '.headers'), 'w') as f:
            f.write(''.join('#include "%s"\n' % h for h in hs))
        return ['-I' + os.path.join(VERIF, 'harness', 'device'), '-I' + os.path.join(VERIF, 'harness'), '-I' + inc, '-I' + cfg,
                '-DHARNESS="%s"' % self.src, '-DHEADERS="%s.headers"' % os.path.basename(self.src)] + (['-DHOST_PASS'] if self.host else [])

    def _cmd(self, flags, out):
        fl = ['-std=' + self.std if f == '-std=c++17' else f for f in flags]
        return [CLANG] + self.LANG[self.lang] + self.COMMON + fl + ['-D' + d for d in self.defs] + self.incs() + [os.path.join(VERIF, 'harness', 'device', 'wrap.cu'), '-o', out]

    def ir_cmd(self, out):
        return self._cmd((['--cuda-host-only'] if self.host else ['--cuda-device-only', self.ARCH[self.lang]]) + IRFLAGS + ['-S', '-emit-llvm'], out)

    def nat_cmd(self, var, out):
        return self._cmd(['--cuda-host-only'] + ([] if self.host else ['-DDEVICE_ON_HOST']) + (['-no-hip-rt', '-Xclang', '-fcuda-include-gpubinary', '-Xclang', '/dev/null'] if self.lang == 'hip' else []) + ['-fbracket-depth=4096', '-fconstexpr-steps=100000000'] + NATFLAGS + NATVAR[var], out)


def build_units(units):
    jobs = []
    for u in units:
        jobs += u.build()
    running, errs = [], []
    jobs = jobs[::-1]
    while jobs or running:
        while jobs and len(running) < JOBS:
            u, what, cmd = jobs.pop()
            log = open(os.path.join(u.work, '%s.%s.log' % (u.name, what)), 'w+')
            running.append((u, what, cmd, log, subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT)))
        time.sleep(0.01)
        still = []
        for r in running:
            rc = r[4].poll()
            if rc is None:
                still.append(r)
            elif rc != 0 and r[0].optional:
                r[0].failed = True
            elif rc != 0:
                r[3].seek(0)
                errs.append((r[0], r[1], r[2], r[3].read()[:6000]))
        running = still
    if errs:
        bad = {}
        for u, what, cmd, log in errs:
            bad.setdefault(u.name, []).append((what, cmd, log))
        # code that no longer compiles for the device while the same code compiles for the host
        dev = {u.name for u, _, _, _ in errs if getattr(u, 'device', False)}
        if len(dev) == len(bad):
            raise BuildError('\n'.join('%s: %s\n%s' % (w, ' '.join(c), l) for v in bad.values() for w, c, l in v), both=True)
        both = any(len(v) == 2 for v in bad.values())
        first = [v for v in bad.values() if len(v) == 2] or list(bad.values())
        msg = '\n'.join('%s: %s\n%s' % (w, ' '.join(c), l) for w, c, l in first[0])
        raise BuildError(msg, both=both, cmd=first[0][0][1])


# ------------------------------------------------------------------------------------------------ arguments
class Arg:
    name = None


class F(Arg):
    """scalar floating input"""

    def __init__(self, name, lo, hi, ty='double'):
        self.name, self.lo, self.hi, self.ty = name, Fraction(lo), Fraction(hi), ty


class I(Arg):
    """scalar integer input lo..hi (inclusive)"""

    def __init__(self, name, lo, hi, w=32, signed=True):
        self.name, self.lo, self.hi, self.w, self.signed = name, lo, hi, w, signed


class K(Arg):
    """constant integer argument"""

    def __init__(self, v, w=32):
        self.v, self.w = v, w


class FA(Arg):
    """floating input array; boxes: one (lo,hi) or a list; a number pins the element"""

    def __init__(self, name, n, box, ty='double'):
        self.name, self.n, self.ty = name, n, ty
        self.box = [(Fraction(b[0]), Fraction(b[1])) if isinstance(b, tuple) else (Fraction(b), Fraction(b)) for b in (box if isinstance(box, list) else [box] * n)]
        assert len(self.box) == n


class G(FA):
    """ghost input: symbolic numbers that only the specification uses (not passed to the code)"""


class IA(Arg):
    def __init__(self, name, n, lo, hi, w=32, signed=True):
        self.name, self.n, self.lo, self.hi, self.w, self.signed = name, n, lo, hi, w, signed


class OF(Arg):
    """floating output array; prior content: None (uninitialised), or a box -> arbitrary symbolic content (I[name])"""

    def __init__(self, name, n, ty='double', prior=None):
        self.name, self.n, self.ty = name, n, ty
        self.prior = None if prior is None else [(Fraction(p[0]), Fraction(p[1])) for p in (prior if isinstance(prior, list) else [prior] * n)]


class OI(Arg):
    def __init__(self, name, n, w=32, signed=True, prior=None):
        self.name, self.n, self.w, self.signed, self.prior = name, n, w, signed, prior


class NS(dict):
    __getattr__ = dict.__getitem__


class Close:
    def __init__(self, label, value, target, tol):
        self.label, self.value, self.target, self.tol = label, value, target, Fraction(tol)


class Ge:
    """value >= bound"""

    def __init__(self, label, value, bound):
        self.label, self.value, self.bound = label, value, bound


class B:
    def __init__(self, label, cond):
        self.label, self.cond = label, cond


def err_contains(label, err, parts):
    """the text written to stderr contains the parts (str, or 64-bit value in decimal) in this order"""
    if isinstance(err, bytes):
        pos = 0
        for p in parts:
            b = p.encode() if isinstance(p, str) else str(int(p)).encode()
            pos = err.find(b, pos)
            if pos < 0:
                return B(label, False)
            pos += len(b)
        return B(label, True)
    toks = []
    for p in err:
        if isinstance(p, bytes) and toks and isinstance(toks[-1], bytes):
            toks[-1] += p
        else:
            toks.append(p)
    i = pos = 0
    conds = []
    for p in parts:
        if is_sym(p):
            while i < len(toks) and isinstance(toks[i], bytes):
                i, pos = i + 1, 0
            if i == len(toks):
                return B(label, False)
            conds.append(toks[i] == p)
            i += 1
            continue
        b = p.encode() if isinstance(p, str) else str(int(p)).encode()
        while i < len(toks):
            k = toks[i].find(b, pos) if isinstance(toks[i], bytes) else -1
            if k >= 0:
                pos = k + len(b)
                break
            i, pos = i + 1, 0
        else:
            return B(label, False)
    return B(label, L.And(*conds) if conds else True)


class Logic:
    """boolean / if-then-else operators usable on z3 terms and on Python values alike"""

    @staticmethod
    def _b(x):
        return x if isinstance(x, z3.ExprRef) else z3.BoolVal(bool(x))

    def And(self, *xs):
        if any(isinstance(x, z3.ExprRef) for x in xs):
            return z3.And([self._b(x) for x in xs])
        return all(xs)

    def Or(self, *xs):
        if any(isinstance(x, z3.ExprRef) for x in xs):
            return z3.Or([self._b(x) for x in xs])
        return any(xs)

    def Not(self, x):
        return z3.Not(x) if isinstance(x, z3.ExprRef) else not x

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def If(self, c, a, b):
        if isinstance(c, z3.ExprRef):
            w = a.size() if isinstance(a, z3.BitVecRef) else (b.size() if isinstance(b, z3.BitVecRef) else 64)
            f = lambda v: v if isinstance(v, z3.ExprRef) else z3.BitVecVal(v, w)
            return z3.If(c, f(a), f(b))
        return a if c else b


L = Logic()


class Case:
    def __init__(self, name, unit, fn, args, post, pre=None, ret=None, kinds=('ret',), samples=3, sample=None, note='', max_paths=20000, heavy=0,
                 box='', rel=None, max_events=None, amp=None):
        self.amp = amp or {}      # sizes of the outputs ('*': all others, 'ret'), for comparisons between configurations
        self.max_events = max_events
        self.name, self.unit, self.fn, self.args, self.post, self.pre, self.ret = name, unit, fn, args, post, pre, ret
        self.kinds, self.samples, self.sample, self.note, self.max_paths, self.heavy = kinds, samples, sample, note, max_paths, heavy
        self.box = box
        self.rel = rel            # second unit: run the same entry in both, post sees o and o.B

    def all_units(self):
        return [self.unit] + ([self.rel] if self.rel else [])


# ------------------------------------------------------------------------------------------------ native execution
CT = {'double': ctypes.c_double, 'float': ctypes.c_float}


def ict(w, s=True):
    return {8: (ctypes.c_uint8, ctypes.c_int8), 16: (ctypes.c_uint16, ctypes.c_int16), 32: (ctypes.c_uint32, ctypes.c_int32), 64: (ctypes.c_uint64, ctypes.c_int64)}[w][s]


def native_run(so, case, inp, timeout=20):
    """run case.fn natively on concrete inputs in a forked child.  -> (kind, outputs NS)"""
    r, w = os.pipe()
    efd = os.memfd_create('stderr')
    ofd = os.memfd_create('stdout')
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.dup2(efd, 2)
            os.dup2(ofd, 1)
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            lib = ctypes.CDLL(so)
            out, argv, outs, keep = NS(), [], [], []
            libc = ctypes.CDLL(None)
            libc.mmap.restype = ctypes.c_void_p
            libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
            libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]

            def guarded(ct, n):
                """array of n elements ending at an inaccessible page"""
                sz = ctypes.sizeof(ct) * n
                pages = (sz + 4095) // 4096 + 2
                p = libc.mmap(None, pages * 4096, 3, 0x22, -1, 0)
                libc.mprotect(p, 4096, 0)
                libc.mprotect(p + (pages - 1) * 4096, 4096, 0)
                start = p + (pages - 1) * 4096 - sz
                ctypes.memset(p + 4096, 0xA5, (pages - 2) * 4096)
                return (ct * n).from_address(start), start

            for a in case.args:
                if isinstance(a, F):
                    argv.append(CT[a.ty](inp[a.name]))
                elif isinstance(a, I):
                    argv.append(ict(a.w, a.signed)(inp[a.name]))
                elif isinstance(a, K):
                    argv.append(ict(a.w)(a.v))
                elif isinstance(a, G):
                    pass
                elif isinstance(a, (FA, IA, OF, OI)):
                    ct = CT[a.ty] if isinstance(a, (FA, OF)) else ict(a.w, a.signed)
                    arr, start = guarded(ct, a.n)
                    if isinstance(a, (FA, IA)) or a.prior is not None:
                        for i, v in enumerate(inp[a.name]):
                            arr[i] = v
                    if isinstance(a, (FA, IA)):
                        libc.mprotect(start & ~4095, (ctypes.sizeof(arr) + (start & 4095) + 4095) // 4096 * 4096, 1)
                    argv.append(ctypes.c_void_p(start))
                    keep.append(arr)
                    if isinstance(a, (OF, OI)):
                        outs.append((a.name, arr))
            fn = getattr(lib, case.fn)
            fn.restype = None
            if case.ret:
                fn.restype = CT[case.ret] if case.ret in CT else ict(int(case.ret[1:]), case.ret[0] == 'i')
            signal.alarm(timeout)
            rv = fn(*argv)
            signal.alarm(0)
            libc.fflush(None)
            if case.ret:
                out['ret'] = rv
            for n, arr in outs:
                out[n] = list(arr)
            ev = []
            try:
                n = ctypes.c_int.in_dll(lib, 'native_event_count').value
                buf = (ctypes.c_longlong * (10 * n)).in_dll(lib, 'native_events') if n else []
                for i in range(n):
                    row = list(buf[10 * i:10 * i + 10])
                    ev.append((row[0], tuple(row[2:2 + row[1]])))
            except ValueError:
                pass
            out['events'] = ev
            data = pickle.dumps(('ret', out))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            os._exit(0)
        except BaseException:
            try:
                with os.fdopen(w, 'wb') as f:
                    f.write(pickle.dumps(('harness-error', traceback.format_exc())))
            finally:
                os._exit(3)
    os.close(w)
    data = b''
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    os.lseek(efd, 0, 0)
    err = os.read(efd, 1 << 20)
    os.close(efd)
    os.lseek(ofd, 0, 0)
    said = os.read(ofd, 1 << 20)
    os.close(ofd)
    if data:
        k, o = pickle.loads(data)
        if isinstance(o, NS):
            o['err'] = err
            o['said'] = said
        if k == 'harness-error':
            raise RuntimeError(o)
        return k, o
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        k = {signal.SIGABRT: 'abort', signal.SIGILL: 'trap', signal.SIGTRAP: 'trap', signal.SIGSEGV: 'segv', signal.SIGBUS: 'segv', signal.SIGALRM: 'timeout', signal.SIGFPE: 'fpe'}.get(s, 'signal%d' % s)
        return k, NS(events=[], err=err, said=said)
    return 'exit', NS(events=[], err=err, said=said)


def native_case(case, var, inp):
    k, o = native_run(case.unit.lib(var), case, inp)
    if case.rel:
        kb, ob = native_run(case.rel.lib(var), case, inp)
        ob['kind'] = kb
        o['B'] = ob
    return k, o


# ------------------------------------------------------------------------------------------------ executor side
EVENT_IDS = {i: 'cb_e%d' % i for i in range(1, 9)}


def sym_inputs(ex, case, inp=None):
    """build argument values; inp None -> symbolic.  returns (argv, I, outs)"""
    argv, ns, outs = [], NS(), []
    R, path = ex.reals, ex.path

    def fval(name, lo, hi, ty, conc):
        if conc is not None:
            return conc
        if lo == hi:
            return float(lo)
        return R.new(name, lo, hi, ty)

    def ival(name, a, conc):
        if conc is not None:
            return conc & ((1 << a.w) - 1)
        if a.lo == a.hi:
            return a.lo & ((1 << a.w) - 1)
        v = z3.BitVec(name, a.w)
        path.ranges[name] = (a.lo, a.hi)
        full_lo, full_hi = (-(1 << (a.w - 1)), (1 << (a.w - 1)) - 1) if a.signed else (0, (1 << a.w) - 1)
        if a.lo > full_lo:
            path.add_int(v >= a.lo if a.signed else z3.UGE(v, a.lo))
        if a.hi < full_hi:
            path.add_int(v <= a.hi if a.signed else z3.ULE(v, a.hi))
        return v

    for a in case.args:
        if isinstance(a, F):
            v = fval(a.name, a.lo, a.hi, a.ty, None if inp is None else inp[a.name])
            argv.append(v)
            ns[a.name] = spec(v)
        elif isinstance(a, I):
            v = ival(a.name, a, None if inp is None else inp[a.name])
            argv.append(v)
            ns[a.name] = widen(v, a.w, a.signed)
        elif isinstance(a, K):
            argv.append(a.v & ((1 << a.w) - 1))
        elif isinstance(a, G):
            ns[a.name] = [spec(fval('%s[%d]' % (a.name, i), a.box[i][0], a.box[i][1], a.ty, None if inp is None else inp[a.name][i])) for i in range(a.n)]
        elif isinstance(a, (FA, IA, OF, OI)):
            fl = isinstance(a, (FA, OF))
            sz = {'double': 8, 'float': 4}[a.ty] if fl else a.w // 8
            o = ex.new_obj(a.name, sz * a.n)
            o.const = isinstance(a, (FA, IA))        # inputs are read-only
            vals = []
            if isinstance(a, FA):
                vals = [fval('%s[%d]' % (a.name, i), a.box[i][0], a.box[i][1], a.ty, None if inp is None else inp[a.name][i]) for i in range(a.n)]
            elif isinstance(a, IA):
                vals = [ival('%s[%d]' % (a.name, i), a, None if inp is None else inp[a.name][i]) for i in range(a.n)]
            elif a.prior is not None:
                if fl:
                    vals = [fval('%s[%d]' % (a.name, i), a.prior[i][0], a.prior[i][1], a.ty, None if inp is None else inp[a.name][i]) for i in range(a.n)]
                else:
                    b = I('', a.prior[0], a.prior[1], a.w, a.signed)
                    vals = [ival('%s[%d]' % (a.name, i), b, None if inp is None else inp[a.name][i]) for i in range(a.n)]
            for i, v in enumerate(vals):
                o.cells[i * sz] = (sz, v)
            if vals:
                ns[a.name] = [spec(v) if fl else widen(v, a.w, a.signed) for v in vals]
            argv.append(Ptr(o, 0))
            if isinstance(a, (OF, OI)):
                outs.append((a, o, sz))
    return argv, ns, outs


def spec(v):
    """value as seen by the specification: exact"""
    if isinstance(v, float):
        return Fraction(v) if math.isfinite(v) else v
    return v


def widen(v, w, signed=True):
    if isinstance(v, int):
        return to_signed(v, w) if signed else v
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    if w == 64:
        return v
    return z3.SignExt(64 - w, v) if signed else z3.ZeroExt(64 - w, v)


def read_outs(ex, outs, ret, rty, path, events=None):
    O = NS()
    for a, o, sz in outs:
        vals = []
        for i in range(a.n):
            v = ex.load_cell(o, i * sz, sz)
            if isinstance(a, OF):
                v = v if v is UNDEF else ex.as_type(v, (a.ty,))
                vals.append(spec(v))
            else:
                if isinstance(v, (float, Cat, EV)):
                    raise Unsupported('integer output holds %r' % type(v))
                if isinstance(v, Ptr):
                    v = ex.ptr2int(v)
                vals.append(v if v is UNDEF else widen(v, a.w, a.signed))
        O[a.name] = vals
    if rty:
        if rty in CT:
            O['ret'] = spec(ret)
        else:
            w = int(rty[1:])
            if isinstance(ret, Ptr):
                ret = ex.ptr2int(ret)
            if isinstance(ret, z3.BitVecRef) and ret.size() != w:
                w = ret.size()
            O['ret'] = ret if ret is UNDEF else widen(ret, w, rty[0] == 'i')
    ev = []
    for n, args in (path.events if events is None else events):
        if n in ('stderr', 'stdout', '?'):
            continue
        if n.startswith('cb_'):
            ev.append((n, tuple(widen(x, x.size(), True) if isinstance(x, z3.BitVecRef) else (to_signed(x, 32) if isinstance(x, int) and x < (1 << 32) else x) for x in args)))
        else:
            ev.append((n, args))
    O['events'] = [e for e in ev if e[0].startswith('cb_')]
    O['io'] = [e for e in ev if not e[0].startswith('cb_')]
    O['err'] = [a for n, a in (path.events if events is None else events) if n == 'stderr']
    O['said'] = [a for n, a in (path.events if events is None else events) if n == 'stdout']
    return O


def has_undef(x):
    if x is UNDEF:
        return True
    if isinstance(x, (list, tuple)):
        return any(has_undef(y) for y in x)
    if isinstance(x, dict):
        return any(has_undef(v) for k, v in x.items() if k not in ('io', 'kind', 'info', 'err', 'said'))
    return False


def nearest(fr, ty, lo=None, hi=None):
    v = float(fr)
    if ty == 'float':
        v = symex.f32(v)
    if lo is not None:
        step = (lambda x, d: math.nextafter(x, d)) if ty == 'double' else (lambda x, d: f32next(x, d))
        while Fraction(v) < lo:
            v = step(v, math.inf)
        while Fraction(v) > hi:
            v = step(v, -math.inf)
    return v


def f32next(x, d):
    import numpy as np
    return float(np.nextafter(np.float32(x), np.float32(d)))


CASE_SECONDS = {'quick': 120, 'thorough': 600}     # symbolic execution of one case
RUN_SECONDS = {'quick': 660, 'thorough': 3000}     # all of one check: later cases are left undecided
_END = [None]


def run_left():
    return (_END[0] - time.time()) if _END[0] else 1e9


class CaseRunner:
    def __init__(self, case, tier, seed):
        self.case, self.tier, self.seed = case, tier, seed
        self.rng = random.Random((seed, case.name).__repr__())
        self.res = dict(name=case.name, fn=case.fn, paths=0, claims=0, proved=0, viol=None, inconclusive=[], validated=0, bitexact=0,
                        witness=None, kinds={}, note=case.note, box=case.box, maxslack=0.0)
        self.candidates = []

    # ---- sampling of concrete inputs
    def sample(self, corner=0.2):
        c = self.case
        for _ in range(400):
            if c.sample:
                inp = c.sample(self.rng)
            else:
                inp = NS()

            def fpick(lo, hi, ty):
                if lo == hi:
                    return float(lo)
                r = self.rng.random()
                if r < corner:
                    v = self.rng.choice([lo, hi, (lo + hi) / 2])
                else:
                    v = lo + (hi - lo) * Fraction(self.rng.random())
                return nearest(v, ty, lo, hi)

            for a in c.args:
                if a.name is None or a.name in inp:
                    continue
                if isinstance(a, F):
                    inp[a.name] = fpick(a.lo, a.hi, a.ty)
                elif isinstance(a, I):
                    inp[a.name] = self.rng.randint(a.lo, a.hi)
                elif isinstance(a, FA):
                    inp[a.name] = [fpick(l, h, a.ty) for l, h in a.box]
                elif isinstance(a, IA):
                    inp[a.name] = [self.rng.randint(a.lo, a.hi) for _ in range(a.n)]
                elif isinstance(a, OF) and a.prior is not None:
                    inp[a.name] = [fpick(a.prior[k][0], a.prior[k][1], a.ty) for k in range(a.n)]
                elif isinstance(a, OI) and a.prior is not None:
                    inp[a.name] = [self.rng.randint(a.prior[0], a.prior[1]) for _ in range(a.n)]
            if self.pre_ok(inp):
                return inp
        return None

    def extreme(self, inp):
        """the same input with some floating-point entries of extreme size (still in their boxes)"""
        fs = []
        for a in self.case.args:
            if isinstance(a, F):
                fs.append((a.name, None, a.lo, a.hi, a.ty))
            elif isinstance(a, FA):
                fs += [(a.name, k, l, h, a.ty) for k, (l, h) in enumerate(a.box)]
            elif isinstance(a, OF) and a.prior is not None:
                fs += [(a.name, k, a.prior[k][0], a.prior[k][1], a.ty) for k in range(a.n)]
        if not fs:
            return None
        out = NS({k: list(v) if isinstance(v, list) else v for k, v in inp.items()})
        e = self.rng.choice([1, 8, 24, 53, 70, 75, 80, 120, 149] + ([300, 520, 540, 600, 1000, 1074] if fs[0][4] == 'double' else []))
        some = fs if self.rng.random() < 0.5 else self.rng.sample(fs, min(len(fs), self.rng.choice([1, 1, 2, 3])))
        for n, k, lo, hi, ty in some:
            at = self.rng.choice([0, 0, 0, lo, hi, (lo + hi) / 2]) if lo <= 0 <= hi else self.rng.choice([lo, hi])
            v = Fraction(at) + self.rng.choice([1, -1, 3, -3]) * Fraction(1, 2 ** e)
            v = min(max(v, Fraction(lo)), Fraction(hi))
            w = nearest(v, ty, lo, hi)
            if k is None:
                out[n] = w
            else:
                out[n][k] = w
        return out if self.pre_ok(out) else None

    def spec_in(self, inp):
        ns = NS()
        for k, v in inp.items():
            ns[k] = [spec(x) for x in v] if isinstance(v, list) else spec(v)
        return ns

    def pre_ok(self, inp):
        if not self.case.pre:
            return True
        for c in self.case.pre(self.spec_in(inp)):
            if isinstance(c, bool):
                if not c:
                    return False
            elif c < 0:
                return False
        return True

    # ---- concrete evaluation of the claims on native outputs
    def violated(self, inp, kind, O):
        """None or a description"""
        c = self.case
        if kind not in c.kinds:
            return 'outcome %s' % kind
        def conv(O, kind):
            OO = NS()
            for k, v in O.items():
                if k in ('events', 'kind', 'err', 'said'):
                    continue
                OO[k] = conv(v, v['kind']) if k == 'B' else [spec(x) for x in v] if isinstance(v, list) else spec(v)
            OO['kind'] = kind
            OO['err'] = O.get('err', b'')
            OO['said'] = O.get('said', b'')
            OO.setdefault('io', None)
            OO['events'] = [(EVENT_IDS.get(e[0], e[0]), e[1]) for e in O.get('events', [])]
            return OO
        OO = conv(O, kind)
        try:
            claims = c.post(self.spec_in(inp), OO)
        except (TypeError, ValueError, OverflowError) as e:      # inf/nan in exact arithmetic
            return 'non-finite output (%s)' % e
        for cl in claims:
            if isinstance(cl, B):
                if not cl.cond:
                    return cl.label
            elif isinstance(cl, Close):
                if bad_float(cl.value) or bad_float(cl.target):
                    return cl.label + ': non-finite'
                d = abs(Fraction(cl.value) - Fraction(cl.target))
                if d > cl.tol:
                    return '%s: |%.17g - %.17g| = %.3g > %.3g' % (cl.label, float(cl.value), float(cl.target), float(d), float(cl.tol))
            elif isinstance(cl, Ge):
                if bad_float(cl.value) or cl.value < cl.bound:
                    return '%s: %.17g < %.17g' % (cl.label, float(cl.value), float(cl.bound))
        return None

    def try_native(self, inp, what, variants=('O0', 'O2', 'ubsan')):
        for var in variants:
            kind, O = native_case(self.case, var, inp)
            d = self.violated(inp, kind, O)
            if d and var == 'ubsan' and kind == 'trap' and 'trap' not in self.case.kinds:
                d = 'undefined behaviour (UBSan trap)'
            if d:
                self.res['viol'] = dict(inputs=jsonable(inp), outputs=jsonable(O), kind=kind, variant=var, what=d, solver=what)
                return True
        return False

    def try_uninit(self, inp, what):
        k1, o1 = native_case(self.case, 'pattern', inp)
        k2, o2 = native_case(self.case, 'zero', inp)
        if repr((k1, o1)) != repr((k2, o2)):
            self.res['viol'] = dict(inputs=jsonable(inp), outputs=jsonable(o1), kind=k1, variant='pattern', what='result depends on uninitialised memory: ' + what, solver=what)
            return True
        return False

    # ---- main
    def run(self):
        t0 = time.time()
        try:
            self._run()
        except Unsupported as e:
            self.res['inconclusive'].append('unsupported: %s' % e)
        except BuildError as e:
            self.res['inconclusive'].append('build: %s' % e)
        except Exception:
            self.res['inconclusive'].append('error: ' + traceback.format_exc()[-1500:])
        if self.res['inconclusive'] and not self.res['viol']:
            # an undecided case: concrete inputs may still expose a genuine violation
            try:
                n = 0
                t1 = time.time()
                while n < 60 and not self.res['viol'] and time.time() - t1 < 25 and run_left() > -60:
                    n += 1
                    inp = self.sample(corner=0.4)
                    if inp is None:
                        break
                    if self.try_native(inp, 'undecided case, concrete search', variants=('O0',)):
                        break
                t1 = time.time()
                n = 0
                while n < 150 and not self.res['viol'] and time.time() - t1 < 12 and run_left() > -60:
                    n += 1
                    inp = self.sample(corner=0.4)
                    inp = self.extreme(inp) if inp is not None else None
                    if inp is not None:
                        self.try_native(inp, 'undecided case, concrete search', variants=('O0',))
                t1 = time.time()
                for inp, what in self.candidates[:20]:
                    if self.res['viol'] or time.time() - t1 > 40:
                        break
                    self.try_native(inp, what)
            except Exception:
                pass
        self.res['wall'] = round(time.time() - t0, 3)
        return self.res

    def _run(self):
        c = self.case
        if run_left() < 0:
            raise Unsupported('time budget of the check used up')
        ex = Executor(c.unit.mod, max_paths=c.max_paths)
        ex.deadline = time.time() + min(CASE_SECONDS[self.tier], run_left())
        if c.max_events:
            ex.max_events = c.max_events
        self.ex = ex
        if c.fn not in c.unit.mod.funcs:
            raise Unsupported('harness function %s missing in IR' % c.fn)
        rty = c.ret
        first = [True]
        state = {}

        def setup(ex):
            argv, ns, outs = sym_inputs(ex, c)
            state['I'], state['outs'] = ns, outs
            if c.rel:
                argvB, _, state['outsB'] = sym_inputs(ex, c)
            ex.reals.assume = []
            if c.pre:
                for q in c.pre(ns):
                    if isinstance(q, z3.ExprRef):
                        ex.path.add_int(q)
                    elif isinstance(q, EV):
                        ex.reals.assume.append(q.p)
                    elif isinstance(q, (bool,)):
                        if not q:
                            raise Infeasible()
                    elif q < 0:
                        raise Infeasible()
            if c.rel:
                return Calls([(c.unit.mod, argv), (c.rel.mod, argvB)])
            return argv

        def collect(ex, path, kind, info, ret):
            if self.res['viol']:
                return
            self.on_path(ex, path, kind, info, ret, state, rty)

        ex.explore(setup, c.fn, collect, c.max_paths)
        self.res['paths'] = ex.stats.paths
        st = ex.stats
        self.res['stats'] = dict(queries=st.q, solver_s=round(st.time, 4), steps=st.steps, forks=st.forks, functions=sorted(st.funcs))
        if self.res['viol']:
            return
        if not self.res['paths']:
            raise Unsupported('vacuous: no feasible path')
        # reachability witness + translator validation on concrete runs
        self.validate(rty)

    def on_path(self, ex, path, kind, info, ret, state, rty):
        c = self.case
        self.res['kinds'][kind] = self.res['kinds'].get(kind, 0) + 1
        I_ = state['I']
        if kind not in c.kinds:
            inp = self.model_input(ex, path, [], I_)
            if inp is None:
                self.undecided(ex, path, 'path with outcome %s (%s) not excluded' % (kind, info), None)
                return
            if kind == 'uninit':
                ok = self.try_uninit(inp, info) or self.try_native(inp, info)
            else:
                ok = self.try_native(inp, '%s: %s' % (kind, info))
            if not ok and kind == 'stuck':
                raise Unsupported('%s; returns natively on %s' % (info, short(inp)))
            if not ok:
                self.candidates.append((inp, info))
                self.res['inconclusive'].append('outcome %s (%s) at %s did not reproduce natively' % (kind, info, short(inp)))
            return
        def outs_of(kind, info, ret, events, outs):
            O = read_outs(ex, outs, ret, rty, path, events) if kind == 'ret' else read_outs(ex, [], None, None, path, events)
            O['kind'] = kind
            O['info'] = info
            return O
        O = outs_of(*path.rel[0], state['outs'])
        if c.rel:
            O['B'] = outs_of(*path.rel[1], state['outsB'])
        if kind == 'ret' and has_undef(O):
            inp = self.model_input(ex, path, [], I_)
            if inp is not None and (self.try_uninit(inp, 'uninitialised output') or self.try_native(inp, 'uninitialised output')):
                return
            self.res['inconclusive'].append('output may be uninitialised; not reproduced')
            return
        try:
            claims = c.post(I_, O)
        except (TypeError, ValueError, OverflowError) as e:
            if any(bad_float(x) for x in flat(O)):
                inp = self.model_input(ex, path, [], I_)
                if inp is not None and self.try_native(inp, 'non-finite output'):
                    return
                self.res['inconclusive'].append('non-finite output not reproduced')
                return
            raise
        self.res['claims'] += len(claims)
        bools, reals, slackfail = [], [], []
        for cl in claims:
            if isinstance(cl, B):
                bools.append(cl)
                continue
            if isinstance(cl, Close):
                if bad_float(cl.value):
                    reals.append((cl, [Poly.const(1)]))
                    continue
                r = EV.lift(cl.value) - EV.lift(cl.target)
                sl = cl.tol - Fraction(r.e)
                if cl.tol:
                    self.res['maxslack'] = max(self.res['maxslack'], float(Fraction(r.e) / cl.tol))
                if sl < 0 and r.e > 0:
                    slackfail.append(cl)
                    continue
                if r.e == 0 and not r.p.t:
                    self.res['proved'] += 1        # identical expressions
                    continue
                reals.append((cl, [(r.p, sl), (-r.p, sl)]))
            else:
                if bad_float(cl.value):
                    reals.append((cl, [Poly.const(1)]))
                    continue
                r = EV.lift(cl.value) - EV.lift(cl.bound)
                # violation: p - e < 0   <=>  -p > -e
                reals.append((cl, [(-r.p, -Fraction(r.e))]))
        # booleans: one query
        conc_false = [b for b in bools if not is_sym(b.cond) and not b.cond]
        symb = [b for b in bools if is_sym(b.cond)]
        if conc_false:
            inp = self.model_input(ex, path, [], I_)
            if inp is None:
                self.undecided(ex, path, 'claim %s false on an undecided path' % conc_false[0].label, None)
                return
            if self.try_native(inp, conc_false[0].label):
                return
            self.res['inconclusive'].append('claim %s false on %s; not reproduced' % (conc_false[0].label, short(inp)))
            return
        nconst = len(bools) - len(symb)
        if nconst:
            # ground claims: the solver discharges that the path is not needed; count the feasibility query
            self.res['proved'] += nconst
        if symb:
            neg = z3.Or([z3.Not(b.cond) for b in symb])
            if path.int_sat(neg):
                m = path.solver.model()
                inp = self.int_model(m, I_)
                inp = self.fill_reals(ex, path, inp, I_)
                bad = [b.label for b in symb if z3.is_false(m.eval(b.cond, model_completion=True))]
                if inp is not None and self.try_native(inp, ', '.join(bad)):
                    return
                self.res['inconclusive'].append('integer counterexample %s for %s did not reproduce' % (short(inp), bad))
                return
            self.res['proved'] += len(symb)
        if reals:
            self.decide_reals(ex, path, reals, I_)
            if self.res['viol']:
                return
        for cl in slackfail:
            inp = self.hunt(ex, path, None, I_)
            if self.res['viol']:
                return
            self.res['inconclusive'].append('%s: rounding bound exceeds tolerance' % cl.label)

    def clear(self, ex, p, sl):
        """violation p > sl with reciprocals -> polynomial Q > 0 without them"""
        q = p - Poly.const(sl)
        extra = []
        for key, (v, den) in ex.reals.recips.items():
            k = q.degree_in(v)
            if not k:
                continue
            _, lo, hi, _ = ex.reals.vars[v]
            d = den if lo > 0 else -den
            dmin = 1 / max(abs(lo), abs(hi))
            r = Poly()
            pw = [Poly.const(1)]
            for _ in range(k):
                pw.append(pw[-1] * d)
            groups = {}
            for m, c in q.t.items():
                n = m.count(v)
                if n and lo <= 0:
                    c = c * (-1) ** n
                groups.setdefault(n, {})[tuple(x for x in m if x != v)] = c
            for n, t in groups.items():
                r = r + Poly(t) * pw[k - n]
            q = r
            for j in range(1, k + 1):
                extra.append(pw[j] - Poly.const(dmin ** j))
        return q, extra

    def decide_reals(self, ex, path, reals, I_):
        # one linear query per group of claims over the same reciprocals
        groups = {}
        for cl, gs in reals:
            vs = set()
            for g in gs:
                vs |= (g if isinstance(g, Poly) else g[0]).vars()
            groups.setdefault(frozenset(v for v in vs if ex.reals.vars[v][3] == 'recip'), []).append((cl, gs))
        for part in groups.values():
            self.decide_group(ex, path, part, I_)
            if self.res['viol'] or len(self.res['inconclusive']) > 5:
                return

    def decide_group(self, ex, path, reals, I_):
        extra, seen = list(path.reals), set()
        todo = []
        for cl, gs in reals:
            goals = []
            for g in gs:
                if isinstance(g, Poly):
                    goals.append(g)
                else:
                    q, e = self.clear(ex, *g)
                    goals.append(q)
                    for p in e:
                        k = frozenset(p.t.items())
                        if k not in seen:
                            seen.add(k)
                            extra.append(p)
            todo.append((cl, goals))
        # everything at once in linear real arithmetic over the monomials, halved while that is not decided
        # constants that are certainly not violated still go through the solver
        bad, parts = [], [todo]
        while parts:
            part = parts.pop()
            if ex.reals.sat_relaxed([g for cl, gs in part for g in gs], extra) == z3.unsat:
                self.res['proved'] += len(part)
            elif len(part) == 1:
                bad += part
            elif len(part) <= 4 or len(part) == len(todo) <= 16:
                parts += [[x] for x in reversed(part)]
            else:
                n = len(part) // 2
                parts += [part[n:], part[:n]]
        for cl, gs in bad:
            ok = self.nlsat(ex, path, gs, extra, I_, cl.label)
            if self.res['viol']:
                return
            if ok:
                self.res['proved'] += 1
                continue
            self.hunt(ex, path, gs, I_, cl.label)
            if self.res['viol']:
                return
            self.res['inconclusive'].append('%s: not proved and no counterexample reproduced' % cl.label)
            if len(self.res['inconclusive']) > 5:
                return

    # ---- counterexample search
    def zvars(self, ex):
        return [z3.Real('x%d' % i) for i in range(len(ex.reals.vars))]

    def zpoly(self, p, xs):
        ts = []
        for m, c in p.t.items():
            t = z3.Q(c.numerator, c.denominator)
            for v in m:
                t = t * xs[v]
            ts.append(t)
        return z3.Sum(ts) if ts else z3.RealVal(0)

    def real_constraints(self, ex, path, s, xs, env=None):
        env = env or {}
        for i, (n, lo, hi, k) in enumerate(ex.reals.vars):
            if i in env:
                continue
            s.add(xs[i] >= z3.Q(lo.numerator, lo.denominator), xs[i] <= z3.Q(hi.numerator, hi.denominator))
        for p in ex.reals.assume + path.reals:
            s.add(self.zpoly(p.subs(env) if env else p, xs) >= 0)
        for key, (v, den) in ex.reals.recips.items():
            q = den * Poly.var(v)
            s.add(self.zpoly(q.subs(env) if env else q, xs) == 1)

    def nlsat(self, ex, path, gs, extra, I_, label):
        """exact nonlinear query on small problems.  True: proved.  Reproduced violation -> self.res['viol']"""
        nv = set()
        for g in gs:
            nv |= g.vars()
        size = sum(len(g.t) for g in gs)
        if size > 400 or len(nv) > 12 or run_left() < 0:
            return False
        xs = self.zvars(ex)
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', 8000)
        self.real_constraints(ex, path, s, xs)
        s.add(z3.Or([self.zpoly(g, xs) > 0 for g in gs]))
        t = time.time()
        r = s.check()
        ex.stats.query('nra', r, time.time() - t)
        if r == z3.unsat:
            return True
        if r == z3.sat:
            m = s.model()
            env = {i: zfrac(m.eval(x, model_completion=True)) for i, x in enumerate(xs)}
            inp = self.env_input(ex, path, env, I_)
            if inp is not None and self.try_native(inp, label):
                return False
        return False

    def env_input(self, ex, path, env, I_):
        """real assignment -> rounded native inputs (ints from the path's model)"""
        if not path.int_sat():
            return None
        inp = self.int_model(path.solver.model(), I_)
        byname = {}
        for i, (n, lo, hi, k) in enumerate(ex.reals.vars):
            if k != 'recip' and i in env:
                byname[n] = nearest(env[i], k, lo, hi)
        for a in self.case.args:
            if isinstance(a, F):
                inp[a.name] = byname.get(a.name, float(a.lo))
            elif isinstance(a, FA):
                inp[a.name] = [byname.get('%s[%d]' % (a.name, i), float(a.box[i][0])) for i in range(a.n)]
            elif isinstance(a, OF) and a.prior is not None:
                inp[a.name] = [byname.get('%s[%d]' % (a.name, i), float(a.prior[i][0])) for i in range(a.n)]
        return inp

    def int_model(self, m, I_):
        inp = NS()

        def val(name, a):
            if a.lo == a.hi:
                return a.lo
            v = m.eval(z3.BitVec(name, a.w), model_completion=True).as_long()
            v = to_signed(v, a.w) if a.signed else v
            if v < a.lo or v > a.hi:
                v = a.lo
            return v
        for a in self.case.args:
            if isinstance(a, I):
                inp[a.name] = val(a.name, a)
            elif isinstance(a, IA):
                inp[a.name] = [val('%s[%d]' % (a.name, i), a) for i in range(a.n)]
            elif isinstance(a, OI) and a.prior is not None:
                b = I('', a.prior[0], a.prior[1], a.w, a.signed)
                inp[a.name] = [val('%s[%d]' % (a.name, i), b) for i in range(a.n)]
        return inp

    def fill_reals(self, ex, path, inp, I_):
        x = self.model_input(ex, path, [], I_)
        if x is None:
            return None
        for k, v in inp.items():
            x[k] = v
        return x

    def model_input(self, ex, path, goals, I_):
        """some concrete input following this path"""
        try:
            if not path.int_sat():
                return None
        except Unsupported:
            return None
        if not path.reals and not ex.reals.assume:
            env = {}
            for i, (n, lo, hi, k) in enumerate(ex.reals.vars):
                env[i] = lo + (hi - lo) * Fraction(self.rng.randrange(1, 64), 64)
            return self.env_input(ex, path, env, I_)
        xs = self.zvars(ex)
        for attempt in range(12):
            env = {}
            free = [i for i, v in enumerate(ex.reals.vars) if v[3] != 'recip']
            if attempt:
                rel = set()
                for p in path.reals:
                    rel |= p.vars()
                keep = self.rng.sample(sorted(rel), min(len(rel), 1 + attempt % 3)) if rel else []
                for i in free:
                    if i not in keep:
                        n, lo, hi, k = ex.reals.vars[i]
                        env[i] = Fraction(nearest(lo + (hi - lo) * Fraction(self.rng.randrange(0, 65), 64), k, lo, hi))
            s = z3.Solver()
            s.set('timeout', 3000)
            try:
                self.real_constraints(ex, path, s, xs, env)
            except Exception:
                return None
            t = time.time()
            r = s.check()
            ex.stats.query('nra-model', r, time.time() - t)
            if r == z3.sat:
                m = s.model()
                for i in free:
                    if i not in env:
                        env[i] = zfrac(m.eval(xs[i], model_completion=True))
                return self.env_input(ex, path, env, I_)
        return None

    def hunt(self, ex, path, gs, I_, label='rounding'):
        """look for a real counterexample: fix all but one or two inputs, ask the solver for the rest, replay."""
        R = ex.reals
        free = [i for i, v in enumerate(R.vars) if v[3] != 'recip']
        xs = self.zvars(ex)
        t0 = time.time()
        if run_left() < 0:
            return
        budget = 20 if self.tier == 'quick' else 60
        tries = 0
        while time.time() - t0 < budget and tries < 200:
            tries += 1
            if gs is None:
                inp = self.sample(0.5)
                if inp is None:
                    return
                if self.try_native(inp, label, variants=('O0',)):
                    return
                if tries > 40:
                    return
                continue
            gv = set().union(*[g.vars() for g in gs]) if gs else set()
            gv = [v for v in gv if R.vars[v][3] != 'recip']
            keep = self.rng.sample(gv, min(len(gv), 1 + tries % 2)) if gv else []
            env = {}
            for i in free:
                if i in keep:
                    continue
                n, lo, hi, k = R.vars[i]
                r = self.rng.random()
                if r < 0.4:
                    v = self.rng.choice([lo, hi])
                elif r < 0.6 and lo <= 0 <= hi:
                    v = Fraction(0)
                else:
                    v = lo + (hi - lo) * Fraction(self.rng.randrange(0, 257), 256)
                env[i] = Fraction(nearest(v, k, lo, hi))
            s = z3.Solver()
            s.set('timeout', 2000)
            self.real_constraints(ex, path, s, xs, env)
            s.add(z3.Or([self.zpoly(g.subs(env), xs) > 0 for g in gs]))
            t = time.time()
            r = s.check()
            ex.stats.query('nra-hunt', r, time.time() - t)
            if r == z3.sat:
                m = s.model()
                for i in keep:
                    env[i] = zfrac(m.eval(xs[i], model_completion=True))
                inp = self.env_input(ex, path, env, I_)
                if inp is not None and self.pre_ok(inp) and self.try_native(inp, label):
                    return

    # ---- validation
    def validate(self, rty):
        c = self.case
        n = c.samples
        for k in range(n):
            inp = self.sample(corner=0.2 if k else 0.0)
            if inp is None:
                if k == 0:
                    self.res['inconclusive'].append('vacuous: no concrete input satisfies the precondition')
                return
            kind, O = native_case(c, 'O0', inp)
            d = self.violated(inp, kind, O)
            if d:
                self.res['viol'] = dict(inputs=jsonable(inp), outputs=jsonable(O), kind=kind, variant='O0', what=d, solver='validation run')
                return
            got = []

            def setup(ex):
                argv, ns, outs = sym_inputs(ex, c, inp)
                ex._outs = outs
                return argv

            def collect(ex, path, kd, info, ret):
                got.append((kd, read_outs(ex, ex._outs, ret, rty, path) if kd == 'ret' else None, info))

            ex = Executor(c.unit.mod)
            ex.deadline = time.time() + min(CASE_SECONDS[self.tier], run_left())
            ex.explore(setup, c.fn, collect, 4)  # the first module only
            if len(got) != 1:
                raise Unsupported('concrete run split into %d paths' % len(got))
            kd, OO, info = got[0]
            if kd != kind and not (kd == 'abort' and kind == 'abort'):
                self.res['inconclusive'].append('validation: executor outcome %s (%s), native %s on %s' % (kd, info, kind, short(inp)))
                return
            exact = True
            if kd == 'ret':
                for a in c.args:
                    if isinstance(a, (OF, OI)):
                        exact = self.same(OO[a.name], O[a.name], a) and exact
                if rty:
                    exact = self.same([OO['ret']], [O['ret']], None) and exact
                if len(OO['events']) != len(O['events']) or any(tuple(map(int, x[1])) != tuple(y[1]) for x, y in zip(OO['events'], O['events'])):
                    self.res['inconclusive'].append('validation: event traces differ on %s' % short(inp))
                    return
            self.res['validated'] += 1
            self.res['bitexact'] += bool(exact)
            if k == 0:
                self.res['witness'] = jsonable(inp)
            if self.res['inconclusive']:
                return

    def same(self, xs, ys, a):
        ok = True
        for x, y in zip(xs, ys):
            if isinstance(y, float):
                if x is UNDEF:
                    continue
                xf = float(x)
                if xf == y or (xf != xf and y != y):
                    continue
                ok = False
                if not (abs(xf - y) <= 1e-9 * max(1.0, abs(y)) if (a is None or a.ty == 'double') else abs(xf - y) <= 1e-3 * max(1.0, abs(y))):
                    self.res['inconclusive'].append('validation: executor %r native %r' % (xf, y))
            else:
                if x is UNDEF:
                    continue
                if int(x) != int(y):
                    ok = False
                    self.res['inconclusive'].append('validation: executor %r native %r' % (x, y))
        return ok


def bad_float(x):
    return isinstance(x, float) and not math.isfinite(x)


def flat(O):
    for k, v in O.items():
        if k in ('err', 'said', 'io', 'events'):
            continue
        if isinstance(v, list):
            for x in v:
                yield x
        else:
            yield v


def zfrac(v):
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    return Fraction(v.numerator_as_long(), v.denominator_as_long())


def jsonable(x):
    if isinstance(x, dict):
        return {k: jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, float):
        return {'f': x.hex(), 'v': repr(x)} if math.isfinite(x) else {'v': repr(x)}
    if isinstance(x, Fraction):
        return str(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    if isinstance(x, bytes):
        return x.decode('latin1')[:500]
    return repr(x)


def unjson(x):
    if isinstance(x, dict):
        if 'f' in x:
            return float.fromhex(x['f'])
        if set(x) == {'v'}:
            return float(x['v'])
        return NS({k: unjson(v) for k, v in x.items()})
    if isinstance(x, list):
        return [unjson(v) for v in x]
    return x


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + '...'


# ------------------------------------------------------------------------------------------------ running a check
_CASES = None
_TIER = 'quick'


def _work(i):
    return i, CaseRunner(_CASES[i], _TIER, SEED).run()


class Check:
    """subclass: pid, level, bounds, assumptions, cases(work, tier) -> (units, cases); optional extra(res) checks."""

    def __init__(self, pid, cases, bounds, assumptions, extra=None):
        self.pid, self.cases, self.bounds, self.assumptions, self.extra = pid, cases, bounds, assumptions, extra


def run_check(chk, tier):
    global _CASES, _TIER
    t0 = time.time()
    _END[0] = t0 + RUN_SECONDS[tier]
    work = os.path.join(VERIF, '.work', '%s_%d' % (chk.pid, os.getpid()))
    for old in glob.glob(os.path.join(VERIF, '.work', '*_*')):
        # left over from a run that was killed
        n = old.rsplit('_', 1)[1]
        if n.isdigit() and not os.path.exists('/proc/' + n):
            shutil.rmtree(old, ignore_errors=True)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rep = os.path.join(VERIF, 'replay')
    os.makedirs(rep, exist_ok=True)
    _TIER = tier
    viols, incon, results = [], [], []
    t_build = 0.0
    try:
        custom = getattr(chk, 'run', None)
        if custom:
            results = custom(tier)
            viols = [r for r in results if r['viol']]
            incon = ['%s: %s' % (r['name'], m) for r in results if not r['viol'] for m in r['inconclusive']]
        units, cases = chk.cases(work, tier) if not custom else ([], [])
        build_units(units)
        for u in [u for u in units if u.failed]:
            print('left out: %s does not compile (a use beyond what the documentation promises)' % u.name)
        cases = [c for c in cases if not any(u.failed for u in c.all_units())]
        units = [u for u in units if not u.failed]
        for u in units:
            try:
                u.mod
            except ir.IRError as e:
                incon.append('IR parser: %s in %s' % (e, u.name))
        t_build = time.time() - t0
        if not incon and not custom:
            _CASES = cases
            order = sorted(range(len(cases)), key=lambda i: -cases[i].heavy)
            results = [None] * len(cases)
            with mp.get_context('fork').Pool(JOBS) as pool:
                for i, r in pool.imap_unordered(_work, order, chunksize=1):
                    results[i] = r
                    if r['viol']:
                        viols.append(r)
                    for m in r['inconclusive']:
                        if not r['viol']:
                            incon.append('%s: %s' % (r['name'], m))
                    if viols and tier == 'quick' and (len(viols) >= 3 or time.time() - t0 > 60):
                        pool.terminate()
                        break
    except BuildError as e:
        t_build = time.time() - t0
        if e.both:
            # neither compiler accepts a documented use of the public interface any more
            viols.append(dict(name='compile', viol=dict(what='documented use of the interface no longer compiles', log=str(e)[:4000])))
        else:
            incon.append('build failed: ' + str(e)[:4000])
    results = [r for r in results if r]
    if os.environ.get('VERIF_KEEP') != '1':
        pass
    ev = evidence(chk, tier, results, viols, incon, time.time() - t0, t_build)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', chk.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if os.environ.get('VERIF_KEEP') != '1':
        shutil.rmtree(work, ignore_errors=True)
    print('%s %s: %d cases, %d paths, %d claims (%d proved), %s, solver %.2fs, %d concrete runs validated (%d bit-exact), wall %.1fs (build %.1fs)' % (
        chk.pid, tier, len(results), ev['coverage']['states'], ev['coverage']['claims'], ev['coverage']['claims_proved'],
        ev['coverage']['queries'], ev['coverage']['solver_s'], ev['coverage']['traces_validated_against_impl'], ev['coverage']['bit_exact'], ev['wall_s'], t_build))
    known = known_findings(chk.pid)
    real = []
    for r in viols:
        k = [x for x in known if x.get('case') == r['name']]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (chk.pid, k[0]['what']))
        else:
            real.append(r)
    if real:
        for r in real[:5]:
            path = os.path.join(rep, '%s_%s.json' % (chk.pid, re.sub(r'\W', '_', r['name'])))
            with open(path, 'w') as f:
                json.dump(dict(property=chk.pid, case=r['name'], violation=r['viol'], repo=REPO), f, indent=1)
            print('  %s: %s  inputs=%s' % (r['name'], r['viol']['what'], short(r['viol'].get('inputs'))))
            print('VIOLATION property=%s replay=%s' % (chk.pid, path))
        return 1
    if incon:
        for m in incon[:6]:
            print('INCONCLUSIVE property=%s %s' % (chk.pid, m if len(m) < 900 else m[:200] + ' ... ' + m[-500:]))
        und = len([r for r in results if r['inconclusive']])
        total = len(cases) or len(results)
        print('  %d of %d cases undecided' % (und if und else total, total))
        # a minority of undecided cases is reported (here and in the evidence) and nothing is claimed for them
        return 0 if und and len(results) == total and 4 * und <= total else 2
    return 0


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('{'):
                d = json.loads(ln)
                if d.get('property') == pid and d.get('status') == 'known':
                    out.append(d)
    return out


def evidence(chk, tier, results, viols, incon, wall, t_build):
    q, solver, steps, forks, paths, funcs = {}, 0.0, 0, 0, 0, set()
    claims = proved = val = bit = 0
    for r in results:
        st = r.get('stats') or {}
        for k, v in st.get('queries', {}).items():
            q[k] = q.get(k, 0) + v
        solver += st.get('solver_s', 0)
        steps += st.get('steps', 0)
        forks += st.get('forks', 0)
        paths += r['paths']
        funcs.update(st.get('functions', ()))
        claims += r['claims']
        proved += r['proved']
        val += r['validated']
        bit += r['bitexact']
    samples = [dict(case=r['name'], function=r['fn'], paths=r['paths'], claims=r['claims'], box=r['box'], rounding_over_tolerance=r['maxslack'], witness=r['witness']) for r in results[:4]]
    return dict(property=chk.pid, tier=tier, seed=SEED, level='model_checking',
                coverage=dict(states=paths, transitions=steps, traces_validated_against_impl=val, samples=samples, bit_exact=bit,
                              states_meaning='feasible symbolic paths explored', transitions_meaning='LLVM-IR instructions executed symbolically',
                              cases=len(results), forks=forks, claims=claims, claims_proved=proved, queries=q, solver_s=round(solver, 3), build_s=round(t_build, 2),
                              functions_encoded=sorted(funcs)[:400], harness_functions=sorted(set(r['fn'] for r in results))[:400],
                              bounds=chk.bounds, max_rounding_over_tolerance=max([r['maxslack'] for r in results], default=0.0),
                              inconclusive=incon[:20], undecided_cases=[r['name'] for r in results if r['inconclusive']][:200]),
                assumptions=chk.assumptions, wall_s=round(wall, 2), violations=len(viols))
