"""Parser for the textual LLVM IR that clang 18 emits (opaque pointers).

Only the syntax is handled here; the meaning of every instruction lives in symex.py.  Anything
this parser does not know raises IRError, which makes the calling check inconclusive (never "held").
"""
import re
import struct


class IRError(Exception):
    pass


TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cstr>c"[^"]*")
 | (?P<str>"[^"]*")
 | (?P<loc>%(?:[-a-zA-Z$._0-9]+|"[^"]*"))
 | (?P<glob>@(?:[-a-zA-Z$._0-9]+|"[^"]*"))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<hex>0x[HKLMR]?[0-9A-Fa-f]+)
 | (?P<num>[-+]?\d+(?:\.\d*(?:[eE][-+]?\d+)?)?)
 | (?P<attr>\#\d+)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_$][\w.$]*)
 | (?P<comdat>\$(?:[-a-zA-Z$._0-9]+|"[^"]*"))
 | (?P<p>[()\[\]{}<>,=*|:])
''', re.X)


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError('cannot tokenize: %r' % s[i:i + 60])
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
        i = m.end()
    return out


def unq(name):
    name = name[1:]
    if name.startswith('"'):
        name = name[1:-1]
    return name


I1, I8, I16, I32, I64 = (('int', w) for w in (1, 8, 16, 32, 64))
PTR = ('ptr',)
VOID = ('void',)
FLOAT = ('float',)
DOUBLE = ('double',)

PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'signext',
               'zeroext', 'inreg', 'returned', 'nofree', 'immarg', 'noreturn', 'nest', 'swiftself', 'dead_on_unwind',
               'writable', 'allocptr', 'allocalign', 'inrange'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype',
                   'captures', 'range', 'nofpclass', 'initializes', 'memory', 'preallocated', 'inalloca'}
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'reassoc', 'afn',
         'nneg', 'disjoint', 'volatile', 'tail', 'musttail', 'notail', 'nusw', 'samesign'}
CCONV = {'fastcc', 'ccc', 'coldcc', 'tailcc', 'x86_64_sysvcc', 'ptx_kernel', 'ptx_device', 'amdgpu_kernel', 'spir_func', 'spir_kernel'}


class P:
    """Token stream."""

    def __init__(self, toks, mod, line=''):
        self.t = toks
        self.i = 0
        self.mod = mod
        self.line = line

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise IRError('unexpected end: ' + self.line)
        v = self.t[self.i]
        self.i += 1
        return v[1]

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        v = self.next()
        if v != s:
            raise IRError('expected %r got %r in %s' % (s, v, self.line))

    def more(self):
        return self.i < len(self.t)

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    # ---- types
    def type(self):
        t = self._type()
        while True:
            if self.peek() == '(':       # function type
                self.next()
                while not self.accept(')'):
                    if self.accept('...') or self.accept(','):
                        continue
                    self.type()
                    self.attrs()
                t = ('func', t)
            elif self.peek() == '*':
                self.next()
                t = PTR
            else:
                return t

    def _type(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit():
                return ('int', int(v[1:]))
            if v == 'ptr':
                if self.peek() == 'addrspace':
                    self.next()
                    self.skip_paren()
                return PTR
            if v in ('void', 'float', 'double', 'label', 'metadata', 'half', 'x86_fp80', 'fp128', 'token', 'bfloat', 'opaque'):
                return (v,)
        elif k == 'loc':
            return ('named', unq(v))
        elif v == '[':
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect(']')
            return ('array', n, t)
        elif v == '<':
            if self.peek() == '{':
                self.next()
                ts = self._tlist('}')
                self.expect('>')
                return ('struct', tuple(ts), True)
            if self.peek() == 'vscale':
                raise IRError('scalable vector')
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect('>')
            return ('vec', n, t)
        elif v == '{':
            return ('struct', tuple(self._tlist('}')), False)
        raise IRError('bad type %r in %s' % (v, self.line))

    def _tlist(self, end):
        ts = []
        while not self.accept(end):
            if self.accept(','):
                continue
            ts.append(self.type())
        return ts

    def is_type_start(self):
        k, v = self.kind(), self.peek()
        if k == 'word':
            return (v[0] == 'i' and v[1:].isdigit()) or v in ('ptr', 'void', 'float', 'double', 'half', 'x86_fp80', 'fp128', 'label', 'metadata')
        return k == 'loc' or v in ('[', '<', '{')

    def attrs(self):
        while self.more():
            k, v = self.kind(), self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                self.next()
            elif k == 'word' and v in PARAM_ATTRS_ARG:
                self.next()
                if self.peek() == '(':
                    self.skip_paren()
                elif self.kind() == 'num':
                    self.next()
            elif k == 'attr' or (k == 'str' and self.i > 0):
                self.next()
                if self.peek() == '=':
                    self.next()
                    self.next()
            else:
                return

    # ---- values: ('loc',name) | ('c', type, constant)
    def value(self, ty):
        k, v = self.t[self.i]
        if k == 'loc':
            self.i += 1
            return ('loc', unq(v))
        return ('c', ty, self.const(ty))

    def tvalue(self):
        ty = self.type()
        self.attrs()
        return ty, self.value(ty)

    def const(self, ty):
        """constants: ('int',n) ('fp',float) ('null',) ('undef',) ('zero',) ('agg',[(ty,const)]) ('glob',name)
        ('gep',srcty,(ty,c),[(ty,c)]) ('cast',op,(ty,c),ty) ('bin',op,a,b) ('bytes',b)"""
        k, v = self.t[self.i]
        self.i += 1
        if k == 'num':
            if ty[0] in ('float', 'double', 'half', 'x86_fp80'):
                return ('fp', float(v))
            return ('int', int(v))
        if k == 'hex':
            if v[2] in 'HKLMR':
                return ('fpx', v)
            return ('fp', struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0])
        if k == 'glob':
            return ('glob', unq(v))
        if k == 'cstr':
            return ('bytes', _cstr(v[2:-1]))
        if v == 'true':
            return ('int', 1)
        if v == 'false':
            return ('int', 0)
        if v == 'null' or v == 'none':
            return ('null',)
        if v in ('undef', 'poison'):
            return (v,)
        if v == 'zeroinitializer':
            return ('zero',)
        if v in ('[', '{'):
            end = ']' if v == '[' else '}'
            items = []
            while not self.accept(end):
                if self.accept(','):
                    continue
                t = self.type()
                items.append((t, self.const(t)))
            return ('agg', items)
        if v == '<':
            br = self.accept('{')
            items = []
            while self.peek() not in ('>', '}'):
                if self.accept(','):
                    continue
                t = self.type()
                items.append((t, self.const(t)))
            if br:
                self.expect('}')
            self.expect('>')
            return ('agg', items)
        if v == 'getelementptr':
            while self.peek() in FLAGS or self.peek() == 'inrange':
                self.next()
                if self.peek() == '(' and self.t[self.i - 1][1] == 'inrange':
                    self.skip_paren()
            self.expect('(')
            sty = self.type()
            ops = []
            while not self.accept(')'):
                if self.accept(','):
                    self.accept('inrange')
                    continue
                t = self.type()
                ops.append((t, self.const(t)))
            return ('gep', sty, ops[0], ops[1:])
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            t = self.type()
            c = self.const(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('cast', v, (t, c), t2)
        if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr'):
            while self.peek() in FLAGS:
                self.next()
            self.expect('(')
            t = self.type()
            a = self.const(t)
            self.expect(',')
            t = self.type()
            b = self.const(t)
            self.expect(')')
            return ('bin', v, (t, a), (t, b))
        if v == 'blockaddress' or v == 'dso_local_equivalent':
            raise IRError(v)
        raise IRError('bad const %r in %s' % (v, self.line))


def _cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Function:
    __slots__ = ('name', 'params', 'ret', 'blocks', 'entry', 'vararg', 'declared', 'nops', 'linkage')


BINOPS = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext',
         'fptrunc', 'addrspacecast'}


class Module:
    def __init__(self, text):
        self.device = re.search(r'^target triple = "(nvptx|amdgcn)', text[:4000], re.M) is not None
        self.types = {}
        self.globals = {}     # name -> (type, const or None, is_const)
        self.funcs = {}
        self.aliases = {}
        self._parse(text)
        self._lay = {}

    # ------------------------------------------------------------ layout (x86-64 and nvptx64 data layouts agree here)
    def resolve(self, ty):
        while ty[0] == 'named':
            if ty[1] not in self.types:
                raise IRError('opaque type ' + ty[1])
            ty = self.types[ty[1]]
        return ty

    def size_align(self, ty):
        r = self._lay.get(ty)
        if r is None:
            r = self._lay[ty] = self._size_align(ty)
        return r

    def _size_align(self, ty):
        ty = self.resolve(ty)
        k = ty[0]
        if k == 'int':
            b = (ty[1] + 7) // 8
            a = 1
            while a < b and a < 16:
                a *= 2
            return ((b + a - 1) // a * a, a)
        if k == 'float':
            return (4, 4)
        if k in ('double', 'ptr'):
            return (8, 8)
        if k in ('x86_fp80', 'fp128'):
            return (16, 16)
        if k == 'half':
            return (2, 2)
        if k == 'array':
            s, a = self.size_align(ty[2])
            return (s * ty[1], a)
        if k == 'vec':
            s, _ = self.size_align(ty[2])
            if ty[2] == I1:
                return ((ty[1] + 7) // 8, 1)
            s *= ty[1]
            p = 1
            while p < s:
                p *= 2
            return (p, p)
        if k == 'struct':
            offs, size, al = self.struct_layout(ty)
            return (size, al)
        if k == 'opaque':
            return (1, 1)
        raise IRError('size of %r' % (ty,))

    def struct_layout(self, ty):
        key = ('L', ty)
        r = self._lay.get(key)
        if r is None:
            off, al, offs = 0, 1, []
            for t in ty[1]:
                s, a = self.size_align(t)
                if ty[2]:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            r = self._lay[key] = (offs, (off + al - 1) // al * al, al)
        return r

    # ------------------------------------------------------------ parsing
    def _parse(self, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s[0] == ';' or s.startswith(('source_filename', 'target ', 'attributes ', '!', 'module asm', '$', '^')):
                continue
            if s.startswith('%'):
                p = P(tokenize(s), self, s)
                name = unq(p.next())
                p.expect('=')
                p.expect('type')
                self.types[name] = p.type()
            elif s.startswith('@'):
                self._global(s)
            elif s.startswith('declare'):
                self._header(s, True)
            elif s.startswith('define'):
                f = self._header(s, False)
                body = []
                while True:
                    ln = lines[i]
                    i += 1
                    st = ln.strip()
                    if st == '}':
                        break
                    if not st or st[0] == ';':
                        continue
                    if st.startswith('switch') and '[' in st and not st.rstrip().endswith(']') and ']' not in st:
                        while not lines[i].strip().startswith(']'):
                            st += ' ' + lines[i].strip()
                            i += 1
                        st += ' ]'
                        i += 1
                    if ' invoke ' in ' ' + st and 'unwind' not in st:
                        st += ' ' + lines[i].strip()
                        i += 1
                    if 'landingpad' in st:
                        while lines[i].strip().startswith(('catch', 'cleanup', 'filter')):
                            i += 1
                    body.append(st)
                self._body(f, body)
            else:
                raise IRError('top level: ' + s)

    def _global(self, s):
        p = P(tokenize(s), self, s)
        name = unq(p.next())
        p.expect('=')
        is_const = None
        ext = False
        while True:
            v = p.peek()
            if v in ('global', 'constant'):
                p.next()
                is_const = v == 'constant'
                break
            if v == 'alias':
                p.next()
                p.type()
                p.expect(',')
                p.type()
                self.aliases[name] = unq(p.next())
                return
            if v in ('external', 'extern_weak'):
                ext = True
            if v in ('thread_local', 'addrspace') and p.peek(1) == '(':
                p.next()
                p.skip_paren()
                continue
            p.next()
        ty = p.type()
        c = None if ext else p.const(ty)
        self.globals[name] = (ty, c, is_const)

    def _header(self, s, decl):
        p = P(tokenize(s.rstrip('{').rstrip()), self, s)
        p.next()
        f = Function()
        f.linkage = None
        while True:
            if p.peek() in ('internal', 'private', 'linkonce_odr', 'weak_odr', 'linkonce', 'weak', 'available_externally'):
                f.linkage = p.peek()
            if p.is_type_start():
                break
            v = p.next()
            if v in PARAM_ATTRS_ARG:
                if p.peek() == '(':
                    p.skip_paren()
                elif p.kind() == 'num':
                    p.next()
        f.ret = p.type_noparen() if hasattr(p, 'type_noparen') else p._type()
        while p.kind() != 'glob':
            p.next()
        f.name = unq(p.next())
        p.expect('(')
        f.params = []
        f.vararg = False
        cnt = 0
        while not p.accept(')'):
            if p.accept(','):
                continue
            if p.accept('...'):
                f.vararg = True
                continue
            t = p._type()
            while p.peek() == '*':
                p.next()
                t = PTR
            byval = None
            while p.more() and p.peek() not in (',', ')') and p.kind() != 'loc':
                if p.peek() == 'byval':
                    p.next()
                    p.expect('(')
                    byval = p.type()
                    p.expect(')')
                else:
                    a = p.i
                    p.attrs()
                    if p.i == a:
                        p.next()
            nm = None
            if p.kind() == 'loc':
                nm = unq(p.next())
            else:
                nm = str(cnt)
            if nm.isdigit():
                cnt += 1
            f.params.append((t, nm, byval))
        f.declared = decl
        f.blocks = {}
        f.entry = str(cnt)
        f.nops = 0
        if decl and f.name in self.funcs:
            return f
        self.funcs[f.name] = f
        return f

    def _body(self, f, body):
        cur = None
        first = True
        for st in body:
            m = re.match(r'^([-a-zA-Z$._0-9]+|"[^"]*"):', st)
            if m:
                lab = m.group(1)
                if lab.startswith('"'):
                    lab = lab[1:-1]
                cur = f.blocks[lab] = []
                if first:
                    f.entry = lab
                first = False
                continue
            if first:
                cur = f.blocks[f.entry] = []
                first = False
            ins = self._instr(st)
            if ins is not None:
                cur.append(ins)
                f.nops += 1

    def _instr(self, st):
        p = P(tokenize(st), self, st)
        dst = None
        if p.kind() == 'loc' and p.peek(1) == '=':
            dst = unq(p.next())
            p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op in BINOPS:
            flags = set()
            while p.peek() in FLAGS:
                flags.add(p.next())
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            b = p.value(ty)
            return ('bin', dst, op, ty, a, b, frozenset(flags))
        if op == 'fneg':
            while p.peek() in FLAGS:
                p.next()
            ty = p.type()
            return ('fneg', dst, ty, p.value(ty))
        if op in CASTS:
            while p.peek() in FLAGS:
                p.next()
            ty = p.type()
            v = p.value(ty)
            p.expect('to')
            return ('cast', dst, op, ty, v, p.type())
        if op in ('icmp', 'fcmp'):
            pred = p.next()
            while pred in FLAGS:
                pred = p.next()
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            b = p.value(ty)
            return (op, dst, pred, ty, a, b)
        if op == 'alloca':
            while p.peek() in ('inalloca', 'swifterror'):
                p.next()
            ty = p.type()
            cnt = ('c', I32, ('int', 1))
            cty = I32
            while p.accept(','):
                if p.peek() in ('align', 'addrspace'):
                    p.next()
                    if p.peek() == '(':
                        p.skip_paren()
                    else:
                        p.next()
                elif p.kind() == 'meta':
                    break
                else:
                    cty, cnt = p.tvalue()
            return ('alloca', dst, ty, cty, cnt)
        if op == 'load':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            ty = p.type()
            p.expect(',')
            _, a = p.tvalue()
            return ('load', dst, ty, a)
        if op == 'store':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            ty, v = p.tvalue()
            p.expect(',')
            _, a = p.tvalue()
            return ('store', None, ty, v, a)
        if op == 'getelementptr':
            flags = set()
            while p.peek() in FLAGS:
                flags.add(p.next())
            ty = p.type()
            p.expect(',')
            _, base = p.tvalue()
            idx = []
            while p.accept(','):
                if p.kind() == 'meta':
                    break
                idx.append(p.tvalue())
            return ('gep', dst, ty, base, idx, frozenset(flags))
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return ('jmp', None, unq(p.next()))
            ty, c = p.tvalue()
            p.expect(',')
            p.expect('label')
            a = unq(p.next())
            p.expect(',')
            p.expect('label')
            b = unq(p.next())
            return ('br', None, c, a, b)
        if op == 'switch':
            ty, v = p.tvalue()
            p.expect(',')
            p.expect('label')
            d = unq(p.next())
            p.expect('[')
            cases = []
            while not p.accept(']'):
                t = p.type()
                c = p.const(t)
                p.expect(',')
                p.expect('label')
                cases.append((c[1] % (1 << t[1]), unq(p.next())))
            return ('switch', None, ty, v, d, cases)
        if op == 'phi':
            while p.peek() in FLAGS:
                p.next()
            ty = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(ty)
                p.expect(',')
                lab = unq(p.next())
                p.expect(']')
                inc.append((v, lab))
                if not p.accept(','):
                    break
                if p.kind() == 'meta':
                    break
            return ('phi', dst, ty, dict((l, v) for v, l in inc))
        if op == 'select':
            while p.peek() in FLAGS:
                p.next()
            cty, c = p.tvalue()
            p.expect(',')
            ty, a = p.tvalue()
            p.expect(',')
            _, b = p.tvalue()
            return ('select', dst, ty, cty, c, a, b)
        if op == 'ret':
            if p.peek() == 'void':
                return ('ret', None, VOID, None)
            ty, v = p.tvalue()
            return ('ret', None, ty, v)
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'freeze':
            ty, v = p.tvalue()
            return ('freeze', dst, ty, v)
        if op in ('call', 'invoke'):
            while p.peek() in FLAGS or p.peek() in CCONV:
                p.next()
            p.attrs()
            rty = p._type()
            if p.peek() == '(':           # function type given explicitly (varargs)
                p.skip_paren()
            k = p.kind()
            if k not in ('glob', 'loc'):
                raise IRError('call target: ' + st)
            tgt = p.next()
            callee = ('glob', unq(tgt)) if k == 'glob' else ('loc', unq(tgt))
            p.expect('(')
            args = []
            while not p.accept(')'):
                if p.accept(','):
                    continue
                t = p.type()
                if t == ('metadata',):
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        v = p.next()
                        d += (v == '(') - (v == ')')
                    args.append((t, None, None))
                    continue
                byval = None
                if p.peek() == 'byval':
                    byval = True
                while True:
                    a = p.i
                    if p.peek() == 'byval':
                        byval = True
                    p.attrs()
                    if p.i == a:
                        break
                args.append((t, p.value(t), byval))
            normal = None
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.expect('to')
                p.expect('label')
                normal = unq(p.next())
            return ('call', dst, rty, callee, args, normal)
        if op in ('extractvalue', 'insertvalue'):
            ty, v = p.tvalue()
            ety, e = None, None
            if op == 'insertvalue':
                p.expect(',')
                ety, e = p.tvalue()
            idx = []
            while p.accept(','):
                if p.kind() == 'meta':
                    break
                idx.append(int(p.next()))
            return (op, dst, ty, v, ety, e, idx)
        if op == 'extractelement':
            ty, v = p.tvalue()
            p.expect(',')
            it, i = p.tvalue()
            return (op, dst, ty, v, it, i)
        if op == 'insertelement':
            ty, v = p.tvalue()
            p.expect(',')
            ety, e = p.tvalue()
            p.expect(',')
            it, i = p.tvalue()
            return (op, dst, ty, v, ety, e, it, i)
        if op == 'shufflevector':
            ty, a = p.tvalue()
            p.expect(',')
            _, b = p.tvalue()
            p.expect(',')
            mty, m = p.tvalue()
            return (op, dst, ty, a, b, mty, m)
        if op == 'fence':
            return None
        if op in ('landingpad', 'resume'):
            return ('unreachable', None)
        raise IRError('instruction: ' + st)
