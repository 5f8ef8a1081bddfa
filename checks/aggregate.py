"""C22: header aggregation and splitting (scripts/aggregateOrSplit.py).

The script's own source is executed; the header tree it reads is symbolic: include edges, line styles and roots are Z3
variables, decided only when the script reads the file that depends on them (every feasible alternative is explored),
and the claims on its result are discharged by Z3 over the variables still undecided.
"""
import contextlib
import io
import itertools
import json
import multiprocessing as mp
import os
import pwd
import shutil
import signal
import sys
import tempfile
import time
import traceback

import z3

import fw
from fw import Check

SCRIPT = os.path.join(fw.REPO, 'scripts', 'aggregateOrSplit.py')
FILES = ['inc/shiva/a.hpp', 'inc/shiva/sub/b.hpp', 'inc/shiva/sub/c.hpp', 'inc2/shiva/geo/d.hpp', 'inc/shiva/geo/deep/e.hpp']
DECOYS = ['inc2/shiva/sub/c.hpp', 'inc2/c.hpp', 'inc/shiva/geo/c.hpp', 'inc2/shiva/a.hpp']
SPELL = ['shiva/a.hpp', 'shiva/sub/b.hpp', 'shiva/sub/c.hpp', 'shiva/geo/d.hpp', 'shiva/geo/deep/e.hpp']
LAYOUTS = {'plain': (FILES, SPELL),
           # equal base names and equal last folders
           'names': (['inc/shiva/a/detail/impl.hpp', 'inc/shiva/b/detail/impl.hpp', 'inc2/detail/impl.hpp', 'inc/shiva/impl.hpp', 'inc2/shiva/c/detail/impl.hpp'],
                     ['shiva/a/detail/impl.hpp', 'shiva/b/detail/impl.hpp', 'detail/impl.hpp', 'shiva/impl.hpp', 'shiva/c/detail/impl.hpp']),
           # names that are prefixes of each other, other suffixes
           'prefix': (['inc/m.h', 'inc/m/m.hpp', 'inc/m/m.hpp.h', 'inc2/mm.hpp', 'inc2/x-1/m_2.inl'], ['m.h', 'm/m.hpp', 'm/m.hpp.h', 'mm.hpp', 'x-1/m_2.inl'])}


def set_layout(k):
    """files, spellings, and decoys: files of the same spelling in places that a compiler searches later"""
    global FILES, SPELL, DECOYS
    FILES, SPELL = LAYOUTS[k]
    used = set()
    for i, f in enumerate(FILES):
        here = os.path.dirname(f)
        for j, g in enumerate(FILES):
            if i != j:
                rel = os.path.relpath(g, here)
                used.add(g)
                assert os.path.normpath(os.path.join(here, SPELL[j])) not in set(FILES) - {g}
                # places searched before the wanted one must stay empty
                used.add(os.path.normpath(os.path.join(here, SPELL[j])))
                first = [p for p in ('inc', 'inc2') if os.path.join(p, SPELL[j]) == g]
                if first == ['inc2']:
                    used.add(os.path.join('inc', SPELL[j]))
    DECOYS = set(DECOYS0 if k == 'plain' else [])
    for i, f in enumerate(FILES):
        for j, g in enumerate(FILES):
            if i != j:
                rel = os.path.relpath(g, os.path.dirname(f))
                for p in ('inc', 'inc2'):
                    for q in (rel, SPELL[j], os.path.basename(g)):
                        c = os.path.normpath(os.path.join(p, q))
                        if c.startswith('inc') and c not in used and c not in FILES:
                            DECOYS.add(c)
    DECOYS = sorted(DECOYS)
    # a decoy must not be where a folder is, and the other way round
    dirs = {d for f in FILES + DECOYS for d in parents(f)}
    DECOYS = [d for d in DECOYS if d not in dirs and not any(x in FILES for x in parents(d))]


def parents(f):
    out = []
    while os.path.dirname(f):
        f = os.path.dirname(f)
        out.append(f)
    return out


DECOYS0 = DECOYS
ROOTS = [[0], [0, 1], [1, 0], [0, 0], [2, 0, 1]]


class Stop(BaseException):
    pass


class TooLong(BaseException):
    pass


class Tree:
    """symbolic header tree"""

    def __init__(self, layout, n, styles, roots, assume, prefix, stats):
        self.layout = layout
        self.n, self.styles, self.rootsel, self.prefix, self.stats = n, styles, roots, prefix, stats
        self.s = z3.Solver()
        self.s.set('timeout', 60000)
        self.e = {(i, j): z3.Bool('e_%d_%d' % (i, j)) for i in range(n) for j in range(n) if i != j}
        rank = [z3.Int('rank_%d' % i) for i in range(n)]
        for (i, j), v in self.e.items():
            self.s.add(z3.Implies(v, rank[i] > rank[j]))
        for r in rank:
            self.s.add(r >= 0, r < n)
        self.st = [z3.Int('style_%d' % i) for i in range(n)]
        self.fm = [z3.Int('form_%d' % i) for i in range(n)]
        self.rt = z3.Int('roots')
        for v, k in [(v, 4) for v in self.st] + [(v, 2) for v in self.fm] + [(self.rt, len(ROOTS))]:
            self.s.add(v >= 0, v < k)
        for i in range(n):
            if not styles:
                self.s.add(self.st[i] == i % 4, self.fm[i] == (i + 1) % 2)
            elif styles == 'forms':
                self.s.add(self.st[i] == (i + 1) % 4)
            elif i and styles == 'tied':
                self.s.add(self.fm[i] == (self.fm[0] + i) % 2)
        if not roots:
            self.s.add(self.rt == 0)
        for (i, j), val in assume.items():
            self.s.add(self.e[i, j] == val if j >= 0 else self.st[i] == val)
        self.dec, self.pending, self.text = [], [], {}

    def check(self, *c):
        t = time.time()
        r = self.s.check(*c)
        self.stats['solver_s'] += time.time() - t
        self.stats['queries']['lia:%s' % r] = self.stats['queries'].get('lia:%s' % r, 0) + 1
        if r == z3.unknown:
            raise Stop('solver gave no answer')
        return r == z3.sat

    def decide(self, var, vals):
        k = len(self.dec)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            ok = [x for x in vals if self.check(var == x)]
            v = ok[0]
            for x in ok[1:]:
                self.pending.append(self.dec + [x])
            if len(ok) > 1:
                self.stats['forks'] += 1
        self.dec.append(v)
        self.s.add(var == v)
        return v

    def roots(self):
        return [r for r in ROOTS[self.decide(self.rt, range(len(ROOTS)))] if r < self.n]

    def lines(self, i):
        if i not in self.text:
            st, fm = self.decide(self.st[i], range(4)), self.decide(self.fm[i], range(2))
            inc = [j for j in range(self.n) if j != i and self.decide(self.e[i, j], (False, True))]
            self.text[i] = file_text(i, st, fm, inc)
        return self.text[i]


def file_text(i, st, fm, inc):
    """content of header i"""
    here = os.path.dirname(FILES[i])
    ls = ['/* header %d */' % i]
    if st != 0:
        ls.append('#pragma once')
    if st == 1:
        ls += ['#include "shiva/ShivaConfig.hpp"', '']
    if st == 3:
        ls.append('#include "ShivaConfig.hpp"')
    for j in inc[::-1] if st == 2 else inc:
        name = os.path.relpath(FILES[j], here) if fm == 0 else SPELL[j]
        ls.append({0: '#include "%s"', 1: '#include   "%s"', 2: '#include "%s"  // needed', 3: '#include "%s"'}[st] % name)
        if st == 3:
            ls.append('#include "%s"' % name)
    ls += ['#include <vector>', 'int tok_%d_0;' % i, '// #include "missing_%d.hpp"' % i, '    int tok_%d_1; // "quoted"' % i, '', '#define LAST_%d 1' % i]
    return '\n'.join(ls) + ('' if st == 2 else '\n')


def active(text):
    """lines that mean something to a compiler, other than quoted includes and pragma once"""
    return [ln.rstrip() for ln in text.split('\n') if ln.strip() and not ln.startswith('//')]


def wanted(text):
    return [ln for ln in active(text) if not (ln.startswith('#include') and '"' in ln) and not ln.startswith('#pragma once')]


def comments(text, i):
    return text.count('// #include "missing_%d.hpp"\n' % i)


def load():
    src = open(SCRIPT).read()
    g = {'__name__': 'aggregateOrSplit', '__file__': SCRIPT}
    exec(compile(src, SCRIPT, 'exec'), g)
    return g


def snapshot(d, skip):
    out = {}
    for p, ds, fs in os.walk(d):
        if os.path.abspath(p).startswith(skip):
            ds[:] = []
            continue
        for f in fs:
            q = os.path.join(p, f)
            out[q] = open(q).read()
    return out


def run_script(g, root, roots, cli, limit=4):
    """aggregate and split inside the scratch directory; -> (aggregate text, {path: split text}, problem)"""
    def alarm(*a):
        raise TooLong()
    agg, sp = os.path.join(root, 'agg.hpp'), os.path.join(root, 'out')
    heads = [os.path.join(root, FILES[r]) if k % 2 == 0 else FILES[r] for k, r in enumerate(roots)]
    incs = [os.path.join(root, 'inc'), 'inc2']
    old = sys.argv
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            if cli:
                sys.argv = ['aggregateOrSplit.py', 'aggregate'] + heads + [agg, '--include-paths'] + incs
                g['main']()
            else:
                g['HeaderFileManager']().aggregate_headers(heads, agg, incs)
            text = open(agg).read()
            before = snapshot(root, sp)
            if cli:
                sys.argv = ['aggregateOrSplit.py', 'split', agg, sp]
                g['main']()
            else:
                g['HeaderFileManager']().split_aggregated_file(agg, sp)
        signal.alarm(0)
        if snapshot(root, sp) != before:
            return text, None, 'splitting changed files outside the output directory'
        files = {}
        for p, ds, fs in os.walk(sp):
            for f in fs:
                files[os.path.join(p, f)] = open(os.path.join(p, f)).read()
        return text, files, None
    except TooLong:
        return None, None, 'does not finish'
    except SystemExit as ex:
        return None, None, 'exits with %s' % ex.code
    except Exception as ex:
        return None, None, 'fails with %s: %s' % (type(ex).__name__, ex)
    finally:
        signal.alarm(0)
        sys.argv = old


def order_of(text, n):
    """headers in order of appearance, every occurrence"""
    pos = sorted((p, i) for i in range(n) for p in find_all(text, 'int tok_%d_0;' % i))
    return [i for _, i in pos]


def find_all(t, w):
    p = t.find(w)
    while p >= 0:
        yield p
        p = t.find(w, p + 1)


def text_problem(agg, files, seq, texts):
    """content claims, given the order of headers; texts: their original content"""
    if active(agg) != [ln for i in seq for ln in wanted(texts[i])]:
        return 'the aggregate does not hold exactly the headers\' own lines in order'
    for i in seq:
        if comments(agg, i) != 1:
            return 'a comment of header %d is lost or repeated' % i
    if len(files) != len(seq):
        return 'splitting creates %d files for %d headers' % (len(files), len(seq))
    for i in seq:
        own = [(f, t) for f, t in files.items() if 'int tok_%d_0;' % i in t]
        if len(own) != 1 or os.path.basename(own[0][0]) != os.path.basename(FILES[i]):
            return 'header %d is not split into one file of its name' % i
        if active(own[0][1]) != wanted(texts[i]) or comments(own[0][1], i) != 1:
            return 'split header %d does not hold its own lines' % i
    return None


def setup_tree(root):
    shutil.rmtree(root, ignore_errors=True)
    for f in FILES + DECOYS:
        os.makedirs(os.path.dirname(os.path.join(root, f)), exist_ok=True)
        with open(os.path.join(root, f), 'w') as h:
            if f in DECOYS:
                h.write('int decoy;\n')


def one_path(g, root, tree, cli, real_open):
    """-> problem text, or None; z3 decides the graph claims"""
    setup_tree(root)
    os.chdir(root)
    index = {os.path.join(root, f): i for i, f in enumerate(FILES[:tree.n])}

    def lazy_open(file, mode='r', *a, **k):
        if isinstance(file, (str, os.PathLike)) and 'w' not in mode:
            p = os.path.abspath(os.fspath(file))
            if p in index and index[p] not in tree.text:
                with real_open(p, 'w') as h:
                    h.write(tree.lines(index[p]))
        return real_open(file, mode, *a, **k)
    import builtins
    roots = tree.roots()
    builtins.open = io.open = lazy_open
    try:
        text, files, prob = run_script(g, root, roots, cli)
    finally:
        builtins.open = io.open = real_open
    if prob:
        return prob
    n = tree.n
    if 'decoy' in text:
        return 'an include is resolved to the wrong file'
    seq = order_of(text, n)
    # reachability from the roots over the (partly undecided) edges
    reach = [z3.BoolVal(i in roots) for i in range(n)]
    for _ in range(n - 1):
        reach = [z3.simplify(z3.Or(reach[j], *[z3.And(reach[i], tree.e[i, j]) for i in range(n) if i != j])) for j in range(n)]
    claims = []
    for j in range(n):
        claims.append((reach[j] == z3.BoolVal(seq.count(j) == 1), 'header %d listed %d times' % (j, seq.count(j))))
        claims.append((z3.BoolVal(seq.count(j) <= 1), 'header %d listed %d times' % (j, seq.count(j))))
    for i, j in tree.e:
        if i in seq and j in seq:
            claims.append((z3.Implies(tree.e[i, j], z3.BoolVal(seq.index(j) < seq.index(i))), 'header %d appears after a header that includes it' % j))
    tree.stats['claims'] += len(claims)
    if tree.check(z3.Not(z3.And([c for c, _ in claims]))):
        m = tree.s.model()
        return [w for c, w in claims if z3.is_false(m.eval(c, model_completion=True))][0], m
    tree.stats['proved'] += len(claims)
    tree.stats['claims'] += 1
    p = text_problem(text, files, seq, {i: tree.lines(i) for i in set(seq)})
    if p is None:
        tree.stats['proved'] += 1
    return p


def concrete(tree, m=None):
    if m is None:
        tree.check()
        m = tree.s.model()
    n = tree.n
    ev = lambda v: m.eval(v, model_completion=True)
    return dict(layout=tree.layout, n=n, edges=[[i, j] for i, j in tree.e if z3.is_true(ev(tree.e[i, j]))], style=[ev(v).as_long() for v in tree.st], form=[ev(v).as_long() for v in tree.fm],
                roots=[r for r in ROOTS[ev(tree.rt).as_long()] if r < n])


def confirm(inp, cli, root):
    """the concrete tree, written in full before the real script runs"""
    set_layout(inp.get('layout', 'plain'))
    setup_tree(root)
    os.chdir(root)
    n = inp['n']
    texts = {i: file_text(i, inp['style'][i], inp['form'][i], sorted(j for a, j in inp['edges'] if a == i)) for i in range(n)}
    for i in range(n):
        with open(os.path.join(root, FILES[i]), 'w') as h:
            h.write(texts[i])
    text, files, prob = run_script(load(), root, inp['roots'], cli)
    if prob:
        return prob
    if 'decoy' in text:
        return 'an include is resolved to the wrong file'
    seq = order_of(text, n)
    reach, todo = set(), list(inp['roots'])
    while todo:
        i = todo.pop()
        if i not in reach:
            reach.add(i)
            todo += [b for a, b in inp['edges'] if a == i]
    if sorted(seq) != sorted(reach):
        return 'headers listed %s, reachable %s' % (seq, sorted(reach))
    for a, b in inp['edges']:
        if a in seq and seq.index(b) > seq.index(a):
            return 'header %d appears before header %d, which it includes' % (a, b)
    return text_problem(text, files, seq, texts)


def drop():
    """the script runs as an unprivileged user that owns only the scratch directory"""
    if os.getuid() == 0:
        u = pwd.getpwnam('nobody')
        os.setgroups([])
        os.setgid(u.pw_gid)
        os.setuid(u.pw_uid)


def scratch():
    d = tempfile.mkdtemp(prefix='shiva_c22_')
    if os.getuid() == 0:
        u = pwd.getpwnam('nobody')
        os.chown(d, u.pw_uid, u.pw_gid)
    return d


def in_child(f, *a):
    """f(*a) in a child without privileges -> result"""
    d = scratch()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            sys.stdin = open(os.devnull)
            drop()
            with os.fdopen(w, 'w') as h:
                h.write(json.dumps(f(os.path.join(os.path.realpath(d), 'tree'), *a)))
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as h:
        s = h.read()
    os.waitpid(pid, 0)
    shutil.rmtree(d, ignore_errors=True)
    return json.loads(s) if s else None


def explore(root, fam, assume, budget):
    name, n, styles, roots, cli, layout = fam
    set_layout(layout)
    res = dict(paths=0, claims=0, proved=0, forks=0, solver_s=0.0, queries={}, viol=None, incon=None, witness=None)
    g = load()
    real_open = open
    todo = [[]]
    t0 = time.time()
    k = 0
    assume = {tuple(map(int, a.split(','))): v for a, v in assume.items()}
    while todo:
        if time.time() - t0 > budget:
            res['incon'] = 'time budget used up with alternatives left'
            break
        tree = Tree(layout, n, styles, roots, assume, todo.pop(), res)
        if not tree.check():
            break
        k += 1
        try:
            p = one_path(g, root, tree, cli, real_open)
        except Stop as ex:
            res['incon'] = str(ex)
            break
        m = None
        if isinstance(p, tuple):
            p, m = p
        res['paths'] += 1
        if p:
            inp = concrete(tree, m)
            q = confirm(inp, cli, root)
            if q:
                res['viol'] = dict(what=q, inputs=inp, solver=p, cli=cli)
            else:
                res['incon'] = 'counterexample %s (%s) not reproduced' % (json.dumps(inp), p)
            break
        if res['witness'] is None:
            res['witness'] = concrete(tree)
        if k % 29 == 1:
            # the lazily decided tree against the same tree written in full
            q = confirm(concrete(tree), cli, root)
            res['validated'] = res.get('validated', 0) + 1
            if q:
                res['viol'] = dict(what=q, inputs=concrete(tree), solver='concrete validation', cli=cli)
                break
        todo += tree.pending
    return res


def families(tier):
    f = [('graphs4', 4, False, False, False, 'plain'), ('styles3', 3, 'tied', False, False, 'plain'), ('roots3', 3, False, True, True, 'plain'),
         ('names4', 4, False, False, True, 'names'), ('names3', 3, 'forms', True, False, 'names'), ('prefix3', 3, 'forms', True, False, 'prefix'), ('plain3', 3, 'forms', False, True, 'plain')]
    if tier == 'thorough':
        f += [('forms3', 3, 'free', False, False, 'plain'), ('graphs5', 5, False, False, False, 'plain'), ('roots4', 4, False, True, True, 'plain'), ('names5', 5, False, False, False, 'names'),
              ('prefix4', 4, 'forms', False, True, 'prefix'), ('names4f', 4, 'forms', False, True, 'names')]
    return f


def task(a):
    fam, assume, budget = a
    r = in_child(explore, fam, assume, budget)
    return fam[0], (r or dict(paths=0, claims=0, proved=0, forks=0, solver_s=0, queries={}, viol=None, incon='explorer died', witness=None))


class Aggregate(Check):
    def run(self, tier):
        budget = 120 if tier == 'quick' else 800
        jobs = []
        for fam in families(tier):
            n = fam[1]
            bits = [(0, j) for j in range(1, n)]
            for vals in itertools.product((False, True), repeat=len(bits)):
                a = {'%d,%d' % b: v for b, v in zip(bits, vals)}
                for st in range(4) if fam[2] in ('tied', 'free') else [None]:
                    jobs.append((fam, dict(a, **({} if st is None else {'0,-1': st})), budget))
        jobs.sort(key=lambda j: -(j[0][1] * 10 + sum(j[1].values())))
        out = {}
        with mp.get_context('fork').Pool(fw.JOBS) as pool:
            for name, r in pool.imap_unordered(task, jobs, chunksize=1):
                d = out.setdefault(name, dict(name=name, fn='aggregate_headers', paths=0, claims=0, proved=0, validated=0, bitexact=0, maxslack=0.0, witness=None, viol=None, inconclusive=[], wall=0,
                                              box='every acyclic include relation', stats=dict(queries={}, solver_s=0.0, forks=0, steps=0,
                                                                                              functions=['HeaderFileManager.' + x for x in ('create_dependency_graph', 'resolve_path', 'generate_header_list', 'aggregate_headers', 'split_aggregated_file')] + ['main'])))
                for k in ('paths', 'claims', 'proved'):
                    d[k] += r[k]
                d['validated'] += r.get('validated', 0)
                d['bitexact'] += r.get('validated', 0)
                d['witness'] = d['witness'] or r['witness']
                st = d['stats']
                st['forks'] += r['forks']
                st['solver_s'] += r['solver_s']
                for k, v in r['queries'].items():
                    st['queries'][k] = st['queries'].get(k, 0) + v
                if r['viol']:
                    d['viol'] = r['viol']
                if r['incon']:
                    d['inconclusive'].append(r['incon'])
        for d in out.values():
            if not d['paths'] and not d['viol']:
                d['inconclusive'].append('no path explored')
        return list(out.values())

    def replay(self, v):
        p = in_child(confirm_in, v['inputs'], v['cli'])
        print('reproduced: ' + p if p else 'does not reproduce on this tree')
        return 1 if p else 0


def confirm_in(root, inp, cli):
    return confirm(inp, cli, root)


CHECKS = [Aggregate('C22', None, 'every acyclic include relation on 4 headers (5 in thorough), on 3 headers with every combination of line styles (pragma once, configuration header, spacing, trailing comments, repeated includes, no final newline) and reference forms (relative, include path), and on 3 headers (4) with several root lists through the command line',
                    ['the header tree is in a scratch directory, with decoys of the same name in other directories; unread headers stay undecided and are quantified over by Z3', 'Python source executed as is by CPython; the symbolic variables are the tree, not individual characters'])]
