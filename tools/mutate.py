"""Change the code of /repo in small ways, one at a time, on copies, to find changes that neither the tests nor the checks notice.

python3 tools/mutate.py COVERDIR OUT FILE[:function,function...]...   (not part of any check)

COVERDIR holds what MC_COVER wrote.  A change is given to the checks that execute its line, the cheapest first, and then to the tests;
those that survive are listed in OUT for a look by eye."""
import ast
import collections
import glob
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/tools')
import plant

SNAP = os.environ.get('SNAP', '/repo')

CMP = {ast.Lt: ('<', ['<=', '>=']), ast.LtE: ('<=', ['<', '>']), ast.Gt: ('>', ['>=', '<=']), ast.GtE: ('>=', ['>', '<']), ast.Eq: ('==', ['!=']),
       ast.NotEq: ('!=', ['==']), ast.Is: ('is', ['is not']), ast.IsNot: ('is not', ['is']), ast.In: ('in', ['not in']), ast.NotIn: ('not in', ['in'])}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'), ast.Mod: ('%', '*'), ast.Pow: ('**', '*'), ast.BitAnd: ('&', '|'), ast.BitOr: ('|', '&')}
WORDS = [('LAT', 'LON'), ('MO', 'DY'), ('YR', 'MO'), ('SST', 'AT'), ('AT2', 'AT'), ('DPT', 'AT'), ('SLP', 'SST'), ('SHU', 'CRH'), ('clim', 'noval'), ('nonorm', 'clim'), ('date', 'time'), ('pos', 'blklst'),
         ('DS', 'VS'), ('DCK', 'PT'), ('isship', 'isbuoy'), ('bud', 'bbud'), ('trk', 'few'), ('W', 'D'), ('mean', 'stdev'), ('drf_tail1', 'drf_tail2'), ('OSTIA', 'ICE'), ('HR', 'DY')]
SWAP = {}
for a, b in WORDS:
    SWAP.setdefault(a, b)
    SWAP.setdefault(b, a)
NAMES = {'min': 'max', 'max': 'min', 'floor': 'ceil', 'ceil': 'floor', 'sin': 'cos', 'cos': 'sin', 'any': 'all', 'all': 'any', 'True': 'False', 'mean': 'std', 'forward': 'reverse'}


def mutants(src, only):
    tree = ast.parse(src.replace('\\N', 'xN'))
    starts = [0]
    for l in src.split('\n'):
        starts.append(starts[-1] + len(l) + 1)
    enc = src.split('\n')
    P = lambda n: starts[n.lineno - 1] + len(enc[n.lineno - 1].encode()[:n.col_offset].decode())
    E = lambda n: starts[n.end_lineno - 1] + len(enc[n.end_lineno - 1].encode()[:n.end_col_offset].decode())
    out = []

    def rep(a, b, new, node, what):
        out.append((node.lineno, a, b, new, what + ': ' + src[a:b].replace('\n', ' ')[:60] + ' -> ' + new[:60]))

    def visit(node, fn):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            if isinstance(node, ast.FunctionDef):
                fn = node.name
            if only and isinstance(node, ast.FunctionDef) and fn not in only:
                return
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ('print', 'exit'):
            return
        if isinstance(node, ast.Assert) or isinstance(node, ast.Raise):
            return
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return
        if fn:
            if isinstance(node, ast.Compare) and len(node.ops) >= 1:
                left = node.left
                for op, right in zip(node.ops, node.comparators):
                    a, b = E(left), P(right)
                    o, alts = CMP[type(op)]
                    i = src.find(o, a, b)
                    if i >= 0:
                        for x in alts:
                            rep(i, i + len(o), x, node, 'compare')
                    left = right
            if isinstance(node, ast.BoolOp):
                o, x = ('and', 'or') if isinstance(node.op, ast.And) else ('or', 'and')
                for l, r in zip(node.values, node.values[1:]):
                    i = src.find(o, E(l), P(r))
                    if i >= 0:
                        rep(i, i + len(o), x, node, 'bool')
            if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
                rep(P(node), P(node.operand), '', node, 'unary')
            if isinstance(node, ast.BinOp) and type(node.op) in BIN:
                o, x = BIN[type(node.op)]
                i = src.find(o, E(node.left), P(node.right))
                if i >= 0 and not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)) and not (isinstance(node.right, ast.Constant) and isinstance(node.right.value, str)):
                    rep(i, i + len(o), x, node, 'arith')
            if isinstance(node, ast.Constant):
                if isinstance(node.value, bool):
                    rep(P(node), E(node), str(not node.value), node, 'constant')
                elif isinstance(node.value, (int, float)):
                    rep(P(node), E(node), repr(node.value + 1), node, 'constant')
                elif isinstance(node.value, str) and node.value in SWAP:
                    rep(P(node), E(node), repr(SWAP[node.value]), node, 'word')
            if isinstance(node, (ast.If, ast.IfExp, ast.While)):
                a, b = P(node.test), E(node.test)
                t = src[a:b]
                rep(a, b, '(%s) and False' % t if '\n' not in t else 'False', node, 'never')
                if not isinstance(node, ast.While):
                    rep(a, b, '(%s) or True' % t if '\n' not in t else 'True', node, 'always')
            if isinstance(node, ast.Call) and len(node.args) >= 2 and not any(isinstance(x, ast.Starred) for x in node.args):
                for l, r in zip(node.args, node.args[1:]):
                    tl, tr = src[P(l):E(l)], src[P(r):E(r)]
                    if tl != tr:
                        rep(P(l), E(r), tr + src[E(l):P(r)] + tl, node, 'arguments')
            if isinstance(node, ast.Attribute) and node.attr in NAMES:
                rep(E(node) - len(node.attr), E(node), NAMES[node.attr], node, 'name')
            if isinstance(node, ast.Name) and node.id in NAMES:
                rep(P(node), E(node), NAMES[node.id], node, 'name')
            if isinstance(node, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break)) or (isinstance(node, ast.Assign)):
                if not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Call) and isinstance(node.value.func, ast.Name) and node.value.func.id == 'print'):
                    rep(P(node), E(node), 'pass', node, 'delete')
            if isinstance(node, ast.Return) and node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
                rep(P(node), E(node), 'return None', node, 'return')
        for c in ast.iter_child_nodes(node):
            visit(c, fn)
    visit(tree, None)
    return out


def values(src, only):
    """changes that only show for some values: a nought taken for a missing value, a sign, a digit or a neighbour of the same name lost"""
    tree = ast.parse(src.replace('\\N', 'xN'))
    starts = [0]
    for l in src.split('\n'):
        starts.append(starts[-1] + len(l) + 1)
    enc = src.split('\n')
    P = lambda n: starts[n.lineno - 1] + len(enc[n.lineno - 1].encode()[:n.col_offset].decode())
    E = lambda n: starts[n.end_lineno - 1] + len(enc[n.end_lineno - 1].encode()[:n.end_col_offset].decode())
    out = []
    quiet = set()
    for f in ast.walk(tree):
        if not isinstance(f, ast.FunctionDef) or (only and f.name not in only):
            continue
        names = sorted(set(n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)) | set(a.arg for a in f.args.args) - {'self', 'cls'})
        for n in ast.walk(f):
            if isinstance(n, (ast.Assert, ast.Raise)) or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'print':
                quiet |= set(id(x) for x in ast.walk(n))
        for n in ast.walk(f):
            if id(n) in quiet:
                continue
            add = lambda new, what: out.append((n.lineno, P(n), E(n), new, what + ': ' + src[P(n):E(n)].replace('\n', ' ')[:60] + ' -> ' + new[:60]))
            isname = isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names
            isget = isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('getvar', 'getext', 'lat', 'lon', 'getclim', 'getanom', 'getnorm', 'get_value', 'get_qc')
            if isname or isget:
                t = src[P(n):E(n)]
                if '\n' in t:
                    continue
                for new, what in (('(%s or None)' % t, 'nought'), ('abs(%s)' % t, 'sign'), ('round(%s, 1)' % t, 'digits'), ('min(%s, 90)' % t, 'large')):
                    add(new, what)
            if isname:
                near = [x for x in names if x != n.id and (x[:3] == n.id[:3] or x[-3:] == n.id[-3:] or len(x) == len(n.id) == 1)]
                for x in near[:3]:
                    add(x, 'neighbour')
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Slice):
                t = src[P(n.slice):E(n.slice)]
                if '\n' not in t and not isinstance(n.slice, ast.Constant):
                    add(src[P(n):P(n.slice)] + 'max(%s, 1)' % t + src[E(n.slice):E(n)], 'first')
    return out


def states(src, only):
    """changes that show in a second use or in a large one: flags that stick, results kept by part of their arguments, loops cut short or turned round"""
    tree = ast.parse(src.replace('\\N', 'xN'))
    starts = [0]
    for l in src.split('\n'):
        starts.append(starts[-1] + len(l) + 1)
    enc = src.split('\n')
    P = lambda n: starts[n.lineno - 1] + len(enc[n.lineno - 1].encode()[:n.col_offset].decode())
    E = lambda n: starts[n.end_lineno - 1] + len(enc[n.end_lineno - 1].encode()[:n.end_col_offset].decode())
    T = lambda n: src[P(n):E(n)]
    out = []
    fns = [f for f in ast.walk(tree) if isinstance(f, ast.FunctionDef) and not (only and f.name not in only)]
    for f in fns:
        for n in ast.walk(f):
            add = lambda new, what: out.append((n.lineno, P(n), E(n), new, what + ': ' + src[P(n):E(n)].replace('\n', ' ')[:60] + ' -> ' + new[:60]))
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr in ('set_qc', 'setext', 'setvar') and '\n' not in T(n):
                c = n.value
                o, args = T(c.func.value), [T(x) for x in c.args]
                if c.func.attr == 'set_qc':
                    add('%s if %s.get_qc(%s) == 9 else None' % (T(n), o, ', '.join(args[:-1])), 'sticky')
                    add('%s if %s.get_qc(%s) != 1 else None' % (T(n), o, ', '.join(args[:-1])), 'sticky')
                elif c.func.attr == 'setext':
                    add('%s if %s.getvar(%s) is None else None' % (T(n), o, ', '.join(args[:-1])), 'sticky')
            if isinstance(n, ast.For):
                it, o = n.iter, n
                n = it
                t = T(it)
                if '\n' not in t and not isinstance(it, (ast.List, ast.Tuple)):
                    add('list(%s)[::-1]' % t, 'order')
                    add('list(%s)[:40]' % t, 'size')
                    add('list(%s)[:6]' % t, 'size')
                n = o
        args = [a.arg for a in f.args.args]
        body = [b for b in f.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f)) or f.args.vararg or f.decorator_list or f.name.startswith('__') or 'self' in args or not args:
            continue
        n = f
        at = starts[f.lineno - 1]
        for skip in args:
            keep = [a for a in args if a != skip]
            key = '(%s,)' % ', '.join('repr(%s)' % a for a in keep) if keep else '()'
            head = ' ' * f.col_offset + '_kept_%s = {}\n\n\n' % f.name
            b0 = starts[body[0].lineno - 1]
            ind = ' ' * body[0].col_offset
            sig = src[at:b0]
            new = sig.replace('def %s(' % f.name, 'def _plain_%s(' % f.name, 1)
            tail = src[b0:E(f)]
            wrapper = '\n\n\n_kept_%s = {}\n\n\ndef %s(%s):\n    key = %s\n    if key not in _kept_%s:\n        _kept_%s[key] = _plain_%s(%s)\n    return _kept_%s[key]\n' % (
                f.name, f.name, src[P(f):b0].split('(', 1)[1].rsplit('):', 1)[0] if 0 else ', '.join(
                    a + ('=' + T(f.args.defaults[i - len(args) + len(f.args.defaults)]) if i >= len(args) - len(f.args.defaults) else '') for i, a in enumerate(args)),
                key, f.name, f.name, f.name, ', '.join(args), f.name)
            if f.col_offset == 0:
                out.append((body[0].lineno, at, E(f), new + tail + wrapper, 'kept without %s: %s' % (skip, f.name)))
    return out


def one(job):
    f, (line, a, b, new, what), checks = job
    d = tempfile.mkdtemp(prefix='mutant_')
    try:
        copy = d + '/repo'
        shutil.copytree(SNAP, copy, symlinks=True, ignore=shutil.ignore_patterns('.git'))
        p = os.path.join(copy, f)
        src = open(p, newline='').read()
        m = src[:a] + new + src[b:]
        try:
            compile(m.replace('\\N', 'xN'), f, 'exec')
        except SyntaxError:
            return job, 'syntax', None
        open(p, 'w', newline='').write(m)
        for c in checks:
            try:
                r = plant.inside(copy, ['./run.sh', c, 'quick'], cwd=HERE, env=dict(os.environ, MC_FIRST='1', MC_OUT=d, MC_PROCS='1'), timeout=1500)
            except subprocess.TimeoutExpired:
                return job, 'timeout', c
            if r.returncode == 1:
                return job, 'killed', c
            if r.returncode != 0:
                return job, 'rc%d' % r.returncode, c
        try:
            if plant.tests(copy):
                return job, 'tests', None
        except subprocess.TimeoutExpired:
            return job, 'tests', None
        return job, 'SURVIVED', None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    cov = collections.defaultdict(set)
    for g in glob.glob(sys.argv[1] + '/*.json'):
        for n, l in json.load(open(g)):
            cov[n, l].add(os.path.basename(g).split('_')[0])
    skip = set(os.environ.get('SKIP', 'C34,C35').split(','))
    cost = json.load(open(sys.argv[1] + '/cost')) if os.path.exists(sys.argv[1] + '/cost') else {}
    jobs = []
    every, phase = [int(x) for x in os.environ.get('EVERY', '1/0').split('/')]
    for arg in sys.argv[3:]:
        f, _, fns = arg.partition(':')
        src = open(SNAP + '/' + f, newline='').read()
        for m in {'values': values, 'states': states}.get(os.environ.get('OPS'), mutants)(src, set(fns.split(',')) if fns else None):
            cs = set()
            for k in range(m[0], m[0] + 1 + (0 if m[4].startswith('kept') else src[m[1]:m[2]].count('\n'))):
                cs |= cov[f, k]
            jobs.append((f, m, sorted(cs - skip, key=lambda c: cost.get(c, 10))))
    jobs = jobs[phase::every]
    print(len(jobs), 'changes', flush=True)
    tally = collections.Counter()
    with open(sys.argv[2], 'a') as out, multiprocessing.Pool(int(os.environ.get('JOBS', '7'))) as pool:
        for job, what, c in pool.imap_unordered(one, jobs):
            tally[what] += 1
            if what not in ('tests', 'syntax'):
                out.write('%s %s:%d %s | %s\n' % (what, job[0], job[1][0], c if c else ','.join(job[2]), job[1][4]))
                out.flush()
    print(dict(tally))


if __name__ == '__main__':
    main()
