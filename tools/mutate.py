#!/usr/bin/env python3
"""tools/mutate.py FILE CHECKS N SEED [LINE-RANGE]: N random syntactic mutants of FILE (relative to sippy/), CHECKS
(comma separated) run on each until one reports; survivors are printed with their source line.  Works on a copy."""
import ast, os, random, shutil, subprocess, sys
BASE = os.environ.get('BASE', '/repo')
f, checks, n, seed = sys.argv[1], sys.argv[2].split(','), int(sys.argv[3]), int(sys.argv[4])
rng = [int(x) for x in sys.argv[5].split('-')] if len(sys.argv) > 5 else [0, 10**6]
path = os.path.join(BASE, 'sippy', f)
src = open(path).read()
tree = ast.parse(src)
lines = src.split('\n')
starts = [0]
for l in lines: starts.append(starts[-1] + len(l.encode()) + 1)
b = src.encode()
def off(ln, col): return starts[ln - 1] + col
def span(nd): return off(nd.lineno, nd.col_offset), off(nd.end_lineno, nd.end_col_offset)
sites = []
OPS = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
class Vis(ast.NodeVisitor):
    fn = 0
    def visit_FunctionDef(self, nd):
        if nd.name in ('__repr__', '__str__') and 'State' in f: return
        self.fn += 1
        for x in nd.body: self.visit(x)
        self.fn -= 1
    def visit_If(self, nd):
        if isinstance(nd.test, ast.Compare) and getattr(nd.test.left, 'id', '') == '__name__': return
        if self.fn:
            a = span(nd.test)
            t = b[a[0]:a[1]].decode()
            if 'debug' not in t:
                sites.append((a, 'not (%s)' % t)); sites.append((a, 'False')); sites.append((a, 'True'))
        self.generic_visit(nd)
    def visit_Compare(self, nd):
        if self.fn and len(nd.ops) == 1:
            l, r = span(nd.left), span(nd.comparators[0])
            sites.append(((l[0], r[1]), '%s %s %s' % (b[l[0]:l[1]].decode(), OPS[type(nd.ops[0])], b[r[0]:r[1]].decode())))
        self.generic_visit(nd)
    def visit_BoolOp(self, nd):
        if self.fn:
            vs = [span(v) for v in nd.values]
            for i in range(len(vs)):
                a = span(nd)
                sites.append((a, ' '.join(['('] + [(' or ' if isinstance(nd.op, ast.And) else ' and ').join('(%s)' % b[x[0]:x[1]].decode() for x in vs)] + [')'])))
                o = [x for j, x in enumerate(vs) if j != i]
                sites.append((a, '(' + (' and ' if isinstance(nd.op, ast.And) else ' or ').join('(%s)' % b[x[0]:x[1]].decode() for x in o) + ')'))
        self.generic_visit(nd)
    def visit_Constant(self, nd):
        if self.fn:
            if type(nd.value) in (int, float): sites.append((span(nd), repr(nd.value + 1)))
            elif type(nd.value) is bool: sites.append((span(nd), repr(not nd.value)))
    def stmt(self, nd):
        if self.fn:
            t = b[slice(*span(nd))].decode()
            if not t.startswith(('print', 'assert', '"', "'")) and 'dprint' not in t: sites.append((span(nd), 'pass'))
        self.generic_visit(nd)
    visit_Expr = visit_Assign = visit_AugAssign = visit_Delete = visit_Continue = visit_Break = visit_Raise = stmt
    def visit_Return(self, nd):
        if self.fn and nd.value is not None and not (isinstance(nd.value, ast.Constant) and nd.value.value is None): sites.append((span(nd), 'return None'))
        self.generic_visit(nd)
Vis().visit(tree)
sites = [s for s in sites if rng[0] <= b[:s[0][0]].count(b'\n') + 1 <= rng[1]]
random.Random(seed).shuffle(sites)
tmp = '/tmp/mut_%d' % os.getpid()
env = dict(os.environ, VERIF_REPO = tmp, VERIF_SHRINK_S = '0.5')
done = caught = 0
try:
    shutil.copytree(BASE, tmp, symlinks = True, ignore = shutil.ignore_patterns('.git'))
    for (a, z), new in sites:
        if done >= n: break
        m = b[:a] + new.encode() + b[z:]
        try: compile(m, f, 'exec')
        except SyntaxError: continue
        done += 1
        open(os.path.join(tmp, 'sippy', f), 'wb').write(m)
        res = []
        for c in checks:
            try: p = subprocess.run(['/verif/run.py', c], env = env, capture_output = True, text = True, cwd = '/verif', timeout = 850)
            except subprocess.TimeoutExpired: res.append(c + '=T'); continue
            res.append('%s=%d' % (c, p.returncode))
            if p.returncode == 1: break
        ln = b[:a].count(b'\n') + 1
        if 'p' in locals() and p.returncode == 1: caught += 1
        else: print('%s:%d %s   [%s] -> [%s]' % (f, ln, ','.join(res), ' '.join(b[a:z].decode().split())[:110], new[:110]), flush = True)
    print('%s: %d of %d caught (%d sites)' % (f, caught, done, len(sites)), flush = True)
finally:
    shutil.rmtree(tmp, ignore_errors = True)
