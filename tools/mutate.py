"""python3 tools/mutate.py OUT.jsonl [-n PER_FUNCTION] [-s SEED] [-w WORKERS]
[-p C01,C02] [-k SKIP.jsonl]

Small changes to the functions that the checks say they encode (evidence/*.json
of the last runs), one at a time in scratch copies of /repo: first the checks
that encode the function, then, if they stay quiet, the tests.  What neither
notices is to be looked at: it is equivalent, out of scope, or a gap."""
import argparse
import ast
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import threading
import queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in',
       ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.FloorDiv: '/', ast.Mod: '//', ast.BitAnd: '|', ast.BitOr: '&'}


class Src(object):
    def __init__(self, text):
        self.text = text
        self.lines = text.split('\n')
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l) + 1)

    def pos(self, line, col):
        l = self.lines[line - 1]
        return self.off[line - 1] + len(l.encode()[:col].decode())

    def span(self, n):
        return (self.pos(n.lineno, n.col_offset),
                self.pos(n.end_lineno, n.end_col_offset))

    def get(self, n):
        a, b = self.span(n)
        return self.text[a:b]


def mutants(src, fn):
    """(start, end, replacement)"""
    out = []

    def rep(n, text):
        a, b = src.span(n)
        if src.text[a:b] != text:
            out.append((a, b, text))
    doc = fn.body[0] if isinstance(fn.body[0], ast.Expr) and isinstance(
        fn.body[0].value, ast.Constant) else None
    for n in ast.walk(fn):
        if n is doc or n is fn:
            continue
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            rep(n, '%s %s %s' % (src.get(n.left), CMP[type(n.ops[0])],
                                 src.get(n.comparators[0])))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(
                    n.left.value, str):
                continue
            rep(n, '(%s %s %s)' % (src.get(n.left), BIN[type(n.op)],
                                   src.get(n.right)))
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, op.join(src.get(v) for v in n.values))
            rep(n, src.get(n.values[0]))
            rep(n, src.get(n.values[-1]))
        elif isinstance(n, ast.UnaryOp) and isinstance(
                n.op, (ast.Not, ast.USub)):
            rep(n, src.get(n.operand))
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                rep(n, str(not n.value))
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1))
                if n.value > 0:
                    rep(n, str(n.value - 1))
            elif isinstance(n.value, float):
                rep(n, repr(n.value * 1.5))
        elif isinstance(n, ast.If):
            rep(n.test, 'not (%s)' % src.get(n.test))
            rep(n.test, 'False')
            if n.orelse:
                rep(n.test, 'True')
        elif isinstance(n, ast.IfExp):
            rep(n, src.get(n.body))
            rep(n, src.get(n.orelse))
        elif isinstance(n, (ast.Raise, ast.AugAssign, ast.Break,
                            ast.Continue)):
            rep(n, 'pass')
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            rep(n, 'pass')
        elif isinstance(n, ast.Assign):
            if all(isinstance(t, (ast.Attribute, ast.Subscript))
                   for t in n.targets):
                rep(n, 'pass')
            elif isinstance(n.value, ast.Call) and any(
                    isinstance(t, ast.Name) and any(
                        isinstance(m, ast.Name) and m.id == t.id
                        for m in ast.walk(n.value)) for t in n.targets):
                rep(n, 'pass')
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in ('max', 'min'):
                rep(n.func, {'max': 'min', 'min': 'max'}[n.func.id])
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    'copy', 'squeeze') and not n.args:
                rep(n, src.get(n.func.value))
            if n.keywords:
                for k in n.keywords:
                    if k.arg:
                        args = [src.get(a) for a in n.args] + [
                            src.get(q) for q in n.keywords if q is not k]
                        rep(n, '%s(%s)' % (src.get(n.func), ', '.join(args)))
            if len(n.args) == 2 and not n.keywords:
                rep(n, '%s(%s, %s)' % (src.get(n.func), src.get(n.args[1]),
                                       src.get(n.args[0])))
        elif isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is None:
                rep(n.lower, '(%s) + 1' % src.get(n.lower))
            if n.upper is not None:
                rep(n.upper, '(%s) - 1' % src.get(n.upper))
        elif isinstance(n, ast.Return) and n.value is not None and \
                isinstance(n.value, (ast.Name, ast.Attribute)):
            rep(n.value, 'None')
    # no duplicates, nothing that does not compile
    good, seen = [], set()
    for a, b, t in out:
        s = src.text[:a] + t + src.text[b:]
        if s in seen:
            continue
        seen.add(s)
        try:
            compile(s, 'x', 'exec')
        except SyntaxError:
            continue
        good.append((a, b, t))
    return good


def functions(tree):
    def walk(node, path):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, ast.ClassDef):
                yield from walk(c, path + [c.name])
            elif isinstance(c, ast.FunctionDef):
                yield '.'.join(path + [c.name]), c
            elif isinstance(c, (ast.If, ast.Try)):
                yield from walk(c, path)
    return walk(tree, [])


def encoded():
    by, cost = {}, {}
    for f in glob.glob(os.path.join(VERIF, 'evidence', 'C??.json')):
        d = json.load(open(f))
        cost[d['property']] = d['wall_s']
        for g in d['coverage']['functions_encoded']:
            by.setdefault(g, set()).add(d['property'])
    return by, cost


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('-n', type=int, default=4)
    ap.add_argument('-s', type=int, default=1)
    ap.add_argument('-w', type=int, default=4)
    ap.add_argument('-p', default='')
    ap.add_argument('-f', default='')
    a = ap.parse_args()
    only = set(filter(None, a.p.split(',')))
    by, cost = encoded()
    claims = {}
    for l in open(os.path.join(VERIF, 'properties.jsonl')):
        d = json.loads(l)
        claims[d['id']] = json.dumps(d)
    rnd = random.Random(a.s)
    jobs = []
    for f in sorted({g.split(':')[0] for g in by}):
        if a.f and not f.startswith(a.f):
            continue
        p = os.path.join('/repo', f)
        if not p.endswith('.py') or not os.path.exists(p):
            continue
        text = open(p).read()
        src = Src(text)
        for name, fn in functions(ast.parse(text)):
            props = set()
            for g, ps in by.items():
                if g.startswith(f + ':' + name) and g[len(
                        f + ':' + name):][:1] in ('', '.'):
                    props |= ps
            if not props or (only and not props & only):
                continue
            ms = mutants(src, fn)
            rnd.shuffle(ms)
            for m in ms[:a.n]:
                mine = [p for p in props if f in claims.get(p, '')]
                rest = [p for p in props if p not in mine]
                jobs.append((f, name, m, sorted(mine, key=cost.get) +
                             sorted(rest, key=cost.get)[
                                 :max(0, 2 - len(mine))]))
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d['file'], d['function'], d['line'], d['new'], d['old']))
    rnd.shuffle(jobs)
    print(len(jobs), 'mutants', len(done), 'done')
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    lock = threading.Lock()
    total = [0, 0, 0]

    def work(k):
        root = '/tmp/mut/w%d' % k
        subprocess.run(['rm', '-rf', root])
        os.makedirs(root)
        subprocess.run(['rsync', '-a', '--exclude', '.git', '/repo', root]) \
            if shutil.which('rsync') else subprocess.run(
                ['cp', '-a', '/repo', root])
        repo = root + '/repo'
        while True:
            try:
                f, name, (s, e, new), props = q.get_nowait()
            except queue.Empty:
                break
            p = os.path.join(repo, f)
            text = open(os.path.join('/repo', f)).read()
            line = text.count('\n', 0, s) + 1
            key = (f, name, line, new, text[s:e])
            if key in done:
                continue
            open(p, 'w').write(text[:s] + new + text[e:])
            rec = dict(file=f, function=name, line=line, old=text[s:e],
                       new=new, checks={})
            test = ('cd %s && . /opt/vp/env.sh && PYTHONPATH=%s:'
                    '/opt/vp/plugins $PY -m pytest -p zounds_seed -q -x '
                    '-p no:cacheprovider --timeout=120 -W ignore '
                    '--tb=line ' % (repo, repo))
            try:
                caught = None
                r = subprocess.run(test + os.path.dirname(f), shell=True,
                                   capture_output=True, text=True)
                if r.returncode not in (0, 5):
                    rec['tests'] = 'fail'
                    props = []
                for c in props:
                    env = dict(os.environ, VERIF_REPO=repo, PYTHONPATH=repo,
                               VERIF_SEED='1',
                               VERIF_TIER='quick', VERIF_JOBS='2',
                               VERIF_EVIDENCE=root + '/ev')
                    try:
                        r = subprocess.run(
                            [VERIF + '/run', 'check', c], env=env,
                            capture_output=True, text=True, timeout=900,
                            cwd=VERIF)
                        rc = r.returncode
                        rec['checks'][c] = rc
                        if 'INCONCLUSIVE' in r.stdout + r.stderr:
                            rec['inconclusive'] = True
                    except subprocess.TimeoutExpired:
                        rc = rec['checks'][c] = 'timeout'
                    if rc == 1:
                        caught = c
                        break
                rec['caught'] = caught
                if props and caught is None:
                    r = subprocess.run(test + 'zounds', shell=True,
                                       capture_output=True, text=True)
                    rec['tests'] = 'pass' if r.returncode == 0 else 'fail'
                    rec['last'] = r.stdout.strip().split('\n')[-1][:200]
            finally:
                open(p, 'w').write(text)
            with lock:
                total[0] += 1
                total[1] += caught is not None
                total[2] += rec.get('tests') == 'pass'
                with open(a.out, 'a') as o:
                    o.write(json.dumps(rec) + '\n')
                print(total, f, name, line, caught, rec.get('tests'),
                      flush=True)
        subprocess.run(['rm', '-rf', root])
    ts = [threading.Thread(target=work, args=(k,)) for k in range(a.w)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
