"""Development: small mutations of a source file against the checks of it.

usage: mutate.py FILE CHECK,CHECK[,..] [--n N] [--seed S] [--jobs J] [--only FUNC]
Prints the mutants no check reports (with the exit codes).  Scratch copies of
/repo live under /tmp/mut.* and are removed.  Never touches /repo.
"""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import queue
import random
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '=='}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '*'}


def sites(src):
  tree = ast.parse(src)
  lines = src.splitlines(keepends=True)
  starts = [0]
  for l in lines:
    starts.append(starts[-1] + len(l.encode()))
  data = src.encode()
  at = lambda l, c: starts[l - 1] + c
  span = lambda n: (at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset))
  text = lambda n: data[slice(*span(n))].decode()
  out = []

  def add(n, new, kind, func):
    a, b = span(n)
    out.append((n.lineno, a, b, new, kind, func))

  def walk(node, func):
    for child in ast.iter_child_nodes(node):
      f = func
      if isinstance(child, (ast.FunctionDef, ast.ClassDef)):
        f = func + '.' + child.name if func else child.name
      visit(child, f)
      walk(child, f)

  def visit(n, f):
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
      l, r = text(n.left), text(n.comparators[0])
      add(n, f'({l} {CMP[type(n.ops[0])]} {r})', 'cmp', f)
    if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant | ast.JoinedStr) | (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
      add(n, f'({text(n.left)} {BIN[type(n.op)]} {text(n.right)})', 'op', f)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
      add(n, f'({text(n.operand)})', 'unary', f)
    if isinstance(n, ast.Constant) and type(n.value) in (int, float):
      for v in ([n.value + 1, n.value - 1] if type(n.value) is int else [n.value * 1.3 + 0.01]):
        add(n, f'({v!r})' if v < 0 else repr(v), 'const', f)
    if isinstance(n, ast.Constant) and type(n.value) is bool:
      add(n, str(not n.value), 'bool', f)
    if isinstance(n, ast.BoolOp):
      op = ' or ' if isinstance(n.op, ast.And) else ' and '
      add(n, '(' + op.join(f'({text(v)})' for v in n.values) + ')', 'boolop', f)
    if isinstance(n, (ast.If, ast.IfExp)):
      add(n.test, f'(not ({text(n.test)}))', 'ifnot', f)
    if isinstance(n, ast.Call):
      if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
        a, b = text(n.args[0]), text(n.args[1])
        if a != b:
          x = (at(n.args[0].lineno, n.args[0].col_offset), at(n.args[1].end_lineno, n.args[1].end_col_offset))
          mid = data[span(n.args[0])[1]:span(n.args[1])[0]].decode()
          out.append((n.lineno, x[0], x[1], b + mid + a, 'swap', f))
    if isinstance(n, (ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield))):
      add(n, 'pass', 'delete', f)
    if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
      add(n, 'pass', 'delete', f)
    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
      names = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
      if n.targets[0].id in names:
        add(n, 'pass', 'delete', f)
    if isinstance(n, ast.Continue):
      add(n, 'pass', 'delete', f)
    if isinstance(n, ast.Break):
      add(n, 'pass', 'delete', f)

  walk(tree, '')
  return [(l, a, b, new, k, f, data[a:b].decode()) for l, a, b, new, k, f in out if f]


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('file')
  ap.add_argument('checks')
  ap.add_argument('--n', type=int, default=30)
  ap.add_argument('--seed', type=int, default=0)
  ap.add_argument('--jobs', type=int, default=3)
  ap.add_argument('--workers', default='3')
  ap.add_argument('--only', default='')
  ap.add_argument('--skip', default='')
  ap.add_argument('--lines', default='')
  a = ap.parse_args()
  path = f'/repo/putting_dune/{a.file}'
  src = open(path).read()
  cands = [s for s in sites(src) if a.only in s[5] and not (a.skip and any(x in s[5] for x in a.skip.split(',')))]
  if a.lines:
    lo, hi = map(int, a.lines.split('-'))
    cands = [s for s in cands if lo <= s[0] <= hi]
  random.Random(a.seed).shuffle(cands)
  pick = []
  for s in cands:
    m = src.encode()[:s[1]] + s[3].encode() + src.encode()[s[2]:]
    try:
      compile(m, 'x', 'exec')
    except SyntaxError:
      continue
    pick.append((s, m))
    if len(pick) == a.n:
      break
  print(f'{a.file}: {len(cands)} sites, {len(pick)} tried', flush=True)
  top = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
  pool = queue.Queue()
  for j in range(a.jobs):
    w = f'{top}/{j}'
    shutil.copytree('/repo', w, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    pool.put(w)

  def one(x):
    s, m = x
    w = pool.get()
    try:
      open(f'{w}/putting_dune/{a.file}', 'wb').write(m)
      rcs = []
      for c in a.checks.split(','):
        env = dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE_DIR=w + '/ev', VERIF_SEED='1', VERIF_TIER='quick', VERIF_WORKERS=a.workers)
        try:
          p = subprocess.run(['/opt/venv/bin/python', 'run_check.py', c, '--tier', 'quick'], cwd=ROOT, env=env, capture_output=True, text=True, timeout=1500)
          rc = p.returncode
          tail = p.stdout[-200:] + p.stderr[-200:]
        except subprocess.TimeoutExpired:
          rc, tail = 'timeout', ''
        rcs.append((c, rc, '' if rc in (0, 1) else tail))
        if rc == 1:
          break
      return s, rcs
    finally:
      open(f'{w}/putting_dune/{a.file}', 'w').write(src)
      pool.put(w)

  killed = 0
  with cf.ThreadPoolExecutor(a.jobs) as ex:
    for s, rcs in ex.map(one, pick):
      if rcs[-1][1] == 1:
        killed += 1
      else:
        print(f'SURVIVED {a.file}:{s[0]} {s[5]} [{s[4]}] {s[6]!r} -> {s[3]!r}  {[(c, r) for c, r, _ in rcs]} {[t for _, _, t in rcs if t]}', flush=True)
  print(f'{a.file}: {killed}/{len(pick)} reported', flush=True)
  shutil.rmtree(top)


if __name__ == '__main__':
  main()
