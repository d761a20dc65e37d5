"""Development: rewrites every module of a copy of the repository without
changing what it does, to see that the checks judge behaviour and not form.

usage: refactor.py COPY_OF_REPO [STYLE ...]      (default: every style)

Styles: locals (local variables get other names), private (private functions,
methods and attributes get other names, everywhere), invert (both arms of an
if/else are swapped under the negated condition), flip (comparisons are
mirrored), wrap (the body of each function moves to a helper), results
(returned expressions are named first), loops (list comprehensions with one
generator are written as loops).
"""
import ast
import glob
import os
import sys

STYLES = ['locals', 'invert', 'flip', 'results', 'loops', 'wrap', 'private']
FUNCTIONS = (ast.FunctionDef,)


def decorated(f, *names):
  return any(n in ast.unparse(d) for d in f.decorator_list for n in names)


class Flip(ast.NodeTransformer):
  OPS = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

  def visit_Compare(self, node):
    self.generic_visit(node)
    if len(node.ops) == 1 and type(node.ops[0]) in self.OPS:
      return ast.Compare(node.comparators[0], [self.OPS[type(node.ops[0])]()], [node.left])
    return node


class Invert(ast.NodeTransformer):

  def visit_If(self, node):
    self.generic_visit(node)
    if node.orelse and not (len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If)):
      return ast.If(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)
    return node

  def visit_IfExp(self, node):
    self.generic_visit(node)
    return ast.IfExp(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)


class Results(ast.NodeTransformer):

  def visit_Return(self, node):
    if node.value is None or isinstance(node.value, (ast.Name, ast.Constant)):
      return node
    return [ast.Assign([ast.Name('the_result', ast.Store())], node.value), ast.Return(ast.Name('the_result', ast.Load()))]


class Loops(ast.NodeTransformer):
  """x = [f(y) for y in z if c]  ->  a loop which appends."""

  def __init__(self):
    self.n = 0

  def visit_ClassDef(self, node):
    node.body = [self.visit(b) if isinstance(b, ast.FunctionDef) else b for b in node.body]
    return node

  def visit_Assign(self, node):
    v = node.value
    if not (isinstance(v, ast.ListComp) and len(v.generators) == 1 and not v.generators[0].is_async and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name)):
      return node
    self.n += 1
    names = {n.id for n in ast.walk(v.generators[0].target) if isinstance(n, ast.Name)}
    if names & {'x', 'y', 'i', 'k', 'v', '_'} or node.targets[0].id in {n.id for n in ast.walk(v) if isinstance(n, ast.Name)}:
      return node  # May hide an outer variable.
    acc = f'collected_{self.n}'
    body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), 'append', ast.Load()), [v.elt], []))]
    for c in v.generators[0].ifs:
      body = [ast.If(c, body, [])]
    return [
        ast.Assign([ast.Name(acc, ast.Store())], ast.List([], ast.Load())),
        ast.For(v.generators[0].target, v.generators[0].iter, body, []),
        ast.Assign(node.targets, ast.Name(acc, ast.Load())),
    ]


class Locals(ast.NodeTransformer):
  """Renames variables assigned in a function, in it and its nested scopes."""

  def visit_FunctionDef(self, node, outer=()):
    params = {a.arg for f in ast.walk(node) if isinstance(f, (ast.FunctionDef, ast.Lambda))
              for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs + [x for x in (f.args.vararg, f.args.kwarg) if x]}
    stored = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    fixed = {n for s in ast.walk(node) if isinstance(s, (ast.Global, ast.Nonlocal)) for n in s.names}
    matched = {s.name for s in ast.walk(node) if isinstance(s, ast.MatchAs) and s.name}
    attrs = {t.id for c in ast.walk(node) if isinstance(c, ast.ClassDef) for n in c.body for t in ast.walk(n) if isinstance(t, ast.Name)}
    defs = {f.name for f in ast.walk(node) if isinstance(f, (ast.FunctionDef, ast.ClassDef))}
    names = stored - defs - params - fixed - matched - attrs - {'_', '__'}
    for n in ast.walk(node):
      if isinstance(n, ast.Name) and n.id in names:
        n.id = 'my_' + n.id
    return node


class Wrap(ast.NodeTransformer):
  """def f(a, b=1): BODY  ->  def f(a, b=1): return f_body(a, b)."""

  def visit_Module(self, node):
    out = []
    for b in node.body:
      if isinstance(b, ast.FunctionDef) and not b.decorator_list and not b.args.vararg and not b.args.kwarg and not b.args.posonlyargs and not self.yields(b) and b.name != 'main':
        out += self.split(b, False)
      elif isinstance(b, ast.ClassDef) and not any('Module' in ast.unparse(x) or 'Protocol' in ast.unparse(x) for x in b.bases):
        body = []
        for f in b.body:
          if (isinstance(f, ast.FunctionDef) and not f.decorator_list and not f.args.vararg and not f.args.kwarg and not self.yields(f)
              and not f.name.startswith('__') and 'super()' not in ast.unparse(f) and f.args.args and f.args.args[0].arg == 'self'):
            body += self.split(f, True)
          else:
            body.append(f)
        b.body = body
        out.append(b)
      else:
        out.append(b)
    node.body = out
    return node

  def yields(self, f):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f))

  def split(self, f, method):
    import copy
    doc = [f.body[0]] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
    rest = f.body[len(doc):]
    if len(rest) < 2:
      return [f]
    name = 'perform_' + f.name
    helper = ast.FunctionDef(name, copy.deepcopy(f.args), rest, [], f.returns)
    helper.args.defaults = []
    helper.args.kw_defaults = [None] * len(helper.args.kwonlyargs)
    args = [ast.Name(a.arg, ast.Load()) for a in f.args.args]
    fn = ast.Name(name, ast.Load())
    if method:
      # Through the class, since a subclass may have a helper of the same name.
      fn = ast.Name('perform_' + f.name, ast.Load())
      helper.name = name
    call = ast.Call(fn, args, [ast.keyword(a.arg, ast.Name(a.arg, ast.Load())) for a in f.args.kwonlyargs])
    main = ast.FunctionDef(f.name, f.args, doc + [ast.Return(call)], [], f.returns)
    if method:
      main.body = doc + [helper, ast.Return(call)]  # A closure in the method.
      return [main]
    return [helper, main]


def private_names(trees):
  defined = set()
  for t in trees:
    for n in ast.walk(t):
      if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
        defined.add(n.name)
      elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
        defined.add(n.attr)
      elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
        defined.add(n.id)
      elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
        defined.add(n.target.id)
  return {n for n in defined if n.startswith('_') and not n.startswith('__') and n != '_'}


class Private(ast.NodeTransformer):

  def __init__(self, names):
    self.names = names

  def new(self, n):
    return n + '_internal' if n in self.names else n

  def visit_Name(self, node):
    node.id = self.new(node.id)
    return node

  def visit_Attribute(self, node):
    self.generic_visit(node)
    node.attr = self.new(node.attr)
    return node

  def visit_FunctionDef(self, node):
    self.generic_visit(node)
    node.name = self.new(node.name)
    return node

  def visit_ClassDef(self, node):
    self.generic_visit(node)
    node.name = self.new(node.name)
    return node

  def visit_keyword(self, node):
    self.generic_visit(node)
    if node.arg:
      node.arg = self.new(node.arg)
    return node

  def visit_Global(self, node):
    node.names = [self.new(n) for n in node.names]
    return node

  def visit_arg(self, node):
    self.generic_visit(node)
    node.arg = self.new(node.arg)
    return node


def main(repo, styles):
  files = [f for f in glob.glob(f'{repo}/putting_dune/**/*.py', recursive=True)
           if not f.endswith(('_test.py', 'test_utils.py', '_pb2.py'))]
  trees = {f: ast.parse(open(f).read()) for f in files}
  for s in styles:
    if s == 'private':
      # Names of classes of flax, haiku or dm_env that are overridden stay.
      names = private_names(trees.values()) - {'_fields', '_environment'}
      for t in trees.values():
        Private(names).visit(t)
      continue
    for f, t in trees.items():
      {'locals': Locals, 'invert': Invert, 'flip': Flip, 'results': Results, 'loops': Loops, 'wrap': Wrap}[s]().visit(t)
      trees[f] = ast.parse(ast.unparse(ast.fix_missing_locations(t)))
  for f, t in trees.items():
    ast.fix_missing_locations(t)
    open(f, 'w').write(ast.unparse(t) + '\n')
    compile(open(f).read(), f, 'exec')
  print(f'{len(files)} modules rewritten: {" ".join(styles)}')


if __name__ == '__main__':
  main(sys.argv[1], sys.argv[2:] or STYLES)
