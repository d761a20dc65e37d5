"""Assembles DESIGN.md from tools/design_*.md, the checks and seed_results.json.

Run `python3 tools/design.py` after editing any of them.
"""
import ast
import json
import os
import re
import sys
import textwrap

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = ROOT + '/tools/'


def const(node, env):
  return ast.literal_eval(node)


def load(pid):
  tree = ast.parse(open(f'{ROOT}/checks/{pid.lower()}.py').read())
  out = {'doc': ast.get_docstring(tree), 'kinds': []}
  for n in tree.body:
    if not isinstance(n, ast.Assign):
      continue
    name = getattr(n.targets[0], 'id', '')
    if name in ('RULE', 'ASSUMPTIONS', 'REQUIRED'):
      out[name] = ast.literal_eval(n.value)
    if name == 'KINDS':
      for c in ast.walk(n.value):
        if isinstance(c, ast.Call) and getattr(c.func, 'id', '') == 'Kind':
          a = [ast.unparse(x) for x in c.args]
          name = a[0].strip("'") if isinstance(c.args[0], ast.Constant) else 'each case'
          out['kinds'].append((name, a[2], a[3]))
  return out


def wrap(s, indent=''):
  return textwrap.fill(s, 79, initial_indent=indent, subsequent_indent=indent.replace('-', ' '))


def main():
  props = {json.loads(l)['id']: json.loads(l) for l in open(ROOT + '/properties.jsonl')}
  manifest = {c['property']: c for c in json.load(open(ROOT + '/MANIFEST.json'))['checks']}
  notes = {}
  for m in re.finditer(r'^## (C\d+)\n(.*?)(?=^## |\Z)', open(T + 'design_notes.md').read(), re.S | re.M):
    notes[m[1]] = m[2].strip()
  try:
    costs = json.load(open(T + 'costs.json'))
  except OSError:
    costs = {}
  parts = [open(T + 'design_head.md').read().rstrip(), '', '## Property by property', '']
  parts.append(wrap(
      'Each section gives the deciding oracle, the workload (scenario kinds with the number of executions quick / thorough), '
      'the monitors that must be reached before a run may report HELD, what is assumed, the cost on 8 cores, and remarks. '
      'The statement itself is in properties.jsonl.'))
  parts.append('')
  for pid in sorted(props):
    c = load(pid)
    p = props[pid]
    parts += [f'### {pid} {p["title"]}', '']
    parts.append(wrap('*Oracle.* ' + manifest[pid]['technique'].split(': ', 1)[1] + '. ' + manifest[pid]['level_note'][0].upper() + manifest[pid]['level_note'][1:] + '.'))
    parts.append('')
    parts.append(wrap('*Workload.* ' + c['RULE']))
    parts.append(wrap('Kinds: ' + '; '.join(f'{k} {q} / {t}' for k, q, t in c['kinds']) + '.'))
    parts.append('')
    parts.append(wrap('*Monitors (required evaluations).* ' + '; '.join(f'{k} ({v})' for k, v in c['REQUIRED'].items()) + '.'))
    if c.get('ASSUMPTIONS'):
      parts.append('')
      parts.append(wrap('*Assumes.* ' + ' '.join(c['ASSUMPTIONS'])))
    parts.append('')
    cost = costs.get(pid)
    parts.append(wrap('*Why tests cannot.* ' + p['why_tests_cant'] + (f' *Cost.* about {cost["quick"]} quick.' if cost else '')))
    if pid in notes:
      parts += ['', notes[pid]]
    parts.append('')
  parts.append(open(T + 'design_tail.md').read().rstrip())
  parts += ['', '## Planted bugs and what catches them', '']
  try:
    res = json.load(open(T + 'seed_results.json'))
  except OSError:
    res = {}
  parts += ['| planted bug | property | manifests with | result |', '|---|---|---|---|']
  for sid in sorted(os.listdir(ROOT + '/seeded')):
    m = json.load(open(f'{ROOT}/seeded/{sid}/meta.json'))
    r = ', '.join(f'{k}: {v}' for k, v in sorted(res.get(sid, {}).items())) or 'not run'
    parts.append(f'| {sid} | {m["property"]} | {m["needs"]} | {r} |')
  parts.append('')
  parts.append(open(T + 'design_seeds.md').read().rstrip())
  open(ROOT + '/DESIGN.md', 'w').write('\n'.join(parts) + '\n')


if __name__ == '__main__':
  main()
