"""Prints how far each check's monitors exceed their required minimum."""
import ast, json, os, sys
ev = sys.argv[1]
for name in sorted(os.listdir('/verif/checks')):
  if not name.startswith('c'):
    continue
  pid = name[:-3].upper()
  try:
    d = json.load(open(f'{ev}/{pid}.json'))
  except OSError:
    continue
  req = {}
  for n in ast.parse(open('/verif/checks/' + name).read()).body:
    if isinstance(n, ast.Assign) and n.targets[0].id == 'REQUIRED':
      req = ast.literal_eval(n.value)
  got = {**d['coverage']['observed'], **d['coverage']['maxima'], **d['coverage']['monitor_evaluations']}
  low = sorted((got.get(k, 0) / v, k) for k, v in req.items())[:3]
  print(pid, d['tier'], d['wall_s'], [(round(a, 2), b) for a, b in low if a < 1.6])
