"""Development: runs planted bugs against the checks of their property.

usage: seed_matrix.py [ID[:CHECK,CHECK] ...]   (default: every directory of
/verif/seeded against the check of its property).  Results are kept in
tools/seed_results.json and shown in DESIGN.md (tools/design.py).
"""
import concurrent.futures as cf
import json
import os
import re
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, 'tools', 'seed_results.json')


def one(arg):
  sid, _, checks = arg.partition(':')
  meta = json.load(open(f'{ROOT}/seeded/{sid}/meta.json'))
  checks = checks.split(',') if checks else [meta['property']]
  p = subprocess.run(['bash', f'{ROOT}/tools/try_seed.sh', sid, os.environ.get('SEED_TESTS', 'no'), *checks], capture_output=True, text=True)
  res = {}
  for m in re.finditer(r'check (C\d+): rc=(\d+) (VIOLATION)?', p.stdout):
    res[m[1]] = 'caught' if m[2] == '1' and m[3] else f'missed (exit {m[2]})'
  return sid, res, p.stdout


if __name__ == '__main__':
  ids = sys.argv[1:] or sorted(os.listdir(ROOT + '/seeded'))
  try:
    results = json.load(open(OUT))
  except OSError:
    results = {}
  with cf.ThreadPoolExecutor(int(os.environ.get('SEED_JOBS', '1'))) as ex:
    for sid, res, out in ex.map(one, ids):
      print(out, flush=True)
      results.setdefault(sid, {}).update(res)
  results = {k: v for k, v in sorted(results.items()) if os.path.isdir(f'{ROOT}/seeded/{k}')}
  json.dump(results, open(OUT, 'w'), indent=1)
