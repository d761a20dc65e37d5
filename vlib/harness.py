"""Monitors, workers and the verdict discipline shared by every check.

A check module defines

  PROPERTY   the property id
  KINDS      list of Kind: a named scenario generator, fn(mon, rng), with the
             number of executions per tier
  REQUIRED   {clause: minimum evaluations}: a run in which a deciding monitor
             was reached fewer times than that is inconclusive
  RULE, ASSUMPTIONS   texts for the evidence file

Each execution of a kind is identified by (kind, index, VERIF_SEED) and is
replayed from these three.  Verdicts are three-valued: held (exit 0), violated
(exit 1 with a VIOLATION line), inconclusive or broken harness (exit 3).
"""
import argparse
import errno
import dataclasses
import hashlib
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

from vlib import boot

MAX_WITNESSES = 3  # per clause and worker


class Abort(Exception):
  """Ends the current execution after a violation has been recorded."""


@dataclasses.dataclass
class Kind:
  name: str
  fn: object
  quick: int
  thorough: int


def jsonable(x, depth=0):
  import numpy as np  # pylint: disable=g-import-not-at-top

  if depth > 6:
    return repr(x)[:200]
  if isinstance(x, (str, int, bool)) or x is None:
    return x
  if isinstance(x, float):
    return x if x == x and abs(x) != float('inf') else repr(x)
  if isinstance(x, np.ndarray):
    if x.size > 60:
      return {
          'shape': list(x.shape),
          'dtype': str(x.dtype),
          'head': jsonable(x.reshape(-1)[:12].tolist(), depth + 1),
      }
    return jsonable(x.tolist(), depth + 1)
  if isinstance(x, np.generic):
    return jsonable(x.item(), depth + 1)
  if isinstance(x, dict):
    return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
  if isinstance(x, (list, tuple, set, frozenset)):
    return [jsonable(v, depth + 1) for v in list(x)[:60]]
  return repr(x)[:300]


class Monitor:
  """Collects what the monitors observed and every violation they saw."""

  def __init__(self):
    self.clauses = {}
    self.counts = {}
    self.maxima = {}
    self.states = set()
    self.samples = []
    self.violations = []
    self._witness_count = {}
    self.case = None
    self.executions = {}
    self.pending_sample = None

  def check(self, clause, ok, detail=None, finding=None):
    """One evaluation of a deciding monitor."""
    self.clauses[clause] = self.clauses.get(clause, 0) + 1
    if not ok:
      self.violate(clause, detail, finding)
    return bool(ok)

  def require(self, clause, ok, detail=None, finding=None):
    """As check, but the execution cannot usefully go on after a violation."""
    if not self.check(clause, ok, detail, finding):
      raise Abort()

  def violate(self, clause, detail=None, finding=None):
    if callable(detail):
      detail = detail()
    key = (clause, finding)
    self._witness_count[key] = self._witness_count.get(key, 0) + 1
    if self._witness_count[key] <= MAX_WITNESSES:
      self.violations.append(
          dict(
              clause=clause,
              finding=finding,
              detail=jsonable(detail),
              **(self.case or {}),
          )
      )

  def count(self, name, n=1):
    self.counts[name] = self.counts.get(name, 0) + int(n)

  def maximum(self, name, value):
    value = float(value)
    if value != value:
      return
    self.maxima[name] = max(self.maxima.get(name, float('-inf')), value)

  def state(self, *key):
    """Records a distinct non-trivial case or state, by its fingerprint."""
    h = hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest()
    self.states.add(h)

  def sample(self, **data):
    if self.pending_sample is None:
      self.pending_sample = jsonable(data)


def case_rng(seed, kind, index):
  import numpy as np  # pylint: disable=g-import-not-at-top

  return np.random.default_rng([int(seed), zlib.crc32(kind.encode()), index])


def _repo_frames(tb):
  root = os.path.realpath(os.path.join(boot.REPO, 'putting_dune'))
  return [
      f
      for f in traceback.extract_tb(tb)
      if os.path.realpath(f.filename).startswith(root)
  ]


def _unreadable(e):
  """Whether the monitor failed on what the code under test left for it."""
  if isinstance(e, AttributeError):
    return ' object has no ' in str(e)
  if isinstance(e, OSError):
    # A file that should be there, or that cannot be parsed (no errno); the
    # machine running out of something is not about the code under test.
    return e.errno in (None, errno.ENOENT, errno.ENOTDIR, errno.EISDIR)
  return not isinstance(
      e, (MemoryError, ImportError, NameError, AssertionError,
          subprocess.SubprocessError))


def run_case(mod, mon, kind, index, seed):
  """Runs one execution; exceptions out of the code under test are violations."""
  mon.case = dict(kind=kind.name, index=index, seed=seed)
  mon.executions[kind.name] = mon.executions.get(kind.name, 0) + 1
  rng = case_rng(seed, kind.name, index)
  try:
    kind.fn(mon, rng)
  except Abort:
    pass
  except Exception as e:  # pylint: disable=broad-exception-caught
    frames = _repo_frames(e.__traceback__)
    if not frames:
      # The monitor could not read what the code under test returned (missing
      # elements, wrong shape, None).  Anything else is the harness's own error.
      if _unreadable(e):
        mon.violate(
            'result has the expected form',
            traceback.format_exc(limit=-4)[-900:],
        )
        return
      raise
    last = frames[-1]
    finding = None
    classify = getattr(mod, 'classify_exception', None)
    if classify is not None:
      finding = classify(kind.name, e, last)
    mon.violate(
        'no unexpected exception',
        dict(
            exception=f'{type(e).__name__}: {e}'[:500],
            where=f'{os.path.basename(last.filename)}:{last.lineno} in'
            f' {last.name}',
        ),
        finding,
    )
  mon.clauses['no unexpected exception'] = (
      mon.clauses.get('no unexpected exception', 0) + 1
  )
  if mon.pending_sample is not None:
    if (
        sum(s.get('kind') == kind.name for s in mon.samples) < 1
        and len(mon.samples) < 8
    ):
      mon.samples.append(dict(mon.case, case=mon.pending_sample))
    mon.pending_sample = None


def load(pid):
  import importlib  # pylint: disable=g-import-not-at-top

  return importlib.import_module('checks.' + pid.lower())


def schedule(mod, tier):
  """All executions, each kind spread evenly over the whole schedule."""
  items = []
  for order, kind in enumerate(mod.KINDS):
    n = getattr(kind, tier)
    for i in range(n):
      items.append(((i + 0.5) / n, order, kind, i))
  items.sort(key=lambda t: (t[0], t[1]))
  return [(k, i) for _, _, k, i in items]


def worker_main(pid, tier, seed, shard, shards, out, soft_s):
  boot.install()
  start = time.time()
  mod = load(pid)
  if hasattr(mod, 'setup'):
    mod.setup(shard)
  mon = Monitor()
  todo = schedule(mod, tier)[shard::shards]
  skipped = 0
  kind_s = {}
  for kind, index in todo:
    if time.time() - start > soft_s:
      skipped += 1
      continue
    t0 = time.time()
    run_case(mod, mon, kind, index, seed)
    kind_s[kind.name] = kind_s.get(kind.name, 0.0) + time.time() - t0
  result = dict(
      clauses=mon.clauses,
      counts=mon.counts,
      maxima=mon.maxima,
      states=sorted(mon.states),
      samples=mon.samples,
      violations=mon.violations,
      executions=mon.executions,
      skipped=skipped,
      kind_s=kind_s,
  )
  tmp = out + '.tmp'
  with open(tmp, 'w') as fp:
    json.dump(result, fp)
  os.rename(tmp, out)


def known_findings(pid):
  """{key: text} of the listed, unrepaired findings of a property."""
  path = os.path.join(boot.VERIF, 'known_findings.txt')
  found = {}
  if os.path.exists(path):
    with open(path) as fp:
      for line in fp:
        m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
        if m and m.group(1) == pid:
          found[m.group(2)] = m.group(3)
  return found


def main(argv=None):
  p = argparse.ArgumentParser()
  p.add_argument('property')
  p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
  p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
  p.add_argument('--workers', type=int, default=0)
  p.add_argument('--replay')
  p.add_argument('--kind')
  p.add_argument('--index', type=int)
  p.add_argument('--verbose', action='store_true')
  p.add_argument('--worker', nargs=3, help=argparse.SUPPRESS)
  args = p.parse_args(argv)
  pid = args.property

  if args.worker:
    shard, shards, out = int(args.worker[0]), int(args.worker[1]), args.worker[2]
    worker_main(
        pid, args.tier, args.seed, shard, shards, out,
        float(os.environ['VERIF_SOFT_S']),
    )
    return 0

  started = time.time()
  scratch = tempfile.mkdtemp(prefix='verif-' + pid.lower() + '-')
  os.makedirs(os.path.join(scratch, 'tmp'))
  try:
    try:
      boot.generate_protos(scratch)
    except subprocess.CalledProcessError as e:
      print('HARNESS-ERROR: protoc failed:', e)
      return 3
    env = boot.worker_env(scratch)
    if args.replay or args.kind:
      return replay_main(args, env)
    return run_all(args, pid, scratch, env, started)
  finally:
    shutil.rmtree(scratch, ignore_errors=True)


def replay_main(args, env):
  kind, index, seed = args.kind, args.index, args.seed
  if args.replay:
    with open(args.replay) as fp:
      rep = json.load(fp)
    kind, index, seed = rep['kind'], rep['index'], rep['seed']
  code = (
      'import sys; sys.path.insert(0, %r)\n'
      'from vlib import harness, boot\n'
      'boot.install()\n'
      'mod = harness.load(%r)\n'
      'if hasattr(mod, "setup"): mod.setup(0)\n'
      'mon = harness.Monitor()\n'
      'kind = [k for k in mod.KINDS if k.name == %r][0]\n'
      'harness.run_case(mod, mon, kind, %d, %d)\n'
      'import json\n'
      'print(json.dumps(dict(violations=mon.violations, clauses=mon.clauses,'
      ' counts=mon.counts, maxima=mon.maxima), indent=1))\n'
      'sys.exit(1 if mon.violations else 0)\n'
  ) % (boot.VERIF, args.property, kind, index, seed)
  return subprocess.run([boot.PYTHON, '-c', code], env=env, check=False).returncode


def run_all(args, pid, scratch, env, started):
  workers = args.workers or int(os.environ.get('VERIF_WORKERS') or 8)
  hard_s = 820 if args.tier == 'quick' else 6 * 3600
  env['VERIF_SOFT_S'] = str(
      float(os.environ.get('VERIF_SOFT_S') or (420 if args.tier == 'quick' else 3000))
  )
  procs = []
  for shard in range(workers):
    out = os.path.join(scratch, f'out{shard}.json')
    log = open(os.path.join(scratch, f'log{shard}.txt'), 'w')
    procs.append((
        out,
        subprocess.Popen(
            [
                boot.PYTHON, os.path.join(boot.VERIF, 'run_check.py'), pid,
                '--tier', args.tier, '--seed', str(args.seed),
                '--worker', str(shard), str(workers), out,
            ],
            env=env,
            cwd=scratch,
            stdout=log,
            stderr=subprocess.STDOUT,
        ),
    ))
  dead = []
  for shard, (out, proc) in enumerate(procs):
    try:
      proc.wait(max(5.0, hard_s - (time.time() - started)))
    except subprocess.TimeoutExpired:
      proc.kill()
      proc.wait()
      dead.append((shard, 'watchdog'))
      continue
    if proc.returncode != 0 or not os.path.exists(out):
      dead.append((shard, f'exit {proc.returncode}'))
  merged = dict(
      clauses={}, counts={}, maxima={}, states=set(), samples=[], violations=[],
      executions={}, skipped=0, kind_s={},
  )
  for shard, (out, _) in enumerate(procs):
    if not os.path.exists(out):
      continue
    with open(out) as fp:
      r = json.load(fp)
    for k in ('clauses', 'counts', 'executions', 'kind_s'):
      for n, v in r[k].items():
        merged[k][n] = merged[k].get(n, 0) + v
    for n, v in r['maxima'].items():
      merged['maxima'][n] = max(v, merged['maxima'].get(n, float('-inf')))
    merged['states'].update(r['states'])
    merged['violations'] += r['violations']
    merged['skipped'] += r['skipped']
    for s in r['samples']:
      if sum(t['kind'] == s['kind'] for t in merged['samples']) < 1:
        merged['samples'].append(s)

  # Evidence texts and minimum counts come from the check module; a subprocess
  # reads them, so that this process never imports the code under test.
  meta = json.loads(
      subprocess.run(
          [
              boot.PYTHON, '-c',
              'import sys; sys.path.insert(0, %r)\n'
              'import ast, json\n'
              'tree = ast.parse(open(%r).read())\n'
              'd = {}\n'
              'for n in tree.body:\n'
              '  if isinstance(n, ast.Assign) and n.targets[0].id in'
              ' ("RULE", "ASSUMPTIONS", "REQUIRED", "LEVEL"):\n'
              '    d[n.targets[0].id] = ast.literal_eval(n.value)\n'
              'print(json.dumps(d))\n'
              % (boot.VERIF, os.path.join(boot.VERIF, 'checks', pid.lower() + '.py')),
          ],
          check=True, capture_output=True, text=True,
      ).stdout
  )

  known = known_findings(pid)
  observed_known, new = {}, []
  for v in merged['violations']:
    if v['finding'] and v['finding'] in known:
      observed_known.setdefault(v['finding'], v)
    else:
      new.append(v)

  evidence = dict(
      property=pid,
      tier=args.tier,
      seed=args.seed,
      level=meta.get('LEVEL', 'exploration'),
      coverage=dict(
          evaluations=sum(merged['executions'].values()),
          distinct_nontrivial=len(merged['states']),
          rule=meta['RULE'],
          samples=merged['samples'] or ['none'],
          executions_per_scenario=merged['executions'],
          monitor_evaluations=merged['clauses'],
          observed=merged['counts'],
          maxima=merged['maxima'],
          scenario_seconds={k: round(v, 1) for k, v in merged['kind_s'].items()},
          executions_skipped_for_time=merged['skipped'],
      ),
      assumptions=meta.get('ASSUMPTIONS', []),
      wall_s=round(time.time() - started, 2),
      violations=len(new),
  )
  out_dir = os.environ.get('VERIF_EVIDENCE_DIR') or os.path.join(boot.VERIF, 'evidence')
  os.makedirs(out_dir, exist_ok=True)
  with open(os.path.join(out_dir, pid + '.json'), 'w') as fp:
    json.dump(evidence, fp, indent=1, sort_keys=True)
    fp.write('\n')

  for key, text in known.items():
    if key in observed_known:
      print(f'KNOWN-FINDING: property={pid} {text}')
  if args.verbose:
    print(json.dumps(evidence['coverage'], indent=1)[:6000])

  if new:
    replay_dir = os.path.join(out_dir, 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    seen = set()
    for v in new:
      if v['clause'] in seen:
        continue
      seen.add(v['clause'])
      slug = re.sub(r'[^a-z0-9]+', '-', v['clause'].lower()).strip('-')[:48]
      path = os.path.join(replay_dir, f'{pid}-{slug}.json')
      with open(path, 'w') as fp:
        json.dump(dict(property=pid, tier=args.tier, **v), fp, indent=1)
        fp.write('\n')
      print(
          f'  {v["clause"]}: kind={v["kind"]} index={v["index"]}'
          f' {json.dumps(v["detail"])[:700]}'
      )
      print(f'VIOLATION property={pid} replay={path}')
    return 1
  if dead:
    for shard, why in dead:
      print(f'HARNESS-ERROR: worker {shard}: {why}')
      with open(os.path.join(scratch, f'log{shard}.txt')) as fp:
        print(fp.read()[-3000:])
    return 3
  missing = {
      c: (merged['clauses'].get(c, 0) + merged['counts'].get(c, 0), n)
      for c, n in meta.get('REQUIRED', {}).items()
      if merged['clauses'].get(c, 0) + merged['counts'].get(c, 0) < n
  }
  if missing:
    print(f'INCONCLUSIVE property={pid}: monitors not reached enough: {missing}')
    return 3
  print(
      f'HELD property={pid} executions={evidence["coverage"]["evaluations"]}'
      f' monitor_evaluations={sum(merged["clauses"].values())}'
      f' distinct={len(merged["states"])} wall={evidence["wall_s"]}s'
  )
  return 0
