"""C32: cached model weights are complete or absent, whatever interrupted them."""
import hashlib
import json
import os
import pathlib
import shutil
import subprocess
import tempfile
import zipfile

import numpy as np

from vlib import boot
from vlib.harness import Kind

PROPERTY = 'C32'
RULE = (
    'The package is copied to a scratch directory, and its users of model'
    ' weights (image aligner, atom detector, pretrained agents of the registry'
    ' and the extraction itself) run there in processes of their own against'
    ' random archives (nested, empty and large members). Each use is killed'
    ' or failed at every one of its file-system operations in turn, in the'
    ' middle of writing a file, and by broken, truncated, wrong and refused'
    ' downloads, sometimes several faults in a row, or meets a second process'
    ' at one of its operations; a later undisturbed use'
    ' must load the complete model. Non-trivial: a fault was delivered;'
    ' distinct by target, fault and archive.'
)
ASSUMPTIONS = [
    'A crash loses the process, not data already handed to the file system.',
    'At most two processes use a cache at a time, one of them within a single'
    ' pause of the other, at any of its file-system operations.',
    'Loading is observed by replacing tf.saved_model.load and at model_path.',
]
REQUIRED = {
    'undisturbed use loads the complete model': 7, 'cached model is used again without the source': 7,
    'use after an interruption loads the complete model': 150, 'failure is reported': 35,
    'processes at the same time load their model or say so': 100, 'both find complete models later': 50,
    'a model being replaced is loaded complete or not at all': 20,
    'never loads an incomplete model': 240, 'nothing else is left behind': 7,
    'reload replaces the model': 2, 'interrupted reload leaves a complete model': 15,
}

AGENTS = {
    'ppo_simple_images_tf': 'ppo_simple_images_tf', 'ppo_learned_tf_2s': '230127_from_state_2s',
    'ppo_learned_tf_3s': '230127_from_state_3s', 'ppo_learned_tf_4s': '230127_from_state_4s',
    'ppo_v3_2s': '230422_ppo_v3_2s', 'ppo_v3_3s': '230422_ppo_v3_3s', 'ppo_v3_4s': '230422_ppo_v3_4s',
}


class Child:
  """The process that serves uses of the cache from a scratch copy."""

  def __init__(self, root):
    self.root = root
    self.workdir = os.path.join(root, 'work')
    repo = os.path.join(root, 'repo')
    shutil.copytree(
        os.path.join(boot.REPO, 'putting_dune'), os.path.join(repo, 'putting_dune'),
        ignore=shutil.ignore_patterns('*_test.py', 'model_weights', '__pycache__', '*.zip'))
    pb = os.path.join(os.environ['VERIF_SCRATCH'], 'pb')
    shutil.copytree(pb, os.path.join(root, 'pb'))
    env = dict(os.environ, VERIF_REPO=repo, VERIF_SCRATCH=root)
    env['TMPDIR'] = os.path.join(root, 'tmp')
    os.makedirs(env['TMPDIR'])
    self.log = open(os.path.join(root, 'log'), 'wb')
    self.p = subprocess.Popen(
        [boot.PYTHON, os.path.join(boot.VERIF, 'vlib', 'weights_child.py')], cwd=root, env=env,
        stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log)

  def ask(self, **request):
    request.setdefault('workdir', self.workdir)
    request.setdefault('mode', 'none')
    self.p.stdin.write((json.dumps(request) + '\n').encode())
    self.p.stdin.flush()
    line = self.p.stdout.readline()
    if not line:
      self.log.flush()
      raise RuntimeError('cache process ended: ' + pathlib.Path(self.log.name).read_text()[-2000:])
    out = json.loads(line)
    if out['status'] >> 8 == 99:
      self.log.flush()
      raise RuntimeError('cache use broke: ' + pathlib.Path(self.log.name).read_text()[-2000:])
    return out

  def close(self):
    self.p.stdin.close()
    try:
      self.p.wait(30)
    except subprocess.TimeoutExpired:
      self.p.kill()
      self.p.wait()
    self.p.stdout.close()
    self.log.close()


def archive(rng, path, name):
  """A random model archive; returns what a complete extraction holds."""
  want = {}
  n = int(rng.integers(2, 7))
  members = []
  for i in range(n):
    parts = [str(rng.choice(['variables', 'assets', 'a b', 'x'])) for _ in range(int(rng.integers(0, 3)))]
    size = int(rng.choice([0, 1, 100, 5_000, 60_000, 200_000]))
    members.append(('/'.join(parts + [f'file{i}.bin']), rng.bytes(size)))
  members.append(('saved_model.pb', rng.bytes(3000)))
  # The file that tells a model from a directory comes first, last or between.
  if rng.random() < 0.5:
    members = [members[-1]] + members[:-1]
  kind = zipfile.ZIP_DEFLATED if rng.random() < 0.5 else zipfile.ZIP_STORED
  directories = bool(rng.random() < 0.5)
  with zipfile.ZipFile(path, 'w', kind) as z:
    if directories:
      z.writestr(name + '/', b'')
      z.writestr(name + '/empty/', b'')
      want['empty/'] = ''
    for member, data in members:
      z.writestr(f'{name}/{member}', data)
      want[member] = hashlib.sha1(data).hexdigest()
      parts = member.split('/')[:-1]
      for i in range(len(parts)):
        want['/'.join(parts[:i + 1]) + '/'] = ''
  return want, members


def intact(path):
  try:
    with zipfile.ZipFile(path) as z:
      return z.testzip() is None
  except Exception:  # pylint: disable=broad-except
    return False


def use(mon, rng):
  root = tempfile.mkdtemp(dir=os.environ['VERIF_SCRATCH'], prefix='c32-')
  child = Child(root)
  try:
    for target in ['extract', 'aligner', 'detector', 'agent']:
      cache(mon, rng, child, root, target)
    reload(mon, rng, child, root)
  finally:
    child.close()
    shutil.rmtree(root)


def cache(mon, rng, child, root, target):
  """All crash points of one user of the cache, with one archive."""
  base = dict(target=target)
  if target == 'extract':
    name = str(rng.choice(['model', 'image-alignment-model', 'v1.2']))
    base.update(name=name, stream=bool(rng.random() < 0.5))
  elif target == 'aligner':
    name = 'image-alignment-model'
    base.update(default_workdir=bool(rng.random() < 0.3))
  elif target == 'detector':
    name = 'atom-detection-model'
  else:
    base['experiment'] = str(rng.choice(sorted(AGENTS)))
    name = AGENTS[base['experiment']]
  good = os.path.join(root, 'good.zip')
  want, members = archive(rng, good, name)
  base['zip'] = good
  online = target in ('detector', 'agent')

  first = child.ask(clear=True, **base)
  mon.require('undisturbed use loads the complete model', first['error'] is None and first['loaded'] == want,
              lambda: dict(target=target, answer=first, want=want))
  if not (target == 'extract' or (target == 'aligner' and not base['default_workdir'])):
    left = [c for c in first['cache'].values() if c is not None]
  else:
    left = [sorted(os.listdir(os.path.join(child.workdir, 'model_weights')))]
  mon.check('nothing else is left behind', left == [[name]], lambda: dict(target=target, left=left))
  if target != 'extract':
    # From now on the source is not needed.
    again = child.ask(offline=True, **dict(base, zip=good if target == 'aligner' else '/nonexistent/model.zip'))
    mon.check('cached model is used again without the source',
              again['error'] is None and again['loaded'] == want and not again['served'],
              lambda: dict(target=target, answer=again))
  else:
    again = child.ask(**base)
    mon.check('extraction can be repeated', again['error'] is None and again['loaded'] == want, lambda: dict(answer=again))
  steps = first['steps']
  mon.maximum('file-system operations of one use', steps)

  def after(fault, answers):
    for a in answers:
      mon.check('never loads an incomplete model', a.get('loaded') in (None, want),
                lambda: dict(target=target, fault=fault, loaded=a.get('loaded'), want=want))
    if rng.random() < 0.3 and target != 'extract':
      # What survived works without the source, or the lack of it is reported.
      off = child.ask(offline=True, **dict(base, zip=good if target == 'aligner' else '/nonexistent/model.zip'))
      mon.check('never loads an incomplete model', off['loaded'] in (None, want) and (off['loaded'] == want or off['error']),
                lambda: dict(target=target, fault=fault, answer=off))
    then = child.ask(**base)
    mon.check('use after an interruption loads the complete model', then['error'] is None and then['loaded'] == want,
              lambda: dict(target=target, fault=fault, answer=then, want=want))
    mon.count('faults delivered', len(answers))
    mon.state((target, str(fault), len(members)))

  for mode in ('kill', 'error'):
    for at in range(steps):
      a = child.ask(clear=True, **dict(base, mode=mode, at=at))
      if mode == 'kill':
        mon.require('killed', a['died'], lambda: dict(answer=a))
      else:
        mon.check('a failed use loads the model or says so', bool(a['error']) or a['loaded'] == want,
                  lambda: dict(target=target, at=at, answer=a))
        if a['error']:
          mon.check('failure is reported', a['loaded'] is None, None)
      after([mode, at], [a])
  # Another process uses the cache while this one is at any of its operations.
  for at in range(steps):
    other = dict(base, mode='none', workdir=child.workdir)
    other_want = want
    if target == 'agent' and at % 2:
      # Another agent, whose archive is another one.
      other['experiment'] = str(rng.choice(sorted(set(AGENTS) - {base['experiment']})))
      other_name = AGENTS[other['experiment']]
      other['zip'] = os.path.join(root, 'other.zip')
      other_want = archive(rng, other['zip'], other_name)[0] if other_name != name else want
      if other_name == name:
        other['zip'] = good
    a = child.ask(clear=True, mode='meet', at=at, other=other, **base)
    b = a.get('other') or {}
    mon.require('two processes met', 'loaded' in b, lambda: dict(target=target, at=at, answer=a))
    for mine, its in ((a, want), (b, other_want)):
      mon.check('processes at the same time load their model or say so',
                mine['loaded'] == its if not mine['error'] else mine['loaded'] in (None, its),
                lambda: dict(target=target, at=at, error=mine['error'], loaded=mine['loaded'], want=its))
    then = child.ask(**other)
    mon.check('both find complete models later', then['error'] is None and then['loaded'] == other_want,
              lambda: dict(target=target, at=at, answer=then, want=other_want))
    after(['meet', at], [a])
  # In the middle of a file, several times in a row.
  for _ in range(4):
    mode = str(rng.choice(['kill', 'error']))
    answers = []
    for i in range(int(rng.integers(1, 4))):
      answers.append(child.ask(clear=(i == 0), **dict(
          base, mode=mode, fsize=int(rng.choice([1, 50, 2999, 4096, 50_000, 150_000])))))
    after([mode, 'mid-file'], answers)
  # A source that is not there, cut short, corrupted, or of another model.
  with open(good, 'rb') as f:
    data = f.read()
  bad = os.path.join(root, 'bad.zip')
  for kind in ('cut', 'flip', 'other', 'missing', 'broken connection', 'offline'):
    change = dict(zip=bad)
    if kind == 'cut':
      pathlib.Path(bad).write_bytes(data[:int(rng.integers(0, len(data) - 30))])
    elif kind == 'flip':
      # Inside the data of the last non-empty member: noticed only late.
      with zipfile.ZipFile(good) as z:
        info = [i for i in z.infolist() if i.file_size][-1]
        header = info.header_offset + 30 + len(info.filename)
      at = header + int(rng.integers(0, info.compress_size))
      pathlib.Path(bad).write_bytes(data[:at] + bytes([data[at] ^ 0x40]) + data[at + 1:])
      if intact(bad):
        continue  # A bit without meaning, such as padding.
    elif kind == 'other':
      archive(rng, bad, 'another-model')
    elif kind == 'missing':
      change = dict(zip=os.path.join(root, 'missing.zip'))
    elif not online:
      continue
    elif kind == 'broken connection':
      change = dict(cut=float(rng.uniform(0, 0.99)))
    else:
      change = dict(offline=True)
    a = child.ask(clear=True, **dict(base, **change))
    mon.check('failure is reported', bool(a['error']) and a['loaded'] is None,
              lambda: dict(target=target, source=kind, answer=a))
    after(['source', kind], [a])
  mon.sample(target=target, files=len(members), bytes=len(data), operations=steps)


def reload(mon, rng, child, root):
  """A newer archive replaces the cached model, or leaves a complete one."""
  name = 'image-alignment-model'
  old_zip, new_zip = os.path.join(root, 'old.zip'), os.path.join(root, 'new.zip')
  old, _ = archive(rng, old_zip, name)
  new, members = archive(rng, new_zip, name)
  base = dict(target='aligner')
  child.ask(clear=True, zip=old_zip, **base)
  kept = child.ask(zip=new_zip, **base)
  mon.check('without reload the cached model stays', kept['loaded'] == old, None)
  a = child.ask(zip=new_zip, reload=True, **base)
  mon.require('reload replaces the model', a['error'] is None and a['loaded'] == new, lambda: dict(answer=a))
  steps = a['steps']
  for mode in ('kill', 'error'):
    for at in range(steps):
      child.ask(clear=True, zip=old_zip, **base)
      child.ask(zip=new_zip, reload=True, mode=mode, at=at, **base)
      then = child.ask(zip=new_zip, **base)
      mon.check('interrupted reload leaves a complete model', then['error'] is None and then['loaded'] in (old, new),
                lambda: dict(mode=mode, at=at, answer=then, old=old, new=new))
      mon.count('faults delivered')
      mon.state(('reload', mode, at, len(members)))
  for at in range(steps):
    # Another process loads the model while it is being replaced.
    child.ask(clear=True, zip=old_zip, **base)
    other = dict(base, zip=new_zip, mode='none', workdir=child.workdir)
    a = child.ask(zip=new_zip, reload=True, mode='meet', at=at, other=other, **base)
    b = a.get('other') or {}
    mon.require('two processes met', 'loaded' in b, lambda: dict(at=at, answer=a))
    then = child.ask(zip=new_zip, **base)
    for mine in (a, b, then):
      mon.check('a model being replaced is loaded complete or not at all',
                mine['loaded'] in (old, new) if not mine['error'] else mine['loaded'] is None,
                lambda: dict(at=at, error=mine['error'], loaded=mine['loaded'], old=old, new=new))
    mon.state(('reload', 'meet', at, len(members)))
  bad = os.path.join(root, 'bad.zip')
  pathlib.Path(bad).write_bytes(pathlib.Path(new_zip).read_bytes()[:-40])
  child.ask(clear=True, zip=old_zip, **base)
  a = child.ask(zip=bad, reload=True, **base)
  then = child.ask(zip=new_zip, **base)
  mon.check('a refused reload leaves the model', bool(a['error']) and then['loaded'] in (old, new), lambda: dict(answer=a, then=then))


KINDS = [Kind('use', use, 4, 40)]
