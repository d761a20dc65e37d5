"""C03: record files."""
import os
import pathlib
import tempfile

from etils import epath
import numpy as np

from vlib import gen
from vlib.harness import Kind
from checks import c02
from putting_dune import io as pdio
from putting_dune import microscope_utils as mu

PROPERTY = 'C03'
RULE = (
    'Histories of writes and reads of record files in a scratch directory:'
    ' 0-200 records, raw byte strings (empty, 1 byte, 200 kB, all byte values)'
    ' and every model type, written from lists, tuples and one-shot generators'
    ' through str, pathlib and epath paths, with overwriting by shorter'
    ' sequences, interleaved readers and abandoned readers, and reading of files'
    ' cut short or with a flipped bit. Each record carries'
    ' a unique id. Non-trivial: at least one record; distinct by content'
    ' fingerprint.'
)
ASSUMPTIONS = [
    'Local file system; the process is not killed while writing.',
    'A file cut between two records, or (TensorFlow ignores these) within the 12'
    ' bytes that start a record, is a file of the records before the cut.',
]
REQUIRED = {
    'records read are the records written': 120, 'typed records round trip': 60,
    'rewriting replaces the file': 35, 'independent readers': 35,
    'unknown extension is rejected': 20, 'each record is drawn once': 30,
    'a damaged file is an error': 90,
}


def payload(rng, i):
  k = rng.integers(0, 6)
  tag = i.to_bytes(4, 'little')
  if k == 0:
    return tag
  if k == 1:
    return tag + bytes(range(256))
  if k == 2:
    return tag + b'\x00' * int(rng.integers(1, 50))
  if k == 3:
    return tag + rng.bytes(int(rng.integers(1, 200_000)))
  return tag + rng.bytes(int(rng.integers(0, 300)))


def path_like(rng, p):
  return [str(p), pathlib.Path(p), epath.Path(p)][rng.integers(0, 3)]


def source(rng, items, drawn):
  def once():
    for i in items:
      drawn.append(1)
      yield i

  return [list(items), tuple(items), once()][rng.integers(0, 3)]


def raw(mon, rng):
  with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'name.with.dots.tfrecords')
    previous = None
    for _ in range(int(rng.integers(1, 4))):
      n = int(rng.choice([0, 1, 2, 7, 50, 200]))
      items = [payload(rng, i) for i in range(n)]
      if n and rng.random() < 0.3:
        items[rng.integers(0, n)] = b''
      if n > 2 and rng.random() < 0.5:
        items[1] = items[0]  # a repeated record is still a record
      drawn = []
      src = source(rng, items, drawn)
      is_gen = not isinstance(src, (list, tuple))
      pdio.write_records(path_like(rng, p), src)
      if is_gen:
        mon.check('each record is drawn once', len(drawn) == n, lambda: dict(drawn=len(drawn), n=n))
      got = list(pdio.read_records(path_like(rng, p)))
      mon.check('records read are the records written', got == items,
                lambda: dict(n=n, got=len(got), first_difference=next((i for i, (a, b) in enumerate(zip(got, items)) if a != b), None)))
      if previous is not None:
        mon.check('rewriting replaces the file', got == items, lambda: dict(previous=previous, n=n, got=len(got)))
      previous = n
      mon.count('records', n)
      if n:
        mon.state(gen.digest(items))
      mon.sample(records=n, bytes=sum(map(len, items)))
    # Two readers at different positions, one abandoned.
    a = pdio.read_records(p)
    b = pdio.read_records(p)
    got_b = []
    for i, item in enumerate(b):
      got_b.append(item)
      if i < 2:
        next(a, None)
    mon.check('independent readers', got_b == items, lambda: dict(n=len(items), got=len(got_b)))
    del a
    mon.check('only the target file exists', os.listdir(d) == ['name.with.dots.tfrecords'], os.listdir(d))


def typed(mon, rng):
  with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'x.tfrecords')
    n = int(rng.choice([0, 1, 2, 6]))
    k = rng.integers(0, 4)
    if k == 0:
      cls, items, same = mu.AtomicGrid, [gen.grid(rng, n=i) for i in range(n)], c02.same_grid
    elif k == 1:
      cls, items, same = mu.MicroscopeObservation, [gen.observation(rng, n=i) for i in range(n)], c02.same_observation
    elif k == 2:
      cls = mu.Transition
      same = c02.same_transition
      items = [
          mu.Transition(gen.grid(rng, i, 2), gen.grid(rng, i, 2), gen.fov(rng), gen.fov(rng), gen.controls(rng),
                        gen.maybe(rng, gen.image), gen.maybe(rng, gen.image))
          for i in range(n)
      ]
    else:
      cls = mu.Trajectory
      items = [
          mu.Trajectory(tuple(gen.observation(rng, n=j) for j in range(int(rng.integers(0, 4)))))
          for _ in range(n)
      ]
      same = lambda a, b: len(a.observations) == len(b.observations) and all(
          c02.same_observation(x, y) for x, y in zip(a.observations, b.observations))
    drawn = []
    pdio.write_records(path_like(rng, p), source(rng, items, drawn))
    got = list(pdio.read_records(path_like(rng, p), cls))
    mon.check('typed records round trip',
              len(got) == n and all(isinstance(g, cls) and same(i, g) for i, g in zip(items, got)),
              lambda: dict(type=cls.__name__, n=n, got=len(got)))
    raw_records = list(pdio.read_records(p))
    mon.check('records read are the records written',
              [cls.from_proto_string(r).to_proto().SerializeToString(deterministic=True) for r in raw_records]
              == [g.to_proto().SerializeToString(deterministic=True) for g in got],
              lambda: dict(type=cls.__name__))
    # Models and already serialised models may be mixed.
    mixed = [i if rng.random() < 0.5 else i.to_proto().SerializeToString() for i in items]
    pdio.write_records(p, mixed)
    got = list(pdio.read_records(p, cls))
    mon.check('typed records round trip', len(got) == n and all(same(i, g) for i, g in zip(items, got)),
              lambda: dict(type=cls.__name__, n=n, mixed=True))
    mon.count('typed records', n)
    if n:
      mon.state(cls.__name__, gen.digest(raw_records))


def extension(mon, rng):
  with tempfile.TemporaryDirectory() as d:
    name = ['a.recordio', 'a', 'a.tfrecord', 'tfrecords', 'a.tfrecords.gz', 'a.TFRECORDS'][rng.integers(0, 6)]
    p = os.path.join(d, name)
    raised = False
    try:
      pdio.write_records(path_like(rng, p), [b'x'])
    except ValueError:
      raised = True
    mon.check('unknown extension is rejected', raised and os.listdir(d) == [], dict(name=name, files=os.listdir(d)))
    with open(p, 'wb') as fp:
      fp.write(b'x')
    raised = False
    try:
      list(pdio.read_records(path_like(rng, p)))
    except ValueError:
      raised = True
    mon.check('unknown extension is rejected', raised, dict(name=name))
    mon.state(name)


def damage(mon, rng):
  """A file cut short or altered is an error, not a file of other records."""
  with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'x.tfrecords')
    items = [payload(rng, i)[:2000] for i in range(int(rng.choice([1, 2, 7, 30])))]
    pdio.write_records(p, items)
    with open(p, 'rb') as fp:
      data = bytearray(fp.read())
    ends = np.cumsum([len(i) + 16 for i in items])
    for _ in range(4):
      bad = bytearray(data)
      if rng.random() < 0.5:
        at = int(rng.integers(1, len(data)))
        del bad[at:]
        silent = at - max([e for e in ends if e <= at], default=0) < 12
      else:
        at, silent = int(rng.integers(0, len(data))), False
        bad[at] ^= 1 << int(rng.integers(0, 8))
      with open(p, 'wb') as fp:
        fp.write(bad)
      got, failed = [], False
      try:
        for record in pdio.read_records(path_like(rng, p)):
          got.append(record)
      except Exception:  # pylint: disable=broad-except
        failed = True
      mon.check('a damaged file is an error', (failed or silent and len(got) == (ends <= at).sum()) and got == items[:len(got)],
                lambda: dict(length=len(data), now=len(bad), at=at, records=len(items), got=len(got), failed=failed))
      mon.state('damage', bytes(bad[:at + 1][-64:]), at)


KINDS = [
    Kind('raw', raw, 120, 3000),
    Kind('typed', typed, 120, 3000),
    Kind('extension', extension, 40, 200),
    Kind('damage', damage, 40, 1000),
]
