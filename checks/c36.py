"""C36: recordings of the microscope become the trajectories that were recorded."""
import contextlib
import io as stdio
import json
import os
import pathlib
import shutil
import struct
import sys
import tempfile
import types
import zipfile

import numpy as np

from vlib import boot
from vlib.harness import Kind
from putting_dune import microscope_utils as mu

boot.stub_optional_modules()


class RecordWriter:
  """riegeli.RecordWriter as far as the package uses it: frames in a stream."""

  def __init__(self, dest, **unused_kw):
    self.dest, self.pending = dest, []

  def write_record(self, record):
    assert isinstance(record, bytes), type(record)
    self.pending.append(struct.pack('<Q', len(record)) + record)

  def close(self):
    self.dest.write(b''.join(self.pending))
    self.pending = []

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.close()


setattr(sys.modules['riegeli'], 'RecordWriter', RecordWriter)

from putting_dune.pipeline import upload_microscope_data as umd  # pylint: disable=g-import-not-at-top,wrong-import-position

PROPERTY = 'C36'
RULE = (
    'Recordings in the form the microscope stores them (a zip of an array and'
    ' JSON), with 1 to 14 frames, padding, shuffled frame numbers, label images'
    ' of a coarser size, frames with and without dopants, with all or a part of'
    ' their beam keys missing, drifting views and one or no channel axis;'
    ' trees of recordings whose directories nest, contain dots, share prefixes,'
    ' or are broken, uploaded to a stand-in for the storage service. The records'
    ' are read back with the trajectory class. Non-trivial: more than three'
    ' frames.'
)
ASSUMPTIONS = [
    'Field of view constant within a recording; square images.',
    'riegeli is not installed: records are framed by a stand-in that leaves the stream open.',
]
REQUIRED = {
    'loaded coordinates are in pixels of the image': 60, 'one observation per frame': 60, 'atoms are where they were recorded': 200,
    'silicon is where the dopants are': 200, 'the view follows the recorded shifts': 200, 'controls are those recorded': 200,
    'controls survive the way to the material': 60, 'images are those recorded': 200, 'elapsed time is dwell and imaging time': 200,
    'every recording is uploaded once under its own name': 15, 'uploaded records are the recordings': 20, 'broken recordings do not stop others': 4,
    'nothing to upload is an error': 2,
}
BEAM_KEYS = ['Blast coordinates', 'Beam location', 'Beam dwelltime', 'ADF intensities', 'Pixelshifts']


def recording(rng, frames=None):
  """A recording: what was true, and the two files that say so."""
  n = frames or int(rng.choice([1, 2, 3, 4, 5, 6, 8, 11, 14]))
  label = int(rng.choice([8, 16, 32]))
  factor = float(rng.choice([1, 2, 4, 1.5, 2.25]))
  size = int(label * factor)
  channels = bool(rng.random() < 0.4)
  pad = int(rng.integers(0, 3))
  fov = float(rng.uniform(1, 5))
  dtype = rng.choice(['f4', 'u1'])
  images = rng.integers(0, 256, (n + pad, size, size) + ((1,) if channels else ())).astype(dtype)
  labels = rng.integers(0, 2, (n + pad, label, label) + ((int(rng.integers(1, 4)),) if rng.random() < 0.4 else ())).astype('u1')
  first = int(rng.integers(0, n))
  truth, meta = [], {}
  for t in range(n):
    atoms = rng.uniform(0, label, (int(rng.integers(1, 12)), 2))
    full = bool(rng.random() < 0.75)
    k = int(rng.integers(1, min(3, len(atoms)) + 1))
    which = rng.choice(len(atoms), k, replace=False)
    beam = rng.uniform(0, label, 2)
    dwell = float(np.round(rng.uniform(0.1, 20), 3)) if rng.random() < 0.7 else int(rng.integers(1, 20))
    shift = rng.integers(-5, 6, 2) if rng.random() < 0.5 else rng.normal(size=2)
    entry = {'All coordinates': {'0': np.hstack([atoms, rng.integers(0, 3, (len(atoms), 1))]).tolist() if rng.random() < 0.3 else atoms.tolist()},
             'All parameters': {'image_parameters': [fov, 0.0, int(size)]},
             'Blast coordinates': {'Dopants': atoms[which].tolist()},
             'Beam location': beam.tolist() if rng.random() < 0.5 else [beam.tolist()],
             'Beam dwelltime': dwell, 'ADF intensities': rng.random(4).tolist(), 'Pixelshifts': shift.tolist()}
    if t == first or rng.random() < 0.3:
      entry['ADF readouttime'] = 0.25
    if not full:
      drop = BEAM_KEYS if rng.random() < 0.5 else [str(rng.choice(BEAM_KEYS))]
      for key in drop:
        del entry[key]
      shift = np.zeros(2)
    truth.append(dict(atoms=atoms / label, silicon=which if full else np.array([], int), beam=beam / label if full else None,
                      dwell=float(dwell) if full else None, shift=np.asarray(shift, float) / size * 10 * fov, image=images[t]))
    meta[str(t)] = entry
  order = list(meta)
  if rng.random() < 0.4:
    rng.shuffle(order)
  return dict(truth=truth, fov=10 * fov, images=images, labels=labels, meta={'metadata': {k: meta[k] for k in order}, 'version': 1}, label=label, factor=factor)


def store(rec, path, readout=True):
  path.mkdir(parents=True, exist_ok=True)
  meta = json.loads(json.dumps(rec['meta']))
  if not readout:
    for v in meta['metadata'].values():
      v.pop('ADF readouttime', None)
  for name, array in (('ADF', rec['images']), ('Label', rec['labels'])):
    with zipfile.ZipFile(path / f'{name}-stack-000.ndata1', 'w') as z:
      b = stdio.BytesIO()
      np.save(b, array)
      z.writestr('data.npy', b.getvalue())
      z.writestr('metadata.json', json.dumps(meta if name == 'Label' else {}))


@contextlib.contextmanager
def scratch():
  d = tempfile.mkdtemp(dir=os.environ['TMPDIR'])
  try:
    yield pathlib.Path(d)
  finally:
    shutil.rmtree(d)


def same(a, b, tol=1e-5):
  a, b = np.asarray(a, float), np.asarray(b, float)
  return a.shape == b.shape and bool(np.allclose(a, b, rtol=tol, atol=tol))


def judge(mon, rec, trajectory):
  """The trajectory against what was recorded."""
  truth, obs = rec['truth'], trajectory.observations
  if len(truth) <= 3:
    # Too short to be of use: dropped as a whole, or kept as a whole.
    mon.check('one observation per frame', len(obs) in (0, len(truth)), lambda: dict(got=len(obs), frames=len(truth)))
    if not obs:
      return
  elif not mon.check('one observation per frame', len(obs) == len(truth), lambda: dict(got=len(obs), frames=len(truth))):
    return
  low = np.zeros(2)
  for t, (o, w) in enumerate(zip(obs, truth)):
    low = low + w['shift']
    mon.check('atoms are where they were recorded', same(o.grid.atom_positions, w['atoms']), lambda: dict(t=t, got=o.grid.atom_positions, want=w['atoms']))
    numbers = np.full(len(w['atoms']), 6)
    numbers[w['silicon']] = 14
    mon.check('silicon is where the dopants are', np.array_equal(o.grid.atomic_numbers, numbers), lambda: dict(t=t, got=o.grid.atomic_numbers, want=numbers))
    got = [[o.fov.lower_left.x, o.fov.lower_left.y], [o.fov.upper_right.x, o.fov.upper_right.y]]
    mon.check('the view follows the recorded shifts', same(got, [low, low + rec['fov']], 1e-4), lambda: dict(t=t, got=got, want=[low, low + rec['fov']]))
    if w['dwell'] is None:
      mon.check('controls are those recorded', len(o.controls) == 0, lambda: dict(t=t, got=o.controls))
      want = 2.0
    else:
      ok = len(o.controls) == 1
      if ok:
        c = o.controls[0]
        ok = same([c.position.x, c.position.y], w['beam']) and abs(c.dwell_time.total_seconds() - w['dwell']) < 1e-5
      mon.check('controls are those recorded', ok, lambda: dict(t=t, got=o.controls, beam=w['beam'], dwell=w['dwell']))
      if len(o.controls) == 1:
        m = o.fov.microscope_frame_to_material_frame(o.controls[0]).position
        mon.check('controls survive the way to the material', same([m.x, m.y], low + w['beam'] * rec['fov'], 1e-4),
                  lambda: dict(t=t, got=m, want=low + w['beam'] * rec['fov']))
      want = 2.0 + w['dwell']
    mon.check('elapsed time is dwell and imaging time', abs(o.elapsed_time.total_seconds() - want) < 1e-4, lambda: dict(t=t, got=o.elapsed_time, want=want))
    mon.check('images are those recorded', o.image is not None and o.image.shape == w['image'].shape and np.array_equal(o.image, w['image']),
              lambda: dict(t=t, got=None if o.image is None else o.image.shape, want=w['image'].shape))


def conversions(mon, rng):
  rec = recording(rng)
  with scratch() as d:
    store(rec, d / 'r')
    images, coordinates, parameters = umd.load_dataset(d / 'r')
  n = len(rec['truth'])
  size = rec['label'] * rec['factor']
  mon.check('loaded coordinates are in pixels of the image',
            len(images) == n and set(coordinates) == set(parameters) == {str(t) for t in range(n)}
            and all(same(coordinates[str(t)]['image'][:, :2], w['atoms'] * size) for t, w in enumerate(rec['truth']))
            and all(bool(np.isnan(parameters[str(t)]['beam dwelltime'])) == (w['dwell'] is None) for t, w in enumerate(rec['truth'])),
            lambda: dict(n=n, images=images.shape, keys=list(coordinates)))
  before = [images.copy(), json.dumps({k: {a: np.asarray(b).tolist() for a, b in v.items()} for k, v in coordinates.items()})]
  trajectory = umd.convert_dataset_to_proto(images, coordinates, parameters)
  after = json.dumps({k: {a: np.asarray(b).tolist() for a, b in v.items()} for k, v in coordinates.items()})
  mon.check('conversion leaves its input alone', np.array_equal(before[0], images) and before[1] == after)
  judge(mon, rec, trajectory)
  judge(mon, rec, mu.Trajectory.from_proto(mu.Trajectory.ProtoMessage.FromString(trajectory.to_proto().SerializeToString())))
  mon.state(n, size, rec['factor'], rec['images'].ndim, tuple(w['dwell'] is None for w in rec['truth']))


class Storage:
  """The storage service: what was uploaded, where."""

  def __init__(self):
    self.uploads = []

  def Client(self, *a, **k):  # pylint: disable=invalid-name
    return types.SimpleNamespace(get_bucket=self.bucket, bucket=self.bucket)

  def bucket(self, name, **k):
    def blob(path, **k):
      return types.SimpleNamespace(upload_from_file=lambda fp, rewind=False, **k: self.upload(name, path, fp, rewind),
                                   upload_from_string=lambda s, **k: self.uploads.append((name, path, s)))
    return types.SimpleNamespace(blob=blob)

  def upload(self, bucket, path, fp, rewind):
    if rewind:
      fp.seek(0)
    self.uploads.append((bucket, path, fp.read()))


def unframe(data):
  out = []
  while data:
    (n,) = struct.unpack('<Q', data[:8])
    if len(data) < 8 + n:
      raise ValueError('cut record')
    out.append(data[8:8 + n])
    data = data[8 + n:]
  return out


WORDS = ['run', 'Film', 'Sample', 'sheetA', '2021.03.05', '2021.03.06', 'v1.2', 'v1.3', 'day 1', 'x', 'sub_a', 'Graphene', 'a.b.c', 'a.b.d', '12']
# Names that are underscored alike.
ALIKE = ['sheet_a', 'SheetA', 'sheet-a', 'sub-a', 'SubA']


def uploads(mon, rng):
  if rng.random() < 0.12:
    with scratch() as d:
      (d / 'data' / 'empty').mkdir(parents=True)
      code, service = call(d / 'data', 'b')
      mon.check('nothing to upload is an error', code not in (0, None) and not service.uploads, lambda: dict(code=code, uploads=len(service.uploads)))
    mon.state('nothing')
    return
  paths = {}
  tree = [str(w) for w in rng.choice(WORDS, 6, replace=False)]
  if rng.random() < 0.25:
    tree = ['sheetA', 'x', *ALIKE]
  for _ in range(int(rng.integers(1, 6))):
    depth = int(rng.integers(1, 6))
    p = pathlib.PurePosixPath(*[str(rng.choice(tree)) for _ in range(depth)])
    paths[p] = (recording(rng, int(rng.choice([1, 4, 5, 6]))), bool(rng.random() < 0.8))
  bucket = str(rng.choice(['putting-dune', 'other']))
  with scratch() as d:
    for p, (rec, good) in paths.items():
      store(rec, d / 'data' / p, readout=good)
    (d / 'data' / 'notes').mkdir(exist_ok=True)
    (d / 'data' / 'notes' / 'readme.txt').write_text('x')
    code, service = call(d / 'data', bucket)
  good = {p: rec for p, (rec, ok) in paths.items() if ok}
  if len(good) < len(paths):
    mon.check('broken recordings do not stop others', code in (0, None) and len(service.uploads) == len(good),
              lambda: dict(code=code, uploads=[u[:2] for u in service.uploads], good=list(good), all=list(paths)))
  names = [u[1] for u in service.uploads]
  want = {}
  for p in good:
    want.setdefault('-'.join(underscored(q) for q in p.parts) + '.riegeli', []).append(p)
  # Paths that would be named alike have to be told apart in some way.
  alike = sum(len(v) for v in want.values()) - len(want)
  mon.count('recordings that would be named alike', alike)
  if not mon.check('every recording is uploaded once under its own name', code in (0, None) and len(set(names)) == len(names) == len(good)
                   and set(want) <= set(names) and all(u[0] == bucket for u in service.uploads),
                   lambda: dict(code=code, uploads=[u[:2] for u in service.uploads], want=want, bucket=bucket)):
    return
  left = dict(good)
  several = {p for v in want.values() if len(v) > 1 for p in v}
  for _, name, data in service.uploads:
    records = unframe(data)
    if not mon.check('uploaded records are the recordings', len(records) == 1, lambda: dict(name=name, records=len(records), size=len(data))):
      continue
    trajectory = mu.Trajectory.from_proto(mu.Trajectory.ProtoMessage.FromString(records[0]))
    if name in want and len(want[name]) == 1:
      judge(mon, good[want[name][0]], trajectory)
      continue
    # Which one of them is shown by its first image; the shortest have none.
    first = trajectory.observations[0].image if trajectory.observations else None
    match = [p for p in several if p in left and (len(good[p]['truth']) <= 3 if first is None else np.array_equal(good[p]['images'][0].reshape(-1), first.reshape(-1)))]
    if mon.check('recordings named alike are all kept', bool(match), lambda: dict(name=name, alike=several)):
      judge(mon, left.pop(match[0]), trajectory)
  mon.state(tuple(sorted(map(str, paths))), len(good))


def underscored(word):
  import inflection  # pylint: disable=g-import-not-at-top
  return inflection.underscore(word)


def call(directory, bucket):
  service = Storage()
  old = umd.storage
  umd.storage = types.SimpleNamespace(Client=service.Client)
  code = None
  try:
    with contextlib.redirect_stderr(stdio.StringIO()), contextlib.redirect_stdout(stdio.StringIO()):
      umd.main(umd.Args(directory=directory, bucket=bucket))
  except SystemExit as e:
    code = e.code
  finally:
    umd.storage = old
  return code, service


KINDS = [Kind('conversions', conversions, 120, 4000), Kind('uploads', uploads, 50, 1500)]
