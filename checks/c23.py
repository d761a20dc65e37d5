"""C23: aligning sequences of observations."""
import datetime as dt
import os
import tempfile

from etils import epath
import numpy as np

from vlib import gen
from vlib import imgmodel
from vlib.harness import Kind
from putting_dune import alignment
from putting_dune import geometry
from putting_dune import microscope_utils as mu
from putting_dune import io as pdio
from putting_dune.pipeline import align_trajectories

PROPERTY = 'C23'
RULE = (
    'Sequences of 3-14 observations of one sheet drifting by random steps of'
    ' up to 0.9 angstroms, with position noise, missed atoms, a hopping silicon'
    ' and resets in between, fed to the grid aligner in all its configurations'
    ' the way the pipeline does (each view corrected by the drift found so'
    ' far); image trajectories with misreported fields of view aligned end to'
    ' end with a perfect saved detector; the bookkeeping of the alignment'
    ' script with scripted drifts, files and directories. Non-trivial: the'
    ' sheet drifts; distinct by observations.'
)
ASSUMPTIONS = [
    'Drift per step below 0.9 angstroms (ambiguous above 1.23).',
    'A saved model that decodes the class of a pixel from its brightness stands'
    ' in for the trained detector.',
]
REQUIRED = {
    'drift of each step is recovered': 180, 'drift does not accumulate': 35, 'merged grid has each site once': 180,
    'merged grid covers the history': 120, 'silicon is where it was last seen': 120, 'reset forgets': 35,
    'observation is left alone': 180, 'corrected views': 35, 'everything else is kept': 35,
    'trajectories from images are aligned': 4, 'script aligns every trajectory': 3,
}


def sequence(mon, rng):
  kw = dict(
      history_length=int(rng.integers(1, 8)), accumulate_merged=bool(rng.random() < 0.3),
      clique_merging=bool(rng.random() < 0.4), trim=float(rng.choice([0, 0, 0.25, 0.5])),
      alignment_iterations=int(rng.choice([10, 20])),
  )
  aligner = alignment.IterativeAlignmentFiltering(**kw)
  for run in range(2):
    if run:
      aligner.reset()
    lattice, _, si = gen.graphene_patch(rng, 22.0, offset=rng.uniform(-30, 30, 2), si='inner')
    center = lattice[np.argmin(np.hypot(*(lattice - lattice.mean(0)).T))]
    d = np.hypot(*(lattice - center).T)
    si = int(rng.choice(np.flatnonzero(d < 4)))
    view_r = rng.uniform(8, 10)
    sigma = float(rng.choice([0, 0.01, 0.03]))
    miss = float(rng.choice([0, 0.02, 0.06]))
    still = rng.random() < 0.15
    drift, found = np.zeros(2), np.zeros(2)
    hist = []
    for k in range(int(rng.integers(3, 9))):
      if k and not still:
        drift = drift + gen.rotate(np.array([rng.uniform(0, 0.9), 0]), rng.uniform(0, 2 * np.pi))
      if rng.random() < 0.3:
        nb = np.flatnonzero((np.hypot(*(lattice - lattice[si]).T) < 1.6) & (d < 5))
        si = int(rng.choice(nb))
      # The view follows the drift estimate loosely.
      vis = np.hypot(*(lattice - center - rng.uniform(-0.5, 0.5, 2)).T) < view_r
      vis &= (rng.random(len(lattice)) > miss) | (np.arange(len(lattice)) == si)
      idx = rng.permutation(np.flatnonzero(vis))
      pos = lattice[idx] + rng.normal(0, 1, (len(idx), 2)) * sigma - drift
      numbers = np.where(idx == si, gen.SILICON, gen.CARBON)
      fed = mu.AtomicGridMaterialFrame(mu.AtomicGrid(pos + found, numbers))
      kept = (fed.atom_positions.copy(), fed.atomic_numbers.copy())
      merged, out = aligner(fed)
      out = np.asarray(out, float)
      want = drift - found
      mon.check('observation is left alone', np.array_equal(kept[0], fed.atom_positions) and np.array_equal(kept[1], fed.atomic_numbers), lambda: dict(step=k))
      if not mon.check('drift of each step is recovered', out.shape == (2,) and bool(np.hypot(*(-out - want)) < 0.12 + (k == 0) * -0.12 + 1e-12),
                       lambda: dict(step=k, run=run, got=-out, want=want, options=kw, noise=sigma, atoms=len(idx))):
        return
      if k == 0:
        mon.check('reset forgets', not np.any(out), lambda: dict(got=out))
      found = found - out
      mp = np.asarray(merged.atom_positions)
      mz = np.asarray(merged.atomic_numbers)
      dist = np.hypot(*(mp[:, None] - lattice[None]).transpose(2, 0, 1))
      site = dist.argmin(1)
      mon.check('merged grid has each site once', len(set(site.tolist())) == len(site) and dist.min(1).max() < 0.3 and len(mz) == len(mp),
                lambda: dict(step=k, options=kw, sites=len(set(site.tolist())), atoms=len(site), far=dist.min(1).max()))
      cur = set(idx.tolist())
      if kw['accumulate_merged']:
        ok = cur <= set(site.tolist()) <= set().union(cur, *hist)
      else:
        ok = set(site.tolist()) == set().union(cur, *(hist[-kw['history_length']:] if hist else []))
      mon.check('merged grid covers the history', ok, lambda: dict(step=k, options=kw, missing=len(cur - set(site.tolist()))))
      mon.check('silicon is where it was last seen', site[mz == gen.SILICON].tolist() == [si] and bool(np.all((mz == gen.CARBON) | (mz == gen.SILICON))),
                lambda: dict(step=k, got=site[mz == gen.SILICON], want=si))
      hist.append(cur)
      mon.state('sequence', pos.tobytes())
    mon.check('drift does not accumulate', bool(np.hypot(*(found - drift)) < 0.12), lambda: dict(found=found, drift=drift))
    mon.maximum('drift followed', np.hypot(*drift))
  mon.sample(options=kw)


class Scripted:
  """An aligner with scripted drifts that records how it is called."""

  def __init__(self, rng):
    self.rng = rng
    self.calls = []
    self.resets = []

  def reset(self, history_length=5, example_image=None):
    self.resets.append((len(self.calls), history_length))

  def __call__(self, image, fov, grid=None, time_index=-1):
    shift = self.rng.normal(0, 1, 2)
    new = gen.grid(self.rng, 5)
    self.calls.append((image, fov, shift, new))
    return mu.AtomicGridMicroscopeFrame(new), shift.copy(), None


def bookkeeping(mon, rng):
  traj = mu.Trajectory([
      mu.MicroscopeObservation(
          grid=gen.grid(rng, 4), fov=gen.fov(rng, square=True), controls=gen.controls(rng), elapsed_time=dt.timedelta(seconds=float(rng.uniform(0, 9))),
          image=rng.random((6, 6, 1)), label_image=rng.random((6, 6, 3)) if rng.random() < 0.5 else None)
      for _ in range(int(rng.integers(0, 7)))
  ])
  args = align_trajectories.Args(
      source_path=epath.Path('/x'), target_path=epath.Path('/y'), aligner_path=epath.Path('/z'),
      history_length=int(rng.integers(1, 6)), alignment_iterations=int(rng.integers(1, 4)),
      base_step_size=float(rng.choice([1.0, 0.5, 0.1])), relabel=bool(rng.random() < 0.5))
  before = [gen.digest(o) for o in traj.observations]
  fake = Scripted(rng)
  out = align_trajectories.do_alignment(traj, args, fake)
  n = len(traj.observations)
  mon.check('every pass starts afresh', fake.resets == [(i * n, args.history_length) for i in range(args.alignment_iterations)] and len(fake.calls) == n * args.alignment_iterations,
            lambda: dict(resets=fake.resets, calls=len(fake.calls)))
  boxes = [gen.fov_box(o.fov) for o in traj.observations]
  c = 0
  ok_in, detail = True, None
  for i in range(1, args.alignment_iterations + 1):
    step = args.base_step_size + (1 - args.base_step_size) * i / args.alignment_iterations
    total = np.zeros(2)
    nxt = []
    for k in range(n):
      image, fov, shift, grid = fake.calls[c]
      c += 1
      if not gen.close(gen.fov_box(fov), boxes[k] - total, 1e-6) or not np.array_equal(image, traj.observations[k].image):
        ok_in, detail = False, dict(iteration=i, frame=k, got=gen.fov_box(fov), want=boxes[k] - total)
      total = total + shift * step
      nxt.append(boxes[k] - total)
    boxes = nxt
  mon.check('each view is corrected by the drift found so far', ok_in, detail)
  mon.check('corrected views', len(out.observations) == n and all(gen.close(gen.fov_box(o.fov), b, 1e-6) for o, b in zip(out.observations, boxes)),
            lambda: dict(got=[gen.fov_box(o.fov) for o in out.observations], want=boxes, iterations=args.alignment_iterations))
  last = fake.calls[-n:] if n else []
  ok = True
  for o, a, call in zip(out.observations, traj.observations, last):
    ok &= tuple(o.controls) == tuple(a.controls) and o.elapsed_time == a.elapsed_time and np.array_equal(o.image, a.image)
    ok &= (o.label_image is None) == (a.label_image is None) and (a.label_image is None or np.array_equal(o.label_image, a.label_image))
    want = call[3] if args.relabel else a.grid
    ok &= np.array_equal(o.grid.atom_positions, want.atom_positions) and np.array_equal(o.grid.atomic_numbers, want.atomic_numbers)
  mon.check('everything else is kept', bool(ok), dict(relabel=args.relabel))
  mon.check('trajectory is left alone', [gen.digest(o) for o in traj.observations] == before, None)
  mon.state('bookkeeping', repr(boxes))


def image_trajectory(rng, frames, drifting=True):
  lattice, _, si = gen.graphene_patch(rng, 24.0, offset=rng.uniform(-10, 10, 2))
  size = float(rng.uniform(17, 22))
  center = lattice[si]
  error = np.zeros(2)
  obs, true = [], []
  for k in range(frames):
    if k and drifting:
      error = error + gen.rotate(np.array([rng.uniform(0, 0.45), 0]), rng.uniform(0, 2 * np.pi))
    low = center - size / 2 + rng.uniform(-1, 1, 2)
    box = np.array([low, low + size])
    rel = gen.to_microscope(box, lattice)
    ins = ((rel > -0.05) & (rel < 1.05)).all(1)
    z = np.where(np.arange(len(lattice)) == si, 14, 6)
    image = imgmodel.render(rel[ins], z[ins], 512 if rng.random() < 0.5 else 256)
    grid = mu.AtomicGridMicroscopeFrame(mu.AtomicGrid(rel[ins], z[ins]))
    fov = mu.MicroscopeFieldOfView(geometry.Point(tuple(box[0] + error)), geometry.Point(tuple(box[1] + error)))
    obs.append(mu.MicroscopeObservation(grid=grid, fov=fov, controls=(), elapsed_time=dt.timedelta(seconds=k), image=image))
    true.append(box)
  return mu.Trajectory(obs), true, lattice, si


def judge(mon, clause, out, true, detail):
  base = gen.fov_box(out.observations[0].fov) - true[0]
  worst = max(np.abs(gen.fov_box(o.fov) - t - base).max() for o, t in zip(out.observations, true))
  mon.maximum('largest remaining misalignment', worst)
  mon.check(clause, len(out.observations) == len(true) and worst < 0.25, lambda: dict(worst=worst, **detail))


def images(mon, rng):
  h = int(rng.choice([2, 3, 5]))
  traj, true, lattice, si = image_trajectory(rng, int(rng.integers(3, 7)))
  aligner = alignment.ImageAligner.from_path(epath.Path(imgmodel.zipped(h, 'detector')), workdir=imgmodel.workdir(h, 'detector'), hybrid=True)
  aligner.adaptive_normalization = False
  args = align_trajectories.Args(
      source_path=epath.Path('/x'), target_path=epath.Path('/y'), aligner_path=epath.Path('/z'),
      history_length=h, alignment_iterations=int(rng.integers(1, 3)), hybrid=True, relabel=True)
  out = align_trajectories.do_alignment(traj, args, aligner)
  judge(mon, 'trajectories from images are aligned', out, true, dict(history=h, frames=len(true)))
  base = gen.fov_box(out.observations[0].fov) - true[0]
  for k, (o, t) in enumerate(zip(out.observations, true)):
    box = gen.fov_box(o.fov)
    mat = gen.to_material(box, np.asarray(o.grid.atom_positions)) - base[0]
    d = np.hypot(*(mat[:, None] - lattice[None]).transpose(2, 0, 1))
    site = d.argmin(1)
    mon.check('relabelled grids show each site once', d.min(1).max() < 0.35 and len(set(site.tolist())) == len(site), lambda: dict(frame=k, far=d.min(1).max(), sites=len(set(site.tolist())), atoms=len(site)))
    mon.check('relabelled grids show the silicon', site[np.asarray(o.grid.atomic_numbers) == 14].tolist() == [si], lambda: dict(frame=k, got=site[np.asarray(o.grid.atomic_numbers) == 14], want=si))
  mon.state('images', traj.observations[-1].image.tobytes())


def script(mon, rng):
  """The command line entry point, on a file or a directory of files."""
  h = 2
  with tempfile.TemporaryDirectory() as d:
    trues, n = {}, int(rng.integers(1, 3))
    names = ['t.tfrecords'] if n == 1 and rng.random() < 0.5 else [f'{i}.tfrecords' for i in range(n)]
    os.mkdir(os.path.join(d, 'in'))
    count = 0
    for name in names:
      batch = []
      for _ in range(int(rng.integers(1, 3))):
        traj, true, _, _ = image_trajectory(rng, 3)
        # float32 positions, and a time stamp to recognise the trajectory by
        traj = mu.Trajectory([o.__class__(grid=o.grid, fov=o.fov, controls=o.controls, elapsed_time=dt.timedelta(seconds=1000 * count + k), image=o.image.astype(np.float32)) for k, o in enumerate(traj.observations)])
        trues[count] = true
        count += 1
        batch.append(traj)
      pdio.write_records(os.path.join(d, 'in', name), batch)
    source = os.path.join(d, 'in') if len(names) > 1 or rng.random() < 0.5 else os.path.join(d, 'in', names[0])
    target = os.path.join(d, 'out.tfrecords')
    args = align_trajectories.Args(source_path=epath.Path(source), target_path=epath.Path(target), aligner_path=epath.Path(imgmodel.zipped(h, 'detector')), history_length=h, hybrid=True)
    align_trajectories.main(args)
    out = list(pdio.read_records(target, mu.Trajectory))
    ids = sorted(round(o.observations[0].elapsed_time.total_seconds()) // 1000 for o in out)
    mon.require('script aligns every trajectory', ids == sorted(trues), lambda: dict(got=ids, want=sorted(trues), source='directory' if os.path.isdir(source) else 'file'))
    for o in out:
      mon.check('aligned records are in order', [round(x.elapsed_time.total_seconds()) % 1000 for x in o.observations] == [0, 1, 2], None)


KINDS = [
    Kind('sequence', sequence, 60, 2500), Kind('bookkeeping', bookkeeping, 120, 3000),
    Kind('images', images, 12, 250), Kind('script', script, 8, 60),
]
