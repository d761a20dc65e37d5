"""C26: trajectories become transitions, and transitions training data."""
import contextlib
import datetime as dt
import io as stdio
import os
import shutil
import tempfile

import numpy as np

from vlib import boot
from vlib import gen
from vlib.harness import Kind
from putting_dune import geometry
from putting_dune import io as pdio
from putting_dune import microscope_utils as mu
from putting_dune.pipeline import trajectories_to_transitions as t2t

boot.stub_optional_modules()
from putting_dune.pipeline import train_rate_learner as trl  # pylint: disable=g-import-not-at-top,wrong-import-position

PROPERTY = 'C26'
RULE = (
    'Random trajectories (0-7 observations, with and without images, 0-6'
    ' controls) cut into transitions under both labelling conventions; the'
    ' conversion script over files of several trajectories; batches of'
    ' transitions of a silicon in a graphene sheet with known outcome (stays,'
    ' hops to a given neighbour, hops two sites, vanishes), in random'
    ' orientation, drift, noise, view shape and atom order, mixed with'
    ' transitions each documented exclusion applies to (no or several controls,'
    ' no or several silicons, fourfold silicon, stretched bonds, sheets of'
    ' fewer atoms than the neighbourhood, changed sheets); stacking of random'
    ' data points. Non-trivial: a batch in which some transitions are kept and'
    ' some excluded, or a trajectory of at least three observations.'
)
ASSUMPTIONS = [
    'Transitions within a relative 1e-6 of an exclusion threshold, or with two'
    ' neighbours equally far from the beam, are not generated.',
]
REQUIRED = {
    'each pair of successive observations is one transition': 1200,
    'controls follow the labelling convention': 600,
    'usable transitions and only those are kept, in order': 90,
    'next state names the neighbour': 420,
    'beam position in the canonical frame': 420,
    'exposure and context are those of the control': 420,
    'stacked columns': 300, 'the script converts every trajectory once': 9,
    'trajectories are loaded once each': 18,
}


@contextlib.contextmanager
def quiet():
  with contextlib.redirect_stdout(stdio.StringIO()):
    yield


def same(a, b):
  return gen.digest(a) == gen.digest(b)


def pairs(mon, rng):
  trajectories = []
  for _ in range(int(rng.integers(0, 4))):
    n = int(rng.choice([0, 1, 2, 3, 5, 7]))
    trajectories.append(mu.Trajectory(tuple(gen.observation(rng) for _ in range(n))))
  before = gen.digest([list(t.observations) for t in trajectories])
  for previous in (False, True):
    kw = {} if not previous and rng.random() < 0.5 else dict(previous_controls_at_current_timestep=previous)
    got = t2t.trajectories_to_transitions(trajectories, **kw)
    mon.check('observations are left alone', gen.digest([list(t.observations) for t in trajectories]) == before, None)
    want = [(t.observations[i], t.observations[i + 1]) for t in trajectories for i in range(len(t.observations) - 1)]
    mon.check('as many transitions as pairs', len(got) == len(want), lambda: dict(got=len(got), want=len(want)))
    for g, (a, b) in zip(got, want):
      fields = dict(
          grid_before=a.grid, grid_after=b.grid, fov_before=a.fov, fov_after=b.fov,
          image_before=a.image, image_after=b.image, label_image_before=a.label_image,
          label_image_after=b.label_image)
      bad = [k for k, v in fields.items() if not same(getattr(g, k), v)]
      mon.check('each pair of successive observations is one transition', not bad, lambda: dict(fields=bad))
      mon.check('controls follow the labelling convention', same(tuple(g.controls), tuple((b if previous else a).controls)), lambda: dict(previous=previous, got=g.controls))
  if any(len(t.observations) > 2 for t in trajectories):
    mon.state('trajectories', before)
  mon.sample(trajectories=[len(t.observations) for t in trajectories])


# ------------------------------------------------------------ data points

SCENES = ['stay', 'hop', 'hop', 'hop', 'hop2', 'vanish', 'appear', 'no_control', 'two_controls',
         'no_silicon', 'two_silicons', 'fourfold', 'stretched', 'few_before', 'few_after', 'empty_after',
         'no_silicon_after', 'other_sheet', 'crowded', 'near_cutoff']


def scene(rng, kind, cutoff):
  """One transition and the data point expected from it (None: excluded)."""
  bond = 1.42 * rng.uniform(0.95, 1.05)
  theta = rng.uniform(0, 2 * np.pi)
  center = rng.uniform(-80, 80, 2)
  pos, _, si = gen.graphene_patch(rng, radius=rng.uniform(6.5, 9), theta=theta, offset=center, bond=bond, jitter=0.03)
  numbers = np.full(len(pos), gen.CARBON)
  numbers[si] = gen.SILICON
  d = np.hypot(*(pos - pos[si]).T)
  order = np.argsort(d)
  near = order[1:4]
  after_pos = pos + rng.normal(0, 0.03, pos.shape)
  after_numbers = numbers.copy()
  target = None
  excluded = kind not in ('stay', 'hop', 'near_cutoff', 'vanish')
  if kind in ('hop', 'near_cutoff', 'vanish'):
    target = int(rng.choice(near))
  elif kind == 'hop2':
    target = int(rng.choice(order[4:9]))
  if target is not None:
    after_numbers[si], after_numbers[target] = gen.CARBON, gen.SILICON
  if kind == 'vanish':  # a distant atom is lost; the neighbourhood is intact
    far = int(rng.choice(order[12:]))
    keep = np.arange(len(pos)) != far
    after_pos, after_numbers = after_pos[keep], after_numbers[keep]
  elif kind == 'appear':
    excluded = False
    after_pos = np.concatenate([after_pos, [center + [30.0, 5.0]]])
    after_numbers = np.append(after_numbers, 7)
  elif kind == 'no_silicon':
    numbers[si] = gen.CARBON
  elif kind == 'two_silicons':
    numbers[order[int(rng.integers(5, 20))]] = gen.SILICON
  elif kind == 'fourfold':
    # A fourth atom as close as the third neighbour.
    a = rng.uniform(0, 2 * np.pi)
    pos = np.concatenate([pos, [pos[si] + 1.45 * np.array([np.cos(a), np.sin(a)])]])
    numbers = np.append(numbers, gen.CARBON)
  elif kind == 'stretched':
    v = pos[near[2]] - pos[si]
    pos[near[2]] = pos[si] + v / np.hypot(*v) * rng.uniform(2.05, 2.2)
  elif kind == 'few_before':
    k = int(rng.integers(1, 10))
    pos, numbers = pos[order[:k]], numbers[order[:k]]
  elif kind == 'few_after':
    k = int(rng.integers(1, 4))
    after_pos, after_numbers = after_pos[order[:k]], after_numbers[order[:k]]
  elif kind == 'empty_after':
    after_pos, after_numbers = np.zeros((0, 2)), np.zeros(0, int)
  elif kind == 'no_silicon_after':
    after_numbers[after_numbers == gen.SILICON] = gen.CARBON
  elif kind == 'other_sheet':
    after_pos = after_pos + gen.rotate(np.array([bond, 0.0]), theta + np.pi + 0.0) * 0  # in place, but ...
    near_all = order[:4]
    v = after_pos[near_all] - pos[si]
    v[1:] *= (rng.uniform(1.5, 2.2) * cutoff * 4 / 3 / bond + 1)
    after_pos = np.concatenate([after_pos[order[12:]], pos[si] + v, pos[si] + gen.rotate(v[1:], 1.0)])
    after_numbers = np.concatenate([after_numbers[order[12:]], after_numbers[near_all], [6, 6, 6]])
  elif kind == 'crowded':
    # A further atom within two angstroms, not as close as the third: neither.
    a = rng.uniform(0, 2 * np.pi)
    pos = np.concatenate([pos, [pos[si] + 1.97 * np.array([np.cos(a), np.sin(a)])]])
    numbers = np.append(numbers, gen.CARBON)
    d3 = np.sort(np.hypot(*(pos - pos[si]).T))
    if abs(d3[4] - d3[1]) < 0.51:
      pos[-1] = pos[si] + 1.99 * np.array([np.cos(a), np.sin(a)])
  elif kind == 'near_cutoff':
    # The whole neighbourhood moved by just less or just more than the cutoff.
    f = float(rng.choice([0.97, 1.03]))
    a = rng.uniform(0, 2 * np.pi)
    after_pos = pos + f * cutoff * np.array([np.cos(a), np.sin(a)])
  # The beam, at a place clearly closest to one of the neighbours.
  sil = pos[si if kind != 'few_before' else 0]
  for _ in range(100):
    beam = sil + rng.normal(0, 2.0, 2)
    nb = pos[near] if kind not in ('few_before', 'fourfold', 'crowded') else None
    if nb is None:
      break
    e = np.sort(np.hypot(*(nb - beam).T))
    if e[1] - e[0] > 1e-3:
      break
  controls = [mu.BeamControl(None, gen.timedelta(rng), float(rng.uniform(20, 300)), float(rng.uniform(0.01, 2)))]
  if rng.random() < 0.3:
    controls = [mu.BeamControl(None, gen.timedelta(rng))]
  nc = {'no_control': 0, 'two_controls': int(rng.integers(2, 4))}.get(kind, 1)
  # Views: rectangular, anywhere, drifting between the frames.
  w, h = rng.uniform(15, 60, 2)
  off = rng.uniform(-5, 5, 2)
  low = center - np.array([w, h]) / 2 + off
  boxes = [np.array([low, low + [w, h]])]
  low2 = low + rng.normal(0, 4, 2)
  boxes.append(np.array([low2, low2 + [w, h] * (rng.uniform(0.8, 1.2, 2) if rng.random() < 0.5 else 1)]))
  fovs = [mu.MicroscopeFieldOfView(geometry.Point(tuple(b[0])), geometry.Point(tuple(b[1]))) for b in boxes]
  point = gen.to_microscope(boxes[0], beam)
  controls = tuple(mu.BeamControl(geometry.Point(tuple(point.tolist())), c.dwell_time, c.voltage_kv, c.current_na) for c in controls * nc)
  # What should come of it.
  want = None
  p1, p2 = rng.permutation(len(pos)), rng.permutation(len(after_pos))
  if kind == 'near_cutoff':
    # Judge by the rule itself: nearest four after, mean displacement.
    excluded = excluded or not rule_keeps(pos, numbers, after_pos, after_numbers, cutoff)
  elif kind in ('stay', 'hop', 'vanish', 'appear'):
    assert rule_keeps(pos, numbers, after_pos, after_numbers, cutoff), kind
  elif kind not in ('no_control', 'two_controls'):
    assert not rule_keeps(pos, numbers, after_pos, after_numbers, cutoff), kind
  if not excluded:
    rel = pos[near] - sil
    first = np.argmin(np.hypot(*(pos[near] - beam).T))
    turn = np.arctan2(rel[first, 1], rel[first, 0])
    ang = (np.arctan2(rel[:, 1], rel[:, 0]) - turn) % (2 * np.pi)
    ang[first] = 0
    number = np.argsort(np.argsort(ang)) + 1  # counter-clockwise from the closest
    sites = np.concatenate([[sil], pos[near]])
    e = np.hypot(*(sites - after_pos[after_numbers == gen.SILICON][0]).T)
    nearest = int(e.argmin())  # the old site closest to the silicon's new place
    if kind != 'near_cutoff':
      assert nearest == (0 if target is None else 1 + list(near).index(target))
    state = 0 if nearest == 0 else int(number[nearest - 1])
    want = dict(next_state=state, beam=gen.rotate(beam - sil, -turn), control=controls[0])
  t = mu.Transition(
      grid_before=mu.AtomicGrid(gen.to_microscope(boxes[0], pos)[p1], numbers[p1]),
      grid_after=mu.AtomicGrid(gen.to_microscope(boxes[1], after_pos)[p2], after_numbers[p2]),
      fov_before=fovs[0], fov_after=fovs[1], controls=controls)
  return t, want


def rule_keeps(pos, numbers, after_pos, after_numbers, cutoff):
  """The documented exclusions, judged in the material frame."""
  if (numbers == 14).sum() != 1 or (after_numbers == 14).sum() != 1:
    return False
  if len(pos) < 10 or len(after_pos) < 4:
    return False
  s = pos[numbers == 14][0]
  d = np.hypot(*(pos - s).T)
  o = np.argsort(d)[:10]
  d = d[o]
  if abs(d[1] - d[4]) < 0.5 or not (d[1:4] < 2).all() or not (d[4:] > 2).all():
    return False
  da = np.hypot(*(after_pos - s).T)
  oa = np.argsort(da)[:4]
  if not (after_numbers[oa] == 14).any():
    return False
  m = np.hypot(*(pos[o[:4], None] - after_pos[None, oa]).transpose(2, 0, 1)).min(1).mean()
  return bool(m <= cutoff)


def datapoints(mon, rng):
  cutoff = 0.71 if rng.random() < 0.5 else float(rng.uniform(0.4, 1.0))
  kinds = rng.choice(SCENES, size=int(rng.integers(1, 12)))
  scenes = [scene(rng, k, cutoff) for k in kinds]
  transitions = [t for t, _ in scenes]
  want = [w for _, w in scenes if w is not None]
  args = trl.Args(source_path=None, workdir=None, neighbor_distance_cutoff=cutoff)
  kept = gen.digest(transitions)
  with quiet():
    got = trl.transitions_to_datapoints(transitions, args)
  mon.check('observations are left alone', gen.digest(transitions) == kept, None)
  ok = mon.check('usable transitions and only those are kept, in order', len(got) == len(want), lambda: dict(kinds=list(kinds), got=len(got), want=len(want)))
  if not ok:
    return
  for g, w in zip(got, want):
    mon.check('next state names the neighbour', int(g['next_state']) == w['next_state'], lambda: dict(got=g['next_state'], want=w['next_state']))
    mon.check('beam position in the canonical frame', gen.close(np.asarray(g['beam_pos']).reshape(-1), w['beam'], 1e-7), lambda: dict(got=g['beam_pos'], want=w['beam']))
    c = w['control']
    mon.check('exposure and context are those of the control',
              g['seconds_between'] == c.dwell_time.total_seconds() and g['current'] == c.current_na and g['voltage'] == c.voltage_kv, lambda: dict(got=g, want=c))
  if want:
    stacked(mon, rng, got, len(want))
  for k in kinds:
    mon.count(f'transitions: {k}')
  if want and len(want) < len(kinds):
    mon.state('batch', kept)
  mon.sample(kinds=list(map(str, kinds)), kept=len(want))


def stacked(mon, rng, data, n):
  use_current, use_voltage, dwell = (bool(v) for v in rng.random(3) < 0.5)
  neighbors = int(rng.choice([3, 3, 4, 6]))
  out = trl.stack_data(data, use_current=use_current, use_voltage=use_voltage, dwell_time_in_context=dwell, num_neighbors=neighbors)
  columns = []
  if use_current:
    columns.append([d['current'] for d in data])
  if use_voltage:
    columns.append([d['voltage'] for d in data])
  if dwell:
    columns.append([d['seconds_between'] for d in data])
  context = out['context']
  ok = (
      np.array_equal(np.asarray(out['next_state']).reshape(-1), [d['next_state'] for d in data])
      and np.array_equal(np.asarray(out['dt']).reshape(-1), [d['seconds_between'] for d in data])
      and np.array_equal(np.asarray(out['position']), np.array([d['beam_pos'] for d in data]).reshape(n, 2))
      and np.shape(out['rates']) == (n, neighbors)
      and (context is None if not columns else np.array_equal(context, np.array(columns, float).T))
  )
  mon.check('stacked columns', ok, lambda: dict(out=out, options=(use_current, use_voltage, dwell, neighbors)))


def stacking(mon, rng):
  n = int(rng.integers(1, 30))
  data = [dict(next_state=int(rng.integers(0, 4)), beam_pos=rng.normal(size=2), seconds_between=float(rng.uniform(0, 9)), current=float(rng.random()), voltage=float(rng.choice([60, 80.0]))) for _ in range(n)]
  for _ in range(4):
    stacked(mon, rng, data, n)
  mon.state('stack', gen.digest(data))


def plots(mon, rng):
  """With plotting switched on the same data comes out, one picture each."""
  os.environ.setdefault('MPLBACKEND', 'Agg')
  import matplotlib.pyplot as plt  # pylint: disable=g-import-not-at-top
  cutoff = 0.71
  kinds = ['hop', str(rng.choice(SCENES)), 'stay']
  transitions, want = zip(*[scene(rng, k, cutoff) for k in kinds])
  # Some with images and masks.
  n = int(rng.choice([32, 48]))
  transitions = list(transitions)
  for i, t in enumerate(transitions):
    if rng.random() < 0.5:
      transitions[i] = mu.Transition(t.grid_before, t.grid_after, t.fov_before, t.fov_after, t.controls, image_before=rng.random((n, n, 1)), image_after=rng.random((n, n, 1)), label_image_before=rng.integers(0, 3, (n, n)).astype(np.uint8))
  args = trl.Args(source_path=None, workdir=None, neighbor_distance_cutoff=cutoff)
  with quiet():
    plain = trl.transitions_to_datapoints(transitions, args)
  directory = tempfile.mkdtemp(prefix='c26', dir=os.environ.get('VERIF_SCRATCH'))
  try:
    with quiet():
      got = trl.transitions_to_datapoints(transitions, args, plot_transitions=True, save_path=os.path.join(directory, 'plots'))
    mon.check('plotting does not change the data', gen.digest([dict(g) for g in got]) == gen.digest([dict(g) for g in plain]), None)
    found = sorted(os.path.relpath(os.path.join(d, f), os.path.join(directory, 'plots')) for d, _, fs in os.walk(directory) for f in fs)
    labels = [t.label_image_before is not None for t, w in zip(transitions, want) if w is not None]
    expected = sorted([f'class_{w["next_state"]}/transition_{i + 1}_transition.png' for i, w in enumerate([w for w in want if w])]
                      + [f'class_{w["next_state"]}/transition_{i + 1}_label.png' for i, w in enumerate([w for w in want if w]) if labels[i]])
    mon.check('a picture per kept transition', found == expected, lambda: dict(found=found, expected=expected))
    mon.check('no figure is left open', not plt.get_fignums(), lambda: dict(open=plt.get_fignums()))
  finally:
    plt.close('all')
    shutil.rmtree(directory)
  mon.state('plots', gen.digest(transitions))


def files(mon, rng):
  directory = tempfile.mkdtemp(prefix='c26', dir=os.environ.get('VERIF_SCRATCH'))
  from etils import epath  # pylint: disable=g-import-not-at-top
  try:
    groups = []
    os.makedirs(os.path.join(directory, 'in'))
    paths = []
    for i in range(int(rng.integers(1, 4))):
      ts = [mu.Trajectory(tuple(gen.observation(rng, images=False) for _ in range(int(rng.integers(0, 5))))) for _ in range(int(rng.integers(0, 4)))]
      path = epath.Path(directory) / 'in' / f'part-{i}.tfrecords'
      pdio.write_records(path, ts)
      groups.append(list(pdio.read_records(path, mu.Trajectory)))
      paths.append(path)
    flat = [t for g in groups for t in g]
    loaded = trl.load_trajectories_from_records(epath.Path(directory) / 'in')
    mon.check('trajectories are loaded once each', sorted(map(gen.digest, loaded)) == sorted(map(gen.digest, flat)), lambda: dict(got=len(loaded), want=len(flat)))
    loaded = trl.load_trajectories_from_records(paths)
    mon.check('trajectories are loaded once each', [gen.digest(t) for t in loaded] == [gen.digest(t) for t in flat], None)
    loaded = trl.load_trajectories_from_records(paths[-1])
    mon.check('trajectories are loaded once each', [gen.digest(t) for t in loaded] == [gen.digest(t) for t in groups[-1]], None)
    target = os.path.join(directory, 'out.tfrecords')
    t2t.main(t2t.Args(source_path=str(paths[0]), target_path=target))
    got = list(pdio.read_records(target, mu.Transition))
    want = []
    for t in groups[0]:
      want += [(a, b) for a, b in zip(t.observations, t.observations[1:])]
    ok = len(got) == len(want) and all(
        gen.close(g.grid_before.atom_positions, a.grid.atom_positions, 1e-6) and gen.close(g.grid_after.atom_positions, b.grid.atom_positions, 1e-6)
        and len(g.controls) == len(a.controls) and all(gen.close(gen.xy(x.position), gen.xy(y.position), 1e-6) for x, y in zip(g.controls, a.controls))
        for g, (a, b) in zip(got, want))
    mon.check('the script converts every trajectory once', ok, lambda: dict(got=len(got), want=len(want)))
    mon.state('files', gen.digest(flat))
  finally:
    shutil.rmtree(directory)


KINDS = [
    Kind('pairs', pairs, 400, 4000), Kind('datapoints', datapoints, 500, 8000), Kind('stacking', stacking, 150, 1000),
    Kind('plots', plots, 12, 60), Kind('files', files, 30, 200),
]
