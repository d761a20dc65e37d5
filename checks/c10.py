"""C10: the view tracks the dopant and shows exactly what is there."""
import numpy as np

from vlib import gen
from vlib import simtrace
from vlib.harness import Kind

PROPERTY = 'C10'
RULE = (
    'Histories of the real simulator under rate models that keep the dopant'
    ' still, let it wander, or drive it steadily across and out of the view;'
    ' after every call the returned observation is compared with the'
    ' material itself. Non-trivial: the dopant moved during the step; distinct'
    ' by view and dopant position.'
)
ASSUMPTIONS = [
    'The state of the material is read through its public grid attribute.',
]
REQUIRED = {
    'observed grid is what is in view': 480, 'dopant is in the central half': 480,
    'view keeps its size': 420, 'initial view is centred': 90,
    'view is square, 15 to 30 angstroms': 90, 'view moves only when needed': 300,
    'moved view is centred on the dopant': 20, 'reported view is the view': 480,
    'steps with motion': 180,
}


def check_view(mon, material, obs, events):
  box = gen.fov_box(obs.fov)
  pos, num = material.grid.atom_positions, material.grid.atomic_numbers
  eps = 1e-9
  sure = ((pos > box[0] + eps) & (pos < box[1] - eps)).all(1)
  maybe = ((pos >= box[0] - eps) & (pos <= box[1] + eps)).all(1)
  want = gen.to_microscope(box, pos[sure])
  got = obs.grid.atom_positions
  ok = sure.sum() <= len(got) <= maybe.sum() and len(got) == len(obs.grid.atomic_numbers)
  if ok and len(got):
    d = np.hypot(*(want[:, None] - got[None]).transpose(2, 0, 1)) if len(want) else np.zeros((0, 1))
    nearest = d.argmin(1) if len(want) else np.zeros(0, int)
    ok = (not len(want)) or (
        (d.min(1) < 1e-6).all() and len(set(nearest.tolist())) == len(want)
        and np.array_equal(obs.grid.atomic_numbers[nearest], num[sure]))
  mon.check('observed grid is what is in view', ok, lambda: dict(fov=box, inside=int(sure.sum()), observed=len(got)))
  views = [e[1]['fov'] for e in events if e[0] == 'take']
  mon.check('reported view is the view', len(views) and np.allclose(gen.fov_box(views[-1]), box, atol=1e-12), lambda: dict(view=box))
  changes = [e[1]['fov'] for e in events if e[0] == 'fov']
  if changes:
    mon.check('reported view is the view', np.allclose(gen.fov_box(changes[-1]), box, atol=1e-12), None)
  si_true = pos[num == gen.SILICON]
  si = got[obs.grid.atomic_numbers == gen.SILICON]
  mon.check('dopant is in the central half',
            si.shape == (1, 2) and (si >= 0.25 - 1e-9).all() and (si <= 0.75 + 1e-9).all(),
            lambda: dict(fov=box, dopant=si, material=si_true))
  return box, si_true[0]


def history(mon, rng):
  name, material, sim, trace, _, _ = simtrace.make(rng)
  for _ in range(int(rng.integers(1, 3))):
    obs = sim.reset(rng)
    box, si = check_view(mon, material, obs, trace.drain())
    size = box[1] - box[0]
    mon.check('initial view is centred', np.allclose(box.mean(0), si, atol=1e-9), lambda: dict(view=box, dopant=si))
    mon.check('view is square, 15 to 30 angstroms', abs(size[0] - size[1]) < 1e-9 and 15 - 1e-9 <= size[0] <= 30 + 1e-9, lambda: dict(size=size))
    mon.maximum('largest view', size[0])
    mon.maximum('minus smallest view', -size[0])
    for _ in range(int(rng.integers(2, 16))):
      controls = [simtrace.beam_near(rng, obs) for _ in range(int(rng.choice([0, 1, 1, 2, 4])))]
      before_box, before_si = box, si
      obs = sim.step_and_image(rng, controls)
      box, si = check_view(mon, material, obs, trace.drain())
      mon.check('view keeps its size', np.allclose(box[1] - box[0], size, atol=1e-9), lambda: dict(before=size, after=box[1] - box[0]))
      rel = gen.to_microscope(before_box, si)
      inside = (rel > 0.25 + 1e-9).all() and (rel < 0.75 - 1e-9).all()
      outside = (rel < 0.25 - 1e-9).any() or (rel > 0.75 + 1e-9).any()
      unchanged = np.allclose(box, before_box, atol=1e-12)
      if inside:
        mon.check('view moves only when needed', unchanged, lambda: dict(dopant=rel, before=before_box, after=box))
      if outside:
        mon.check('moved view is centred on the dopant', np.allclose(box.mean(0), si, atol=1e-9), lambda: dict(view=box, dopant=si, was_at=rel))
        mon.count('dopant left the view entirely', bool((rel < 0).any() or (rel > 1).any()))
      moved = not np.allclose(si, before_si)
      mon.count('steps with motion', moved)
      mon.count('steps')
      if moved:
        mon.state(name, tuple(np.round(si, 6)), tuple(np.round(box.reshape(-1), 6)))
      mon.sample(model=name, view=box, dopant=si, relative=rel)


def sizes(mon, rng):
  """The side length spreads over the documented range."""
  _, _, sim, _, _, _ = simtrace.make(rng, columns=30)
  got = [sim.reset(rng).fov.width for _ in range(600)]
  from scipy import stats

  p = stats.kstest((np.array(got) - 15) / 15, 'uniform').pvalue
  mon.check('view sizes are spread over the range', p > 1e-9, lambda: dict(p=p, min=min(got), max=max(got)))
  mon.check('view sizes are spread over the range', min(got) < 15.8 and max(got) > 29.2, lambda: dict(min=min(got), max=max(got)))
  mon.state('sizes', p)


KINDS = [Kind('history', history, 200, 5000), Kind('sizes', sizes, 2, 20)]
