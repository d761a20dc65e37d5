"""C15: feature constructors."""
import dataclasses

import numpy as np

from vlib import gen
from vlib.harness import Kind
from putting_dune import feature_constructors as fc
from putting_dune import goals
from putting_dune import graphene
from putting_dune import microscope_utils as mu

PROPERTY = 'C15'
RULE = (
    'Random views of doped lattice patches (any rotation, offset, atom order,'
    ' jitter, one or several silicon atoms, with and without an image of any'
    ' size) and random goals, turned into features by each constructor and'
    ' compared with features computed independently in angstroms. Non-trivial:'
    ' the silicon has three neighbours in view; distinct by grid, view and'
    ' goal.'
)
ASSUMPTIONS = [
    'For the microscope-frame features the neighbours are judged on square'
    ' views only (the simulator produces no others); silicon and goal parts on'
    ' all views.',
    'Neighbour order is not part of the property.',
    'Views where the third and fourth neighbour are nearly equally far are not'
    ' judged.',
]
REQUIRED = {
    'silicon position': 360, 'neighbour vectors': 300, 'goal vector': 540,
    'image is the observed image': 60, 'features match the spec': 600,
    'no silicon is an error': 35, 'wrong goal type is refused': 35, 'missing image is an error': 18,
    'order of atoms does not matter': 180, 'several silicon atoms': 60,
    'moving sheet and view together changes nothing else': 90,
}


def set_goal(rng, pos):
  goal = goals.SingleSiliconGoalReaching()
  if rng.random() < 0.7:
    g = pos[rng.integers(len(pos))]
  else:
    g = pos[0] + rng.normal(0, 30, size=2)
  goal.goal_position_material_frame = np.asarray(g, float)
  return goal, np.asarray(g, float)


def same_vectors(got, want, tol):
  """Set equality of two small lists of vectors."""
  left = list(range(len(want)))
  for v in got:
    d = [np.max(np.abs(v - want[j])) for j in left]
    if not d or min(d) > tol:
      return False
    left.pop(int(np.argmin(d)))
  return not left


class OtherGoal(goals.Goal):

  def reset(self, rng, initial_observation):
    pass

  def calculate_reward_and_terminal(self, observation):
    return goals.GoalReturn(0.0, False, False)


def scene(rng, square, n_si):
  f = gen.fov(rng, square=square, lo=9, hi=30, offset=gen.log_uniform(rng, 1, 100))
  pos, _ = gen.patch_in_fov(rng, f, jitter=float(rng.choice([0.0, 0.03])))
  box = gen.fov_box(f)
  micro = gen.to_microscope(box, pos)
  numbers = np.full(len(pos), gen.CARBON)
  ids = rng.choice(len(pos), size=n_si, replace=False)
  d = np.hypot(*(micro[ids] - 0.5).T)
  da = np.hypot(*(pos[ids] - box.mean(0)).T)
  order = np.argsort(d)
  if n_si > 1 and (d[order[1]] - d[order[0]] < 1e-3 or np.argmin(da) != order[0]):
    ids = ids[order[:1]]
    order = np.array([0])
  numbers[ids] = gen.SILICON
  si = ids[order[0]] if n_si else None
  return f, box, pos, micro, numbers, si, len(ids)


def vectors(mon, rng):
  square = rng.random() < 0.7
  n_si = int(rng.choice([0, 1, 1, 1, 1, 2, 3], p=[0.06, 0.2, 0.2, 0.2, 0.1, 0.14, 0.1]))
  f, box, pos, micro, numbers, si, n_si = scene(rng, square, n_si)
  goal, g = set_goal(rng, pos)
  obs = mu.MicroscopeObservation(mu.AtomicGrid(micro, numbers), f, gen.controls(rng), gen.timedelta(rng))
  kept = gen.digest(obs)
  for cls in (fc.SingleSiliconPristineGrapheneFeatureConstuctor, fc.SingleSiliconMaterialFrameFeatureConstructor):
    c = cls()
    c.reset()
    mon.check('needs no image', c.requires_image is False, None)
    if rng.random() < 0.2:
      try:
        c.get_features(obs, OtherGoal())
        ok = False
      except ValueError:
        ok = True
      mon.check('wrong goal type is refused', ok, None)
    if si is None:
      try:
        c.get_features(obs, goal)
        ok = False
      except graphene.SiliconNotFoundError:
        ok = True
      mon.check('no silicon is an error', ok, None)
      continue
    feats = c.get_features(obs, goal)
    spec = c.observation_spec()
    mon.require('features match the spec', isinstance(feats, np.ndarray) and feats.shape == spec.shape == (10,)
                and feats.dtype == spec.dtype == np.float32, lambda: dict(features=feats))
    material = cls is fc.SingleSiliconMaterialFrameFeatureConstructor
    frame = pos if material else micro
    span = float(np.max(np.abs(box))) + 1.0
    tol = 3e-7 * span + 1e-5
    mon.check('silicon position', gen.close(feats[:2], frame[si], tol, 1.0), lambda: dict(got=feats[:2], want=frame[si], cls=cls.__name__))
    mon.check('goal vector', gen.close(feats[8:], g - pos[si], 1e-5, 1 + float(np.max(np.abs(g - pos[si])))),
              lambda: dict(got=feats[8:], want=g - pos[si], cls=cls.__name__))
    if n_si > 1:
      mon.count('several silicon atoms')
    if square or material:
      d = np.hypot(*(pos - pos[si]).T)
      order = np.argsort(d)
      if d[order[4]] - d[order[3]] > 1e-3:
        delta = pos[order[1:4]] - pos[si]
        want = delta if material else delta / d[order[1:4], None]
        mon.check('neighbour vectors', same_vectors(feats[2:8].reshape(3, 2), want, 1e-4 + 2e-6 * span / float(np.min(box[1] - box[0]))),
                  lambda: dict(got=feats[2:8], want=want, cls=cls.__name__, fov=box))
        mon.state(cls.__name__, kept, tuple(g))
        # The order of the atoms is irrelevant.
        perm = rng.permutation(len(micro))
        o2 = dataclasses.replace(obs, grid=mu.AtomicGrid(micro[perm], numbers[perm]))
        f2 = c.get_features(o2, goal)
        mon.check('order of atoms does not matter',
                  np.allclose(f2[[0, 1, 8, 9]], feats[[0, 1, 8, 9]], atol=tol)
                  and same_vectors(f2[2:8].reshape(3, 2), feats[2:8].reshape(3, 2), 1e-4 + 2e-6 * span), None)
        # A common translation of sheet, view and goal only moves material-frame
        # positions.
        shift = rng.uniform(-20, 20, size=2)
        b2 = box + shift
        f3 = mu.MicroscopeFieldOfView(gen.geometry.Point(b2[0]), gen.geometry.Point(b2[1]))
        goal3 = goals.SingleSiliconGoalReaching()
        goal3.goal_position_material_frame = g + shift
        out = c.get_features(dataclasses.replace(obs, fov=f3), goal3)
        want2 = feats[:2] + (shift if material else 0)
        mon.check('moving sheet and view together changes nothing else',
                  gen.close(out[:2], want2, tol * 3, 1.0) and gen.close(out[8:], feats[8:], 1e-5 * span, 1.0)
                  and same_vectors(out[2:8].reshape(3, 2), feats[2:8].reshape(3, 2), 1e-4 * span),
                  lambda: dict(before=feats, after=out, shift=shift))
  mon.check('observation is left alone', gen.digest(obs) == kept, None)
  mon.sample(fov=box, silicon=None if si is None else pos[si], goal=g, atoms=len(pos))


def images(mon, rng):
  n_si = 1 if rng.random() < 0.9 else 2
  f, box, pos, micro, numbers, si, n_si = scene(rng, bool(rng.random() < 0.5), n_si)
  goal, g = set_goal(rng, pos)
  shape = [(128, 128), (512, 512), (64, 64), (256, 512), (100, 300), (17, 33)][rng.integers(0, 6)]
  # A smooth asymmetric picture, so that the expected resized picture is known.
  a, b, c, d = rng.uniform(-1, 1, size=4)
  y, x = np.meshgrid((np.arange(shape[0]) + 0.5) / shape[0], (np.arange(shape[1]) + 0.5) / shape[1], indexing='ij')
  func = lambda y, x: a * x + b * y + c * x * y + d
  image = func(y, x).astype(rng.choice(['f8', 'f4']))
  if shape == (128, 128):
    image = rng.normal(size=shape).astype(image.dtype)
  obs = mu.MicroscopeObservation(mu.AtomicGrid(micro, numbers), f, (), gen.timedelta(rng), image=image)
  kept = gen.digest(obs)
  ctor = fc.ImageFeatureConstructor()
  ctor.reset()
  mon.check('needs an image', ctor.requires_image is True, None)
  feats = ctor.get_features(obs, goal)
  spec = ctor.observation_spec()
  mon.require('features match the spec', sorted(feats) == sorted(spec) == ['goal_delta_angstroms', 'image']
              and all(feats[k].shape == spec[k].shape and feats[k].dtype == spec[k].dtype == np.float32 for k in spec)
              and feats['image'].shape == (128, 128, 1), lambda: dict(shapes={k: v.shape for k, v in feats.items()}))
  if shape == (128, 128):
    want, tol = image, 1e-6
  else:
    y, x = np.meshgrid((np.arange(128) + 0.5) / 128, (np.arange(128) + 0.5) / 128, indexing='ij')
    want, tol = func(y, x), 2.5 / min(shape)
  got = feats['image'][..., 0]
  mon.check('image is the observed image', bool(np.max(np.abs(got - want)) <= tol),
            lambda: dict(shape=shape, worst=float(np.max(np.abs(got - want)))))
  mon.check('goal vector', gen.close(feats['goal_delta_angstroms'], g - pos[si], 1e-5, 1 + float(np.max(np.abs(g - pos[si])))),
            lambda: dict(got=feats['goal_delta_angstroms'], want=g - pos[si]))
  mon.check('observation is left alone', gen.digest(obs) == kept, None)
  if rng.random() < 0.4:
    try:
      ctor.get_features(dataclasses.replace(obs, image=None), goal)
      ok = False
    except RuntimeError:
      ok = True
    mon.check('missing image is an error', ok, None)
    try:
      ctor.get_features(obs, OtherGoal())
      ok = False
    except ValueError:
      ok = True
    mon.check('wrong goal type is refused', ok, None)
  mon.state('image', shape, round(a, 9), n_si)


KINDS = [Kind('vectors', vectors, 700, 20000), Kind('images', images, 200, 4000)]
