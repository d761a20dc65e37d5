"""Builds real environments and agents with instrumented parts."""
import datetime as dt

import numpy as np

from vlib import gen
from vlib import simtrace
from putting_dune import action_adapters
from putting_dune import feature_constructors
from putting_dune import geometry
from putting_dune import goals
from putting_dune import graphene
from putting_dune import microscope_utils as mu
from putting_dune import run_helpers
from putting_dune.experiments import experiments



class SpyAdapter(action_adapters.ActionAdapter):
  """Delegates to a real adapter and records what it is asked and answers."""

  def __init__(self, inner):
    self.inner = inner
    self.calls = []
    self.resets = 0

  def __setattr__(self, name, value):
    # The environment hands its generator to adapters that have one.
    if name == 'rng':
      self.inner.rng = value
    else:
      object.__setattr__(self, name, value)

  def __getattr__(self, name):
    if name == 'rng':
      return getattr(self.inner, 'rng')
    raise AttributeError(name)

  def reset(self):
    self.resets += 1
    self.inner.reset()

  def get_action(self, previous_observation, action):
    controls = self.inner.get_action(previous_observation, action)
    self.calls.append((previous_observation, np.array(action, copy=True), list(controls)))
    return controls

  @property
  def action_spec(self):
    return self.inner.action_spec


class BurstAdapter(action_adapters.ActionAdapter):
  """An adapter that answers with any number of controls, as its type allows."""

  def reset(self):
    pass

  def get_action(self, previous_observation, action):
    n = int(abs(action[0]) * 4)
    return [
        mu.BeamControl(
            geometry.Point((float(0.5 + 0.02 * i), 0.5)),
            dt.timedelta(seconds=float(abs(action[1])) + 0.25 * i),
        )
        for i in range(n)
    ]

  @property
  def action_spec(self):
    return action_adapters.DirectActionAdapter().action_spec


class SpyFeatures(feature_constructors.FeatureConstructor):

  def __init__(self, inner):
    self.inner = inner
    self.calls = []

  def reset(self):
    self.inner.reset()

  def get_features(self, observation, goal):
    out = self.inner.get_features(observation, goal)
    self.calls.append((observation, goal, out))
    return out

  def observation_spec(self):
    return self.inner.observation_spec()

  @property
  def requires_image(self):
    return self.inner.requires_image


class TruncatingGoal(goals.SingleSiliconGoalReaching):
  """Asks for truncation at chosen steps (the interface allows it)."""

  def __init__(self, at):
    super().__init__()
    self.at = at
    self.n = 0

  def reset(self, rng, initial_observation):
    self.n = 0
    super().reset(rng, initial_observation)

  def calculate_reward_and_terminal(self, observation):
    self.n += 1
    out = super().calculate_reward_and_terminal(observation)
    if not out.is_terminal and self.n == self.at:
      return goals.GoalReturn(reward=0.0, is_terminal=False, is_truncated=True)
    return out


ADAPTERS = ['relative', 'relative time', 'material', 'material time', 'direct', 'delta', 'burst']


def adapter(rng, name):
  lo, hi = dt.timedelta(seconds=1), dt.timedelta(seconds=5)
  reach = float(rng.uniform(0.5, 4)) * gen.BOND
  if name == 'relative':
    if rng.random() < 0.5:
      return action_adapters.RelativeToSiliconActionAdapter(max_distance_angstroms=reach)
    return action_adapters.RelativeToSiliconActionAdapter()
  if name == 'relative time':
    return action_adapters.RelativeToSiliconActionAdapter(
        dwell_time_range=(lo, hi), max_distance_angstroms=reach)
  if name == 'material':
    return action_adapters.RelativeToSiliconMaterialFrameActionAdapter()
  if name == 'material time':
    return action_adapters.RelativeToSiliconMaterialFrameActionAdapter(
        dwell_time_range=(lo, hi), max_distance_angstroms=reach)
  if name == 'direct':
    return action_adapters.DirectActionAdapter()
  if name == 'delta':
    return action_adapters.DeltaPositionActionAdapter(
        np.random.default_rng(int(rng.integers(2**31))))
  return BurstAdapter()


FEATURES = {
    'pristine': feature_constructors.SingleSiliconPristineGrapheneFeatureConstuctor,
    'material': feature_constructors.SingleSiliconMaterialFrameFeatureConstructor,
    'image': feature_constructors.ImageFeatureConstructor,
}


def action(rng, spec, obs=None, goal=None, hostile=True):
  """An action for the spec: inside, at the bounds, beyond, or goal directed."""
  lo = np.broadcast_to(np.asarray(spec.minimum, float), spec.shape)
  hi = np.broadcast_to(np.asarray(spec.maximum, float), spec.shape)
  k = rng.integers(0, 6 if hostile else 2)
  if k <= 1:
    a = rng.uniform(lo, hi)
  elif k == 2:
    a = np.where(rng.random(spec.shape) < 0.5, lo, hi)
  elif k == 3:
    a = rng.uniform(lo - 2, hi + 2)
  elif k == 4:
    a = np.zeros(spec.shape)
  else:
    a = rng.uniform(lo, hi)
    if obs is not None and goal is not None:
      si = obs.fov.microscope_frame_to_material_frame(
          graphene.get_single_silicon_position(obs.grid)).reshape(2)
      delta = np.asarray(goal.goal_position_material_frame).reshape(2) - si
      n = np.hypot(*delta)
      a[:2] = delta / n if n > 0 else 0.0
  return a.astype(rng.choice(['f4', 'f4', 'f8']))


def same_features(a, b):
  if isinstance(a, dict) != isinstance(b, dict):
    return False
  if isinstance(a, dict):
    return sorted(a) == sorted(b) and all(same_features(a[k], b[k]) for k in a)
  a, b = np.asarray(a), np.asarray(b)
  return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)


def valid_for(spec, obs):
  if isinstance(spec, dict):
    return isinstance(obs, dict) and sorted(spec) == sorted(obs) and all(
        valid_for(spec[k], obs[k]) for k in spec)
  try:
    spec.validate(obs)
  except ValueError:
    return False
  return bool(np.all(np.isfinite(obs)))


def build(rng, *, adapter_name=None, feature_name=None, limit='random', goal=None,
          goal_range=None, columns=None, observers=(), rate=None, seed=None, spy=True):
  """(env, spies, trace): an environment made by the public constructor."""
  adapter_name = adapter_name or str(rng.choice(ADAPTERS))
  feature_name = feature_name or str(rng.choice(['pristine', 'material']))
  a = adapter(rng, adapter_name)
  f = FEATURES[feature_name]()
  if spy:
    a, f = SpyAdapter(a), SpyFeatures(f)
  g = goal or goals.SingleSiliconGoalReaching()
  if goal_range is not None:
    g.goal_range_angstroms = goal_range
  name, fn = rate or simtrace.rate_model(rng)
  material = graphene.PristineSingleDopedGraphene(
      rate_function=fn, grid_columns=columns or 50)
  duration = dt.timedelta(seconds=float(rng.choice([2.0, 0.0, 3.5, 0.25])))
  if limit == 'random':
    limit = int(rng.choice([1, 2, 3, 7, 20]))
  trace = simtrace.TraceObserver()
  seed = int(rng.integers(2**31)) if seed is None else seed
  env = run_helpers.create_putting_dune_env(
      seed,
      get_adapters_and_goal=lambda: experiments.AdaptersAndGoal(a, f, g),
      get_simulator_config=lambda: experiments.SimulatorConfig(material, duration),
      simulator_observers=(trace,) + tuple(observers),
      step_limit=limit,
  )
  info = dict(adapter=a, features=f, goal=g, rate=name, material=material,
              duration=duration, limit=limit, trace=trace, seed=seed,
              adapter_name=adapter_name, feature_name=feature_name)
  return env, info
