"""Drives the real simulator and records everything its observers are told."""
import datetime as dt

import numpy as np

from vlib import gen
from putting_dune import geometry
from putting_dune import graphene
from putting_dune import microscope_utils as mu
from putting_dune import simulator


class TraceObserver(mu.SimulatorObserver):
  """Records each notification with its arguments (and their fingerprints)."""

  def __init__(self):
    self.events = []

  def observe_reset(self, grid, fov):
    self.events.append(('reset', dict(grid=grid, fov=fov)))

  def observe_apply_control(self, control):
    self.events.append(('apply', dict(control=control)))

  def observe_transition(self, time_since_control_was_applied, grid):
    self.events.append(('transition', dict(time=time_since_control_was_applied, grid=grid)))

  def observe_fov_change(self, fov):
    self.events.append(('fov', dict(fov=fov)))

  def observe_take_image(self, duration, fov):
    self.events.append(('take', dict(duration=duration, fov=fov)))

  def observe_generated_image(self, image):
    self.events.append(('image', dict(image=image)))

  def drain(self):
    out, self.events = self.events, []
    return out


def rate_model(rng):
  """A rate function with an interesting amount of motion for ~1.5 s dwells."""
  k = rng.integers(0, 5)
  if k == 0:
    return 'inverse square', graphene.PristineSingleSiGrRatePredictor(graphene.simple_canonical_rate_function)
  if k == 1:
    return 'mixture', graphene.GaussianMixtureRateFunction.sample_new(rng)
  if k == 2:
    scale = gen.log_uniform(rng, 0.3, 30)
    return 'isotropic', graphene.PristineSingleSiGrRatePredictor(lambda *a: np.full(3, scale, np.float32))
  # Strong drift in one direction: the dopant crosses fields of view.
  scale = gen.log_uniform(rng, 0.5, 12)
  direction = gen.rotate(np.array([1.0, 0.0]), rng.uniform(0, 6.28))

  def canonical(grid, beam_position, silicon_position, neighbor_indices):
    delta = grid.atom_positions[neighbor_indices] - silicon_position
    return (scale * np.exp(2.0 * (delta @ direction) / gen.BOND)).astype(np.float32)

  return 'drift', graphene.PristineSingleSiGrRatePredictor(canonical)


def patient_model():
  """A material on which hardly anything happens, however long it is exposed."""
  return 'patient', graphene.PristineSingleSiGrRatePredictor(lambda *a: np.full(3, 1e-6, np.float32))


def beam_near(rng, obs):
  """A control in the microscope frame, usually near the dopant."""
  si = obs.grid.atom_positions[obs.grid.atomic_numbers == gen.SILICON]
  if rng.random() < 0.6 and len(si):
    p = si[0] + rng.normal(0, 0.05, size=2)
  else:
    p = rng.uniform(-0.2, 1.2, size=2)
  k = rng.integers(0, 5)
  dwell = [
      dt.timedelta(0), dt.timedelta(seconds=1.5), dt.timedelta(seconds=0.25),
      dt.timedelta(microseconds=int(rng.integers(1, 3_000_000))), dt.timedelta(seconds=3),
  ][k]
  if rng.random() < 0.5:
    return mu.BeamControl(geometry.Point((float(p[0]), float(p[1]))), dwell)
  return mu.BeamControl(
      geometry.Point((float(p[0]), float(p[1]))), dwell,
      float(rng.uniform(20, 200)), float(rng.uniform(0.01, 1)),
  )


def make(rng, columns=None, model=None):
  name, fn = model or rate_model(rng)
  beams = []

  def spy(grid, beam_position):
    beams.append(gen.xy(beam_position))
    return fn(grid, beam_position)

  m = graphene.PristineSingleDopedGraphene(
      rate_function=spy, grid_columns=columns or int(rng.choice([30, 50, 50, 70]))
  )
  duration = [
      dt.timedelta(seconds=2), dt.timedelta(0), dt.timedelta(seconds=4),
      dt.timedelta(microseconds=int(rng.integers(1, 5_000_000))), dt.timedelta(hours=3),
  ][rng.integers(0, 5)]
  obs = TraceObserver()
  initial = [obs] if rng.random() < 0.5 else []
  kw = {} if (duration == dt.timedelta(seconds=2) and rng.random() < 0.5) else dict(image_duration=duration)
  sim = simulator.PuttingDuneSimulator(m, observers=initial, **kw)
  if not initial:
    sim.add_observer(obs)
  return name, m, sim, obs, duration, beams
