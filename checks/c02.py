"""C02: model <-> message round trips."""
import datetime as dt

import numpy as np

from vlib import gen
from vlib.harness import Kind
from putting_dune import geometry
from putting_dune import microscope_utils as mu

PROPERTY = 'C02'
RULE = (
    'Random instances of every record type (empty and large grids, no and many'
    ' controls, sub-millisecond to multi-day times, images of eight shapes and'
    ' seven element types, every combination of present and absent optional'
    ' images) pushed through to_proto/from_proto and through bytes.'
    ' Non-trivial: the instance differs from the default in at least one'
    ' field; distinct by instance fingerprint.'
)
ASSUMPTIONS = [
    'The message schema stores single-precision numbers; equality is equality'
    ' after rounding to single precision, times also to one microsecond.',
    'Beam settings are present (absent settings have no representation).',
]
REQUIRED = {
    'grid round trip': 180, 'control round trip': 180, 'fov round trip': 180,
    'observation round trip': 120, 'transition round trip': 180,
    'trajectory round trip': 35, 'drift round trip': 120,
    'labelled trajectory round trip': 20, 'second round trip is exact': 300,
    'optional images': 360, 'drift applied': 90,
}


def f32(a):
  return np.asarray(a, np.float32)


def same_grid(a, b):
  return (
      isinstance(b, mu.AtomicGrid)
      and a.atom_positions.shape == b.atom_positions.shape
      and np.array_equal(f32(a.atom_positions), f32(b.atom_positions))
      and np.array_equal(a.atomic_numbers, b.atomic_numbers)
  )


def same_point(a, b):
  return np.array_equal(f32(gen.xy(a)), f32(gen.xy(b)))


def same_time(a, b):
  x, y = a.total_seconds(), b.total_seconds()
  return isinstance(b, dt.timedelta) and abs(x - y) <= 1.1e-6 + 1.2e-7 * abs(x)


def same_fov(a, b):
  return same_point(a.lower_left, b.lower_left) and same_point(
      a.upper_right, b.upper_right
  )


def same_control(a, b):
  return (
      same_point(a.position, b.position)
      and same_time(a.dwell_time, b.dwell_time)
      and b.voltage_kv is not None
      and b.current_na is not None
      and f32(a.voltage_kv) == f32(b.voltage_kv)
      and f32(a.current_na) == f32(b.current_na)
  )


def same_controls(a, b):
  return len(a) == len(b) and all(same_control(x, y) for x, y in zip(a, b))


def same_image(a, b):
  if a is None or b is None:
    return a is None and b is None
  return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)


def same_observation(a, b):
  return (
      same_grid(a.grid, b.grid)
      and same_fov(a.fov, b.fov)
      and same_controls(a.controls, b.controls)
      and same_time(a.elapsed_time, b.elapsed_time)
      and same_image(a.image, b.image)
      and same_image(a.label_image, b.label_image)
  )


def same_transition(a, b):
  return (
      same_grid(a.grid_before, b.grid_before)
      and same_grid(a.grid_after, b.grid_after)
      and same_fov(a.fov_before, b.fov_before)
      and same_fov(a.fov_after, b.fov_after)
      and same_controls(a.controls, b.controls)
      and all(
          same_image(getattr(a, n), getattr(b, n))
          for n in (
              'image_before', 'image_after', 'label_image_before',
              'label_image_after',
          )
      )
  )


def same_drift(a, b):
  return (
      a.jitter.shape == b.jitter.shape
      and np.array_equal(f32(a.jitter), f32(b.jitter))
      and np.array_equal(f32(a.drift), f32(b.drift))
  )


def trip(mon, clause, x, same):
  before = gen.digest(x)
  cls = type(x)
  msg = x.to_proto()
  y = cls.from_proto(msg)
  mon.check(clause, isinstance(y, cls) and same(x, y), lambda: dict(value=x, back=y))
  data = msg.SerializeToString()
  z = cls.from_proto_string(data)
  mon.check(clause, isinstance(z, cls) and same(x, z), lambda: dict(value=x, back=z, via='bytes'))
  again = cls.from_proto_string(z.to_proto().SerializeToString())
  mon.check('second round trip is exact', gen.digest(again) == gen.digest(z),
            lambda: dict(first=z, second=again))
  mon.check('operand unchanged', gen.digest(x) == before, dict(type=cls.__name__))
  mon.state(before)
  return z


def basic(mon, rng):
  g = gen.grid(rng)
  trip(mon, 'grid round trip', g, same_grid)
  f = gen.fov(rng, lo=0.01, hi=1000)
  trip(mon, 'fov round trip', f, same_fov)
  c = gen.control(rng)
  if rng.random() < 0.3:
    # a voltage that differs from the current and both from the defaults
    c = mu.BeamControl(c.position, c.dwell_time, 123.0 + rng.random(), 0.77)
  trip(mon, 'control round trip', c, same_control)
  mon.sample(grid=g, fov=gen.fov_box(f), control=c)


def observation(mon, rng):
  o = gen.observation(rng)
  z = trip(mon, 'observation round trip', o, same_observation)
  mon.check('optional images', same_image(o.image, z.image) and same_image(o.label_image, z.label_image),
            lambda: dict(image=o.image is not None, label=o.label_image is not None))
  mon.check('controls are a sequence of the same length', len(z.controls) == len(o.controls), None)


def transition(mon, rng):
  presence = [bool(rng.integers(0, 2)) for _ in range(4)]
  ims = [gen.image(rng) if p else None for p in presence]
  t = mu.Transition(
      gen.grid(rng, scale=2), gen.grid(rng, scale=2), gen.fov(rng), gen.fov(rng),
      gen.controls(rng), *ims,
  )
  z = trip(mon, 'transition round trip', t, same_transition)
  got = [z.image_before, z.image_after, z.label_image_before, z.label_image_after]
  for want, have in zip(ims, got):
    mon.check('optional images', same_image(want, have), lambda: dict(presence=presence))
  mon.state('presence', tuple(presence))


def trajectory(mon, rng):
  n = int(rng.choice([0, 1, 2, 5, 9]))
  t = mu.Trajectory(tuple(gen.observation(rng, n=int(rng.integers(0, 12))) for _ in range(n)))

  def same(a, b):
    return len(a.observations) == len(b.observations) and all(
        same_observation(x, y) for x, y in zip(a.observations, b.observations)
    )

  trip(mon, 'trajectory round trip', t, same)
  drifts = [drift_of(rng) for _ in range(int(rng.integers(0, 5)))]
  labelled = mu.LabeledAlignmentTrajectory(t, drifts)
  trip(
      mon, 'labelled trajectory round trip', labelled,
      lambda a, b: same(a.trajectory, b.trajectory)
      and len(a.drifts) == len(b.drifts)
      and all(same_drift(x, y) for x, y in zip(a.drifts, b.drifts)),
  )
  mon.count('observations', n)


def drift_of(rng, n=None):
  n = int(rng.choice([0, 1, 4, 30])) if n is None else n
  s = gen.log_uniform(rng, 1e-3, 30)
  return mu.Drift(jitter=rng.normal(0, s, size=(n, 2)), drift=rng.normal(0, s, size=2))


def drift(mon, rng):
  d = drift_of(rng)
  trip(mon, 'drift round trip', d, same_drift)
  e = drift_of(rng)
  total = d.cumulate_drift(e)
  mon.check('drift applied', np.allclose(total.drift, d.drift + e.drift) and np.array_equal(total.jitter, d.jitter),
            lambda: dict(a=d, b=e, got=total))
  o = gen.observation(rng, n=len(d.jitter))
  before = gen.digest(o), gen.digest(d)
  moved = d.apply_to_observation(o)
  box = gen.fov_box(o.fov)
  ok = (
      np.allclose(moved.grid.atom_positions, np.asarray(o.grid.atom_positions, float) - d.jitter, atol=1e-5)
      and np.array_equal(moved.grid.atomic_numbers, o.grid.atomic_numbers)
      and np.allclose(gen.fov_box(moved.fov), box + d.drift, atol=1e-9 * 1000)
      and gen.digest(list(moved.controls)) == gen.digest(list(o.controls))
      and moved.elapsed_time == o.elapsed_time
      and same_image(o.image, moved.image)
      and same_image(o.label_image, moved.label_image)
  )
  mon.check('drift applied', ok, lambda: dict(drift=d, observation=o, got=moved))
  mon.check('operand unchanged', (gen.digest(o), gen.digest(d)) == before, None)


KINDS = [
    Kind('basic', basic, 300, 12000),
    Kind('observation', observation, 250, 8000),
    Kind('transition', transition, 320, 8000),
    Kind('trajectory', trajectory, 70, 2000),
    Kind('drift', drift, 200, 8000),
]
