"""C14: action adapters."""
import datetime as dt

import numpy as np
from scipy import stats

from vlib import gen
from vlib.harness import Kind
from putting_dune import action_adapters as aa
from putting_dune import microscope_utils as mu

PROPERTY = 'C14'
RULE = (
    'Every action adapter with random settings, on random views (square and'
    ' elongated) holding zero to three silicon atoms, driven with actions'
    ' inside, on and far outside the declared bounds in single and double'
    ' precision, through whole episodes with resets. Non-trivial: the action'
    ' is not zero; distinct by adapter, action and view.'
)
ASSUMPTIONS = ['Agreement to 1e-5 in microscope units, times to two microseconds.']
REQUIRED = {
    'direct position': 180, 'delta position': 360, 'relative position': 180, 'angstrom position': 180,
    'dwell time': 900, 'dwell time scales with the action': 120, 'one control, inside the view': 900,
    'exactly one silicon is required': 60, 'actions of the spec are accepted': 360,
    'delta start is random': 30, 'a reset starts afresh': 35, 'action is left alone': 900,
}


def observation(rng, n_si=1, inside=True):
  f = gen.fov(rng)
  n = int(rng.choice([1, 3, 20])) + n_si
  pos = rng.uniform(0.0, 1.0, size=(n, 2)).astype(rng.choice(['f8', 'f8', 'f4']))
  numbers = rng.choice([6, 6, 7, 79], size=n)
  numbers[rng.choice(n, size=n_si, replace=False)] = gen.SILICON
  return mu.MicroscopeObservation(
      mu.AtomicGrid(pos, numbers), f, gen.controls(rng), gen.timedelta(rng)
  )


def make_action(rng, spec, allow_more=True):
  lo = np.broadcast_to(np.asarray(spec.minimum, float), spec.shape)
  hi = np.broadcast_to(np.asarray(spec.maximum, float), spec.shape)
  k = rng.integers(0, 5)
  inside = k <= 2
  if k <= 1:
    a = rng.uniform(lo, hi)
  elif k == 2:
    a = np.where(rng.random(spec.shape) < 0.5, lo, hi)
  elif k == 3:
    a = rng.uniform(lo - 0.5, hi + 0.5)
  else:
    a = rng.uniform(-50, 50, size=spec.shape)
  dtype = spec.dtype if inside and rng.random() < 0.5 else rng.choice(['f4', 'f8'])
  a = a.astype(dtype)
  if inside:
    a = np.clip(a, np.asarray(spec.minimum, dtype), np.asarray(spec.maximum, dtype))
  return a, inside


def call(mon, adapter, obs, action):
  kept, obs_before = action.copy(), gen.digest(obs)
  out = adapter.get_action(obs, action)
  mon.check('action is left alone', np.array_equal(kept, action) and gen.digest(obs) == obs_before, None)
  mon.require('one control, inside the view', len(out) == 1
              and bool(np.all((gen.xy(out[0].position) >= 0) & (gen.xy(out[0].position) <= 1))),
              lambda: dict(out=out))
  return gen.xy(out[0].position), out[0].dwell_time


def check_spec(mon, adapter, action, inside):
  spec = adapter.action_spec
  mon.check('spec is well formed', spec.dtype == np.float32 and len(spec.shape) == 1
            and np.all(np.asarray(spec.minimum) < np.asarray(spec.maximum)), None)
  if inside:
    try:
      spec.validate(action.astype(spec.dtype))
      ok = True
    except ValueError:
      ok = False
    mon.check('actions of the spec are accepted', ok, None)


def direct(mon, rng):
  adapter = aa.DirectActionAdapter()
  adapter.reset()
  mon.check('bounds', adapter.action_spec.shape == (2,) and np.all(adapter.action_spec.minimum == 0) and np.all(adapter.action_spec.maximum == 1), None)
  for _ in range(4):
    obs = observation(rng, int(rng.integers(0, 3)))
    action, inside = make_action(rng, adapter.action_spec)
    check_spec(mon, adapter, action, inside)
    p, t = call(mon, adapter, obs, action)
    mon.check('direct position', gen.close(p, np.clip(action.astype(float), 0, 1), 1e-6), lambda: dict(action=action, got=p))
    mon.check('dwell time', t == dt.timedelta(seconds=1.5), dict(dwell=t))
    mon.state('direct', action.tobytes())




def delta(mon, rng):
  adapter = aa.DeltaPositionActionAdapter(np.random.default_rng(int(rng.integers(2**31))))
  spec = adapter.action_spec
  mon.check('bounds', spec.shape == (2,) and np.allclose(spec.minimum, -0.1) and np.allclose(spec.maximum, 0.1), None)
  starts = []
  for episode in range(int(rng.integers(1, 4))):
    if episode or rng.random() < 0.5:
      adapter.reset()
    obs = observation(rng, int(rng.integers(0, 3)))
    at, _ = call(mon, adapter, obs, np.zeros(2, np.float32))
    starts.append(tuple(at))
    for _ in range(int(rng.integers(1, 12))):
      action, inside = make_action(rng, spec)
      if inside and rng.random() < 0.3:
        action = np.abs(action)  # run into a corner
      check_spec(mon, adapter, action, inside)
      p, t = call(mon, adapter, obs, action)
      want = np.clip(at + action.astype(float), 0.0, 1.0)
      mon.check('delta position', gen.close(p, want, 1e-6), lambda: dict(before=at, action=action, got=p, want=want))
      mon.check('dwell time', t == dt.timedelta(seconds=1.5), dict(dwell=t))
      at = p
      mon.state('delta', p.tobytes())
  if len(starts) > 1:
    mon.check('a reset starts afresh', len(set(starts)) == len(starts), dict(starts=starts))


def starts(mon, rng):
  """Pooled over resets, the delta adapter starts anywhere in the view."""
  adapter = aa.DeltaPositionActionAdapter(np.random.default_rng(int(rng.integers(2**31))))
  obs = observation(rng, 1)
  at = []
  for _ in range(400):
    adapter.reset()
    at.append(call(mon, adapter, obs, np.zeros(2, np.float32))[0])
  x, y = np.array(at).T
  # Uniform on the square: so are both coordinates, and their sum and
  # difference modulo one.
  for name, u in (('x', x), ('y', y), ('sum', (x + y) % 1), ('difference', (x - y) % 1)):
    p = stats.kstest(u, 'uniform').pvalue
    mon.check('delta start is random', p > 1e-9, lambda: dict(what=name, p=p))
  mon.state('starts', round(float(x.sum()), 9))
  mon.count('starts pooled', 400)


def relative(mon, rng):
  material = rng.random() < 0.5
  cls = aa.RelativeToSiliconMaterialFrameActionAdapter if material else aa.RelativeToSiliconActionAdapter
  kw = {}
  reach, lo, hi = 1.42, 1.5, 1.5
  if rng.random() < 0.6:
    reach = float(rng.uniform(0.3, 6))
    kw['max_distance_angstroms'] = reach
  if rng.random() < 0.6:
    lo = float(rng.choice([0.0, 1.0, 1.5, 2.25]))
    hi = lo if rng.random() < 0.3 else lo + float(rng.choice([0.5, 4.0, 18.5]))
    kw['dwell_time_range'] = (dt.timedelta(seconds=lo), dt.timedelta(seconds=hi))
  adapter = cls(**kw)
  spec = adapter.action_spec
  timed = hi > lo
  mon.check('bounds', spec.shape == ((3,) if timed else (2,))
            and np.all(np.broadcast_to(spec.minimum, spec.shape)[:2] == -1) and np.all(np.broadcast_to(spec.maximum, spec.shape)[:2] == 1)
            and (not timed or (spec.minimum[2] == 0 and spec.maximum[2] == 1)), lambda: dict(spec=spec))
  adapter.reset()
  for _ in range(5):
    n_si = 1 if rng.random() < 0.85 else int(rng.choice([0, 2, 3]))
    obs = observation(rng, n_si)
    action, inside = make_action(rng, spec)
    check_spec(mon, adapter, action, inside)
    if n_si != 1:
      try:
        adapter.get_action(obs, action)
        ok = False
      except RuntimeError:
        ok = True
      mon.check('exactly one silicon is required', ok, dict(silicon=n_si))
      continue
    p, t = call(mon, adapter, obs, action)
    box = gen.fov_box(obs.fov)
    numbers = np.asarray(obs.grid.atomic_numbers)
    si = gen.to_material(box, obs.grid.atom_positions[numbers == gen.SILICON][0])
    a = action[:2].astype(float)
    target = si + (a if material else np.clip(a, -1, 1) * reach)
    want = np.clip(gen.to_microscope(box, target), 0, 1)
    scale = max(1.0, float(np.max(np.abs(box))) / float(np.min(box[1] - box[0])))
    mon.check('angstrom position' if material else 'relative position', gen.close(p, want, 2e-6 * scale, 1.0),
              lambda: dict(action=action, fov=box, silicon=si, got=p, want=want, settings=kw))
    seconds = lo + (hi - lo) * float(np.clip(action[2], 0, 1)) if timed else lo
    if timed:
      mon.check('dwell time scales with the action', abs(t.total_seconds() - seconds) < 5e-6, lambda: dict(dwell=t, want=seconds, action=action))
    mon.check('dwell time', abs(t.total_seconds() - seconds) < 5e-6, lambda: dict(dwell=t, want=seconds, action=action))
    mon.state(cls.__name__, action.tobytes(), gen.digest(obs.fov))
    mon.sample(adapter=cls.__name__, settings={k: str(v) for k, v in kw.items()}, action=action, fov=box, control=p, dwell=t)


KINDS = [Kind('direct', direct, 200, 5000), Kind('delta', delta, 500, 6000), Kind('starts', starts, 8, 60), Kind('relative', relative, 500, 15000)]
