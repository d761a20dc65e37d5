"""C27: symmetry augmentation, the canonical frame and synthetic rate data."""
import math

import jax
from jax import numpy as jnp
import numpy as np

from vlib import gen
from vlib.harness import Kind
from putting_dune import constants
from putting_dune.rate_learning import data_utils

PROPERTY = 'C27'
RULE = (
    'Random data sets (1-12 samples, 3-6 states, with and without context and'
    ' reflection, states of shape (n,) and (n, 1), numpy and jax arrays)'
    ' augmented and compared row by row with an independent action of the'
    ' symmetry group of the neighbours; random surroundings (3-6 neighbours,'
    ' any order, beam anywhere) standardised, also after turning and'
    ' reordering them; synthetic data sets of both kinds, whose rates are'
    ' compared with the prior around each neighbour and whose outcomes are'
    ' pooled for tests of the jump distribution. Non-trivial: a data set with a'
    ' transition and an idle sample, or a turned surrounding.'
)
ASSUMPTIONS = [
    'Single precision arithmetic; surroundings with two neighbours equally far'
    ' from the beam (1e-6) are not judged.',
    'Outcome distributions are tested at p < 1e-9.',
]
REQUIRED = {
    'augmented data is the orbit of the data': 35, 'input left alone': 35, 'nearest neighbour to the right': 1800,
    'the frame is turned as a whole': 1800, 'neighbours in counter-clockwise order': 1800,
    'canonical beam does not depend on orientation or order': 1800, 'rates are the prior around each neighbour': 4,
    'outcomes are possible': 6, 'equal seeds, equal data': 2, 'distribution of outcomes': 2,
}


def augment(mon, rng):
  n = int(rng.integers(1, 13))
  states = int(rng.choice([3, 3, 3, 4, 5, 6]))
  reflect = states == 3 and bool(rng.random() < 0.6)
  column = rng.random() < 0.5
  context = rng.normal(size=(n, int(rng.integers(1, 4)))).astype(np.float32) if rng.random() < 0.7 else None
  data = dict(
      next_state=rng.integers(0, states + 1, n).reshape((n, 1) if column else (n,)),
      dt=(rng.permutation(n) + (rng.random() if rng.random() < 0.8 else 0.0)).astype(np.float32).reshape((n, 1) if column else (n,)),
      rates=rng.random((n, states)).astype(np.float32),
      position=rng.normal(0, 2, (n, 2)).astype(np.float32),
  )
  if context is not None or rng.random() < 0.5:
    data['context'] = context
  if rng.random() < 0.5:
    data = {k: None if v is None else jnp.asarray(v) for k, v in data.items()}
  kept = {k: None if v is None else np.array(v) for k, v in data.items()}
  kw = {} if reflect and states == 3 and rng.random() < 0.5 else dict(reflect=reflect, num_states=states)
  out = data_utils.augment_data(**data, **kw)
  mon.check('input left alone', all(v is None if kept[k] is None else np.array_equal(kept[k], np.asarray(v)) for k, v in data.items()), None)
  shape = lambda k: (n * states * (2 if reflect else 1),) + kept[k].shape[1:]
  good = all(np.shape(out[k]) == shape(k) for k in ('next_state', 'dt', 'rates', 'position'))
  good &= (out.get('context') is None) if context is None else np.shape(out['context']) == shape('context')
  if mon.check('shapes of augmented data', good, lambda: {k: np.shape(v) for k, v in out.items() if v is not None}):
    rows = lambda d: np.concatenate([np.asarray(d[k], float).reshape(len(d['dt']), -1) for k in ('dt', 'next_state', 'rates', 'position')] + ([np.asarray(d['context'], float)] if context is not None else []), 1)
    got = rows(out)
    want = []
    for i in range(n):
      for mirrored in ((False, True) if reflect else (False,)):
        for turn in range(states):
          # Neighbour k lies at angle 2 pi k / states; see where it goes.
          moved = [((-k if mirrored else k) + turn) % states for k in range(states)]
          s = int(kept['next_state'].reshape(-1)[i])
          p = kept['position'][i].astype(float) * ([1, -1] if mirrored else [1, 1])
          r = np.zeros(states)
          r[moved] = kept['rates'][i]
          row = [float(kept['dt'].reshape(-1)[i]), 0 if s == 0 else moved[s - 1] + 1, *r, *gen.rotate(p, 2 * np.pi * turn / states)]
          want.append(row + ([] if context is None else list(context[i])))
    want = np.array(want, float)
    # Match greedily; rows of different samples differ in dt.
    left = list(range(len(want)))
    missing = None
    for row in got:
      d = [np.abs(row - want[j]).max() for j in left]
      j = int(np.argmin(d))
      if d[j] > 1e-4:
        missing = row
        break
      left.pop(j)
    mon.check('augmented data is the orbit of the data', missing is None and not left, lambda: dict(unexpected=missing, states=states, reflect=reflect, of=kept))
  s = kept['next_state']
  if s.any() and not s.all():
    mon.state('data set', gen.digest(kept))
  mon.sample(n=n, states=states, reflect=reflect, context=None if context is None else context.shape)


def standardise(mon, rng):
  for _ in range(20):
    k = int(rng.choice([3, 3, 3, 4, 6]))
    ang = 2 * np.pi * (np.arange(k) + rng.uniform(-0.25, 0.25, k)) / k + rng.uniform(0, 2 * np.pi)
    nb = (gen.log_uniform(rng, 0.5, 3) * rng.uniform(0.85, 1.15, k))[:, None] * np.stack([np.cos(ang), np.sin(ang)], -1)
    nb = nb[rng.permutation(k)]
    beam = rng.normal(0, rng.choice([0.1, 1, 5]), 2)
    if rng.random() < 0.1:
      beam = nb[rng.integers(0, k)].copy()
    e = np.hypot(*(nb - beam).T)
    if np.sort(e)[1] - e.min() < 1e-6:
      continue
    shape = (1, 2) if rng.random() < 0.4 else (2,)
    kept = (beam.copy(), nb.copy())
    out_beam, out_nb, order = data_utils.standardize_beam_and_neighbors(beam.reshape(shape), nb)
    mon.check('input left alone', np.array_equal(beam, kept[0]) and np.array_equal(nb, kept[1]), None)
    c = int(e.argmin())
    out_nb, out_beam, order = np.asarray(out_nb), np.asarray(out_beam), np.asarray(order)
    mon.check('output keeps the shapes', out_nb.shape == (k, 2) and out_beam.shape == shape and sorted(order.tolist()) == list(range(k)), lambda: dict(neighbors=out_nb, beam=out_beam, order=order))
    flat = out_beam.reshape(-1)
    mon.check('nearest neighbour to the right', abs(out_nb[c, 1]) < 1e-9 and out_nb[c, 0] > 0 and order[0] == c, lambda: dict(nearest=c, neighbors=out_nb, order=order))
    t = -np.arctan2(nb[c, 1], nb[c, 0])
    mon.check('the frame is turned as a whole', gen.close(out_nb, gen.rotate(nb, t), 1e-9) and gen.close(flat, gen.rotate(beam, t), 1e-9), lambda: dict(got=(flat, out_nb), want=(gen.rotate(beam, t), gen.rotate(nb, t))))
    ccw = np.arctan2(out_nb[order, 1], out_nb[order, 0]) % (2 * np.pi)
    ccw[0] = 0
    mon.check('neighbours in counter-clockwise order', bool(np.all(np.diff(ccw) > 0)), lambda: dict(angles=ccw, order=order))
    turn, perm = rng.uniform(0, 2 * np.pi), rng.permutation(k)
    b2, _, o2 = data_utils.standardize_beam_and_neighbors(gen.rotate(beam, turn), gen.rotate(nb[perm], turn))
    mon.check('canonical beam does not depend on orientation or order', gen.close(np.asarray(b2).reshape(-1), flat, 1e-8) and np.array_equal(perm[np.asarray(o2)], order), lambda: dict(first=(flat, order), second=(b2, perm[o2])))
  mon.state('surroundings', nb.tobytes())


def synthetic(mon, rng):
  mode = str(rng.choice(['prior', 'prior', 'network']))
  states = int(rng.choice([3, 3, 4, 6]))
  context_dim = int(rng.integers(1, 4))
  n = int(rng.choice([400, 800]))
  lo = float(rng.uniform(0, 2))
  hi = lo + float(rng.uniform(0.1, 8))
  seed = int(rng.integers(0, 2**31))
  kw = dict(num_data=n, data_seed=seed, num_states=states, context_dim=context_dim, actual_time_range=(lo, hi), mode=mode if rng.random() < 0.5 else data_utils.SyntheticDataType(mode))
  if states == 3 and rng.random() < 0.5:
    del kw['num_states']  # A silicon has three neighbours unless told otherwise.
  both = data_utils.generate_synthetic_data(**kw)
  again = data_utils.generate_synthetic_data(**kw)
  mon.check('equal seeds, equal data', all(np.array_equal(a[k], b[k]) for a, b in zip(both, again) for k in a), None)
  mon.check('training and test data differ', not np.array_equal(both[0]['position'], both[1]['position']), None)
  for d in both:
    s, t, r = np.asarray(d['next_state']).reshape(-1), np.asarray(d['dt'], float).reshape(-1), np.asarray(d['rates'], float)
    p = np.asarray(d['position'], float)
    mon.check('outcomes are possible', s.min() >= 0 and s.max() <= states and t.min() >= lo - 1e-5 and t.max() <= hi + 1e-5 and r.shape == (n, states) and (r >= 0).all() and np.isfinite(r).all() and np.shape(d['context']) == (n, context_dim) and p.shape == (n, 2), lambda: dict(states=(s.min(), s.max()), dt=(t.min(), t.max()), lo=lo, hi=hi))
    if mode == 'prior':
      want = np.zeros((n, states))
      for k in range(states):
        e = gen.rotate(p, -2 * np.pi * k / states) - constants.SIGR_PRIOR_RATE_MEAN
        want[:, k] = constants.SIGR_PRIOR_MAX_RATE * np.exp(-0.5 * (e @ np.linalg.inv(constants.SIGR_PRIOR_RATE_COV) * e).sum(1))
      bad = np.abs(r - want).max(1) > 1e-4 * constants.SIGR_PRIOR_MAX_RATE + 1e-3 * want.max(1)
      mon.check('rates are the prior around each neighbour', not bad.any(), lambda: dict(position=p[bad][:2], got=r[bad][:2], want=want[bad][:2], wrong=int(bad.sum())))
    # How often each neighbour should have been taken, given rates and times.
    total = r.sum(1)
    moved = 1 - np.exp(-total * t)
    prob = r / np.maximum(total, 1e-30)[:, None] * moved[:, None]
    label = f'{mode}{states}'
    for k in range(states):
      mon.count(f'pool {label} {k} seen', int((s == k + 1).sum()))
    expected, variance = prob.sum(0), (prob * (1 - prob)).sum(0)
    z = [((s == k + 1).sum() - expected[k]) / np.sqrt(variance[k]) for k in range(states) if variance[k] > 25]
    if z:
      mon.check('distribution of outcomes', max(map(abs, z)) < 6.5, lambda: dict(z=z, expected=expected, mode=mode))
    # Late transitions: the outcome must not depend on anything but the rates.
    if mode == 'prior':
      # No direction is preferred.
      m = p.sum(0) / math.sqrt(n)
      mon.check('no direction is preferred', np.abs(m).max() < 8, lambda: dict(mean=p.mean(0)))
  mon.state('synthetic', seed)


KINDS = [Kind('augment', augment, 80, 1200), Kind('standardise', standardise, 250, 3000), Kind('synthetic', synthetic, 8, 80)]
