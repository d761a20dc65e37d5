"""C08: transition-rate models."""
import os
import tempfile

import numpy as np

from vlib import gen
from vlib.harness import Kind
from putting_dune import geometry
from putting_dune import graphene
from putting_dune import microscope_utils as mu

PROPERTY = 'C08'
RULE = (
    'Each built-in rate model evaluated on random doped lattice patches (any'
    ' rotation, offset, atom order, slight jitter) and beam positions on and'
    ' around the silicon, its neighbours and far away, against closed-form'
    ' references and against itself after rigid motions and permutations.'
    ' Non-trivial: some rate above 1% of the peak; distinct by patch and beam.'
)
ASSUMPTIONS = [
    'The human prior is evaluated with isotropic covariances.',
    'Agreement to 2e-3 relative plus 1e-5 of the peak rate (single precision).',
]
REQUIRED = {
    'three successors': 300, 'successor swaps one neighbour': 900,
    'rates match the reference': 900, 'rigid motion invariance': 180,
    'order of atoms does not matter': 180, 'rates are valid': 300,
    'peak towards the neighbour': 120, 'mixture round trip': 35,
    'sampled mixtures are valid': 35, 'total rate is the sum': 180,
    'mixture peak is the maximum rate': 20,
}
B = gen.BOND


def gmm_reference(fn, si, nb, beam):
  w, loc, var = fn.mixture_weights, fn.loc_distances, fn.variances
  peak = max(w[i] / (2 * np.pi * np.sqrt(var[i][0] * var[i][1])) for i in range(len(w)))
  out = []
  for n in nb:
    d = n - si
    u = d / np.hypot(*d)
    v = np.array([-u[1], u[0]])
    rate = 0.0
    for i in range(len(w)):
      r = beam - (si + d * loc[i])
      a, b = r @ u, r @ v
      q = a * a / var[i][0] + b * b / var[i][1]
      rate += w[i] * np.exp(-0.5 * q) / (2 * np.pi * np.sqrt(var[i][0] * var[i][1]))
    out.append(rate * fn.max_rate / peak)
  return np.array(out)


def simple_reference(si, nb, beam):
  del si
  d = np.hypot(*(nb - beam).T) / B
  return 1.0 / (1.0 + 16 * d * d)


def prior_reference(mean, var, peak, si, nb, beam):
  out = []
  rel = (beam - si) / B
  for n in nb:
    ang = np.arctan2(*(n - si)[::-1])
    m = gen.rotate(np.asarray(mean, float), ang)
    out.append(peak * np.exp(-0.5 * np.sum((rel - m) ** 2) / var))
  return np.array(out)


def pick(rng):
  """(name, rate function, reference, peak, cost)."""
  k = rng.integers(0, 8)
  if k <= 2:
    return ('inverse square',
            graphene.PristineSingleSiGrRatePredictor(graphene.simple_canonical_rate_function),
            simple_reference, 1.0)
  if k == 3:
    if rng.random() < 0.5:
      p, mean, var, peak = graphene.HumanPriorRatePredictor(), (0.85, 0.0), 0.1, np.log(2) / 3
    else:
      mean = rng.uniform(-1, 1.5, size=2)
      var, peak = rng.uniform(0.05, 0.6), rng.uniform(0.05, 2)
      p = graphene.HumanPriorRatePredictor(np.asarray(mean), np.eye(2) * var, peak)
    return ('human prior', graphene.PristineSingleSiGrRatePredictor(p.predict),
            lambda si, nb, b: prior_reference(mean, var, peak, si, nb, b), peak)
  fn = graphene.GaussianMixtureRateFunction.sample_new(rng)
  return ('mixture', fn, lambda si, nb, b: gmm_reference(fn, si, nb, b), fn.max_rate)


def scene(rng):
  pos, _, si = gen.graphene_patch(rng, radius=float(rng.uniform(5, 10)), jitter=float(rng.choice([0.0, 0.03])))
  d = np.hypot(*(pos - pos[si]).T)
  order = np.argsort(d)
  nb = order[1:4]
  k = rng.integers(0, 5)
  if k == 0:
    beam = pos[nb[0]].copy()
  elif k == 1:
    beam = pos[si].copy()
  elif k == 2:
    beam = pos[si] + rng.normal(0, 1.4, size=2)
  elif k == 3:
    beam = pos[si] + (pos[nb[1]] - pos[si]) * rng.uniform(0.5, 1.2)
  else:
    beam = pos[si] + rng.uniform(-15, 15, size=2)
  return pos, si, nb, beam


def by_target(grid, rates):
  out = {}
  for s in rates.successor_states:
    to = np.flatnonzero(s.grid.atomic_numbers == gen.SILICON)
    out[int(to[0]) if len(to) == 1 else -1] = float(s.rate)
  return out


def model(mon, rng):
  name, fn, ref, peak = pick(rng)
  for _ in range(3):
    pos, si, nb, beam = scene(rng)
    grid = gen.doped(pos, si)
    before = gen.digest(grid)
    rates = fn(grid, geometry.Point(tuple(beam)))
    mon.check('operand unchanged', gen.digest(grid) == before, dict(model=name))
    mon.require('three successors', len(rates.successor_states) == 3, lambda: dict(model=name, got=len(rates.successor_states)))
    for s in rates.successor_states:
      num = s.grid.atomic_numbers
      mon.require('successor swaps one neighbour',
                  np.array_equal(s.grid.atom_positions, pos) and (num == gen.SILICON).sum() == 1
                  and (num == gen.CARBON).sum() == len(pos) - 1
                  and int(np.flatnonzero(num == gen.SILICON)[0]) in nb,
                  lambda: dict(model=name, silicon=np.flatnonzero(num == gen.SILICON), neighbours=nb))
    got = by_target(grid, rates)
    mon.check('three successors', set(got) == set(nb.tolist()), lambda: dict(model=name, got=list(got), want=nb))
    values = np.array([got.get(int(n), np.nan) for n in nb])
    mon.check('rates are valid', np.isfinite(values).all() and (values >= 0).all(), lambda: dict(model=name, rates=values))
    want = ref(pos[si], pos[nb], beam)
    ceiling = max(peak, float(want.max()))
    for v, w in zip(values, want):
      mon.check('rates match the reference', abs(v - w) <= 2e-3 * w + 1e-5 * ceiling,
                lambda: dict(model=name, got=values, want=want, beam=beam, silicon=pos[si], neighbours=pos[nb]))
    mon.check('total rate is the sum', abs(float(rates.total_rate) - values.sum()) <= 1e-5 * max(1e-9, values.sum()) + 1e-9, None)
    # Rigid motion.
    th, sh = rng.uniform(0, 2 * np.pi), rng.uniform(-40, 40, size=2)
    pos2, beam2 = gen.rotate(pos, th) + sh, gen.rotate(beam, th) + sh
    moved = by_target(grid, fn(gen.doped(pos2, si), geometry.Point(tuple(beam2))))
    mon.check('rigid motion invariance',
              all(abs(moved.get(i, np.nan) - got[i]) <= 2e-3 * got[i] + 1e-5 * ceiling for i in got),
              lambda: dict(model=name, rotation=th, shift=sh, before=got, after=moved))
    # Order of the atoms.
    perm = rng.permutation(len(pos))
    inv = np.argsort(perm)
    shuffled = by_target(grid, fn(gen.doped(pos[perm], int(inv[si])), geometry.Point(tuple(beam))))
    mon.check('order of atoms does not matter',
              all(abs(shuffled.get(int(inv[i]), np.nan) - got[i]) <= 1e-4 * got[i] + 1e-6 * ceiling for i in got),
              lambda: dict(model=name, before=got, after=shuffled))
    # Mirror image (all built-in models are symmetric about the bond).
    if name != 'human prior':
      flip = np.array([-1.0, 1.0])
      mirrored = by_target(grid, fn(gen.doped(pos * flip, si), geometry.Point(tuple(beam * flip))))
      mon.check('mirror invariance', all(abs(mirrored.get(i, np.nan) - got[i]) <= 2e-3 * got[i] + 1e-5 * ceiling for i in got),
                lambda: dict(model=name, before=got, after=mirrored))
    if values.max() > 0.01 * peak:
      mon.state(name, gen.digest(pos), tuple(beam))
    mon.count('evaluations: ' + name)
  mon.sample(model=name, beam=beam, rates=values, reference=want)


def aim(mon, rng):
  """Aiming at a neighbour makes the move to that neighbour the likeliest."""
  pos, _, si = gen.graphene_patch(rng, radius=7)
  nb = np.argsort(np.hypot(*(pos - pos[si]).T))[1:4]
  i = int(rng.integers(0, 3))
  k = rng.integers(0, 3)
  if k == 0:
    fn, frac = graphene.PristineSingleSiGrRatePredictor(graphene.simple_canonical_rate_function), rng.uniform(0.5, 1.3)
  elif k == 1:
    fn, frac = graphene.PristineSingleSiGrRatePredictor(graphene.HumanPriorRatePredictor().predict), rng.uniform(0.4, 1.3)
  else:
    fn = graphene.GaussianMixtureRateFunction(
        max_rate=float(rng.uniform(0.1, 3)), mixture_weights=np.array([1.0]),
        loc_distances=np.array([rng.uniform(0.5, 1.5)]), variances=np.array([rng.uniform(0.1, 1.0, size=2)]))
    frac = float(fn.loc_distances[0])
  beam = pos[si] + (pos[nb[i]] - pos[si]) * frac
  got = by_target(None, fn(gen.doped(pos, si), geometry.Point(tuple(beam))))
  mon.check('peak towards the neighbour', max(got, key=got.get) == nb[i], lambda: dict(model=int(k), aimed=int(nb[i]), rates=got, fraction=frac))
  if k == 2:
    mon.check('mixture peak is the maximum rate', abs(got[int(nb[i])] - fn.max_rate) < 1e-3 * fn.max_rate, lambda: dict(rate=got, max_rate=fn.max_rate))
  if k == 0 and abs(frac - 1) < 0.2:
    top = by_target(None, fn(gen.doped(pos, si), geometry.Point(tuple(pos[nb[i]]))))
    mon.check('peak towards the neighbour', abs(top[int(nb[i])] - 1.0) < 1e-5 and got[int(nb[i])] <= top[int(nb[i])] + 1e-6, lambda: dict(top=top, got=got))
  mon.state('aim', int(k), gen.digest(pos))


def mixtures(mon, rng):
  fn = graphene.GaussianMixtureRateFunction.sample_new(rng)
  n = len(fn.mixture_weights)
  ok = (n >= 1 and abs(fn.mixture_weights.sum() - 1) < 1e-9 and (fn.mixture_weights >= 0).all()
        and fn.loc_distances.shape == (n,) and fn.variances.shape == (n, 2) and (fn.variances > 0).all()
        and fn.max_rate > 0)
  mon.check('sampled mixtures are valid', ok, lambda: dict(fn=fn))
  with tempfile.TemporaryDirectory() as d:
    target = os.path.join(d, 'a', 'b')
    fn.serialize_to_directory(target)
    if rng.random() < 0.5:  # overwritten by another
      other = graphene.GaussianMixtureRateFunction.sample_new(rng)
      other.serialize_to_directory(target)
      fn.serialize_to_directory(target)
    back = graphene.GaussianMixtureRateFunction.deserialize_from_directory(target)
  same = (back.max_rate == fn.max_rate and np.array_equal(back.mixture_weights, fn.mixture_weights)
          and np.array_equal(back.loc_distances, fn.loc_distances) and np.array_equal(back.variances, fn.variances))
  mon.check('mixture round trip', same and back == fn and fn == back, lambda: dict(before=fn, after=back))
  pos, si, nb, beam = scene(rng)
  a = by_target(None, fn(gen.doped(pos, si), geometry.Point(tuple(beam))))
  b = by_target(None, back(gen.doped(pos, si), geometry.Point(tuple(beam))))
  mon.check('mixture round trip', a == b, lambda: dict(before=a, after=b))
  # Equality tells apart what behaves differently.
  for field in ('max_rate', 'mixture_weights', 'loc_distances', 'variances'):
    kw = {f: getattr(fn, f) for f in ('max_rate', 'mixture_weights', 'loc_distances', 'variances')}
    delta = float(rng.uniform(0.01, 0.5))
    if field == 'max_rate':
      kw[field] = kw[field] + delta
    else:
      arr = kw[field].copy()
      arr.reshape(-1)[rng.integers(0, arr.size)] += delta
      kw[field] = arr
    changed = graphene.GaussianMixtureRateFunction(**kw)
    mon.check('mixtures differ when a parameter differs', not (fn == changed) and not (changed == fn), lambda: dict(field=field, delta=delta))
  mon.state('mixture', gen.digest(fn.variances))


def several_silicon(mon, rng):
  """No silicon raises; with several, the one nearest the view's centre counts."""
  n = int(rng.integers(4, 40))
  pos = rng.random((n, 2))
  num = np.full(n, gen.CARBON)
  k = int(rng.integers(0, 5))
  ix = rng.choice(n, size=min(k, n), replace=False)
  num[ix] = gen.SILICON
  g = mu.AtomicGrid(pos, num)
  mon.check('silicon positions', np.array_equal(graphene.get_silicon_positions(g), pos[np.sort(ix)] if len(ix) else np.zeros((0, 2))), None)
  if not len(ix):
    raised = False
    try:
      graphene.get_single_silicon_position(g)
    except graphene.SiliconNotFoundError:
      raised = True
    mon.check('missing silicon is reported', raised, None)
  else:
    got = graphene.get_single_silicon_position(g)
    d = np.hypot(*(pos[ix] - 0.5).T)
    mon.check('silicon nearest the centre of the view', got.shape == (2,) and np.array_equal(got, pos[ix][np.argmin(d)]),
              lambda: dict(silicon=pos[ix], got=got))


KINDS = [
    Kind('model', model, 260, 8000),
    Kind('aim', aim, 300, 4000),
    Kind('mixtures', mixtures, 80, 2000),
    Kind('several silicon', several_silicon, 150, 2000),
]
