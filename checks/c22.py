"""C22: telling the sublattices of graphene apart and measuring its scale."""
import numpy as np

from vlib import gen
from vlib.harness import Kind
from putting_dune import alignment

PROPERTY = 'C22'
RULE = (
    'Patches of graphene of any orientation (also at the angles where bond'
    ' directions wrap around), offset, scale, size (8-20 angstroms) and atom'
    ' order, with position noise and missing atoms, classified by classifiers'
    ' trained on the same and on other views of the sheet. Non-trivial: both'
    ' sublattices are present; distinct by positions.'
)
ASSUMPTIONS = ['Fragments without any atom with all three bonds are not judged.']
REQUIRED = {
    'bonded atoms get opposite classes': 180, 'class is the sublattice': 180,
    'other views of the sheet get the same classes': 180, 'order of atoms does not matter': 180,
    'scale is measured': 120, 'inputs are left alone': 180,
}


def angle(rng):
  k = rng.random()
  if k < 0.5:
    return float(rng.integers(0, 12)) * np.pi / 6 + rng.choice([0.0, 0.0, 1e-9, -1e-9, 0.01, -0.01])
  return float(rng.uniform(0, 2 * np.pi))


def bonded(pos, bond):
  d = np.hypot(*(pos[:, None] - pos[None]).transpose(2, 0, 1))
  return (d > 0.1 * bond) & (d < 1.35 * bond)


def reachable(pos):
  """Atoms connected by bonds to an atom with three of them."""
  nb = bonded(pos, gen.BOND)
  inside = nb.sum(1) >= 3
  while True:
    more = inside | (nb & inside[None]).any(1)
    if np.array_equal(more, inside):
      return inside
    inside = more


def sublattices(mon, rng):
  theta = angle(rng)
  jitter = float(rng.choice([0, 0, 0.02, 0.05]))
  pos, label, _ = gen.graphene_patch(rng, float(rng.uniform(8, 16)), theta=theta, jitter=jitter)
  if rng.random() < 0.3:  # missing atoms
    keep = rng.random(len(pos)) > 0.03
    pos, label = pos[keep], label[keep]
  np.random.seed(int(rng.integers(2**31)))
  kept = pos.copy()
  classifier = alignment.get_lattice_clusterer(pos)
  got = np.asarray(alignment.classify_lattice_types(pos, classifier))
  nb = bonded(pos, gen.BOND)
  judged = reachable(pos)
  i, j = np.where(nb & judged[:, None])
  mon.check('bonded atoms get opposite classes', got.shape == (len(pos),) and set(np.unique(got).tolist()) <= {0, 1} and bool(np.all(got[i] == 1 - got[j])),
            lambda: dict(angle=theta, atoms=len(pos), wrong=int(np.sum(got[i] == got[j])), classes=np.unique(got)))
  same = (got == label)[judged]
  mon.check('class is the sublattice', bool(same.all() or not same.any()), lambda: dict(angle=theta, agree=float(same.mean())))
  perm = rng.permutation(len(pos))
  other = np.asarray(alignment.classify_lattice_types(pos[perm], classifier))
  mon.check('order of atoms does not matter', bool(np.array_equal(other[judged[perm]], got[perm][judged[perm]])), lambda: dict(angle=theta, wrong=int(np.sum(other != got[perm]))))
  # Another view of the same sheet: shifted and cropped.
  keep = np.hypot(*(pos - pos.mean(0) - rng.uniform(-2, 2, 2)).T) < rng.uniform(6.5, 9)
  view = pos[keep] + rng.uniform(-100, 100, 2)
  other = np.asarray(alignment.classify_lattice_types(view, classifier))
  ok = judged[keep] & reachable(view)
  mon.check('other views of the sheet get the same classes', bool(np.array_equal(other[ok], got[keep][ok])), lambda: dict(angle=theta, atoms=len(view), wrong=int(np.sum(other != got[keep]))))
  mon.check('inputs are left alone', np.array_equal(pos, kept), None)
  mon.state('sheet', pos.tobytes())
  mon.sample(angle=theta, atoms=len(pos), noise=jitter)


def scale(mon, rng):
  s = gen.log_uniform(rng, 0.02, 60)
  jitter = float(rng.choice([0, 0, 0.01, 0.03, 0.05]))
  pos, _, _ = gen.graphene_patch(rng, float(rng.uniform(12, 20)), theta=angle(rng), jitter=jitter)
  kept = (pos * s).copy()
  given = kept.copy()
  got = float(alignment.get_graphene_scale_factor(given))
  # Noise lengthens distances a little, and the rim has fewer neighbours
  # (largest error seen over 300 views per noise: 0.002, 0.005, 0.01).
  tol = {0: 0.0005, 0.01: 0.005, 0.03: 0.011, 0.05: 0.02}[jitter]
  mon.check('scale is measured', abs(got / s - 1) < tol, lambda: dict(got=got, want=s, atoms=len(pos), noise=jitter))
  mon.maximum('scale error', abs(got / s - 1))
  mon.check('inputs are left alone', np.array_equal(given, kept), None)
  mon.state('scale', pos.tobytes())


KINDS = [Kind('sublattices', sublattices, 400, 6000), Kind('scale', scale, 250, 4000)]
