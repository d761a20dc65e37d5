"""C05: the graphene sheet."""
import numpy as np
from scipy import stats
from scipy.spatial import cKDTree

from vlib import gen
from vlib.harness import Kind
from putting_dune import geometry
from putting_dune import graphene

PROPERTY = 'C05'
RULE = (
    'Freshly generated sheets of 10-60 columns from independent random states,'
    ' checked atom by atom (bond length, coordination, bond angles, density,'
    ' dopant) and, pooled over hundreds of sheets, for the distribution of the'
    ' orientation. Non-trivial: the sheet has at least 20 interior atoms;'
    ' distinct by sheet fingerprint.'
)
ASSUMPTIONS = [
    'Interior means at least 3.8 angstroms inside the inscribed circle of the'
    ' sheet; sheets have at least ten columns.',
    'Distributional verdicts use p < 1e-9.',
]
REQUIRED = {
    'nearest atoms are one bond apart': 60, 'three bonds at 120 degrees': 60,
    'density': 35, 'one dopant, nearest the centre': 90, 'sheet is centred': 60, 'sheet is of the requested size': 60,
    'orientation is uniform': 2, 'orientation is uniform over the full turn': 2, 'canonical sheet': 18, 'a reset makes a new sheet': 20,
    'interior atoms': 3000,
}


def structure(mon, pos, columns, centre, label):
  b = gen.BOND
  ok_finite = np.isfinite(pos).all() and pos.ndim == 2 and pos.shape[1] == 2
  mon.require('nearest atoms are one bond apart', ok_finite, lambda: dict(label=label, shape=pos.shape))
  tree = cKDTree(pos)
  d, _ = tree.query(pos, k=2)
  mon.check('nearest atoms are one bond apart', np.allclose(d[:, 1], b, atol=1e-5),
            lambda: dict(label=label, columns=columns, min=d[:, 1].min(), max=d[:, 1].max()))
  radius = columns * b / 2 - 3.8
  r = np.hypot(*(pos - centre).T)
  inner = np.flatnonzero(r < radius)
  dn, ix = tree.query(pos[inner], k=5)
  vec = pos[ix[:, 1:4]] - pos[inner][:, None]
  ang = np.sort(np.arctan2(vec[..., 1], vec[..., 0]), axis=1)
  gaps = np.diff(np.concatenate([ang, ang[:, :1] + 2 * np.pi], 1), axis=1)
  ok = (
      np.allclose(dn[:, 1:4], b, atol=1e-5)
      and (dn[:, 4] > 1.7 * b).all()
      and np.allclose(gaps, 2 * np.pi / 3, atol=1e-4)
  )
  mon.check('three bonds at 120 degrees', ok,
            lambda: dict(label=label, columns=columns, distances=dn[:2], gaps=gaps[:2]))
  mon.count('interior atoms', len(inner))
  if radius > 6:
    expected = np.pi * radius**2 / (3 * np.sqrt(3) / 4 * b**2)
    slack = 4 * np.sqrt(2 * np.pi * radius / b) + 4
    mon.check('density', abs(len(inner) - expected) < slack,
              lambda: dict(label=label, columns=columns, atoms=len(inner), expected=expected))
  return inner, vec


def sheet(mon, rng):
  columns = int(rng.choice([10, 11, 12, 13, 15, 20, 25, 33, 50, 60]))
  pos = graphene.generate_pristine_graphene(rng, columns)
  centroid = pos.mean(0)
  mon.check('sheet is centred', np.hypot(*centroid) <= gen.BOND / 2 * np.sqrt(2) + 1e-6,
            lambda: dict(columns=columns, centroid=centroid))
  # The documented hexagonal grid of columns by int(2 columns / sqrt(3)) points,
  # of which every third is a centre of a hexagon and no atom.
  rows = int(columns * 2 / np.sqrt(3))
  mon.check('sheet is of the requested size',
            abs(len(pos) - 2 / 3 * columns * rows) <= 0.4 * rows + 1,
            lambda: dict(columns=columns, atoms=len(pos), grid=columns * rows))
  inner, _ = structure(mon, pos, columns, centroid, 'generated')
  if len(inner) >= 20:
    mon.state(gen.digest(pos))
  mon.sample(columns=columns, atoms=len(pos), first=pos[:2])


def material(mon, rng):
  columns = int(rng.choice([10, 12, 14, 20, 30, 50]))
  m = graphene.PristineSingleDopedGraphene(grid_columns=columns)
  raised = False
  try:
    m.get_silicon_position()
  except RuntimeError:
    raised = True
  mon.check('use before reset is refused', raised, None)
  seen = []
  for _ in range(3):
    m.reset(rng)
    g = m.grid
    pos, num = g.atom_positions, g.atomic_numbers
    si = np.flatnonzero(num == gen.SILICON)
    nearest = np.hypot(*pos.T)
    ok = (
        len(pos) == len(num)
        and len(si) == 1
        and (np.delete(num, si) == gen.CARBON).all()
        and nearest[si[0]] <= nearest.min() + 1e-9
        and nearest[si[0]] <= gen.BOND + 1e-6
        and np.array_equal(m.get_silicon_position(), pos[si[0]])
    )
    mon.check('one dopant, nearest the centre', ok,
              lambda: dict(columns=columns, silicon=len(si), distance=nearest[si[:1]], nearest=nearest.min()))
    inner, vec = structure(mon, pos, columns, pos.mean(0), 'material')
    if len(inner) >= 20:
      mon.state(gen.digest(pos))
    d = np.sort(np.hypot(*(pos - pos[si[0]]).T))
    mon.check('dopant is three-coordinated', np.allclose(d[1:4], gen.BOND, atol=1e-5) and d[4] > 2.0,
              lambda: dict(columns=columns, distances=d[:5]))
    seen.append(gen.digest(pos))
  mon.check('a reset makes a new sheet', len(set(seen)) == 3, None)
  # The same random state makes the same sheet.
  seed = int(rng.integers(2**31))
  out = []
  for _ in range(2):
    m.reset(np.random.default_rng(seed))
    out.append(gen.digest(m.grid))
  mon.check('same random state, same sheet', out[0] == out[1], None)


def orientation(mon, rng):
  """Pooled over sheets, the lattice direction is uniform."""
  angles, offsets = [], []
  for _ in range(400):
    pos = graphene.generate_pristine_graphene(rng, 10)
    c = np.argmin(np.hypot(*pos.T))
    d, ix = cKDTree(pos).query(pos[c], k=2)
    v = pos[ix[1]] - pos[c]
    angles.append(np.arctan2(v[1], v[0]) % (np.pi / 3))
    offsets.append(pos.mean(0))
  p = stats.kstest(np.array(angles) / (np.pi / 3), 'uniform').pvalue
  mon.check('orientation is uniform', p > 1e-9, lambda: dict(p=p))
  offsets = np.array(offsets)
  radius = np.hypot(*offsets.T)
  # E[r^2] of a uniform offset within half a bond per axis is bond^2 / 6.
  mean_r2 = float(np.mean(radius**2))
  mon.check('offset spreads over half a bond per axis',
            abs(mean_r2 - gen.BOND**2 / 6) < 0.25 * gen.BOND**2 / 6, lambda: dict(mean_r2=mean_r2))
  mon.state('orientation', p)
  mon.count('sheets pooled', 400)


def full_turn(mon, rng):
  """Pooled over whole sheets, the silicon lies in every direction from the
  centre equally often (the lattice alone cannot tell half turns apart)."""
  material = graphene.PristineSingleDopedGraphene()
  angles, bonds = [], []
  for _ in range(1600):
    material.reset(rng)
    si = material.get_silicon_position()
    angles.append(np.arctan2(si[1], si[0]) % (2 * np.pi))
    near = material.grid.atom_positions - si
    near = near[np.hypot(*near.T) < 1.2 * gen.BOND]
    v = near[np.argmax(np.hypot(*near.T) > 0.1)]
    bonds.append(np.arctan2(v[1], v[0]) % (2 * np.pi / 3))
  p = [stats.kstest(np.array(angles) / (2 * np.pi), 'uniform').pvalue, stats.kstest(np.array(bonds) / (2 * np.pi / 3), 'uniform').pvalue]
  mon.check('orientation is uniform over the full turn', min(p) > 1e-9, lambda: dict(p=p))
  mon.state('full turn', tuple(p))
  mon.count('sheets pooled', 1600)


def canonical(mon, rng):
  columns = int(rng.choice([8, 10, 12, 15, 20, 31, 50]))
  g = graphene.canonical_pristine_graphene_with_centered_silicon(columns)
  pos, num = g.atom_positions, g.atomic_numbers
  si = np.flatnonzero(num == gen.SILICON)
  ok = len(si) == 1 and np.allclose(pos[si[0]], 0, atol=1e-9) and (np.delete(num, si) == gen.CARBON).all()
  mon.check('canonical sheet', ok, lambda: dict(columns=columns, silicon=len(si), at=pos[si]))
  structure(mon, pos, columns, pos.mean(0), 'canonical')
  d, ix = cKDTree(pos).query(np.zeros(2), k=4)
  ang = np.sort(np.degrees(np.arctan2(pos[ix[1:], 1], pos[ix[1:], 0])))
  # Unrotated: bonds point along multiples of 30 degrees.
  mon.check('canonical sheet', np.allclose(ang / 30, np.round(ang / 30), atol=1e-4), lambda: dict(columns=columns, angles=ang))
  res = geometry.nearest_neighbors3(pos, np.zeros(2))
  mon.check('neighbour search', set(res.neighbor_indices.tolist()) == set(ix[1:].tolist())
            and np.allclose(res.neighbor_distances, gen.BOND, atol=1e-5), lambda: dict(got=res.neighbor_indices, want=ix[1:]))
  mon.state('canonical', columns)


def neighbours(mon, rng):
  """The neighbour search used everywhere, against brute force."""
  pos, _, _ = gen.graphene_patch(rng, radius=float(rng.uniform(4, 14)), jitter=float(rng.choice([0.0, 0.05])))
  q_ix = rng.choice(len(pos), size=int(rng.choice([1, 1, 5])), replace=False)
  single = len(q_ix) == 1 and rng.random() < 0.5
  query = pos[q_ix[0]] if single else pos[q_ix]
  dist = np.hypot(*(pos[None] - pos[q_ix][:, None]).transpose(2, 0, 1))
  order = np.sort(dist, axis=1)
  for include in (False, True):
    res = geometry.nearest_neighbors3(pos, query, include_self=include)
    d, i = np.atleast_2d(res.neighbor_distances), np.atleast_2d(res.neighbor_indices)
    want = order[:, :4] if include else order[:, 1:4]
    got = np.take_along_axis(dist, i, 1)
    ok = (d.shape == want.shape and np.allclose(d, want, atol=1e-7) and np.allclose(got, want, atol=1e-7)
          and all(len(set(r)) == len(r) for r in i.tolist())
          and res.neighbor_indices.ndim == query.ndim
          and (include or all(q not in r for q, r in zip(q_ix, i))))
    mon.check('neighbour search', ok, lambda: dict(include_self=include, got=d, want=want))
  mon.state('neighbours', gen.digest(pos))


KINDS = [
    Kind('sheet', sheet, 120, 4000),
    Kind('material', material, 60, 2000),
    Kind('orientation', orientation, 4, 60), Kind('full turn', full_turn, 2, 16),
    Kind('canonical', canonical, 32, 200),
    Kind('neighbours', neighbours, 100, 4000),
]
