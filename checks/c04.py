"""C04: grid equality and hashing."""
import numpy as np

from vlib import gen
from vlib.harness import Kind
from putting_dune import microscope_utils as mu

PROPERTY = 'C04'
RULE = (
    'Random grids of 0-400 atoms at least 0.02 apart (negative coordinates,'
    ' float32/float64, several species) compared with permuted, slightly'
    ' perturbed, moved, recoloured, grown and shrunk versions of themselves.'
    ' Non-trivial: at least two atoms; distinct by grid fingerprint.'
)
ASSUMPTIONS = [
    'Atoms of one grid are at least 0.02 length units apart.',
    'Perturbations below 5e-4 count as the same place, above 2e-3 as another.',
]
REQUIRED = {
    'reflexive': 180, 'order does not matter': 180, 'symmetric': 540,
    'small noise is equal': 150, 'moved atom differs': 150,
    'changed species differs': 150, 'different size differs': 150,
    'equal grids hash equal': 300, 'usable in sets': 120, 'global motion differs': 150,
}


def spread_grid(rng):
  n = int(rng.choice([0, 1, 2, 3, 8, 40, 120, 400]))
  side = int(np.ceil(np.sqrt(max(n, 1))))
  cell = gen.log_uniform(rng, 0.045, 3.0)
  ij = np.stack(np.meshgrid(np.arange(side), np.arange(side)), -1).reshape(-1, 2)[:n]
  pos = (ij + rng.uniform(-0.2, 0.2, size=(n, 2))) * cell
  pos = gen.rotate(pos, rng.uniform(0, 6.28)) + rng.uniform(-20, 20, size=2)
  numbers = rng.choice(gen.SPECIES, size=n)
  perm = rng.permutation(n)
  return pos[perm], numbers[perm]


def law(mon, rng):
  pos, num = spread_grid(rng)
  n = len(pos)
  a = mu.AtomicGrid(pos, num)
  twin = mu.AtomicGrid(pos.copy(), num.copy())
  mon.check('reflexive', a == a and a == twin and not a != twin, lambda: dict(n=n))
  mon.check('equal grids hash equal', hash(a) == hash(twin) and isinstance(hash(a), int), lambda: dict(n=n))
  perm = rng.permutation(n)
  b = mu.AtomicGrid(pos[perm], num[perm])
  mon.check('order does not matter', a == b and b == a, lambda: dict(n=n, pos=pos, num=num))
  mon.check('equal grids hash equal', hash(a) == hash(b), lambda: dict(n=n, hashes=(hash(a), hash(b)), permuted=True))
  mon.check('usable in sets', len({a, twin, b}) == 1, lambda: dict(n=n))
  small = mu.AtomicGrid(pos[perm] + rng.uniform(-3.5e-4, 3.5e-4, size=(n, 2)), num[perm])

  def both(clause, x, y, want):
    xy, yx = bool(x == y), bool(y == x)
    mon.check('symmetric', xy == yx, lambda: dict(n=n, clause=clause, forward=xy, backward=yx, a=x, b=y))
    mon.check(clause, xy == want and yx == want, lambda: dict(n=n, got=(xy, yx), want=want, a=x, b=y))
    mon.check('not equal is the negation', (x != y) == (not xy), None)

  both('small noise is equal', a, small, True)
  bigger = mu.AtomicGrid(
      np.concatenate([pos, (pos.max(0) if n else np.zeros(2))[None] + 3.0]),
      np.append(num, 6),
  )
  both('different size differs', a, bigger, False)
  if n:
    i = int(rng.integers(0, n))
    smaller = mu.AtomicGrid(np.delete(pos, i, 0), np.delete(num, i))
    both('different size differs', a, smaller, False)
    moved = pos.copy()
    ang = rng.uniform(0, 6.28)
    moved[i] += gen.log_uniform(rng, 2e-3, 0.008) * np.array([np.cos(ang), np.sin(ang)])
    both('moved atom differs', a, mu.AtomicGrid(moved[perm], num[perm]), False)
    species = num.copy()
    species[i] = species[i] + int(rng.choice([1, 8]))
    both('changed species differs', a, mu.AtomicGrid(pos[perm], species[perm]), False)
    shift = rng.uniform(0.003, 0.009, size=2) * rng.choice([-1, 1], size=2)
    both('global motion differs', a, mu.AtomicGrid(pos + shift, num), False)
  if n >= 2:
    # Two species exchanged between two places.
    j = (i + 1 + int(rng.integers(0, n - 1))) % n
    swapped = num.copy()
    swapped[i], swapped[j] = swapped[j], swapped[i]
    both('changed species differs', a, mu.AtomicGrid(pos, swapped), bool(num[i] == num[j]))
    mon.state(gen.digest(a))
  mon.sample(atoms=n, first=pos[:3], species=num[:3])


def hash_spread(mon, rng):
  """The hash is usable: it tells apart grids that differ in one atom."""
  pos, num = spread_grid(rng)
  if len(pos) < 2:
    pos, num = rng.uniform(-3, 3, size=(5, 2)), np.full(5, 6)
  grids = []
  for _ in range(20):
    p = pos + rng.normal(0, 1.0, size=(1, 2))
    grids.append(mu.AtomicGrid(p, num))
  for s in (1, 6, 14):
    grids.append(mu.AtomicGrid(pos, np.full_like(num, s)))
  hashes = [hash(g) for g in grids]
  mon.check('hash discriminates', len(set(hashes)) >= len(grids) // 2, lambda: dict(distinct=len(set(hashes)), of=len(grids)))
  d = {g: i for i, g in enumerate(grids)}
  mon.check('usable in sets', all(d[g] == i for i, g in enumerate(grids)), None)


KINDS = [Kind('law', law, 350, 8000), Kind('hash', hash_spread, 60, 500)]
