"""Generators of hostile inputs, built only from public constructors."""
import datetime as dt

import numpy as np

from putting_dune import geometry
from putting_dune import microscope_utils as mu

CARBON, SILICON = 6, 14
BOND = 1.42


def log_uniform(rng, lo, hi):
  return float(np.exp(rng.uniform(np.log(lo), np.log(hi))))


def point(rng, scale=None):
  s = scale or log_uniform(rng, 0.1, 500.0)
  return geometry.Point((float(rng.uniform(-s, s)), float(rng.uniform(-s, s))))


def fov(rng, square=None, lo=2.0, hi=80.0, offset=None):
  """A field of view; square with probability 0.3 unless stated."""
  if square is None:
    square = rng.random() < 0.3
  w = log_uniform(rng, lo, hi)
  h = w if square else log_uniform(rng, lo, hi)
  off = log_uniform(rng, 0.5, 200.0) if offset is None else offset
  cx, cy = rng.uniform(-off, off, size=2)
  return mu.MicroscopeFieldOfView(
      geometry.Point((cx - w / 2, cy - h / 2)),
      geometry.Point((cx + w / 2, cy + h / 2)),
  )


def fov_box(f):
  return np.array([
      [f.lower_left.x, f.lower_left.y],
      [f.upper_right.x, f.upper_right.y],
  ])


SPECIES = np.array([1, 6, 6, 6, 7, 14, 14, 26, 79])


def grid(rng, n=None, scale=None, dtype=None):
  """An arbitrary (not graphene) grid of atoms."""
  if n is None:
    n = int(rng.choice([0, 1, 2, 3, 5, 17, 60, 300]))
  s = scale or log_uniform(rng, 0.5, 300.0)
  pos = rng.uniform(-s, s, size=(n, 2))
  if dtype is None:
    dtype = rng.choice(['f8', 'f8', 'f4'])
  numbers = rng.choice(SPECIES, size=n)
  return mu.AtomicGrid(
      pos.astype(dtype), numbers.astype(rng.choice(['i8', 'i4']))
  )


def separated_positions(rng, n, box, min_dist):
  """n points in [0, box]^2, pairwise at least min_dist apart (dart throwing)."""
  out = []
  tries = 0
  while len(out) < n and tries < 200 * n + 200:
    tries += 1
    p = rng.uniform(0, box, size=2)
    if all(np.hypot(*(p - q)) >= min_dist for q in out):
      out.append(p)
  return np.array(out).reshape(-1, 2)


def timedelta(rng, hostile=True):
  k = rng.integers(0, 7 if hostile else 3)
  if k == 0:
    return dt.timedelta(0)
  if k == 1:
    return dt.timedelta(seconds=1.5)
  if k == 2:
    return dt.timedelta(microseconds=int(rng.integers(1, 10_000_000)))
  if k == 3:
    return dt.timedelta(microseconds=int(rng.integers(1, 1000)))
  if k == 4:
    return dt.timedelta(seconds=float(rng.uniform(60, 4000)))
  if k == 5:
    return dt.timedelta(days=int(rng.integers(1, 4)), seconds=int(rng.integers(0, 9000)))
  return dt.timedelta(seconds=int(rng.integers(0, 120)))


def control(rng, hostile=True):
  p = geometry.Point(
      tuple(float(v) for v in rng.uniform(-0.3, 1.3, size=2))
      if rng.random() < 0.7
      else tuple(float(v) for v in rng.choice([0.0, 0.5, 1.0], size=2))
  )
  d = timedelta(rng, hostile)
  k = rng.integers(0, 3)
  if k == 0:
    return mu.BeamControl(p, d)
  if k == 1:
    return mu.BeamControl(
        p, d, float(rng.uniform(20, 300)), float(rng.uniform(0.001, 2.0))
    )
  return mu.BeamControl(
      p,
      d,
      voltage_kv=float(rng.choice([0.0, 60.0, 80.0, 100.0, 200.0])),
      current_na=float(rng.choice([0.0, 0.05, 0.1, 1.0])),
  )


def controls(rng, hostile=True, maximum=6):
  n = int(rng.choice([0, 1, 1, 2, 3, maximum]))
  return tuple(control(rng, hostile) for _ in range(n))


def image(rng):
  shape = [
      (4, 4), (7, 3), (3, 9), (1, 1), (16, 16, 1), (5, 4, 3), (8,), (2, 3, 2),
  ][rng.integers(0, 8)]
  k = rng.integers(0, 7)
  if k == 0:
    return rng.random(shape)
  if k == 1:
    return rng.random(shape).astype(np.float32)
  if k == 2:
    return rng.integers(0, 256, size=shape).astype(np.uint8)
  if k == 3:
    return rng.random(shape) < 0.5
  if k == 4:
    return rng.integers(-30000, 30000, size=shape).astype(np.int16)
  if k == 5:
    return rng.integers(-(2**40), 2**40, size=shape)
  return np.asfortranarray(rng.normal(size=shape)).astype(np.float16)


def maybe(rng, fn, p=0.5):
  return fn(rng) if rng.random() < p else None


def observation(rng, n=None, images=True):
  return mu.MicroscopeObservation(
      grid=grid(rng, n, scale=2.0),
      fov=fov(rng),
      controls=controls(rng),
      elapsed_time=timedelta(rng),
      image=maybe(rng, image) if images else None,
      label_image=maybe(rng, image) if images else None,
  )


def rotate(xy, theta):
  c, s = np.cos(theta), np.sin(theta)
  x, y = xy[..., 0], xy[..., 1]
  return np.stack([c * x - s * y, s * x + c * y], axis=-1)


def graphene_patch(
    rng,
    radius=12.0,
    theta=None,
    offset=None,
    bond=BOND,
    jitter=0.0,
    si='center',
    shuffle=True,
):
  """A disc of graphene, generated from lattice vectors (independent of the code
  under test).  Returns positions (n, 2), sublattice labels and the Si index."""
  theta = rng.uniform(0, 2 * np.pi) if theta is None else theta
  a1 = bond * np.array([1.5, np.sqrt(3) / 2])
  a2 = bond * np.array([1.5, -np.sqrt(3) / 2])
  m = int(radius / bond) + 3
  ij = np.stack(np.meshgrid(np.arange(-m, m + 1), np.arange(-m, m + 1)), -1)
  cells = ij.reshape(-1, 2) @ np.stack([a1, a2])
  a = cells
  b = cells + np.array([bond, 0.0])
  pos = np.concatenate([a, b])
  label = np.concatenate([np.zeros(len(a), int), np.ones(len(b), int)])
  keep = np.hypot(pos[:, 0], pos[:, 1]) <= radius
  pos, label = pos[keep], label[keep]
  if shuffle:
    perm = rng.permutation(len(pos))
    pos, label = pos[perm], label[perm]
  si_index = int(np.argmin(np.hypot(pos[:, 0], pos[:, 1])))
  if si == 'inner':
    inner = np.flatnonzero(np.hypot(pos[:, 0], pos[:, 1]) < radius - 3 * bond)
    si_index = int(rng.choice(inner))
  if jitter:
    pos = pos + rng.normal(0, jitter, size=pos.shape)
  pos = rotate(pos, theta)
  if offset is None:
    offset = rng.uniform(-50, 50, size=2)
  return pos + np.asarray(offset), label, si_index


def doped(pos, si_index):
  numbers = np.full(len(pos), CARBON)
  numbers[si_index] = SILICON
  return mu.AtomicGrid(pos, numbers)


def patch_in_fov(rng, f, bond=BOND, jitter=0.0, margin=0.0):
  """A graphene patch seen through a field of view: a microscope-frame grid
  with the silicon somewhere inside, and its index."""
  box = fov_box(f)
  center = box.mean(0)
  radius = float(np.hypot(*(box[1] - box[0]))) / 2 + 4 * bond
  pos, label, _ = graphene_patch(
      rng, radius, offset=center + rng.uniform(-bond, bond, size=2), bond=bond,
      jitter=jitter,
  )
  keep = ((pos >= box[0] + margin) & (pos <= box[1] - margin)).all(1)
  pos, label = pos[keep], label[keep]
  return pos, label


# ---------------------------------------------------------------- references


def to_material(box, xy):
  return np.asarray(xy, float) * (box[1] - box[0]) + box[0]


def to_microscope(box, xy):
  return (np.asarray(xy, float) - box[0]) / (box[1] - box[0])


def xy(p):
  return np.array([p.x, p.y], float)


def close(a, b, tol=1e-9, scale=None):
  a, b = np.asarray(a, float), np.asarray(b, float)
  if a.shape != b.shape:
    return False
  if not a.size:
    return True
  s = scale if scale is not None else max(1.0, float(np.max(np.abs(b))))
  return bool(np.all(np.abs(a - b) <= tol * s))


def digest(x, depth=0):
  """A structural fingerprint used to detect mutation and compare histories."""
  import hashlib  # pylint: disable=g-import-not-at-top

  h = hashlib.blake2b(digest_size=12)

  def add(v, d):
    if d > 8:
      h.update(b'...')
    elif isinstance(v, np.ndarray):
      h.update(f'A{v.shape}{v.dtype}'.encode())
      h.update(np.ascontiguousarray(v).tobytes() if v.dtype != object else repr(v.tolist()).encode())
    elif isinstance(v, np.generic):
      h.update(f'G{v.dtype}'.encode() + v.tobytes())
    elif isinstance(v, geometry.Point):
      h.update(f'P{v.x!r},{v.y!r}'.encode())
    elif isinstance(v, dict):
      h.update(b'D')
      for k in v:
        add(k, d + 1)
        add(v[k], d + 1)
    elif isinstance(v, (list, tuple)):
      h.update(f'L{type(v).__name__}{len(v)}'.encode())
      for i in v:
        add(i, d + 1)
    elif hasattr(v, '__dataclass_fields__'):
      h.update(type(v).__name__.encode())
      for k in v.__dataclass_fields__:
        add(getattr(v, k), d + 1)
    else:
      h.update(repr(v).encode())

  add(x, depth)
  return h.hexdigest()
