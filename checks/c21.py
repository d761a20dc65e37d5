"""C21: merging repeated detections and carrying atomic numbers over."""
import numpy as np

from vlib import gen
from vlib.harness import Kind
from putting_dune import alignment

PROPERTY = 'C21'
RULE = (
    'Random sets of 1-8 frames, each detecting a random subset of well'
    ' separated sites with position noise (also frames without any atom),'
    ' merged with both algorithms and compared site by site with the mean of'
    ' its detections; random unstructured point clouds for the conservation'
    ' laws; atomic numbers carried over between random grids. Non-trivial: a'
    ' site detected more than once; distinct by frames.'
)
ASSUMPTIONS = [
    'For overlapping groups of detections clique merging is only required to'
    ' separate its results, not to conserve the number of detections.',
]
REQUIRED = {
    'each site is merged to the mean of its detections': 360, 'detections are conserved': 360,
    'naive merging conserves the centroid': 180, 'inputs are left alone': 540, 'atomic numbers follow the closest atom': 240,
    'merged atoms are separated': 180, 'merging stops after the rounds allowed': 300,
}


def sites(rng, n, spread, gap):
  box = gap * np.sqrt(n) * 2.2
  return np.array(gen.separated_positions(rng, n, box, gap + 4 * spread))


def frames(mon, rng):
  cutoff = gen.log_uniform(rng, 0.3, 2.0)
  spread = cutoff * rng.uniform(0.0, 0.12)  # noise is bounded by spread
  s = sites(rng, int(rng.integers(1, 60)), spread, cutoff)
  s = s + rng.uniform(-100, 100, 2)
  out, hits = [], [[] for _ in s]
  for _ in range(int(rng.integers(1, 9))):
    seen = np.flatnonzero(rng.random(len(s)) < rng.choice([0.0, 0.5, 0.9, 1.0], p=[0.1, 0.3, 0.3, 0.3]))
    rng.shuffle(seen)
    noise = gen.rotate(np.stack([rng.uniform(0, spread, len(seen)), np.zeros(len(seen))], -1), 0) if spread else np.zeros((len(seen), 2))
    ang = rng.uniform(0, 2 * np.pi, len(seen))
    noise = noise[:, :1] * np.stack([np.cos(ang), np.sin(ang)], -1)
    pts = s[seen] + noise
    for k, i in enumerate(seen):
      hits[i].append(pts[k])
    out.append(pts.reshape(-1, 2))
  total = sum(len(f) for f in out)
  if not total:
    return
  want = np.array([np.mean(h, 0) for h in hits if h])
  want_n = np.array([len(h) for h in hits if h])
  for name in ('naive', 'clique'):
    kept = [f.copy() for f in out]
    given = [f.copy() for f in out]
    flat = np.concatenate(given)
    if name == 'naive':
      pos, counts = alignment.naive_merge(given, cutoff)
    else:
      pos, counts = alignment.clique_merge(flat, cutoff)
      given = None
    pos, counts = np.asarray(pos, float), np.asarray(counts, float)
    mon.check('inputs are left alone', np.array_equal(flat, np.concatenate(kept)) if given is None else all(np.array_equal(a, b) for a, b in zip(kept, given)), dict(algorithm=name))
    ok = pos.shape == want.shape and counts.shape == want_n.shape
    if ok:
      d = np.hypot(*(pos[:, None] - want[None]).transpose(2, 0, 1))
      j = d.argmin(1)
      ok = len(set(j.tolist())) == len(want) and d.min(1).max() < 1e-9 * (1 + np.abs(want).max()) and np.allclose(counts, want_n[j])
    mon.check('each site is merged to the mean of its detections', ok, lambda: dict(algorithm=name, got=pos, counts=counts, want=want, hits=want_n, cutoff=cutoff))
    mon.check('detections are conserved', abs(counts.sum() - total) < 1e-6, lambda: dict(algorithm=name, counts=counts, total=total))
  if want_n.max() > 1:
    mon.state('frames', np.concatenate(out).tobytes())
  mon.maximum('detections per site', want_n.max())
  mon.sample(sites=len(want), frames=len(out), cutoff=cutoff)


def clouds(mon, rng):
  cutoff = gen.log_uniform(rng, 0.3, 2)
  given = [rng.uniform(-6, 6, (int(rng.integers(0, 40)), 2)) for _ in range(int(rng.integers(1, 6)))]
  total = sum(len(g) for g in given)
  if not total:
    return
  kept = [g.copy() for g in given]
  pos, counts = alignment.naive_merge(given, cutoff)
  pos, counts = np.asarray(pos), np.asarray(counts)
  mon.check('inputs are left alone', all(np.array_equal(a, b) for a, b in zip(kept, given)), None)
  mon.check('detections are conserved', pos.shape == (len(counts), 2) and abs(counts.sum() - total) < 1e-6, lambda: dict(counts=counts, total=total))
  mon.check('naive merging conserves the centroid', np.allclose((pos * counts[:, None]).sum(0), np.concatenate(kept).sum(0), atol=1e-6), lambda: dict(got=(pos * counts[:, None]).sum(0), want=np.concatenate(kept).sum(0)))
  everything = np.concatenate(kept)
  nearest = np.hypot(*(everything[:, None] - pos[None]).transpose(2, 0, 1)).min(1)
  # A detection more than the cutoff away from every other one stays as it is.
  d = np.hypot(*(everything[:, None] - everything[None]).transpose(2, 0, 1)) + np.eye(len(everything)) * 1e9
  alone = d.min(1) > 3 * cutoff
  mon.check('isolated detections stay', bool(np.all(nearest[alone] < 1e-9)), None)
  # Sparse enough for the cliques to stay small.
  few = everything[: max(1, int(12 / cutoff**2) + 2)]
  pos, counts = alignment.clique_merge(few.copy(), cutoff)
  pos = np.asarray(pos)
  dd = np.hypot(*(pos[:, None] - pos[None]).transpose(2, 0, 1)) + np.eye(len(pos)) * 1e9
  mon.check('merged atoms are separated', dd.min() > cutoff or len(pos) == 1, lambda: dict(closest=dd.min(), cutoff=cutoff))
  lo, hi = few.min(0) - 1e-9, few.max(0) + 1e-9
  mon.check('merged atoms lie among the detections', bool(np.all(pos >= lo) and np.all(pos <= hi)), None)
  apart = d[: len(few), : len(few)].min(1) > 3 * cutoff
  mon.check('isolated detections stay', bool(np.all(np.hypot(*(few[:, None] - pos[None]).transpose(2, 0, 1)).min(1)[apart] < 1e-9)), None)
  # Rounds are cut off where they are told to, and can be taken up again.
  k = int(rng.integers(0, 3))
  half = alignment.clique_merge(few.copy(), cutoff, k)
  if k == 0:
    mon.check('merging stops after the rounds allowed', np.array_equal(half[0], few) and np.all(np.asarray(half[1]) == 1) and len(half[1]) == len(few), None)
  rest = alignment.clique_merge(np.array(half[0]), cutoff, counts=np.array(half[1]))
  whole = alignment.clique_merge(few.copy(), cutoff)
  ordered = lambda m: (lambda a: a[np.lexsort(np.round(a, 6).T)])(np.column_stack([np.asarray(m[0]), np.asarray(m[1])]))
  mon.check('merging stops after the rounds allowed', gen.close(ordered(rest), ordered(whole), 1e-6), lambda: dict(rounds=k, rest=rest, whole=whole))
  mon.state('cloud', everything.tobytes())


def weighted(mon, rng):
  """Clique merging of points that already stand for several detections."""
  cutoff = gen.log_uniform(rng, 0.3, 2.0)
  s = sites(rng, int(rng.integers(1, 30)), 0.1 * cutoff, cutoff)
  pts, cnt, want, want_n = [], [], [], []
  for p in s:
    k = int(rng.integers(1, 4))
    q = p + rng.uniform(-0.05, 0.05, (k, 2)) * cutoff
    c = rng.integers(1, 9, k).astype(float)
    pts.append(q); cnt.append(c)
    want.append((q * c[:, None]).sum(0) / c.sum()); want_n.append(c.sum())
  pts, cnt = np.concatenate(pts), np.concatenate(cnt)
  perm = rng.permutation(len(pts))
  pts, cnt = pts[perm], cnt[perm]
  a, b = pts.copy(), cnt.copy()
  pos, counts = alignment.clique_merge(pts, cutoff, counts=cnt)
  want, want_n = np.array(want), np.array(want_n)
  ok = np.shape(pos) == want.shape
  if ok:
    j = np.hypot(*(np.asarray(pos)[:, None] - want[None]).transpose(2, 0, 1)).argmin(1)
    ok = np.allclose(pos, want[j], atol=1e-8) and np.allclose(counts, want_n[j]) and len(set(j.tolist())) == len(want)
  mon.check('each site is merged to the mean of its detections', ok, lambda: dict(got=pos, counts=counts, want=want, want_counts=want_n))
  mon.check('inputs are left alone', np.array_equal(a, pts) and np.array_equal(b, cnt), None)


def numbers(mon, rng):
  n = int(rng.integers(1, 50))
  threshold = gen.log_uniform(rng, 0.2, 1.5)
  old = np.array(gen.separated_positions(rng, n, 3 * np.sqrt(n) * threshold + 1, 2.2 * threshold))
  n = len(old)
  z = rng.choice([6, 14, 14, 7, 79], n).astype(rng.choice(['int32', 'int64']))
  keep = rng.random(n) < 0.8
  kept = np.flatnonzero(keep)
  r = rng.uniform(0, 1.6, len(kept)) * threshold
  r = np.where(np.abs(r - threshold) < 0.02 * threshold, 0.5 * threshold, r)
  ang = rng.uniform(0, 2 * np.pi, len(kept))
  new = old[kept] + r[:, None] * np.stack([np.cos(ang), np.sin(ang)], -1)
  new = np.concatenate([new, rng.uniform(50, 60, (int(rng.integers(0, 4)), 2)) * threshold + old.max()])
  if not len(new):
    return
  perm = rng.permutation(len(new))
  new = new[perm]
  kw = dict(threshold=threshold)
  if rng.random() < 0.4:
    kw['new_atomic_numbers'] = rng.integers(1, 90, len(new)).astype(z.dtype)
  elif rng.random() < 0.5:
    kw['default_atomic_number'] = int(rng.integers(1, 90))
  want = kw['new_atomic_numbers'].copy() if 'new_atomic_numbers' in kw else np.full(len(new), kw.get('default_atomic_number', 6))
  allowed = [set() for _ in new]
  for i in range(n):
    d = np.hypot(*(new - old[i]).T)
    j = int(np.argmin(d))
    if d[j] < threshold:
      allowed[j].add(int(z[i]))
  saved = [np.array(v) for v in (old, new, z)] + [np.array(kw.get('new_atomic_numbers', 0))]
  got = np.asarray(alignment.propagate_atomic_numbers(old, new, z, **kw))
  ok = got.shape == (len(new),) and all((int(g) in s) if s else g == w for g, s, w in zip(got, allowed, want))
  mon.check('atomic numbers follow the closest atom', ok, lambda: dict(got=got, allowed=[sorted(s) for s in allowed], default=want))
  mon.check('inputs are left alone', all(np.array_equal(a, b) for a, b in zip(saved, (old, new, z, kw.get('new_atomic_numbers', 0)))), lambda: dict(part='atomic numbers'))
  mon.state('numbers', new.tobytes())


KINDS = [
    Kind('frames', frames, 500, 15000), Kind('clouds', clouds, 400, 8000), Kind('weighted', weighted, 150, 4000),
    Kind('numbers', numbers, 500, 15000),
]
