"""C20: estimating the drift between two views of one lattice."""
import numpy as np

from vlib import gen
from vlib.harness import Kind
from putting_dune import alignment

PROPERTY = 'C20'
RULE = (
    'Pairs of overlapping views of one lattice (any rotation and offset, 60-300'
    ' atoms, crops, shuffles, position noise, spurious atoms) displaced by a'
    ' known vector, with every option of the estimator; calls are repeated in'
    ' random order. Non-trivial: a displacement of at least 0.05 angstroms;'
    ' distinct by lattice and displacement.'
)
ASSUMPTIONS = [
    'Displacements relative to the initial guess are below 1.1 angstroms: above'
    ' 1.23 the lattice itself makes the drift ambiguous.',
    'Both sublattices are present in both views.',
]
REQUIRED = {
    'known drift is recovered': 180, 'drift is within the limit': 180, 'outliers are ignored': 35,
    'initial guess is used': 60, 'calls are independent': 180, 'inputs are left alone': 180,
    'closest offsets': 180, 'drift is finite without pairs': 35,
}


def pair(rng, d, sigma, crop=True):
  """Reference and new view; new + d covers the reference."""
  pos, label, _ = gen.graphene_patch(rng, float(rng.uniform(9, 16)), offset=rng.uniform(-20, 20, 2))
  ref, ref_c = pos + rng.normal(0, sigma, pos.shape) * (sigma > 0), label
  keep = np.ones(len(pos), bool)
  if crop:
    center = pos.mean(0) + rng.uniform(-2, 2, 2)
    keep = np.hypot(*(pos - center).T) < rng.uniform(5.5, 9)
  perm = rng.permutation(np.flatnonzero(keep))
  new = pos[perm] + rng.normal(0, sigma, (len(perm), 2)) * (sigma > 0) - d
  return new, ref, label[perm], ref_c


def vector(rng, lo, hi):
  return gen.rotate(np.array([rng.uniform(lo, hi), 0.0]), rng.uniform(0, 2 * np.pi))


def drift(mon, rng):
  sigma = float(rng.choice([0.0, 0.0, 0.02, 0.05]))
  anneal = float(rng.uniform(0.01, 0.1)) if rng.random() < 0.3 else 0.0
  # Displacement and noise together stay within half the ambiguity length.
  d = vector(rng, 0.0, min(1.1, 1.2 - 7 * sigma - 5 * anneal))
  new, ref, nc, rc = pair(rng, d, sigma, rng.random() < 0.7)
  if rng.random() < 0.12:  # a few atoms of only one class in view
    one = nc == rng.choice(nc)
    new, nc = new[one], nc[one]
  if rng.random() < 0.3:  # names of the classes do not matter
    nc, rc = 1 - nc, 1 - rc
  elif rng.random() < 0.2:
    names = rng.choice([-1, 0, 1, 2, 6, 14, 100], 2, replace=False)
    nc, rc = names[nc], names[rc]
  kept = [a.copy() for a in (new, ref, nc, rc)]
  kw = {}
  if rng.random() < 0.6:
    kw['iterations'] = int(rng.choice([1, 2, 5, 20, 30]))
  if anneal:
    kw['noise_scale'] = anneal
    kw['iterations'] = 20
  if rng.random() < 0.4:
    kw['mask_above'] = float(rng.uniform(1.4, 4))
  if rng.random() < 0.5 and sigma == 0:
    kw['trim'] = float(rng.choice([0.1, 0.25, 0.5]))
  if rng.random() < 0.5:
    kw['max_shift'] = float(rng.uniform(1.2, 5))
  if rng.random() < 0.4:
    kw['init_shift'] = None
  np.random.seed(int(rng.integers(2**31)))
  out = np.array(alignment.align_latest(new, ref, nc, rc, **kw))
  tol = 1e-6 + 8 * sigma * np.sqrt(2 / len(new))
  mon.check('known drift is recovered', out.shape == (2,) and bool(np.hypot(*(out - d)) <= tol),
            lambda: dict(got=out, want=d, options=kw, atoms=len(new), noise=sigma))
  mon.check('inputs are left alone', all(np.array_equal(a, b) for a, b in zip(kept, (new, ref, nc, rc))), None)
  # A second pair, after and between other calls: no state survives a call.
  d2 = vector(rng, 0.0, 1.1)
  new2, ref2, nc2, rc2 = pair(rng, d2, 0.0)
  out2 = np.array(alignment.align_latest(new2, ref2, nc2, rc2, iterations=1))
  again = np.array(alignment.align_latest(new2, ref2, nc2, rc2, iterations=1))
  mon.check('calls are independent', np.allclose(out2, d2, atol=1e-6) and np.array_equal(out2, again),
            lambda: dict(first=out2, second=again, want=d2))
  perm = rng.permutation(len(new2))
  other = np.array(alignment.align_latest(new2[perm], ref2, nc2[perm], rc2, iterations=1))
  mon.check('order of atoms does not matter', np.allclose(other, out2, atol=1e-6), lambda: dict(a=out2, b=other))
  if np.hypot(*d) > 0.05:
    mon.state('drift', new.tobytes())
    mon.maximum('largest recovered drift', np.hypot(*d))
  mon.sample(drift=d, atoms=len(new), options={k: repr(v) for k, v in kw.items()})


def limit(mon, rng):
  d = vector(rng, 0.0, 1.1)
  new, ref, nc, rc = pair(rng, d, 0.02)
  if rng.random() < 0.5:  # unrelated views
    ref = ref + rng.uniform(-40, 40, 2)
  m = gen.log_uniform(rng, 0.01, 3)
  kw = dict(max_shift=m, iterations=int(rng.integers(1, 12)), noise_scale=float(rng.choice([0, 0, 1.0])))
  out = np.array(alignment.align_latest(new, ref, nc, rc, **kw))
  mon.check('drift is within the limit', bool(np.hypot(*out) <= m * (1 + 1e-9)), lambda: dict(got=out, limit=m, options=kw))
  if m < np.hypot(*d) - 0.1 and kw['noise_scale'] == 0 and rng.random() < 0.5:
    # A limited estimate still points the right way.
    out = np.array(alignment.align_latest(*pair_same(rng, d), max_shift=m, iterations=1))
    mon.check('limited drift points the right way', np.allclose(out, d * m / np.hypot(*d), atol=1e-6), lambda: dict(got=out, drift=d, limit=m))
  mon.state('limit', new.tobytes())


def pair_same(rng, d):
  return pair(rng, d, 0.0)


def guess(mon, rng):
  init = vector(rng, 1.0, 12.0)
  d = init + vector(rng, 0, 1.0)
  new, ref, nc, rc = pair(rng, d, 0.0)
  given = init.copy()
  out = np.array(alignment.align_latest(new, ref, nc, rc, max_shift=50.0, init_shift=given, iterations=int(rng.integers(1, 20)), mask_above=float(rng.choice([np.inf, 2.0]))))
  mon.check('initial guess is used', np.allclose(out, d, atol=1e-6), lambda: dict(guess=init, got=out, want=d))
  mon.check('inputs are left alone', np.array_equal(given, init), lambda: dict(before=init, after=given))
  # Integer guesses are numbers, too.
  whole = np.array([int(round(init[0])), int(round(init[1]))])
  d = whole + vector(rng, 0, 1.0)
  new, ref, nc, rc = pair(rng, d, 0.0)
  out = np.array(alignment.align_latest(new, ref, nc, rc, max_shift=50.0, init_shift=whole, iterations=3))
  mon.check('initial guess is used', np.allclose(out, d, atol=1e-6), lambda: dict(guess=whole, got=out, want=d))
  mon.state('guess', new.tobytes())


def outliers(mon, rng):
  d = vector(rng, 0.0, 1.0)
  new, ref, nc, rc = pair(rng, d, 0.0, crop=False)
  # Spurious atoms on top of the real ones, far from all of them once aligned.
  cand = ref[rng.integers(0, len(ref), 400)] + vector(rng, 0.6, 0.71) - d
  far = np.min(np.hypot(*(cand[:, None] + d - ref[None]).transpose(2, 0, 1)), 1) > 0.55
  spurious = np.unique(cand[far], axis=0)
  rng.shuffle(spurious)
  spurious = spurious[: max(1, len(new) // 12)]
  if not len(spurious):
    return
  new = np.concatenate([new, spurious])
  nc = np.concatenate([nc, rng.integers(0, 2, len(spurious))])
  out = np.array(alignment.align_latest(new, ref, nc, rc, iterations=40, trim=0.5))
  mon.check('outliers are ignored', np.allclose(out, d, atol=1e-3), lambda: dict(got=out, want=d, spurious=len(spurious), atoms=len(new)))
  mon.state('outliers', new.tobytes())


def offsets(mon, rng):
  a = rng.uniform(-5, 5, (int(rng.integers(1, 60)), 2))
  b = rng.uniform(-5, 5, (int(rng.integers(1, 60)), 2))
  kw = {} if rng.random() < 0.4 else dict(mask_above=gen.log_uniform(rng, 0.1, 5))
  got = np.asarray(alignment.get_offsets(a, b, **kw))
  want = []
  for p in a:
    r = [float(np.hypot(*(q - p))) for q in b]
    j = int(np.argmin(r))
    if r[j] < kw.get('mask_above', np.inf):
      want.append(b[j] - p)
  want = np.array(want).reshape(-1, 2)
  mon.check('closest offsets', got.shape == want.shape and np.allclose(got, want), lambda: dict(got=got, want=want, **kw))
  mon.state('offsets', a.tobytes())
  # No pair within reach: nothing to align to.
  pos, label, _ = gen.graphene_patch(rng, 8.0, offset=(0, 0))
  out = np.array(alignment.align_latest(pos, pos + np.array([200.0, 30.0]), label, label, mask_above=2.0, iterations=int(rng.integers(1, 20))))
  mon.check('drift is finite without pairs', bool(np.all(np.isfinite(out))), dict(got=out))


KINDS = [
    Kind('drift', drift, 500, 12000), Kind('limit', limit, 400, 8000), Kind('guess', guess, 150, 4000),
    Kind('outliers', outliers, 150, 3000), Kind('offsets', offsets, 400, 8000),
]
