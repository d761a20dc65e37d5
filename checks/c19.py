"""C19: synthetic images."""
import numpy as np
from scipy import stats

from vlib import gen
from vlib.harness import Kind
from putting_dune import geometry
from putting_dune import imaging
from putting_dune import microscope_utils as mu

PROPERTY = 'C19'
RULE = (
    'Clean images and label masks of random grids (1-60 atoms of several'
    ' species, inside and just outside the view, square and elongated views,'
    ' 24-96 pixels, with and without a margin) compared pixel by pixel with an'
    ' independent rendering; every noise stage on random images against its'
    ' law; full noisy images for range, size, determinism and agreement with'
    ' the clean picture. Non-trivial: at least one atom in view; distinct by'
    ' grid, view and size.'
)
ASSUMPTIONS = [
    'Atoms are 1/2.15 angstroms wide (standard deviation) and binned to pixels,'
    ' as in the documented image model; agreement to 1% of the peak.',
    'Mask pixels covered by several atoms, or within 1e-6 of an outline, are'
    ' not judged.',
    'Distributional verdicts use p < 1e-9.',
]
REQUIRED = {
    'clean image shows each atom in its place': 150, 'mask labels each atom in its place': 90,
    'elongated views': 45, 'masks that are not square': 18, 'jitter rolls whole rows': 20,
    'shot noise': 20, 'salt and pepper': 20, 'additive noise': 45, 'contrast': 20, 'blur': 20,
    'gaussian noise': 20, 'noisy image is valid': 9, 'noisy image shows the same scene': 9,
    'image is seeded': 9, 'parameters are in range': 60,
    'every setting has its effect': 60, 'parameters fill their ranges': 400,
}


def random_scene(rng, n=None, lo=6, hi=30):
  f = gen.fov(rng, lo=lo, hi=hi, square=bool(rng.random() < 0.5))
  n = n or int(rng.choice([1, 2, 5, 20, 60]))
  pos = rng.uniform(-0.08, 1.08, size=(n, 2))
  pos[0] = rng.uniform(0.1, 0.9, size=2)
  numbers = rng.choice([1, 6, 6, 6, 7, 14, 79], size=n)
  return f, mu.AtomicGrid(pos, numbers)


def kernel(n, sigma):
  r = int(4.0 * sigma + 0.5)
  i = np.arange(n)
  d = i[:, None] - i[None, :]
  k = np.exp(-0.5 * (d / sigma) ** 2) * (np.abs(d) <= r)
  j = np.arange(-r, r + 1)
  return k / np.exp(-0.5 * (j / sigma) ** 2).sum()


def render(pos, numbers, box, size, exponent, margin):
  pad = int(margin * size)
  n = size + 2 * pad
  w, h = box[1] - box[0]
  u = (pos + margin) / (1 + 2 * margin)
  img = np.zeros((n, n))
  for (x, y), z in zip(u, numbers):
    if 0 <= x <= 1 and 0 <= y <= 1:
      col, row = min(int(x * n), n - 1), min(int(y * n), n - 1)
      img[n - 1 - row, col] += float(z) ** exponent
  img = kernel(n, size / (2.15 * h)) @ img @ kernel(n, size / (2.15 * w)).T
  img = img[pad:pad + size, pad:pad + size]
  return img / img.max()


def clean(mon, rng):
  f, grid = random_scene(rng)
  size = int(rng.choice([24, 50, 64, 96]))
  exponent = float(rng.choice([1.7, 1.4, 2.0, 1.0]))
  margin = float(rng.choice([0.0, 0.0, 0.0, 0.25, 0.5, 0.8]))
  kw = {}
  if exponent != 1.7 or rng.random() < 0.5:
    kw['intensity_exponent'] = exponent
  if margin:
    kw['buffer_size'] = margin
  kept = gen.digest((grid, f))
  img = imaging.generate_clean_image(grid, f, image_size=size, **kw)
  mon.require('image has the requested size', img.shape == (size, size), lambda: dict(shape=img.shape, size=size))
  box = gen.fov_box(f)
  want = render(grid.atom_positions, grid.atomic_numbers, box, size, exponent, margin)
  worst = float(np.max(np.abs(img - want)))
  mon.maximum('clean image difference', worst)
  mon.check('clean image shows each atom in its place', worst < 0.01,
            lambda: dict(fov=box, size=size, atoms=grid.atom_positions[:4], numbers=grid.atomic_numbers[:4], worst=worst, margin=margin))
  mon.check('clean image is normalised', abs(float(img.max()) - 1) < 1e-9 and float(img.min()) >= -1e-12, None)
  mon.check('grid is left alone', gen.digest((grid, f)) == kept, None)
  w, h = box[1] - box[0]
  if max(w / h, h / w) > 1.3:
    mon.count('elongated views')
  mon.state('clean', kept, size, margin)
  mon.sample(fov=box, atoms=len(grid.atom_positions), size=size, margin=margin, worst=worst)


def mask(mon, rng):
  f, grid = random_scene(rng)
  dims = tuple(int(v) for v in rng.choice([24, 40, 64, 90], size=2))
  if rng.random() < 0.5:
    dims = (dims[0], dims[0])
  exponent = float(rng.choice([1.7, 1.2]))
  kw = {} if exponent == 1.7 else dict(intensity_exponent=exponent)
  out = imaging.generate_grid_mask(grid, f, image_dimensions=dims, **kw)
  width, height = dims
  mon.require('mask has the requested size', out.shape == (height, width) and out.dtype == np.uint8, lambda: dict(shape=out.shape, dims=dims))
  box = gen.fov_box(f)
  xs = box[0][0] + (np.arange(width) + 0.5) / width * (box[1][0] - box[0][0])
  ys = box[0][1] + (np.arange(height) + 0.5) / height * (box[1][1] - box[0][1])
  pos = gen.to_material(box, grid.atom_positions)
  d2 = (xs[None, :, None] - pos[:, 0]) ** 2 + (ys[:, None, None] - pos[:, 1]) ** 2
  r2 = (np.asarray(grid.atomic_numbers) / 6.0) ** exponent * 0.1
  covered = d2 < r2
  clear = (np.abs(d2 - r2) > 1e-6).all(-1) & (covered.sum(-1) <= 1)
  want = (covered * np.asarray(grid.atomic_numbers)).sum(-1)
  got = out[::-1].astype(int)
  bad = clear & (got != want)
  mon.check('mask labels each atom in its place', not bad.any(), lambda: dict(fov=box, dims=dims, wrong=int(bad.sum())))
  several = (covered.sum(-1) > 1)
  ok = all(got[i, j] in set(np.asarray(grid.atomic_numbers)[covered[i, j]]) for i, j in np.argwhere(several)[:50])
  mon.check('overlaps show one of the atoms', ok, None)
  if width != height:
    mon.count('masks that are not square')
  mon.state('mask', gen.digest(grid), dims)


def stages(mon, rng):
  n = int(rng.choice([40, 64]))
  f, grid = random_scene(rng, 20)
  base = imaging.generate_clean_image(grid, f, image_size=n)
  kept = base.copy()
  seed = int(rng.integers(2**31))
  r = lambda: np.random.default_rng(seed)

  rate = float(rng.uniform(0.5, 6) if rng.random() < 0.6 else rng.uniform(6, 12))
  out = imaging.apply_jitter(base, rate, r())
  shifts = []
  for a, b in zip(base, out):
    s = [k for k in range(n) if np.array_equal(np.roll(a, k), b)]
    shifts.append(s)
  mon.check('jitter rolls whole rows', out.shape == base.shape and all(shifts), None)
  known = [s[0] for s in shifts if len(s) == 1]
  if len(known) > 25:
    z = abs(np.mean(known) - rate) / np.sqrt(rate / len(known))
    mon.check('jitter has the given mean', z < 7, lambda: dict(mean=np.mean(known), rate=rate))

  mult = gen.log_uniform(rng, 3, 60)
  out = imaging.apply_poisson_noise(base, mult, r())
  levels = out * np.round(1 / np.min(out[out > 0]))
  near = np.abs(levels - np.round(levels)).max()
  # Photon counts: each pixel Poisson with mean proportional to the image.
  bright = base > 0.5
  z = [abs(levels[m].sum() - mult * base[m].sum()) / np.sqrt(mult * base[m].sum()) for m in (base >= 0, bright)]
  mon.check('shot noise', bool(out.min() >= 0 and abs(out.max() - 1) < 1e-9 and near < 1e-6 and (out[base == 0] == 0).all()
            and max(z) < 7), lambda: dict(z=z, near=near))

  amount = float(rng.uniform(0.02, 0.3))
  out = imaging.apply_salt_and_pepper_noise(base, amount, r())
  changed = out != base
  extreme = (out == 0) | (out == 1) | (out == -1)
  # Pixels that were extreme already may be hit without changing.
  p = stats.binomtest(int(changed[(base > 1e-6) & (base < 1)].sum()), int(((base > 1e-6) & (base < 1)).sum()), amount).pvalue
  mon.check('salt and pepper', bool(extreme[changed].all() and p > 1e-9), lambda: dict(p=p, amount=amount, changed=changed.mean()))

  gamma = float(rng.uniform(0.5, 1.6))
  out = imaging.apply_contrast(base, gamma)
  mon.check('contrast', np.allclose(out, base ** gamma, atol=1e-6), dict(gamma=gamma))

  blur = float(rng.uniform(0.3, 2))
  out = imaging.apply_blur(base, blur)
  spread = lambda im: np.abs(np.diff(im / im.sum(), axis=0)).sum() + np.abs(np.diff(im / im.sum(), axis=1)).sum()
  mon.check('blur', bool(abs(out.max() - 1) < 1e-9 and spread(out) < spread(base)
            and np.array_equal(imaging.apply_blur(base, 0.0), base / base.max())), None)

  for fn, mean, top in (
      (imaging.apply_uniform_noise, 0.5, 1.0), (imaging.apply_exponential_noise, 1.0, np.inf)):
    scale = float(rng.uniform(0.05, 0.25))
    out = fn(base, scale, r())
    # Undo the normalisation: noise is added and the result divided by its maximum.
    k = np.unravel_index(np.argmax(out), out.shape)
    # The divisor is found from two conditions: noise >= 0 and the known mean.
    divisor = (base.mean() + mean * scale) / out.mean()
    noise = out * divisor - base
    slack = 0.002 + 7 * (scale / n) / (base.mean() + mean * scale)
    mon.check('additive noise',
              bool(abs(out.max() - 1) < 1e-9 and (out == out.max()).sum() <= 2 and noise.min() > -slack and noise.max() < scale * min(top, 40) + slack
                   and abs(np.corrcoef(noise.ravel(), base.ravel())[0, 1]) < 0.15
                   and 0.75 < noise.std() / (scale * (np.sqrt(1 / 12) if mean == 0.5 else 1.0)) < 1.3),
              lambda: dict(fn=fn.__name__, scale=scale, low=noise.min(), high=noise.max(), std=noise.std(), at=k))

  var = float(rng.uniform(1e-4, 4e-3))
  mid = np.full((n, n), 0.5)
  out = imaging.apply_gaussian_noise(mid, var, r())
  ratio = out.var() / var
  mon.check('gaussian noise', bool(out.min() >= 0 and out.max() <= 1 and abs(ratio - 1) < 0.25 and abs(out.mean() - 0.5) < 7 * np.sqrt(var) / n),
            lambda: dict(ratio=ratio, mean=out.mean()))
  mon.check('stages leave their input alone', np.array_equal(kept, base), None)
  mon.state('stages', seed)


def scattered_scene(rng):
  """Atoms without any lattice symmetry that a mirrored image could share."""
  f = gen.fov(rng, lo=12, hi=22, square=True)
  micro = gen.separated_positions(rng, 30, 1.0, 0.1)
  numbers = np.full(len(micro), gen.CARBON)
  numbers[rng.choice(len(micro), size=2, replace=False)] = gen.SILICON
  return f, mu.AtomicGrid(micro, numbers)


def noisy(mon, rng):
  f, grid = scattered_scene(rng)
  size = int(rng.choice([128, 200]))
  params = imaging.sample_image_parameters(rng, image_size=size)
  seed = int(rng.integers(2**31))
  kept = gen.digest((grid, f))
  margin = float(rng.choice([0.0, 0.25]))
  make = lambda s: imaging.generate_stem_image(grid, f, params, np.random.default_rng(s), buffer_size=margin)
  img = make(seed)
  mon.require('noisy image is valid', img.shape == (size, size) and bool(np.isfinite(img).all() and img.min() >= 0 and img.max() <= 1 and img.std() > 0),
              lambda: dict(shape=img.shape, low=img.min(), high=img.max(), params=repr(params)))
  mon.check('image is seeded', np.array_equal(img, make(seed)) and not np.array_equal(img, make(seed + 1)), None)
  reference = imaging.generate_clean_image(grid, f, image_size=size)
  # Jitter moves rows to the right by its mean.
  reference = np.roll(reference, int(round(params.jitter_rate)), axis=1)
  corr = lambda a: float(np.corrcoef(a.ravel(), img.ravel())[0, 1])
  straight = corr(reference)
  others = [corr(reference[::-1]), corr(reference[:, ::-1]), corr(reference.T), corr(np.roll(reference, size // 10, axis=0))]
  mon.check('noisy image shows the same scene', straight > max(others),
            lambda: dict(corr=straight, others=others, params=repr(params)))
  mon.maximum('negative correlation', -straight)
  mon.maximum('negative margin over mirrored scenes', max(others) - straight)
  mon.check('grid is left alone', gen.digest((grid, f)) == kept, None)
  mon.state('noisy', kept, size)
  mon.sample(size=size, correlation=straight, mirrored=others)


RANGES = {
    'intensity_exponent': (1.4, 2.0), 'gaussian_variance': (0.0, 5e-3), 'jitter_rate': (0.0, 5.0),
    'poisson_rate_multiplier': (1.0, np.inf), 'salt_and_pepper_amount': (0.0, 1e-3), 'blur_amount': (0.0, 1.0),
    'contrast_gamma': (0.7, 1.3), 'exponential_lambda': (0.0, 0.2), 'uniform_noise_scale': (0.0, 0.2),
}


NOISY_RANGES = {
    'intensity_exponent': (1.4, 2.0), 'gaussian_variance': (0.0, 0.3), 'jitter_rate': (0.0, 5.0),
    'poisson_rate_multiplier': (1.0, np.inf), 'salt_and_pepper_amount': (0.0, 1e-2), 'blur_amount': (0.0, 0.25),
    'contrast_gamma': (0.5, 1.5), 'exponential_lambda': (0.0, 0.25), 'uniform_noise_scale': (0.0, 0.25),
}
# Settings without noise, and two strengths of each kind of noise.
OFF = dict(gaussian_variance=0.0, jitter_rate=0.0, poisson_rate_multiplier=1e7, salt_and_pepper_amount=0.0,
           blur_amount=0.0, contrast_gamma=1.0, exponential_lambda=0.0, uniform_noise_scale=0.0)
STRENGTHS = dict(gaussian_variance=(1e-3, 0.05), jitter_rate=(0.5, 5.0), poisson_rate_multiplier=(2000.0, 20.0),
                 salt_and_pepper_amount=(0.002, 0.05), blur_amount=(1.0, 4.0), contrast_gamma=(1.2, 3.0),
                 exponential_lambda=(0.01, 0.2), uniform_noise_scale=(0.02, 0.4))


def strengths(mon, rng):
  """Each setting has its effect on the full image, in proportion."""
  f, grid = scattered_scene(rng)
  size = int(rng.choice([100, 128]))
  exponent = float(rng.uniform(1.4, 2.0))
  seed = int(rng.integers(2**31))
  def make(**kw):
    p = imaging.ImageGenerationParameters(intensity_exponent=kw.pop('intensity_exponent', exponent), image_size=size, **{**OFF, **kw})
    return imaging.generate_stem_image(grid, f, p, np.random.default_rng(seed))
  plain = make()
  want = imaging.generate_clean_image(grid, f, image_size=size, intensity_exponent=exponent)
  rank = float(stats.spearmanr(plain.ravel(), want.ravel())[0])
  mon.check('without noise the image is the clean one', rank > 0.6, dict(rank=rank))
  for name, (weak, strong) in [*STRENGTHS.items(), ('contrast_gamma', (0.55, 0.4))]:
    a, b = (float(np.abs(make(**{name: v}) - plain).mean()) for v in (weak, strong))
    mon.check('every setting has its effect', b > 0.01 and b > 1.3 * a, lambda: dict(setting=name, weak=a, strong=b))
  moved = make(jitter_rate=5.0)
  shift = [float(np.corrcoef(np.roll(plain, k, axis=1).ravel(), moved.ravel())[0, 1]) for k in range(-10, 11)]
  mon.check('jitter moves rows by its mean', 3 <= int(np.argmax(shift)) - 10 <= 7, lambda: dict(best=int(np.argmax(shift)) - 10))
  brighter = make(intensity_exponent=0.5 * exponent)
  mon.check('every setting has its effect', float(np.abs(brighter - plain).mean()) > 0.003, lambda: dict(setting='intensity_exponent', change=float(np.abs(brighter - plain).mean())))
  mon.state('strengths', gen.digest((grid, f)))


def parameters(mon, rng):
  p = imaging.sample_image_parameters(rng)
  ok = all(lo <= getattr(p, k) <= hi for k, (lo, hi) in RANGES.items())
  mon.check('parameters are in range', ok and p.image_size == 512, lambda: dict(params=repr(p)))
  size = int(rng.integers(8, 2000))
  q = imaging.sample_image_parameters(rng, size)
  mon.check('parameters vary', q.image_size == size and all(getattr(p, k) != getattr(q, k) for k in RANGES), None)
  n = imaging.sample_noisy_image_parameters(rng, image_size=size)
  mon.check('parameters are in range', n.image_size == size and imaging.sample_noisy_image_parameters(rng).image_size == 512 and all(
      lo <= getattr(n, k) <= hi for k, (lo, hi) in NOISY_RANGES.items()), lambda: dict(noisy=repr(n)))
  # Every part of a range occurs: one of 120 draws lies in each end fifth
  # (the chance that none does is 2e-12).
  for draw, ranges in ((imaging.sample_image_parameters, RANGES), (imaging.sample_noisy_image_parameters, NOISY_RANGES)):
    drawn = [draw(rng) for _ in range(120)]
    for k, (lo, hi) in ranges.items():
      v = np.array([getattr(d, k) for d in drawn])
      if np.isfinite(hi):
        mon.check('parameters fill their ranges', bool(v.min() < lo + 0.2 * (hi - lo) and v.max() > hi - 0.2 * (hi - lo)), lambda: dict(parameter=k, low=v.min(), high=v.max()))


KINDS = [
    Kind('clean', clean, 300, 8000), Kind('mask', mask, 200, 5000), Kind('stages', stages, 60, 1500),
    Kind('noisy', noisy, 24, 400), Kind('strengths', strengths, 24, 300), Kind('parameters', parameters, 100, 1000),
]
