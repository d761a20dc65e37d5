"""C24: registering earlier images with the current view."""
import contextlib
import copy
import io as stdio

from etils import epath
from skimage import exposure
import numpy as np

from vlib import gen
from vlib import imgmodel
from vlib.harness import Kind
from putting_dune import alignment
from putting_dune import geometry
from putting_dune import microscope_utils as mu

PROPERTY = 'C24'
RULE = (
    'Random images (square and elongated, 1-4 channels, each pixel unique)'
    ' taken of square fields of view and re-cropped to views shifted by'
    ' nothing, fractions of a pixel, whole views and far away, at the same or'
    ' another size; and histories of images fed to the image aligner with a'
    ' saved model that returns the frame stack it was given. Each sampled pixel'
    ' is compared with the image content at the same place of the material.'
    ' Non-trivial: old and new view overlap without being equal; distinct by'
    ' image and views.'
)
ASSUMPTIONS = [
    'Fields of view are square (as the code documents).',
    'A pixel may come from up to two pixels next to its place; pixels within'
    ' two pixels of the edge of the old image may be either padded or not.',
]
REQUIRED = {
    'pixels stay at their place of the material': 180, 'unseen places are padded': 60, 'same view gives the same image': 20,
    'size is kept': 240, 'frame stack shows the history in the current view': 20, 'unused history is empty': 18,
    'drift of the requested time': 60, 'newest image is normalised': 20, 'newest image is equalised': 8,
    'drifts of both stages add up': 20, 'the grid belongs to the corrected view': 20, 'a failing second stage leaves the first': 12,
}


def square_fov(rng, size=None, low=None):
  size = gen.log_uniform(rng, 4, 60) if size is None else size
  low = rng.uniform(-60, 60, 2) if low is None else low
  return mu.MicroscopeFieldOfView(geometry.Point(tuple(map(float, low))), geometry.Point(tuple(map(float, low + size))))


def expected(image, old, new, rows, cols, shape):
  """Row and column of the old image at the place of pixels of the new one."""
  h, w = shape
  x = new[0, 0] + (cols + 0.5) / w * (new[1, 0] - new[0, 0])
  y = new[1, 1] - (rows + 0.5) / h * (new[1, 1] - new[0, 1])
  c = (x - old[0, 0]) / (old[1, 0] - old[0, 0]) * image.shape[1] - 0.5
  r = (old[1, 1] - y) / (old[1, 1] - old[0, 1]) * image.shape[0] - 0.5
  return r, c


def compare(image, old, new, got, rng, samples=250, reach=2, tol=0.0):
  """(misplaced pixels, padded pixels seen, content pixels seen)."""
  shape = got.shape[:2]
  rows, cols = rng.integers(0, shape[0], samples), rng.integers(0, shape[1], samples)
  r, c = expected(image, old, new, rows, cols, shape)
  zoom = max(1.0, (new[1, 0] - new[0, 0]) / (old[1, 0] - old[0, 0]))
  k = int(np.ceil(reach * zoom))
  bad, padded, content = [], 0, 0
  H, W = image.shape[:2]
  for i in range(samples):
    v = got[rows[i], cols[i]]
    inside = k <= r[i] < H - k and k <= c[i] < W - k
    outside = r[i] < -k - 0.5 or c[i] < -k - 0.5 or r[i] > H + k or c[i] > W + k
    if outside:
      padded += 1
      if np.any(np.abs(v) > tol):
        bad.append((int(rows[i]), int(cols[i]), 'not padded'))
    elif inside:
      content += 1
      a, b = int(round(r[i])), int(round(c[i]))
      patch = image[max(0, a - k): a + k + 1, max(0, b - k): b + k + 1]
      if not np.any(np.all(np.abs(patch - v) <= tol, axis=-1)):
        bad.append((int(rows[i]), int(cols[i]), float(r[i]), float(c[i])))
  return bad, padded, content


def crop(mon, rng):
  h, w = (int(rng.integers(24, 90)),) * 2
  if rng.random() < 0.3:
    w = int(rng.integers(24, 90))
  ch = int(rng.choice([1, 1, 3, 4]))
  image = rng.random((h, w, ch)) + 0.5
  if rng.random() < 0.3:
    image = image.astype(np.float32)
  given = image[..., 0] if ch == 1 and rng.random() < 0.3 else image
  old = square_fov(rng)
  box = gen.fov_box(old)
  size = box[1, 0] - box[0, 0]
  kind = rng.random()
  if kind < 0.1:
    low, new_size = box[0], size
  elif kind < 0.5:
    low, new_size = box[0] + rng.uniform(-1.3, 1.3, 2) * size * rng.choice([1, 0.3, 0.02]), size
  elif kind < 0.9:
    new_size = size * float(np.exp(rng.uniform(-0.9, 0.9)))
    low = box.mean(0) - new_size / 2 + rng.uniform(-0.8, 0.8, 2) * size
  else:
    low, new_size = box[0] + gen.rotate(np.array([size * rng.uniform(2, 30), 0]), rng.uniform(0, 7)), size
  new = square_fov(rng, new_size, low)
  kept = given.copy()
  got = np.asarray(alignment.pad_and_crop_images_by_fov(given, old, new))
  mon.check('image is left alone', np.array_equal(given, kept), None)
  mon.require('size is kept', got.shape == image.shape, lambda: dict(got=got.shape, want=image.shape))
  if kind < 0.1:
    mon.check('same view gives the same image', np.array_equal(got, image), None)
  bad, padded, content = compare(image, gen.fov_box(old), gen.fov_box(new), got, rng, tol=1e-7)
  detail = lambda: dict(old=gen.fov_box(old), new=gen.fov_box(new), shape=image.shape, bad=bad[:5], count=len(bad))
  if content:
    mon.check('pixels stay at their place of the material', not [b for b in bad if len(b) == 4], detail)
  if padded:
    mon.check('unseen places are padded', not [b for b in bad if len(b) == 3], detail)
  mon.count('pixels compared', content + padded)
  if content and kind >= 0.1:
    mon.state('crop', image[0, 0].tobytes(), gen.fov_box(new).tobytes())


def stack(mon, rng):
  """The image aligner shows its model the history in the current view."""
  h = int(rng.choice([2, 3, 5]))
  aligner = alignment.ImageAligner.from_path(epath.Path(imgmodel.zipped(h, 'echo')), workdir=imgmodel.workdir(h, 'echo'))
  aligner.adaptive_normalization = False
  if h != 5 or rng.random() < 0.5:
    aligner.reset(history_length=h)
  size = gen.log_uniform(rng, 8, 40)
  low = rng.uniform(-30, 30, 2)
  seen = []
  for k in range(int(rng.integers(2, 2 * h + 2))):
    if k and rng.random() < 0.1:
      aligner.reset(history_length=h)
      seen = []
    low = low + rng.uniform(-0.25, 0.25, 2) * size
    if rng.random() < 0.2:
      size = size * float(np.exp(rng.uniform(-0.2, 0.2)))
    fov = square_fov(rng, size, low)
    px = int(rng.choice([64, 128, 512]))
    image = rng.random((px, px, 1)) * rng.choice([1.0, 50.0, 1000.0]) + rng.choice([0.0, -20.0, 300.0])
    if rng.random() < 0.5:
      image = image[..., 0]
    kept = image.copy()
    t = int(rng.integers(0, h))
    index = t - h if rng.random() < 0.5 else t
    # The newest image is what is asked about unless told otherwise.
    kw = {} if t == h - 1 and rng.random() < 0.6 else dict(time_index=index)
    grid, drift, probs = aligner(image, fov, **kw)
    mon.check('image is left alone', np.array_equal(image, kept), None)
    probs = np.asarray(probs, float)
    mon.require('label mask is a distribution', probs.shape == (512, 512, 3) and np.allclose(probs.sum(-1), 1, atol=1e-4), lambda: dict(shape=probs.shape))
    channel = np.log(probs[..., 1] / probs[..., 0]) / 4
    lo, hi = float(kept.min()), float(kept.max())
    full = ((kept.reshape(px, px).astype(np.float32) - lo) / (hi - lo))
    full = full.repeat(512 // px, 0).repeat(512 // px, 1)
    seen.append((full, fov))
    mon.check('drift of the requested time', np.allclose(np.asarray(drift, float).reshape(-1), channel[0, :2], atol=1e-3), lambda: dict(got=drift, want=channel[0, :2], index=index))
    back = h - 1 - t  # how many images ago
    if back == 0:
      mon.check('newest image is normalised', np.allclose(channel, full, atol=1e-4), lambda: dict(error=np.abs(channel - full).max()))
    elif back < len(seen):
      image_b, fov_b = seen[-1 - back]
      bad, padded, content = compare(image_b[..., None], gen.fov_box(fov_b), gen.fov_box(fov), channel[..., None], rng, 120, tol=2e-4)
      mon.check('frame stack shows the history in the current view', not bad, lambda: dict(back=back, bad=bad[:5], count=len(bad), of=content + padded, then=gen.fov_box(fov_b), now=gen.fov_box(fov)))
      mon.count('pixels compared', content + padded)
    else:
      mon.check('unused history is empty', bool(np.abs(channel).max() < 1e-4), lambda: dict(back=back, seen=len(seen), value=np.abs(channel).max()))
    mon.state('stack', kept[:2].tobytes())


def adaptive(mon, rng):
  """Without further ado, images of any range are equalised."""
  h = 3
  aligner = alignment.ImageAligner.from_path(epath.Path(imgmodel.zipped(h, 'echo')), workdir=imgmodel.workdir(h, 'echo'))
  aligner.reset(history_length=h)
  px = int(rng.choice([64, 128, 512]))
  yy, xx = np.mgrid[:px, :px] / px
  a, b = rng.uniform(3, 9, 2)
  image = np.sin(a * xx + 1) * np.cos(b * yy) + rng.normal(0, 0.1, (px, px))
  image = (image - image.min()) / (image.max() - image.min())
  kind = rng.integers(0, 4)
  if kind == 1:
    image = image * gen.log_uniform(rng, 0.01, 1e5) + rng.uniform(-1e3, 1e3)
  elif kind == 2:
    image = (image * 255).astype(np.uint8)
  elif kind == 3:
    image = (image * 60000).astype(np.uint16)
  if rng.random() < 0.5:
    image = image[..., None]
  kept = image.copy()
  _, _, probs = aligner(image, square_fov(rng))
  mon.check('image is left alone', np.array_equal(image, kept), None)
  probs = np.asarray(probs, float)
  channel = np.log(probs[..., 1] / probs[..., 0]) / 4
  x = kept.reshape(px, px).astype(np.float64)
  want = exposure.equalize_adapthist((x - x.min()) / (x.max() - x.min()))
  want = ((want - want.min()) / (want.max() - want.min())).repeat(512 // px, 0).repeat(512 // px, 1)
  error = np.abs(channel - want)
  mon.check('newest image is equalised', bool(np.mean(error) < 0.01 and np.mean(error > 0.05) < 0.01),
            lambda: dict(mean=error.mean(), largest=error.max(), range=(kept.min(), kept.max()), dtype=str(kept.dtype)))
  mon.state('adaptive', kept[:2].tobytes())


class Second:
  """A second stage that shifts by what it is told, or fails."""

  def __init__(self):
    self.told, self.asked, self.resets = None, [], 0

  def reset(self):
    self.resets += 1

  def __call__(self, grid):
    self.asked.append(grid)
    if self.told is None:
      raise ValueError('nothing to align')
    drift, keep = self.told
    return mu.AtomicGridMaterialFrame(mu.AtomicGrid(np.asarray(grid.atom_positions)[keep] - drift, np.asarray(grid.atomic_numbers)[keep])), drift


def stages(mon, rng):
  """A second stage of alignment corrects the first, or leaves it if it fails."""
  h = int(rng.choice([2, 3]))
  make = lambda **kw: alignment.ImageAligner.from_path(epath.Path(imgmodel.zipped(h, 'echo')), workdir=imgmodel.workdir(h, 'echo'), **kw)
  both, one = make(hybrid=True), make()
  second = Second()
  for a in (both, one):
    a.adaptive_normalization = False
    a.reset(history_length=h)
  both.postprocessing_aligner = second
  low, size = rng.uniform(-30, 30, 2), gen.log_uniform(rng, 8, 40)
  story = ''
  for _ in range(int(rng.integers(2, 6))):
    low = low + rng.uniform(-0.2, 0.2, 2) * size
    fov = square_fov(rng, size, low)
    image = rng.random((64, 64, 1)).astype('f4')
    n = int(rng.integers(2, 12))
    grid = mu.AtomicGridMicroscopeFrame(mu.AtomicGrid(rng.random((n, 2)), rng.choice([6, 14], n)))
    xy, numbers = np.array(grid.atom_positions), np.array(grid.atomic_numbers)
    fails = rng.random() < 0.35
    keep = rng.permutation(n)[: int(rng.integers(1, n + 1))]
    drift = rng.normal(size=2)
    second.told = None if fails else (drift, keep)
    asked, resets = len(second.asked), second.resets
    g1, d1, p1 = one(image.copy(), fov, grid=grid)
    with contextlib.redirect_stdout(stdio.StringIO()):
      g2, d2, p2 = both(image.copy(), fov, grid=grid)
    first = np.asarray(d1, float).reshape(2)
    mon.check('label mask does not depend on the second stage', np.allclose(p1, p2, atol=1e-5), None)
    mon.check('a given grid is used', np.allclose(g1.atom_positions, xy) and np.array_equal(g1.atomic_numbers, numbers), None)
    box = gen.fov_box(fov) - first
    mon.require('the second stage sees what the first has found', len(second.asked) == asked + 1, None)
    seen = second.asked[-1]
    mon.check('the second stage sees what the first has found', gen.close(np.asarray(seen.atom_positions), gen.to_material(box, xy), 1e-4) and np.array_equal(seen.atomic_numbers, numbers),
              lambda: dict(got=seen.atom_positions, want=gen.to_material(box, xy), drift=first))
    if fails:
      mon.check('a failing second stage leaves the first', np.allclose(np.asarray(d2, float).reshape(2), first, atol=1e-5) and np.allclose(g2.atom_positions, xy) and np.array_equal(g2.atomic_numbers, numbers) and second.resets == resets + 1,
                lambda: dict(drift=d2, want=first, grid=g2.atom_positions, want_grid=xy, resets=second.resets - resets))
    else:
      mon.check('drifts of both stages add up', np.allclose(np.asarray(d2, float).reshape(2), first + drift, atol=1e-4), lambda: dict(got=d2, first=first, second=drift))
      # The atoms stay where the second stage has put them, once the view is corrected.
      back = gen.to_material(gen.fov_box(fov) - np.asarray(d2, float).reshape(2), g2.atom_positions)
      want = gen.to_material(box, xy)[keep] - drift
      mon.check('the grid belongs to the corrected view', gen.close(back, want, 1e-3) and np.array_equal(g2.atomic_numbers, numbers[keep]) and second.resets == resets,
                lambda: dict(got=back, want=want))
    story += 'f' if fails else '.'
  mon.state('stages', story, low.tobytes())


KINDS = [Kind('stages', stages, 30, 600), Kind('adaptive', adaptive, 16, 300), Kind('crop', crop, 500, 12000), Kind('stack', stack, 60, 1200)]
