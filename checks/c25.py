"""C25: detecting atoms in predicted label masks."""
import os

from etils import epath
import numpy as np

from vlib import gen
from vlib import imgmodel
from vlib.harness import Kind
from putting_dune import alignment
from putting_dune import atom_detector

PROPERTY = 'C25'
RULE = (
    'Label masks and images showing 0-40 separated atoms (discs of random'
    ' place and size; only carbon, only silicon, none), decoded by the image'
    ' aligner and by the atom detector with a saved stand-in model of any'
    ' confidence, square and elongated. Non-trivial: at least one atom;'
    ' distinct by mask.'
)
ASSUMPTIONS = [
    'Atoms are discs of at least 4 pixels radius further apart than their'
    ' outlines, as the trained models draw them.',
    'For the atom detector, the model is certain (its probability of silicon'
    ' rounds to one) where there is silicon.',
]
REQUIRED = {
    'each atom is detected once, at its place': 90, 'species are told apart': 90, 'edges are ignored': 35,
    'detector: each atom is detected once, at its place': 35, 'detector: species are told apart': 35,
}


def scene(rng, h, w, r_lo, r_hi, gap=None):
  n = int(rng.choice([0, 1, 3, 10, 25, 40]))
  r_max = r_hi
  pts = gen.separated_positions(rng, n, 1.0, 0.001) if n else []
  out = []
  for p in pts:
    x, y = p[0] * w, p[1] * h
    r = rng.uniform(r_lo, r_hi)
    if all(np.hypot(x - a, y - b) > (2 * r_max + 14 if gap is None else r + s + gap) for a, b, s in out):
      out.append((x, y, r))
  mode = rng.random()
  z = np.where(rng.random(len(out)) < (0 if mode < 0.2 else 1 if mode < 0.35 else 0.2), 14, 6)
  return np.array(out).reshape(-1, 3), z.astype(int)


def paint(atoms, z, h, w):
  label = np.zeros((h, w), int)
  yy, xx = np.mgrid[:h, :w]
  for (x, y, r), zz in zip(atoms, z):
    label[(xx - x) ** 2 + (yy - y) ** 2 <= r * r] = 1 if zz == 6 else 2
  return label


def judge(mon, prefix, grid, want, wz, optional, tol_x, tol_y, detail):
  pos = np.asarray(grid.atom_positions, float).reshape(-1, 2)
  z = np.asarray(grid.atomic_numbers)
  tol_x, tol_y = (np.broadcast_to(t, len(want)) for t in (tol_x, tol_y))
  ok, ok_z = len(pos) == len(z), True
  used = set()
  for p, pz in zip(pos, z):
    near = [i for i in range(len(want)) if abs(want[i, 0] - p[0]) <= tol_x[i] and abs(want[i, 1] - p[1]) <= tol_y[i]]
    if len(near) != 1 or near[0] in used:
      ok = False
      continue
    used.add(near[0])
    ok_z &= int(pz) == int(wz[near[0]])
  missing = [i for i in range(len(want)) if i not in used and not optional[i]]
  mon.check(prefix + 'each atom is detected once, at its place', ok and not missing, lambda: dict(got=pos, want=want, missing=missing, **detail))
  mon.check(prefix + 'species are told apart', ok_z, lambda: dict(got=z, want=wz, **detail))
  mon.count('atoms decoded', len(want))


def decode(mon, rng):
  h = w = 512
  if rng.random() < 0.3:
    h, w = int(rng.integers(150, 512)), int(rng.integers(150, 512))
  atoms, z = scene(rng, h, w, 5, 13)
  label = paint(atoms, z, h, w)
  conf = rng.uniform(0.4, 1.0)
  probs = np.full((h, w, 3), (1 - conf) / 2)
  np.put_along_axis(probs, label[..., None], conf, -1)
  probs = probs.astype(rng.choice(['float32', 'float64']))
  kw = {}
  buffer = 0.05
  if rng.random() < 0.4:
    buffer = float(rng.choice([0.01, 0.1, 0.3]))
    kw['buffer_width'] = buffer
  kept = probs.copy()
  grid = alignment.ImageAligner.process_detection_predictions(probs, **kw)
  mon.check('mask is left alone', np.array_equal(probs, kept), None)
  want = np.stack([(atoms[:, 0]) / w, 1 - (atoms[:, 1]) / h], -1)
  margin = np.array([14 / w, 14 / h])
  inner = ((want > buffer + margin) & (want < 1 - buffer - margin)).all(1)
  outer = ((want < buffer - margin) | (want > 1 - buffer + margin)).any(1)
  sel = ~outer
  pos = np.asarray(grid.atom_positions, float).reshape(-1, 2)
  mon.check('edges are ignored', bool(np.all((pos > buffer) & (pos < 1 - buffer))), lambda: dict(buffer=buffer, got=pos))
  tol = np.where(inner[sel], 3.5, 15.0)
  judge(mon, '', grid, want[sel], z[sel], ~inner[sel], tol / w, tol / h, dict(size=(h, w)))
  if not np.any(z == 14) or not np.any(z == 6):
    mon.count('images without one of the species')
  if len(atoms):
    mon.state('decode', label.tobytes())


_DETECTORS = {}


def detector(gap):
  """An atom detector whose saved model decodes the brightness of a pixel."""
  if gap not in _DETECTORS:
    import tensorflow as tf  # pylint: disable=g-import-not-at-top

    def model(preprocessed_inputs_0):
      x = preprocessed_inputs_0[:, :, 0]
      carbon = tf.abs(x - 0.5) < 0.2
      silicon = x > 0.8
      one = tf.stack([~(carbon | silicon), carbon, silicon], -1)
      return tf.where(one, gap, 0.0)

    m = tf.Module()
    spec = tf.TensorSpec((256, 256, 1), tf.float32, name='preprocessed_inputs_0')
    m.predict = tf.function(lambda preprocessed_inputs_0: {'output_0': model(preprocessed_inputs_0)}, autograph=False, input_signature=[spec])
    path = os.path.join(imgmodel.scratch(), f'detector-{gap}')
    tf.saved_model.save(m, path, signatures={'serving_default': m.predict})
    _DETECTORS[gap] = atom_detector.AtomDetector(model_path=epath.Path(path))
  return _DETECTORS[gap]


def detect(mon, rng):
  size = int(rng.choice([256, 512]))
  f = size // 256
  atoms, z = scene(rng, size, size, 4 * f, 8 * f, gap=rng.choice([6, 14]) * f)
  keep = ((atoms[:, :2] > 20 * f) & (atoms[:, :2] < size - 20 * f)).all(1)
  atoms, z = atoms[keep], z[keep]
  label = paint(atoms, z, size, size)
  image = np.array([0.0, 0.5, 1.0])[label]
  if not np.any(z == 14):
    image[-f:, -f:] = 1.0  # fixes the scale; one silicon pixel
  dtype = rng.choice(['float32', 'float64', 'uint8'])
  factor = 200.0 if dtype == 'uint8' else rng.choice([1.0, 255.0])
  image = (image * factor + rng.choice([0.0, 7.0]))[..., None].astype(dtype)
  gap = float(rng.choice([20.0, 60.0, 200.0]))
  kept = image.copy()
  grid = detector(gap)(image)
  mon.check('image is left alone', np.array_equal(image, kept), None)
  want = np.stack([atoms[:, 0] / size, 1 - atoms[:, 1] / size], -1)
  if not np.any(z == 14):
    want = np.concatenate([want, [[1 - 0.5 / 256, 0.5 / 256]]])
    z = np.append(z, 14)
  judge(mon, 'detector: ', grid, want, z, np.zeros(len(want), bool), 2.6 / 256, 2.6 / 256, dict(size=size, gap=gap))
  mon.state('detect', label.tobytes())


KINDS = [Kind('decode', decode, 250, 5000), Kind('detect', detect, 120, 2500)]
