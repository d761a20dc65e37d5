"""Saved models that stand in for trained image models.

'detector' decodes the class of each pixel of the newest image from its
brightness (0 background, 0.5 carbon, 1 silicon) and reports no drift; 'echo'
returns, for each image of the stack, logits (0, 4 x, 0) of its pixels x and the
drift encoded in its two upper left pixels.
"""
import os
import zipfile

import numpy as np


def scratch():
  return os.path.join(os.environ['VERIF_SCRATCH'], f'imgmodel-{os.getpid()}')


def workdir(history, kind):
  d = os.path.join(scratch(), f'{kind}-{history}-work')
  os.makedirs(d, exist_ok=True)
  return d


def zipped(history, kind):
  import tensorflow as tf  # pylint: disable=g-import-not-at-top

  d = os.path.join(scratch(), f'{kind}-{history}')
  path = d + '.zip'
  if os.path.exists(path):
    return path
  module = tf.Module()

  def detector(image):
    x = image[:, :, -1]
    carbon = tf.abs(x - 0.5) < 0.2
    silicon = x > 0.8
    one = tf.stack([~(carbon | silicon), carbon, silicon], -1)
    logits = tf.where(one, 8.0, -8.0)
    return tf.tile(logits, (1, 1, history)), tf.zeros((2 * history,))

  def echo(image):
    zero = tf.zeros_like(image)
    logits = tf.reshape(tf.stack([zero, 4.0 * image, zero], -1), (512, 512, 3 * history))
    return logits, tf.reshape(tf.transpose(image[0, :2, :]), (2 * history,))

  module.__call__ = tf.function(
      dict(detector=detector, echo=echo)[kind], autograph=False,
      input_signature=[tf.TensorSpec((512, 512, history), tf.float32, name='image')],
  )
  root = os.path.join(d, 'image-alignment-model')
  tf.saved_model.save(module, root)
  with zipfile.ZipFile(path + '.part', 'w') as z:
    for base, _, files in os.walk(root):
      z.write(base, os.path.relpath(base, d))
      for f in files:
        z.write(os.path.join(base, f), os.path.relpath(os.path.join(base, f), d))
  os.rename(path + '.part', path)
  return path


def render(rel, numbers, size, radius=None):
  """Discs of brightness 0.5 (carbon) and 1 (silicon) on black."""
  radius = radius or max(3.0, size / 512 * 11)
  image = np.zeros((size, size), np.float32)
  yy, xx = np.mgrid[:size, :size]
  for (x, y), z in sorted(zip(rel.tolist(), numbers.tolist()), key=lambda a: a[1]):
    cx, cy = x * size - 0.5, (1 - y) * size - 0.5
    lo_x, hi_x = int(max(0, cx - radius - 2)), int(min(size, cx + radius + 3))
    lo_y, hi_y = int(max(0, cy - radius - 2)), int(min(size, cy + radius + 3))
    if lo_x >= hi_x or lo_y >= hi_y:
      continue
    sub = (slice(lo_y, hi_y), slice(lo_x, hi_x))
    m = (xx[sub] - cx) ** 2 + (yy[sub] - cy) ** 2 <= radius**2
    image[sub][m] = 1.0 if z == 14 else 0.5
  return image[..., None]
