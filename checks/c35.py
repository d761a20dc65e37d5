"""C35: networks of alignment and detection train, resume and export as stated."""
import functools
import os
import shutil
import tempfile
import types

from vlib import boot

boot.stub_optional_modules()

import grain.tensorflow as grain
import jax
import jax.numpy as jnp

if not hasattr(jax, 'tree'):  # The installed orbax is newer than the installed jax.
  jax.tree = types.SimpleNamespace(**{
      k[5:]: getattr(jax.tree_util, k) for k in dir(jax.tree_util) if k.startswith('tree_')})

from clu import metric_writers
from etils import epath
import numpy as np
import optax
from orbax import checkpoint
import tensorflow as tf

from putting_dune import alignment
from putting_dune import atom_detector
from putting_dune.atom_detection import dataset as atom_dataset
from putting_dune.atom_detection import model as atom_model
from putting_dune.atom_detection import save_model as atom_save
from putting_dune.atom_detection import train as atom_train
from putting_dune.graph_alignment import model as graph_model
from putting_dune.graph_alignment import train as graph_train
from putting_dune.image_alignment import dataset as image_dataset
from putting_dune.image_alignment import model as image_model
from putting_dune.image_alignment import save_model as image_save
from putting_dune.image_alignment import train as image_train
from vlib.harness import Kind

PROPERTY = 'C35'
RULE = (
    'Random raw examples (any number of frames, square and resized images,'
    ' masks of atomic numbers) pass through the data sets; random linear models'
    ' pass through the training and evaluation steps, whose losses, metrics and'
    ' updated parameters are compared with formulas evaluated in numpy; random'
    ' clouds pass through the graph network; and whole training runs of small'
    ' networks on fixed batches are interrupted at random batches of training'
    ' and testing (up to three times), resumed, compared with a run that was'
    ' not interrupted, exported, and loaded by the detector and the aligner.'
    ' Non-trivial: labels of several classes; distinct by input fingerprint.'
)
ASSUMPTIONS = [
    'Data sets are read through a stand-in for grain, which is not installed.',
    'Interruptions are exceptions at batches; orbax makes each checkpoint atomic.',
    'Networks are given few features, so that a run takes seconds.',
]
REQUIRED = {
    'examples have the documented form': 40, 'images are stacked and resized': 40, 'masks name the classes': 40,
    'data sets are what was asked for': 40, 'train step descends the stated loss': 20, 'metrics are those of the outputs': 60,
    'evaluation changes nothing but metrics': 20, 'network outputs have the documented form': 8,
    'graph joins all pairs within the cutoff': 8, 'predictions follow the atoms': 8, 'predictions ignore a common shift': 8,
    'every epoch is trained once': 6, 'resuming continues the run': 5, 'reported metrics are those of the model': 6,
    'batches have the configured size': 6, 'best checkpoint is the best': 4, 'exported model computes the network': 3,
}


class Loader:
  """What grain.load_from_tfds returns, as far as the package uses it."""

  def __init__(self, log, fail, kw):
    self.log, self.fail, self.kw = log, fail, kw

  def as_dataset(self, start_index=0):
    examples = self.log['source'](self.kw['name'], self.kw['split'])
    ds = tf.data.Dataset.from_tensor_slices(examples)
    for t in self.kw['transformations']:
      ds = ds.map(t.map)
    # Sizes never configured here are cut, to report them before the day is over.
    ds = ds.repeat().batch(min(self.kw['batch_size'], 8), drop_remainder=True)
    self.log['start'].append(start_index)
    return DataSet(ds, self.log, self.fail, self.kw['split'])


class Interrupted(Exception):
  pass


class DataSet:

  def __init__(self, ds, log, fail, split):
    self.ds, self.log, self.fail, self.split = ds, log, fail, split
    self.element_spec = ds.element_spec

  def as_numpy_iterator(self):
    it = self.ds.as_numpy_iterator()
    while True:
      n = self.log['batches'].get(self.split, 0)
      if self.fail == (self.split, n):
        raise Interrupted()
      batch = next(it)
      self.log['batches'][self.split] = n + 1
      self.log['sizes'].add(len(next(iter(batch.values()))))
      yield batch


def install_loader(source, fail=None):
  log = dict(source=source, calls=[], start=[], batches={}, sizes=set())

  def load_from_tfds(**kw):
    log['calls'].append(kw)
    return Loader(log, fail, kw)

  grain.load_from_tfds = load_from_tfds
  return log


def resized(a, n):
  """Nearest neighbours, as tf.image.resize takes them (between the centres of pixels)."""
  h, w = a.shape[:2]
  if (h, w) == (n, n):
    return a
  i = np.minimum(((np.arange(n) + 0.5) * (h / n) + 1e-9).astype(int), h - 1)
  j = np.minimum(((np.arange(n) + 0.5) * (w / n) + 1e-9).astype(int), w - 1)
  return a[i][:, j]


def raw_masks(rng, shape):
  return rng.choice(np.array([0, 0, 6, 14], np.uint8), size=shape)


ONE_HOT = {0: 0, 6: 1, 14: 2}


def one_hot(mask):
  out = np.zeros(mask.shape + (3,), np.float32)
  for z, k in ONE_HOT.items():
    out[mask == z, k] = 1
  return out


def examples(mon, rng):
  """Data sets of both image networks."""
  which = 'image' if rng.random() < 0.6 else 'atom'
  n_ex = int(rng.integers(1, 5))
  size = int(rng.choice([4, 8, 12, 16, 20]))
  new = size if rng.random() < 0.4 else int(rng.choice([4, 6, 8, 16, 24, 40]))
  # Elongated images, possibly of the wanted size along one side.
  h, w = size, size
  if rng.random() < 0.3:
    h, w = rng.permutation([size, int(rng.choice([4, 6, 10, 24]))])
  batch = int(rng.integers(1, 4))
  frames = int(rng.integers(2, 6))
  seed = int(rng.integers(2**31))
  data = {}
  for split in ('train', 'test'):
    if which == 'image':
      im = rng.integers(0, 256, (n_ex, frames, h, w, 1), dtype=np.uint8)
      if rng.random() < 0.3:
        im = (im / 255).astype(np.float32)
      data[split] = {'images': im, 'mask': raw_masks(rng, (n_ex, frames, h, w, 1)),
                     'drift': rng.normal(size=(n_ex, frames - 1, 2)).astype(np.float32)}
    else:
      data[split] = {'image': rng.random((n_ex, h, w, 1), dtype=np.float32),
                     'mask': raw_masks(rng, (n_ex, h, w, 1))}
  log = install_loader(lambda name, split: data[split])
  start = int(rng.integers(0, 5))
  if which == 'image':
    final = bool(rng.random() < 0.5)
    config = image_dataset.ImageAlignmentDatasetConfig(
        data_dir='/data/x', batch_size=batch, image_size=new, start_index=start, final_only=final)
    sets = image_dataset.make_dataset(config, seed=seed)
  else:
    final = None
    config = atom_dataset.AtomDetectionDatasetConfig(data_dir='/data/x', batch_size=batch, image_size=new, start_index=start)
    sets = atom_dataset.make_dataset(config, seed=seed)
  name = {'image': 'image_alignment', 'atom': 'atom_detection'}[which]
  calls = log['calls']
  mon.check('data sets are what was asked for',
            len(calls) == 2 and [c['split'] for c in calls] == ['train', 'test']
            and all(c['name'] == name and c['data_dir'] == '/data/x' and c['seed'] == seed and c['batch_size'] == batch for c in calls)
            and log['start'] == [start, start], lambda: dict(calls=calls, start=log['start']))
  mon.state(which, h, w, new, batch, frames, final, seed)
  for split, ds in zip(('train', 'test'), sets):
    got = next(iter(ds.as_numpy_iterator()))
    index = [i % n_ex for i in range(batch)]
    d = data[split]
    if which == 'image':
      f = slice(-1, None) if final else slice(None)
      im = d['images'].astype(np.float64) / (255 if d['images'].dtype == np.uint8 else 1)
      want = {
          'images': np.stack([resized(np.moveaxis(im[i, ..., 0], 0, -1), new) for i in index]),
          'mask': np.stack([one_hot(resized(np.moveaxis(d['mask'][i, f, ..., 0], 0, -1), new)) for i in index]),
          'drift': np.stack([d['drift'][i, f] for i in index]),
      }
      key = 'images'
    else:
      want = {'image': np.stack([resized(d['image'][i], new) for i in index]),
              'mask': np.stack([one_hot(resized(d['mask'][i, ..., 0], new)) for i in index])}
      key = 'image'
    mon.check('examples have the documented form', {k: v.shape for k, v in got.items()} == {k: v.shape for k, v in want.items()}
              and all(v.dtype == np.float32 for v in got.values()),
              lambda: dict(got={k: (v.shape, str(v.dtype)) for k, v in got.items()}, want={k: v.shape for k, v in want.items()}))
    mon.check('images are stacked and resized', np.allclose(got[key], want[key], atol=1e-6) if got[key].shape == want[key].shape else False,
              lambda: dict(size=(h, w), new=new, split=split, got=got[key], want=want[key]))
    mon.check('masks name the classes', np.array_equal(got['mask'], want['mask']),
              lambda: dict(size=(h, w), new=new, split=split, got=got['mask'].argmax(-1), want=want['mask'].argmax(-1)))
    if which == 'image':
      mon.check('drifts belong to the masks', np.allclose(got['drift'], want['drift']), lambda: dict(got=got['drift'], want=want['drift']))


# ---------------------------------------------------------------- steps


def softmax(x):
  e = np.exp(x - x.max(-1, keepdims=True))
  return e / e.sum(-1, keepdims=True)


def ce(logits, mask):
  return -(mask * np.log(softmax(logits))).sum(-1)


def close(a, b, tol=2e-4):
  a, b = np.asarray(a, float), np.asarray(b, float)
  return a.shape == b.shape and bool(np.allclose(a, b, rtol=tol, atol=tol))


def atom_steps(mon, rng):
  b, n, c = int(rng.integers(1, 5)), int(rng.integers(2, 9)), int(rng.integers(1, 4))
  w = rng.normal(size=(c, 3)).astype(np.float32)
  lr = float(rng.uniform(0.05, 0.5))
  state = atom_train.TrainState.create(
      apply_fn=lambda p, x: x @ p['w'], params={'w': jnp.asarray(w)}, tx=optax.sgd(lr), metrics=atom_train.TrainMetrics.empty())
  batches = [{'image': rng.normal(size=(b, n, n, c)).astype(np.float32),
              'mask': one_hot(raw_masks(rng, (b, n, n)))} for _ in range(int(rng.integers(1, 4)))]
  losses, accs = [], []
  w64 = w.astype(float)
  for k, batch in enumerate(batches):
    x, m = batch['image'].astype(float), batch['mask']
    logits = x @ w64
    losses.append(ce(logits, m).mean())
    accs.append((logits.argmax(-1) == m.argmax(-1)).mean())
    grad = np.einsum('bijc,bijk->ck', x, softmax(logits) - m) / (b * n * n)
    w64 = w64 - lr * grad
    state = atom_train.train_step(state, batch)
    mon.check('train step descends the stated loss', close(state.params['w'], w64) and int(state.step) == k + 1,
              lambda: dict(got=state.params['w'], want=w64, step=int(state.step)))
  got = state.metrics.compute()
  mon.check('metrics are those of the outputs', close(got['loss'], np.mean(losses)) and close(got['accuracy'], np.mean(accs)),
            lambda: dict(got=got, loss=losses, accuracy=accs))
  before = np.array(state.params['w'])
  metrics, want = atom_train.EvalMetrics.empty(), []
  for batch in batches:
    metrics = atom_train.eval_step(metrics, batch, state=state)
    want.append(((batch['image'].astype(float) @ before).argmax(-1) == batch['mask'].argmax(-1)).mean())
  mon.check('metrics are those of the outputs', close(metrics.compute()['accuracy'], np.mean(want)),
            lambda: dict(got=metrics.compute(), want=want))
  mon.check('evaluation changes nothing but metrics', np.array_equal(np.array(state.params['w']), before) and int(state.step) == len(batches))
  mon.state('atom', b, n, c, w.tobytes())


def image_steps(mon, rng):
  b, n, s = int(rng.integers(1, 4)), int(rng.integers(2, 7)), int(rng.integers(2, 6))
  final = bool(rng.random() < 0.5)
  steps_m = 1 if final and rng.random() < 0.6 else s  # frames with labels
  steps_d = 1 if steps_m == 1 else s - 1
  weight = float(rng.uniform(0, 3))
  lr = float(rng.uniform(0.05, 0.3))
  w = rng.normal(size=(s, steps_m * 3)).astype(np.float32)
  v = rng.normal(size=(s, steps_d * 2)).astype(np.float32)
  state = image_train.TrainState.create(
      apply_fn=lambda p, x: (x @ p['w'], x.mean((0, 1)) @ p['v']), params={'w': jnp.asarray(w), 'v': jnp.asarray(v)},
      tx=optax.sgd(lr), metrics=image_train.Metrics.empty())
  batches = [{'images': rng.normal(size=(b, n, n, s)).astype(np.float32), 'mask': one_hot(raw_masks(rng, (b, n, n, steps_m))),
              'drift': rng.normal(size=(b, steps_d, 2)).astype(np.float32)} for _ in range(int(rng.integers(1, 3)))]

  def reference(w, v, batch):
    x, m, d = batch['images'].astype(float), batch['mask'], batch['drift'].astype(float)
    logits = (x @ w).reshape(m.shape)
    mean = x.mean((1, 2))
    pred = (mean @ v).reshape(d.shape)
    losses, sq = ce(logits, m), ((d - pred) ** 2).sum(-1)
    hits, err = logits.argmax(-1) == m.argmax(-1), np.sqrt(((d - pred) ** 2).sum(-1))
    f = lambda a: a[..., -1].mean()
    pick = f if final else np.mean
    info = dict(loss=pick(losses), drift_loss=pick(sq), accuracy=pick(hits), drift_error=pick(err), final_step_loss=f(losses),
                final_step_drift_loss=f(sq), final_step_accuracy=f(hits), final_step_drift_error=f(err))
    mask_m, mask_d = np.ones(steps_m), np.ones(steps_d)
    if final:
      mask_m[:-1] = 0
      mask_d[:-1] = 0
    g = (softmax(logits) - m) * mask_m[:, None] / (b * n * n * mask_m.sum())
    gw = np.einsum('bijs,bijk->sk', x, g.reshape(b, n, n, -1))
    gd = 2 * (pred - d) * mask_d[:, None] / (b * mask_d.sum())
    gv = mean.T @ gd.reshape(b, -1)
    return info, gw, weight * gv

  w64, v64, infos = w.astype(float), v.astype(float), []
  for k, batch in enumerate(batches):
    info, gw, gv = reference(w64, v64, batch)
    infos.append(info)
    w64, v64 = w64 - lr * gw, v64 - lr * gv
    state = image_train.train_step(state, batch, weight, final)
    mon.check('train step descends the stated loss',
              close(state.params['w'], w64) and close(state.params['v'], v64) and int(state.step) == k + 1,
              lambda: dict(got=state.params, want=(w64, v64), final=final, weight=weight))
  want = {k: np.mean([i[k] for i in infos]) for k in infos[0]}
  got = {k: float(x) for k, x in state.metrics.compute().items()}
  mon.check('metrics are those of the outputs', set(got) == set(want) and all(close(got[k], want[k]) for k in want),
            lambda: dict(got=got, want=want, final=final))
  p = {k: np.array(x) for k, x in state.params.items()}
  infos = [reference(p['w'].astype(float), p['v'].astype(float), batch)[0] for batch in batches]
  after = state.replace(metrics=image_train.Metrics.empty())
  for batch in batches:
    after = image_train.eval_step(after, batch, final)
  got = {k: float(x) for k, x in after.metrics.compute().items()}
  want = {k: np.mean([i[k] for i in infos]) for k in infos[0]}
  mon.check('metrics are those of the outputs', set(got) == set(want) and all(close(got[k], want[k]) for k in want),
            lambda: dict(got=got, want=want, final=final, evaluation=True))
  mon.check('evaluation changes nothing but metrics',
            all(np.array_equal(np.array(after.params[k]), p[k]) for k in p) and int(after.step) == len(batches))
  mon.state('image', b, n, s, steps_m, final, w.tobytes())


def networks(mon, rng):
  """Shapes, and independence of examples of a batch."""
  feats = tuple(int(f) for f in rng.choice([2, 4, 8], size=int(rng.integers(1, 4))))
  n, c = 8 * int(rng.integers(1, 4)), int(rng.integers(1, 5))
  m = 8 * int(rng.integers(1, 4))
  x = rng.random((3, n, m, c)).astype(np.float32)
  key = jax.random.PRNGKey(int(rng.integers(2**31)))
  k = int(rng.integers(2, 6))
  net = atom_model.UNet(num_classes=k, features=feats)
  params = net.init(key, x[0])
  out = np.stack([np.array(net.apply(params, i)) for i in x])
  both = np.array(jax.vmap(net.apply, in_axes=(None, 0))(params, x))
  mon.check('network outputs have the documented form', out.shape == (3, n, m, k) and close(out, both, 1e-3) and np.isfinite(out).all(),
            lambda: dict(got=out.shape, want=(3, n, m, k)))
  g = int(rng.integers(1, 9))
  net = image_model.GlobalLocalUNet(local_output_size=k, global_output_size=g, features=feats)
  params = net.init(key, x[0])
  loc, glob = net.apply(params, x[0])
  mon.check('network outputs have the documented form', loc.shape == (n, m, k) and glob.shape == (g,) and np.isfinite(loc).all() and np.isfinite(glob).all(),
            lambda: dict(got=(loc.shape, glob.shape), want=((n, m, k), (g,))))
  loc2, glob2 = net.apply(params, x[1])
  mon.check('network outputs depend on the image', not close(loc, loc2, 1e-6) and not close(glob, glob2, 1e-7))
  mon.state(feats, n, m, c, k, g)


# ---------------------------------------------------------------- graph

GRAPH_STEP = graph_train.train_step
BOX = 40.0


def graph_functions(frames, cutoff=4.26, recurrences=1, halo=0.0):
  displacement, _ = graph_train.space.periodic(jnp.ones(3) * BOX)
  return graph_model.graph_network_neighbor_list(
      displacement, jnp.array(BOX), r_cutoff=cutoff, dr_threshold=halo, disable_cell_list=True,
      n_recurrences=recurrences, sequence_length=frames, mlp_sizes=(32,), capacity_multiplier=1.25)


def pairs_within(pos, cutoff):
  d = pos[:, None] - pos[None]
  d = d - BOX * np.round(d / BOX)
  r = np.sqrt((d ** 2).sum(-1))
  return r


def cloud(rng, frames, atoms, cutoff):
  """Positions with no pair distance close to the cutoff."""
  while True:
    pos = rng.uniform(0, BOX, (frames, atoms, 3))
    pos[..., 2] *= 0.05
    pos[:, : atoms // 2, :2] = pos[:, :1, :2] + rng.uniform(-4, 4, (frames, atoms // 2, 2))
    pos %= BOX
    r = pairs_within(pos.reshape(-1, 3), cutoff)
    if (np.abs(r - cutoff) > 1e-3).all():
      return pos.astype(np.float32)


def graph_network(mon, rng):
  frames, atoms, cutoff = int(rng.integers(2, 5)), int(rng.integers(4, 9)), float(rng.uniform(3, 8))
  recurrences = int(rng.integers(1, 3))
  neighbor_fn, init_fn, apply_fn = graph_functions(frames, cutoff, recurrences)
  halo_functions = lambda halo: graph_functions(frames, cutoff, recurrences, halo)
  n = frames * atoms

  params = None
  for _ in range(2):
    pos = cloud(rng, frames, atoms, cutoff)
    flat = pos.reshape(-1, 3)
    r = pairs_within(flat, cutoff)
    want = {(i, j) for i, j in zip(*np.nonzero(r < cutoff))}
    capacity = min(n * n - 1, len(want) + int(rng.integers(0, 30)))
    nb = jax.jit(lambda x: graph_model.create_sparse_neighbor_list(capacity, x, neighbor_fn.update, None).update(x))(flat)
    idx = np.array(nb.idx).T
    got = {(int(i), int(j)) for i, j in idx if i < n and j < n}
    mon.check('graph joins all pairs within the cutoff',
              {(i, j) for i, j in got if i != j} == {(i, j) for i, j in want if i != j} and not bool(nb.did_buffer_overflow),
              lambda: dict(missing=sorted(want - got)[:5], extra=sorted(got - want)[:5], capacity=capacity, n=n))
    feats = rng.normal(size=(frames, atoms, 3)).astype(np.float32)
    if params is None:
      params = init_fn(jax.random.PRNGKey(int(rng.integers(2**31))), jnp.asarray(flat), nb, feats.reshape(-1, 3))
    f = lambda p, ft: [np.array(o) for o in apply_fn(
        params, jnp.asarray(p), graph_model.create_sparse_neighbor_list(min(n * n - 1, capacity + 5), p, neighbor_fn.update, None).update(p), nodes=ft)]
    g0, l0 = f(flat, feats.reshape(-1, 3))
    mon.check('network outputs have the documented form', g0.shape == (frames, 2) and l0.shape == (frames, atoms, 2),
              lambda: dict(got=(g0.shape, l0.shape), frames=frames, atoms=atoms))
    mon.check('predictions depend on the atoms', np.ptp(l0.reshape(-1, 2), axis=0).min() > 1e-2,
              lambda: dict(local=l0))
    perm = np.stack([rng.permutation(atoms) for _ in range(frames)])
    take = lambda a: np.take_along_axis(a, perm[..., None], 1)
    g1, l1 = f(take(pos).reshape(-1, 3), take(feats).reshape(-1, 3))
    mon.check('predictions follow the atoms', close(g0, g1, 1e-3) and close(take(l0), l1, 1e-3),
              lambda: dict(global_=(g0, g1), local=(take(l0), l1)))
    shift = rng.uniform(-BOX, BOX, 3)
    moved = ((pos + shift) % BOX).astype(np.float32)
    g2, l2 = f(moved.reshape(-1, 3), feats.reshape(-1, 3))
    mon.check('predictions ignore a common shift', close(g0, g2, 1e-3) and close(l0, l2, 1e-3),
              lambda: dict(global_=(g0, g2), shift=shift))
    # With a halo the list is kept while atoms move a little, but still only
    # pairs within the cutoff are joined.
    halo = float(rng.uniform(0.3, 1.5))
    halo_neighbor_fn, _, halo_apply_fn = halo_functions(halo)
    nb = graph_model.create_sparse_neighbor_list(n * n - 1, jnp.asarray(flat), halo_neighbor_fn.update, None).update(jnp.asarray(flat))
    for _ in range(20):
      near = (flat + rng.uniform(-0.2, 0.2, flat.shape) * halo) % BOX
      near = near.astype(np.float32)
      if (np.abs(pairs_within(near, cutoff) - cutoff) > 1e-3).all():
        break
    else:
      near = flat
    for p in (flat, near):
      nb = nb.update(jnp.asarray(p))
      g3, l3 = [np.array(o) for o in halo_apply_fn(params, jnp.asarray(p), nb, nodes=feats.reshape(-1, 3))]
      g4, l4 = f(p, feats.reshape(-1, 3))
      mon.check('a halo does not change predictions', close(g3, g4, 1e-3) and close(l3, l4, 1e-3),
                lambda: dict(global_=(g3, g4), halo=halo, moved=p is near))
    mon.state(flat.tobytes())


def graph_steps(mon, rng):
  """Losses of the graph network, with a linear stand-in for the network."""
  b, frames, atoms = int(rng.integers(1, 4)), int(rng.integers(2, 5)), int(rng.integers(2, 6))
  n, cutoff = frames * atoms, 4.26
  neighbor_fn, _, _ = graph_functions(frames, cutoff)
  w, v = rng.normal(size=(3, 2)).astype(np.float32), rng.normal(size=(2,)).astype(np.float32)

  def apply_fn(params, positions, neighbor, nodes):
    edges = (neighbor.idx[0] < n).sum() / n  # The network sees the neighbours.
    local = (nodes @ params['w']).reshape(frames, atoms, 2)
    return jnp.ones((frames, 1)) * params['v'] * edges, local

  lr, weight, start = float(rng.uniform(0.05, 0.3)), float(rng.uniform(0, 2)), int(rng.integers(0, frames))
  state = graph_train.TrainState.create(
      apply_fn=None, params={'w': jnp.asarray(w), 'v': jnp.asarray(v)}, tx=optax.sgd(lr), metrics=graph_train.Metrics.empty())
  w64, v64, infos, batches = w.astype(float), v.astype(float), [], []

  def reference(w, v, batch):
    pos, ft = batch['positions'].astype(float), batch['features'].astype(float)
    e = np.array([(pairs_within(p.reshape(-1, 3), cutoff) < cutoff).sum() for p in pos]) / n
    real = ft[..., 0]
    local = ft @ w
    glob = e[:, None, None] * v * np.ones((b, frames, 1))
    dl, dg = local - batch['local_labels'], glob - batch['global_labels']
    steps = np.arange(frames) >= start
    cnt = steps.sum()
    ll = ((dl ** 2).sum(-1) * real).mean(-1).mean(0)[steps].mean()
    gl = (dg ** 2).sum(-1).mean(0)[steps].mean()
    gw = weight * 2 * np.einsum('bfac,bfak,bfa->ck', ft, dl, real * steps[:, None]) / (b * cnt * atoms)
    gv = 2 * np.einsum('b,bfk,f->k', e, dg, steps * 1.0) / (b * cnt)
    info = dict(global_loss=gl, local_loss=ll, total_loss=gl + weight * ll, global_error=np.sqrt((dg ** 2).sum(-1)).mean())
    return info, gw, gv

  step = functools.partial(
      GRAPH_STEP, apply_fn=apply_fn, neighbor_update_fn=neighbor_fn.update, local_loss_weight=weight,
      loss_start_timestep=start, neighbor_list_capacity=n * n - 1)
  for k in range(2):
    feats = rng.normal(size=(b, frames, atoms, 3)).astype(np.float32)
    feats[..., 0] = rng.random((b, frames, atoms)) < 0.7
    batch = {'positions': np.stack([cloud(rng, frames, atoms, cutoff) for _ in range(b)]), 'features': feats,
             'local_labels': rng.normal(size=(b, frames, atoms, 2)).astype(np.float32),
             'global_labels': rng.normal(size=(b, frames, 2)).astype(np.float32)}
    batches.append(batch)
    info, gw, gv = reference(w64, v64, batch)
    infos.append(info)
    w64, v64 = w64 - lr * gw, v64 - lr * gv
    state = step(state, {**batch, '_extra': np.zeros(b, np.float32)})
    mon.check('train step descends the stated loss',
              close(state.params['w'], w64, 1e-3) and close(state.params['v'], v64, 1e-3) and int(state.step) == k + 1,
              lambda: dict(got=state.params, want=(w64, v64), start=start))
  got = {k: float(x) for k, x in state.metrics.compute().items()}
  want = {k: np.mean([i[k] for i in infos]) for k in infos[0]}
  mon.check('metrics are those of the outputs', all(close(got[k], want[k], 1e-3) for k in want), lambda: dict(got=got, want=want))
  p = {k: np.array(x) for k, x in state.params.items()}
  after = state.replace(metrics=graph_train.Metrics.empty())
  after = step(after, batches[0], do_grad_step=False)
  want = reference(p['w'].astype(float), p['v'].astype(float), batches[0])[0]
  got = {k: float(x) for k, x in after.metrics.compute().items()}
  mon.check('metrics are those of the outputs', all(close(got[k], want[k], 1e-3) for k in want), lambda: dict(got=got, want=want, evaluation=True))
  # Points that only pad the graph do not count.
  other = dict(batches[0], local_labels=batches[0]['local_labels'] + 5 * (1 - batches[0]['features'][..., :1]))
  padded = step(state.replace(metrics=graph_train.Metrics.empty()), other, do_grad_step=False)
  mon.check('padding has no effect on the loss', close(padded.metrics.compute()['total_loss'], got['total_loss'], 1e-3),
            lambda: dict(got=padded.metrics.compute(), want=got))
  mon.check('evaluation changes nothing but metrics',
            all(np.array_equal(np.array(after.params[k]), p[k]) for k in p) and int(after.step) == 2)
  mon.state('graph', b, frames, atoms, start, w.tobytes())


# ---------------------------------------------------------------- runs

_MANAGER = checkpoint.CheckpointManager


def flat(tree):
  return {jax.tree_util.keystr(k): np.array(v) for k, v in jax.tree_util.tree_flatten_with_path(tree)[0]}


class Run:
  """One kind of training, on fixed batches, with recorded metrics."""

  def __init__(self, rng, which):
    self.which = which
    self.frames = int(rng.integers(2, 4))
    self.b = int(rng.integers(2, 4))
    self.steps, self.tests = int(rng.integers(2, 5)), int(rng.integers(1, 3))
    self.epochs = int(rng.integers(2, 5))
    self.seed = int(rng.integers(2**31))
    self.final = bool(rng.random() < 0.5)
    self.size = 16
    feats = (4, 8)
    b = self.b
    self.data = {}
    for split in ('train', 'test'):
      if which == 'image':
        self.data[split] = {
            'images': rng.integers(0, 256, (b, self.frames, 16, 16, 1), dtype=np.uint8),
            'mask': raw_masks(rng, (b, self.frames, 16, 16, 1)), 'drift': rng.normal(size=(b, self.frames - 1, 2)).astype(np.float32)}
      elif which == 'atom':
        self.data[split] = {'image': rng.random((b, 32, 32, 1), dtype=np.float32), 'mask': raw_masks(rng, (b, 32, 32, 1))}
      else:
        f = rng.normal(size=(b, 2, 5, 3)).astype(np.float32)
        f[..., 0] = rng.random(f.shape[:-1]) < 0.8
        self.data[split] = {
            'positions': np.stack([cloud(rng, 2, 5, 4.26) for _ in range(b)]), 'features': f,
            'global_labels': rng.normal(size=(b, 2, 2)).astype(np.float32), 'local_labels': rng.normal(size=(b, 2, 5, 2)).astype(np.float32)}
    self.module = {'image': image_train, 'atom': atom_train, 'graph': graph_train}[which]
    if which == 'image':
      self.net = functools.partial(image_model.GlobalLocalUNet, features=feats)
    elif which == 'atom':
      self.net = functools.partial(atom_model.UNet, features=feats)

  def config(self, workdir, epochs=None):
    kw = dict(workdir=epath.Path(workdir), data_dir=epath.Path('/data/y'), seed=self.seed, batch_size=self.b,
              train_steps_per_epoch=self.steps * self.b, eval_steps_per_epoch=self.tests * self.b,
              epochs=self.epochs if epochs is None else epochs, learning_rate=0.02)
    if self.which == 'image':
      kw.update(image_size=self.size, final_step_only=self.final)
    if self.which == 'graph':
      # Without a capacity, the first example decides.
      kw.update(neighbor_capacity=60 if self.seed % 2 else None, box_size=BOX)
    return self.module.Config(**kw)

  def train(self, workdir, fail=None, epochs=None):
    """Returns (final state or None, log)."""
    log = install_loader(lambda name, split: self.data[split], fail)
    log.update(metrics=[], managers=[])
    class Recording(_MANAGER):

      def __init__(self, *a, **k):
        super().__init__(*a, **k)
        log['managers'].append(self)

    checkpoint.CheckpointManager = Recording
    write = metric_writers.write_values
    metric_writers.write_values = lambda writer, step, metrics: (log['metrics'].append((step, dict(metrics))), write(writer, step, metrics))
    kept = (image_model.GlobalLocalUNet, atom_model.UNet, graph_model.graph_network_neighbor_list)
    if self.which == 'image':
      image_model.GlobalLocalUNet = self.net
    elif self.which == 'atom':
      atom_model.UNet = self.net
    else:
      graph_train.train_step = GRAPH_STEP
      graph_model.graph_network_neighbor_list = lambda *a, **k: kept[2](*a, **{**k, 'n_recurrences': 1, 'mlp_sizes': (32,)})
    try:
      return self.module.train(self.config(workdir, epochs)), log
    except Interrupted:
      return None, log
    finally:
      checkpoint.CheckpointManager = _MANAGER
      metric_writers.write_values = write
      image_model.GlobalLocalUNet, atom_model.UNet, graph_model.graph_network_neighbor_list = kept
      graph_train.train_step = GRAPH_STEP

  def batch(self, split):
    d = self.data[split]
    if self.which == 'image':
      f = slice(-1, None) if self.final else slice(None)
      return (np.moveaxis(d['images'][..., 0] / 255, 1, -1).astype(np.float32),
              one_hot(np.moveaxis(d['mask'][:, f, ..., 0], 1, -1)), d['drift'][:, f])
    n = 256
    return (np.stack([resized(i, n) for i in d['image']]), one_hot(np.stack([resized(i, n) for i in d['mask'][..., 0]])))

  def model(self):
    if self.which == 'image':
      k = 1 if self.final else self.frames
      return self.net(local_output_size=3 * k, global_output_size=2 * (1 if self.final else self.frames - 1))
    return self.net()

  def evaluate(self, params):
    """eval/ metrics of the model on the test batch, by the formulas."""
    m = self.model()
    if self.which == 'atom':
      x, mask = self.batch('test')
      out = np.array(jax.vmap(m.apply, in_axes=(None, 0))(params, x))
      return {'eval/accuracy': (out.argmax(-1) == mask.argmax(-1)).mean()}
    x, mask, drift = self.batch('test')
    out, d = [np.array(o) for o in jax.vmap(m.apply, in_axes=(None, 0))(params, x)]
    out, d = out.reshape(mask.shape), d.reshape(drift.shape)
    pick = (lambda a: a[..., -1].mean()) if self.final else np.mean
    return {'eval/accuracy': pick(out.argmax(-1) == mask.argmax(-1)), 'eval/loss': pick(ce(out.astype(float), mask)),
            'eval/drift_error': pick(np.sqrt(((d - drift) ** 2).sum(-1)))}


def runs(mon, rng, which):
  run = Run(rng, which)
  scratch = tempfile.mkdtemp()
  cwd = os.getcwd()
  try:
    whole, log = run.train(scratch + '/whole')
    mon.require('training completes', whole is not None)
    mon.check('batches have the configured size', log['sizes'] == {run.b}, lambda: dict(got=log['sizes'], want=run.b))
    mon.check('every epoch is trained once',
              int(whole.step) == run.epochs * run.steps and [s for s, _ in log['metrics']] == list(range(run.epochs))
              and log['batches'].get('test', 0) == run.epochs * run.tests,
              lambda: dict(which=which, step=int(whole.step), epochs=run.epochs, steps=run.steps, reported=[s for s, _ in log['metrics']], batches=log['batches']))
    reported = [m for _, m in log['metrics']]
    manager = log['managers'][-1]
    steps = sorted(manager.all_steps())
    best = manager.best_step()
    score = {'image': lambda m: m['eval/accuracy'], 'atom': lambda m: m['eval/accuracy'], 'graph': lambda m: -m['eval/total_loss']}[which]
    scores = [score(m) for m in reported]
    top = int(np.argmax(scores))
    if sorted(scores)[-1] - (sorted(scores)[-2] if len(scores) > 1 else -np.inf) > 1e-6 and len(steps) >= run.epochs:
      mon.check('best checkpoint is the best', best == steps[:run.epochs][top], lambda: dict(which=which, best=best, steps=steps, scores=scores))
    if which != 'graph':
      plain = _MANAGER(scratch + '/whole', checkpointers=checkpoint.PyTreeCheckpointer())
      for s, m in list(zip(steps, reported)):
        params = plain.restore(s)['params']
        want = run.evaluate(params)
        mon.check('reported metrics are those of the model', all(close(m[k], want[k], 2e-3) for k in want),
                  lambda: dict(which=which, got=m, want=want, step=s))
    else:
      mon.check('reported metrics are those of the model', all(np.isfinite(v) for m in reported for v in m.values())
                and all(close(m[f'{p}/total_loss'], m[f'{p}/local_loss'] + m[f'{p}/global_loss'], 1e-4) for m in reported for p in ('train', 'eval')))

    # The same run, with interruptions.
    failures, other_schedule = [], False
    for attempt in range(5):
      fail = None
      if attempt < 3 and (attempt == 0 or rng.random() < 0.5):
        split = 'train' if rng.random() < 0.6 else 'test'
        per = run.steps if split == 'train' else run.tests
        fail = (split, int(rng.integers(0, per * run.epochs + 1)))
      failures.append(fail)
      # Shorter runs that end normally may be continued as well.
      epochs = int(rng.integers(1, run.epochs + 1)) if fail is None and attempt < 2 and rng.random() < 0.3 and which == 'graph' else None
      state, log2 = run.train(scratch + '/parts', fail, epochs)
      # A run configured to be shorter has decayed its learning rate faster.
      other_schedule |= epochs not in (None, run.epochs) and bool(log2['metrics'])
      if state is not None and epochs in (None, run.epochs):
        break
    mon.require('training completes', state is not None)
    a, b = flat(whole.params), flat(state.params)
    mon.check('resuming continues the run',
              int(state.step) == int(whole.step) and set(a) == set(b) and (other_schedule or all(close(a[k], b[k], 2e-3) for k in a)),
              lambda: dict(which=which, step=int(state.step), want=int(whole.step), failures=failures, other_schedule=other_schedule, epochs=run.epochs, steps=run.steps,
                           worst=max([(float(np.abs(a[k] - b[k]).max()), k) for k in a if k in b and a[k].shape == b[k].shape] or [None])))
    mon.count('interruptions', sum(f is not None for f in failures))
    again, log3 = run.train(scratch + '/parts')
    c = flat(again.params)
    mon.check('a finished run stays finished', not log3['metrics'] and all(close(c[k], b[k], 1e-6) for k in b) and int(again.step) == int(state.step),
              lambda: dict(which=which, step=int(again.step), reported=log3['metrics']))
    if which != 'graph':
      export(mon, rng, run, scratch, steps, reported)
    mon.check('no side effects', os.getcwd() == cwd, lambda: os.getcwd())
    mon.state(which, run.epochs, run.steps, run.seed, failures)
    mon.sample(which=which, epochs=run.epochs, steps=run.steps, failures=failures, scores=scores)
  finally:
    if not os.path.isdir(os.curdir) or os.path.realpath(os.getcwd()) != os.path.realpath(cwd):
      os.chdir(cwd)
    shutil.rmtree(scratch, ignore_errors=True)


def export(mon, rng, run, scratch, steps, reported):
  """Saves the best checkpoint of the whole run and loads it where it is used."""
  if run.which == 'atom':
    module, scores = atom_save, [m['eval/accuracy'] for m in reported]
  else:
    module, scores = image_save, [-m['eval/loss'] - m['eval/drift_error'] for m in reported]
  order = np.argsort(scores)
  if len(order) > 1 and scores[order[-1]] - scores[order[-2]] <= 1e-6:
    mon.count('exports not judged, equal checkpoints')
    return
  params = _MANAGER(scratch + '/whole', checkpointers=checkpoint.PyTreeCheckpointer()).restore(steps[int(order[-1])])['params']
  kept = image_model.GlobalLocalUNet, atom_model.UNet
  out = scratch + '/out'
  os.makedirs(out)
  try:
    if run.which == 'atom':
      atom_model.UNet = run.net
      atom_save.save(atom_save.Config(workdir=epath.Path(scratch + '/whole'), save_path=epath.Path(out), model_name='m.zip'))
    else:
      image_model.GlobalLocalUNet = run.net
      image_save.save(image_save.Config(
          workdir=epath.Path(scratch + '/whole'), save_path=epath.Path(out), model_name='m.zip', final_step_only=run.final, sequence_length=run.frames))
  finally:
    image_model.GlobalLocalUNet, atom_model.UNet = kept
  model = run.model()
  if run.which == 'atom':
    resource, atom_detector.epath.resource_path = atom_detector.epath.resource_path, lambda p: epath.Path(scratch) / 'package'
    try:
      detector = atom_detector.AtomDetector.from_url('file://' + out + '/m.zip')
    finally:
      atom_detector.epath.resource_path = resource
    x = rng.random((256, 256, 1)).astype(np.float32)
    x = (x - x.min()) / (x.max() - x.min())
    got = detector.model.signatures['serving_default'](preprocessed_inputs_0=tf.constant(x))['output_0'].numpy()
    want = np.array(model.apply(params, x))
    ok = close(got, want, 2e-3)
    grid = detector(rng.random((40, 40, 1)))
    ok2 = grid.atom_positions.ndim == 2 or len(grid.atomic_numbers) == 0
  else:
    aligner = alignment.ImageAligner.from_path(epath.Path(out) / 'm.zip', workdir=scratch + '/package')
    x = rng.random((512, 512, run.frames)).astype(np.float32)
    o = aligner.model.signatures['serving_default'](image=tf.constant(x))
    want = model.apply(params, x)
    ok = close(o['output_0'].numpy(), want[0], 5e-3) and close(o['output_1'].numpy(), want[1], 5e-3)
    got, ok2 = o['output_1'].numpy(), True
  mon.check('exported model computes the network', ok, lambda: dict(which=run.which, got=got, want=want))
  mon.check('exported model can be used', bool(ok2))


KINDS = [
    Kind('examples', examples, 60, 1500), Kind('atom steps', atom_steps, 24, 300), Kind('image steps', image_steps, 24, 300),
    Kind('networks', networks, 8, 60), Kind('graph network', graph_network, 8, 100), Kind('graph steps', graph_steps, 8, 100),
    Kind('atom runs', lambda mon, rng: runs(mon, rng, 'atom'), 6, 60), Kind('image runs', lambda mon, rng: runs(mon, rng, 'image'), 6, 60),
    Kind('graph runs', lambda mon, rng: runs(mon, rng, 'graph'), 4, 40),
]
