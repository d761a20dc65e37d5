"""C34: from recorded trajectories to a saved rate model, for every learner."""
import contextlib
import datetime as dt
import io as stdio
import os
import shutil
import tempfile

os.environ.setdefault('MPLBACKEND', 'Agg')

import jax
import numpy as np

from vlib import boot
from vlib import gen
from vlib.harness import Kind
from putting_dune import geometry
from putting_dune import io as pdio
from putting_dune import microscope_utils as mu
from putting_dune.rate_learning import learn_rates

boot.stub_optional_modules()
from putting_dune.pipeline import train_rate_learner as trl  # pylint: disable=g-import-not-at-top,wrong-import-position

PROPERTY = 'C34'
RULE = (
    'The training script run as a whole, on files of trajectories in which a'
    ' silicon hops to one certain neighbour of the beam (not the closest one),'
    ' for every type of learner, with and without voltage and current, one file'
    ' or several, both labelling conventions, plots on or off; the written'
    ' models are loaded and asked for rates around real lattices. Contour plots'
    ' of known rate functions at random resolutions. Non-trivial: every run.'
)
ASSUMPTIONS = [
    'Small data sets (some 60 transitions) and models; distillation runs with fewer steps than configured.',
]
REQUIRED = {
    'models are written': 4, 'the ensemble averages its models': 2, 'the saved model is the trained one': 2,
    'learned outcome is the recorded one': 7, 'rates are evaluated on the whole grid': 18, 'largest rates are reported': 18,
    'accuracies are those of the model on each part': 12, 'plots of transitions show them': 8, 'plots of the data show every point under its outcome': 8,
}


def hop_scene(rng, hop):
  """A silicon hops to the neighbour counter-clockwise of the one closest to the
  beam when the beam is off in that direction, and mirrored."""
  pos, _, si = gen.graphene_patch(rng, radius=7, jitter=0.02, bond=1.42)
  d = np.hypot(*(pos - pos[si]).T)
  near = np.argsort(d)[1:4]
  first = int(rng.choice(near))
  side = rng.choice([-1, 1])
  v = gen.rotate(pos[first] - pos[si], side * np.deg2rad(rng.uniform(20, 45)))
  beam = pos[si] + v * rng.uniform(0.8, 1.2)
  numbers = np.full(len(pos), 6)
  numbers[si] = 14
  after = numbers.copy()
  if hop:
    want = pos[si] + gen.rotate(pos[first] - pos[si], side * 2 * np.pi / 3)
    target = int(np.hypot(*(pos - want).T).argmin())
    after[si], after[target] = 6, 14
  low = pos[si] - rng.uniform(8, 12, 2)
  box = np.array([low, low + rng.uniform(18, 26, 2)])
  f = mu.MicroscopeFieldOfView(geometry.Point(tuple(box[0])), geometry.Point(tuple(box[1])))
  control = mu.BeamControl(geometry.Point(tuple(gen.to_microscope(box, beam).tolist())), dt.timedelta(seconds=float(rng.uniform(1, 4))), float(rng.uniform(50, 110)), float(rng.uniform(0.05, 0.4)))
  xy = gen.to_microscope(box, pos)
  return mu.AtomicGrid(xy, numbers), mu.AtomicGrid(xy, after), f, control


def write(rng, directory, previous, n=60):
  from etils import epath  # pylint: disable=g-import-not-at-top
  groups, controls = [[] for _ in range(int(rng.integers(1, 3)))], []
  for i in range(n):
    before, after, f, control = hop_scene(rng, rng.random() < 0.7)
    controls.append(control)
    acts = ((), (control,)) if previous else ((control,), ())
    t = mu.Trajectory((mu.MicroscopeObservation(before, f, acts[0], dt.timedelta(0)), mu.MicroscopeObservation(after, f, acts[1], control.dwell_time)))
    groups[i % len(groups)].append(t)
  source = epath.Path(directory) / 'source'
  source.mkdir()
  for i, g in enumerate(groups):
    pdio.write_records(source / f'part{i}.tfrecords', g)
  return (source if len(groups) > 1 else source / 'part0.tfrecords'), controls


LEARNERS = ['rate_network', 'classification_network', 'random_forest', 'svm', 'knn', 'gp', 'sklearn_mlp']


def pipeline(mon, rng, learner=None):
  from etils import epath  # pylint: disable=g-import-not-at-top
  import joblib  # pylint: disable=g-import-not-at-top
  import matplotlib.pyplot as plt  # pylint: disable=g-import-not-at-top
  import tensorflow as tf  # pylint: disable=g-import-not-at-top
  directory = tempfile.mkdtemp(prefix='c34', dir=os.environ.get('VERIF_SCRATCH'))
  network = learner.endswith('network')
  use_voltage, use_current = [(True, True), (True, False), (False, True), (False, False)][int(rng.integers(0, 4))]
  previous = bool(rng.random() < 0.5)
  distill = network and bool(rng.random() < 0.5)
  epochs = 60 if network else 300
  undo = learn_rates.LearnedTransitionRatePredictor.distill
  try:
    source, controls = write(rng, directory, previous)
    work = epath.Path(directory) / 'work'
    args = trl.Args(
        source_path=source, workdir=work, batch_size=32, epochs=epochs, num_models=2, hidden_dimensions=(32, 32), weight_decay=1e-4,
        learning_rate=1e-2, bootstrap=True, distill=distill, learner_type=learner, use_voltage=use_voltage, use_current=use_current, class_loss_weight=1.0,
        batchnorm=True, previous_controls_at_current_timestep=previous, seed=int(rng.integers(0, 1000)),
        plot_transitions=bool(rng.random() < 0.15), visualize_rates=bool(rng.random() < 0.4), plot_metrics=bool(rng.random() < 0.4))
    from ml_collections import config_dict  # pylint: disable=g-import-not-at-top
    fast = config_dict.FrozenConfigDict(dict(batch_size=256, epochs=60, batches_per_epoch=10))
    learn_rates.LearnedTransitionRatePredictor.distill = lambda self, data, config=None: undo(self, data, config=fast)
    with contextlib.redirect_stdout(stdio.StringIO()):
      trl.main(args)
    files = set(os.listdir(work))
    want = {'metrics.npz', 'raw_data.png', 'augmented_data.png'}
    want |= {'0.ckpt', 'config.json', 'saved_model.pb'} if network else {f'{learner}_{i}.joblib' for i in ('0', '1', 'ensemble')}
    if args.visualize_rates:
      want |= {f'{k}_context_rates.png' for k in ('min', 'avg', 'max')}
    mon.check('models are written', want <= files, lambda: dict(missing=want - files))
    columns = ([[c.current_na for c in controls]] if use_current else []) + ([[c.voltage_kv for c in controls]] if use_voltage else [])
    if learner != 'rate_network':
      columns.append([c.dwell_time.total_seconds() for c in controls])
    middle = np.median(np.array(columns).reshape(len(columns), -1), axis=1) if columns else np.zeros(0)
    # Beams off the axis of each neighbour, in the canonical frame and others.
    asks = []
    for k in range(3):
      for side in (-1, 1):
        asks.append((gen.rotate(np.array([1.42, 0.0]), 2 * np.pi * k / 3 + side * np.deg2rad(32)), (k + side) % 3))
    if network:
      model = tf.saved_model.load(str(work))
      config = config_dict.FrozenConfigDict({**{k: getattr(args, k) for k in ('num_models', 'hidden_dimensions', 'batchnorm', 'dropout_rate', 'use_voltage', 'use_current', 'learning_rate', 'weight_decay')}, 'dwell_time_in_context': learner != 'rate_network'})
      p = learn_rates.LearnedTransitionRatePredictor(init_key=jax.random.PRNGKey(5), config=config)
      p.load(str(work))
      ok, detail = True, None
      for beam, outcome in asks:
        got = np.asarray(model(beam[None].astype(np.float32)))[0]
        x = np.concatenate([middle, beam])[None].astype(np.float32)
        other = np.asarray(p.apply_model(x))[0]
        ok &= got.shape == (3,) and np.allclose(got, other, rtol=2e-3, atol=1e-4)
        detail = (got, other)
        mon.check('learned outcome is the recorded one', int(got.argmax()) == outcome, lambda: dict(learner=learner, beam=beam, rates=got, want=outcome, args=str(args)))
      mon.check('the saved model is the trained one', bool(ok), lambda: dict(detail=detail, learner=learner))
      for _ in range(4):
        before, after, f, control = hop_scene(rng, True)
        grid = f.microscope_frame_to_material_frame(before)
        si = int(np.flatnonzero(np.asarray(before.atomic_numbers) == 14)[0])
        pos = np.asarray(grid.atom_positions)
        near = np.argsort(np.hypot(*(pos - pos[si]).T))[1:4]
        near = near[rng.permutation(3)]
        beam = f.microscope_frame_to_material_frame(control.position)
        rates = np.asarray(p.predict(grid, beam, pos[si], near))
        target = int(np.flatnonzero(np.asarray(after.atomic_numbers) == 14)[0])
        mon.check('learned outcome is the recorded one', near[rates.argmax()] == target, lambda: dict(learner=learner, rates=rates, neighbors=near, want=target))
      metrics = np.load(work / 'metrics.npz')
      mon.check('metrics of every model and epoch', set(metrics.files) >= {'train_loss', 'test_loss'} and metrics['train_loss'].shape == (2, epochs), lambda: {k: metrics[k].shape for k in metrics.files})
    else:
      models = [joblib.load(work / f'{learner}_{i}.joblib') for i in range(2)]
      ensemble = joblib.load(work / f'{learner}_ensemble.joblib')
      x = np.stack([np.concatenate([middle, b]) for b, _ in asks])
      probs = ensemble.predict_proba(x)
      mon.check('the ensemble averages its models', probs.shape == (6, 4) and np.allclose(probs, np.mean([m.predict_proba(x) for m in models], 0), atol=1e-6) and np.allclose(probs.sum(1), 1), lambda: dict(probs=probs))
      right = [int(row[1:].argmax()) == want for row, (_, want) in zip(probs, asks)]
      for ok in right:
        mon.check('learned outcome is the recorded one', ok or sum(right) >= 5, lambda: dict(learner=learner, probs=probs, want=[w for _, w in asks]))
      metrics = np.load(work / 'metrics.npz')
      mon.check('metrics of every model and epoch', all(metrics[k].size == 2 and (metrics[k] >= 0).all() and (metrics[k] <= 1).all() for k in ('train_accuracy', 'test_accuracy')), lambda: {k: metrics[k] for k in metrics.files})
    mon.count(f'learner {learner}')
    mon.state('run', (learner, use_voltage, use_current, previous, distill, args.seed))
    mon.sample(args=str(args))
  finally:
    learn_rates.LearnedTransitionRatePredictor.distill = undo
    plt.close('all')
    shutil.rmtree(directory)


def runs(mon, rng):
  pipeline(mon, rng, LEARNERS[int(rng.integers(0, 7))])


def contours(mon, rng):
  import matplotlib.pyplot as plt  # pylint: disable=g-import-not-at-top
  points = int(rng.choice([100, 110, 400, 777, 900]))
  reach = float(rng.uniform(0.5, 10))
  fixed = rng.normal(size=int(rng.integers(1, 4))) if rng.random() < 0.6 else None
  centers = rng.uniform(-reach, reach, (3, 2))
  tops = rng.uniform(0.1, 3, 3)
  calls = []

  def rate_function(x):
    calls.append(np.array(x))
    p = x[:, -2:]
    return np.stack([t * np.exp(-((p - c) ** 2).sum(1) / reach**2) for c, t in zip(centers, tops)], -1)

  directory = tempfile.mkdtemp(prefix='c34', dir=os.environ.get('VERIF_SCRATCH'))
  try:
    path = os.path.join(directory, 'rates.png')
    with contextlib.redirect_stdout(stdio.StringIO()):
      fig, largest = learn_rates.visualize_rates(path if rng.random() < 0.7 else None, rate_function, grid_range=reach, num_points=points, fixed_context=fixed)
    x = np.concatenate(calls)
    side = int(np.sqrt(points))
    line = np.linspace(-reach, reach, side)
    want = np.stack(np.meshgrid(line, line), -1).reshape(-1, 2)
    order = lambda a: a[np.lexsort(np.round(a, 9).T)]
    ok = x.shape == (side * side, 2 + (0 if fixed is None else len(fixed))) and np.allclose(order(x[:, -2:]), order(want)) and (fixed is None or np.allclose(x[:, :-2], fixed))
    mon.check('rates are evaluated on the whole grid', bool(ok), lambda: dict(shape=x.shape, want=want.shape, fixed=fixed))
    mon.check('largest rates are reported', np.allclose(largest, rate_function(want).max(0)), lambda: dict(got=largest))
    mon.state('contour', centers.tobytes())
    plt.close(fig)
  finally:
    plt.close('all')
    shutil.rmtree(directory)


def classifiers(mon, rng):
  """One member of the ensemble, on data whose test part obeys another rule."""
  from ml_collections import config_dict  # pylint: disable=g-import-not-at-top
  kind = str(rng.choice(LEARNERS[2:]))
  n, m, width = int(rng.integers(150, 250)), int(rng.integers(5, 40)), int(rng.integers(2, 5))
  rule = lambda x: (np.arctan2(x[:, -1], x[:, -2]) // (2 * np.pi / 3)).astype(int) + 2
  flip = rng.random()

  def data(k, wrong):
    x = rng.normal(size=(k, width)).astype(np.float32)
    y = rule(x)
    y = np.where(rng.random(k) < wrong, rng.integers(0, 4, k), y)
    return dict(context=x, next_state=y)

  train, test = data(n, 0.05), data(m, flip)
  train['next_state'][:4] = [0, 1, 2, 3]
  config = config_dict.FrozenConfigDict(dict(weight_decay=1e-4, epochs=200, learning_rate=1e-2, hidden_dimensions=(16,)))
  if rng.random() < 0.1:
    try:
      trl.get_sklearn_classifier('no such learner', config)
      mon.violate('an unknown learner is refused', {})
    except ValueError:
      mon.check('an unknown learner is refused', True)
  model = trl.get_sklearn_classifier(kind, config)
  copies = [{k: v.copy() for k, v in d.items()} for d in (train, test)]
  fitted, train_accuracy, test_accuracy = trl.train_sklearn_classifier(model, train, test)
  got = [float(train_accuracy), float(test_accuracy)]
  want = [float((fitted.predict(d['context']) == d['next_state']).mean()) for d in (train, test)]
  mon.check('accuracies are those of the model on each part', np.allclose(got, want, atol=1e-6), lambda: dict(learner=kind, got=got, want=want))
  mon.check('the model has learned the training part', want[0] > 0.55, lambda: dict(learner=kind, accuracy=want))
  mon.check('training leaves the data alone', all(np.array_equal(a[k], b[k]) for a, b in zip(copies, (train, test)) for k in a))
  mon.state('classifier', kind, n, m, width)


def drawn(axes):
  """Scatter plots of an axes by label."""
  return {c.get_label(): np.asarray(c.get_offsets(), float) for c in axes.collections if hasattr(c, 'get_offsets') and not c.get_label().startswith('_')}


def plots(mon, rng):
  """What the plots of the training data show."""
  from matplotlib import figure  # pylint: disable=g-import-not-at-top
  import matplotlib.pyplot as plt  # pylint: disable=g-import-not-at-top
  directory = tempfile.mkdtemp(prefix='c34', dir=os.environ.get('VERIF_SCRATCH'))
  shown, saved = [], []
  old = figure.Figure.savefig, plt.show
  looks = lambda: [drawn(a) for a in plt.gcf().axes]
  figure.Figure.savefig = lambda self, *a, **k: (saved.append([drawn(x) for x in self.axes]), old[0](self, *a, **k))[1]
  plt.show = lambda *a, **k: shown.append(looks())
  try:
    transitions, facts = [], []
    for _ in range(int(rng.integers(1, 4))):
      before, after, f, control = hop_scene(rng, rng.random() < 0.7)
      image = rng.integers(0, 256, (64, 64, 1)).astype(np.uint8) if rng.random() < 0.6 else None
      label = rng.integers(0, 256, (32, 32)).astype(np.uint8) if rng.random() < 0.4 else None
      transitions.append(mu.Transition(before, after, f, f, (control,), image, image, label, label))
      facts.append((before, after, control, 512 if image is None else 64, label is not None))
    args = trl.Args(source_path='x', workdir='y')
    path = os.path.join(directory, 'plots') if rng.random() < 0.7 else None
    show = bool(rng.random() < 0.5)
    with contextlib.redirect_stdout(stdio.StringIO()):
      data = trl.transitions_to_datapoints(transitions, args, True, save_path=path, show_plots=show)
    if not mon.check('every usable transition is kept', len(data) == len(facts), lambda: dict(got=len(data), want=len(facts))):
      return
    count = sum(2 if x[-1] else 1 for x in facts)
    files = sorted(os.path.join(r, x) for r, _, names in os.walk(directory) for x in names)
    mon.check('plots are saved and shown when asked', len(files) == len(saved) == (count if path else 0) and len(shown) == (count if show else 0) and all(os.path.getsize(x) for x in files),
              lambda: dict(files=files, saved=len(saved), shown=len(shown), count=count, path=path, show=show))
    for pictures in (saved, shown):
      i = 0
      for (before, after, control, size, label), d in zip(facts, data):
        if i >= len(pictures):
          break
        look = pictures[i][0] if pictures[i] else {}
        i += 2 if label else 1
        at = lambda xy: np.stack([np.reshape(xy, (-1, 2))[:, 0] * size, size - np.reshape(xy, (-1, 2))[:, 1] * size], -1)
        near = lambda a, b: a is not None and a.shape == b.shape and np.allclose(a, b, atol=0.05 * size / 64)
        before_xy, after_xy = np.asarray(before.atom_positions), np.asarray(after.atom_positions)
        si, si_after = [int(np.flatnonzero(np.asarray(g.atomic_numbers) == 14)[0]) for g in (before, after)]
        three = np.argsort(np.hypot(*(before_xy - before_xy[si]).T))[1:4]
        want = {'Atoms before transition': at(before_xy), 'Atoms after transition': at(after_xy), 'Beam position': at((control.position.x, control.position.y)),
                'Si position (before)': at(before_xy[si]), 'Si position (after)': at(after_xy[si_after])}
        ok = all(near(look.get(k), v) for k, v in want.items())
        hoods = [look.get(f'Neighbor {k}') for k in (1, 2, 3)]
        ok &= all(x is not None and x.shape == (1, 2) for x in hoods)
        if ok:
          each = [int(np.hypot(*(at(before_xy[three]) - x).T).argmin()) for x in hoods]
          ok &= len(set(each)) == 3
          if d['next_state']:
            ok &= three[each[d['next_state'] - 1]] == si_after
        mon.check('plots of transitions show them', bool(ok), lambda: dict(look=look, want=want, next_state=d['next_state']))
    saved.clear()
    states = rng.integers(0, 4, int(rng.integers(1, 40)))
    positions = rng.uniform(-4, 4, (len(states), 2))
    dwell = rng.uniform(0.1, 3, len(states))
    where = os.path.join(directory, 'data.png') if rng.random() < 0.8 else None
    trl.visualize_data(states, positions, dwell, 3, where)
    look = drawn(plt.gcf().axes[0])
    alphas = {c.get_label(): np.ravel(c.get_alpha()) for c in plt.gcf().axes[0].collections if c.get_alpha() is not None}
    names = ['No movement', 'Moved right', 'Moved up-left', 'Moved down-left']
    ok = all(np.allclose(look[n], positions[states == k]) and np.allclose(alphas[n], dwell[states == k] / dwell.max()) if (states == k).any() else n not in look for k, n in enumerate(names))
    mon.check('plots of the data show every point under its outcome', bool(ok) and bool(where) == (len(saved) == 1 and os.path.exists(str(where))), lambda: dict(look=look, states=states, positions=positions, alphas=alphas))
    mon.state('plots', positions.tobytes())
  finally:
    figure.Figure.savefig, plt.show = old
    plt.close('all')
    shutil.rmtree(directory)


KINDS = [Kind(l, (lambda mon, rng, l=l: pipeline(mon, rng, l)), 1, 2) for l in LEARNERS] + [Kind('runs', runs, 1, 24), Kind('contours', contours, 32, 300), Kind('classifiers', classifiers, 24, 400), Kind('plots', plots, 16, 300)]
