"""C30: learned rate predictors: application, prediction, saving, learning."""
import os
import shutil
import tempfile

import jax
from jax import numpy as jnp
from ml_collections import config_dict
import numpy as np

from vlib import gen
from vlib.harness import Kind
from putting_dune import geometry
from putting_dune import graphene
from putting_dune import microscope_utils as mu
from putting_dune.rate_learning import data_utils
from putting_dune.rate_learning import learn_rates

PROPERTY = 'C30'
RULE = (
    'Predictors with random settings (1-3 models, layers, batch normalisation,'
    ' dropout, voltage and current inputs on or off), fresh, trained or'
    ' distilled, applied to random beams; predictions for silicon in graphene'
    ' in any place, orientation and neighbour order, as such and as the rates of'
    ' the simulator; predictors saved and loaded again, with and without fixed'
    ' context; predictors trained on synthetic data whose rates are known.'
    ' Non-trivial: predictors whose rates differ between the neighbours;'
    ' distinct by predicted rates.'
)
ASSUMPTIONS = ['Single precision: rates are compared to 1e-4 relative.']
REQUIRED = {
    'the ensemble predicts the mean of its models': 25, 'predicted rates are those of the network': 70,
    'prediction turns with the surroundings': 60, 'prediction follows the neighbour order': 60, 'rates are finite and not negative': 60,
    'loaded predictor predicts the same': 7, 'saved model computes the rates': 7, 'settings survive saving': 3,
    'learned rates point to the right neighbour': 2, 'simulator rates': 18,
}


def settings(rng, **kw):
  out = dict(
      batch_size=16, epochs=2, num_models=int(rng.choice([1, 2, 3])), bootstrap=True,
      hidden_dimensions=tuple(int(v) for v in rng.choice([4, 8, 16], size=int(rng.integers(1, 3)))),
      weight_decay=1e-3, learning_rate=1e-2, val_frac=0.0, use_voltage=bool(rng.random() < 0.6), use_current=bool(rng.random() < 0.6),
      dwell_time_in_context=False, class_loss_weight=1.0, rate_loss_weight=1.0, augment_data=True,
      batchnorm=bool(rng.random() < 0.6), dropout_rate=float(rng.choice([0.0, 0.3])))
  out.update(kw)
  return config_dict.FrozenConfigDict(out)


def training_data(rng, config, n=40):
  d = dict(
      next_state=rng.integers(0, 4, n), dt=rng.uniform(0.1, 3, n).astype(np.float32), rates=np.zeros((n, 3), np.float32),
      position=rng.normal(0, 1.5, (n, 2)).astype(np.float32))
  columns = [np.linspace(0.05, 0.4, n)] * config.use_current + [np.linspace(50, 110, n)] * config.use_voltage
  if columns:
    d['context'] = np.stack(columns, -1).astype(np.float32)
  return {k: jnp.asarray(v) for k, v in d.items()}


def predictor(rng, config=None, how=None):
  config = settings(rng) if config is None else config
  p = learn_rates.LearnedTransitionRatePredictor(init_key=jax.random.PRNGKey(int(rng.integers(0, 2**31))), config=config)
  how = str(rng.choice(['fresh', 'trained', 'distilled'])) if how is None else how
  if how == 'distilled' and not (config.use_current or config.use_voltage):
    how = 'trained'
  if how != 'fresh':
    data = training_data(rng, config)
    p.train(data, jax.random.PRNGKey(int(rng.integers(0, 2**31))))
    if how == 'distilled':
      p.distill(data, config_dict.FrozenConfigDict(dict(batch_size=16, epochs=2, batches_per_epoch=2)))
  return p, config, how


def context(config, current, voltage):
  return [current] * config.use_current + [voltage] * config.use_voltage


def near(a, b, tol=1e-4):
  a, b = np.asarray(a, float), np.asarray(b, float)
  return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1e-3 + np.abs(b).max())))


def apply(mon, rng):
  p, config, how = predictor(rng)
  n = int(rng.choice([1, 7]))
  x = np.concatenate([np.tile(context(config, rng.uniform(0.05, 0.4), rng.uniform(50, 110)), (n, 1)), rng.normal(0, 1.5, (n, 2))], 1).astype(np.float32)
  rates = np.asarray(p.apply_model(x))
  mon.check('rates are finite and not negative', rates.shape == (n, 3) and np.isfinite(rates).all() and (rates >= 0).all(), lambda: dict(rates=rates))
  m = 1 if how == 'distilled' else config.num_models
  singles = np.stack([np.asarray(p.apply_model(x, model_index=i)) for i in range(m)])
  mon.check('the ensemble predicts the mean of its models', near(rates, singles.mean(0)), lambda: dict(rates=rates, singles=singles, how=how))
  mon.check('application does not depend on the call', near(p.apply_model(x), rates, 1e-6) and near(p.apply_model(x, key=jax.random.PRNGKey(3)), rates, 1e-6), lambda: dict(how=how, config=config.to_dict()))
  one = np.concatenate([np.asarray(p.apply_model(x[i : i + 1])) for i in range(n)])
  mon.check('beams are treated independently', near(one, rates), lambda: dict(one=one, rates=rates))
  if m > 1 and how == 'fresh' and not config.batchnorm:
    mon.check('models differ', not near(singles[0], singles[1]), None)
  mon.state('rates', rates.tobytes())


def surroundings(rng):
  pos, _, si = gen.graphene_patch(rng, radius=6, jitter=0.05)
  d = np.hypot(*(pos - pos[si]).T)
  near3 = np.argsort(d)[1:4]
  near3 = near3[rng.permutation(3)]
  while True:
    beam = pos[si] + rng.normal(0, 1.5, 2)
    e = np.sort(np.hypot(*(pos[near3] - beam).T))
    if e[1] - e[0] > 1e-2:
      return pos, si, near3, beam


def expected(p, config, pos, si, near3, beam, current, voltage):
  """The network's rates, seen from the neighbour closest to the beam."""
  rel = pos[near3] - pos[si]
  c = int(np.hypot(*(pos[near3] - beam).T).argmin())
  t = np.arctan2(rel[c, 1], rel[c, 0])
  ang = (np.arctan2(rel[:, 1], rel[:, 0]) - t) % (2 * np.pi)
  ang[c] = 0
  canonical = gen.rotate(beam - pos[si], -t)
  rates = np.asarray(p.apply_model(np.array([context(config, current, voltage) + list(canonical)], np.float32)))[0]
  return rates[np.argsort(np.argsort(ang))]


def predict(mon, rng):
  p, config, how = predictor(rng)
  for _ in range(4):
    pos, si, near3, beam = surroundings(rng)
    grid = gen.doped(pos, si)
    point = geometry.Point(tuple(beam.tolist()))
    kw, current, voltage = {}, 0.1, 60.0
    if rng.random() < 0.6:
      current, voltage = float(rng.uniform(0.05, 0.4)), float(rng.uniform(50, 110))
      kw = dict(voltage_kv=voltage, current_na=current)
    place = pos[si] if rng.random() < 0.5 else pos[si][None]
    kept = (pos.copy(), near3.copy(), place.copy())
    rates = np.asarray(p.predict(grid, point, place, near3, **kw))
    mon.check('arguments left alone', np.array_equal(kept[0], grid.atom_positions) and np.array_equal(kept[1], near3) and np.array_equal(kept[2], place), None)
    mon.check('rates are finite and not negative', rates.shape == (3,) and np.isfinite(rates).all() and (rates >= 0).all(), lambda: dict(rates=rates))
    want = expected(p, config, pos, si, near3, beam, current, voltage)
    mon.check('predicted rates are those of the network', near(rates, want, 1e-3), lambda: dict(rates=rates, want=want, how=how, config=config.to_dict()))
    t, shift = rng.uniform(0, 2 * np.pi), rng.uniform(-20, 20, 2)
    pos2, beam2 = gen.rotate(pos, t) + shift, gen.rotate(beam, t) + shift
    turned = p.predict(gen.doped(pos2, si), geometry.Point(tuple(beam2.tolist())), pos2[si], near3, **kw)
    mon.check('prediction turns with the surroundings', near(turned, rates, 1e-3), lambda: dict(rates=rates, turned=turned))
    perm = rng.permutation(3)
    ordered = p.predict(grid, point, place, near3[perm], **kw)
    mon.check('prediction follows the neighbour order', near(ordered, rates[perm], 1e-3), lambda: dict(rates=rates, ordered=ordered, perm=perm))
    # As the rate function of a simulated material.
    fn = graphene.PristineSingleSiGrRatePredictor(p.predict)
    want = expected(p, config, pos, si, near3, beam, 0.1, 60.0)
    moves = fn(mu.AtomicGridMaterialFrame(grid), geometry.PointMaterialFrame(point)).successor_states
    got = {int(np.flatnonzero(s.grid.atomic_numbers == 14)[0]): float(s.rate) for s in moves}
    mon.check('simulator rates', set(got) == set(near3.tolist()) and near([got[i] for i in near3.tolist()], want, 1e-3), lambda: dict(got=got, want=dict(zip(near3.tolist(), want))))
    mon.state('rates', rates.tobytes())
  mon.sample(how=how, config=config.to_dict())


def saved(mon, rng):
  import tensorflow as tf  # pylint: disable=g-import-not-at-top
  p, config, how = predictor(rng)
  directory = tempfile.mkdtemp(prefix='c30', dir=os.environ.get('VERIF_SCRATCH'))
  try:
    fixed = None
    values = context(config, 0.2, 80.0)
    if values and rng.random() < 0.5:
      fixed = np.array(values, np.float32)
    step = int(rng.choice([0, 7]))
    where = os.path.join(directory, 'model')
    p.save(where, step=step, fixed_context=fixed)
    model = tf.saved_model.load(where)
    for _ in range(3):
      beam = rng.normal(0, 1.5, (1, 2)).astype(np.float32)
      x = np.concatenate([np.array([values], np.float32).reshape(1, -1), beam], 1)
      want = np.asarray(p.apply_model(x))
      got = np.asarray(model(beam if fixed is not None else x))
      mon.check('saved model computes the rates', near(got, want, 1e-3), lambda: dict(got=got, want=want, how=how, fixed=fixed))
    other = learn_rates.LearnedTransitionRatePredictor(init_key=jax.random.PRNGKey(int(rng.integers(0, 2**31))), config=config)
    other.load(where, step=step)
    want, got = np.asarray(p.apply_model(x)), np.asarray(other.apply_model(x))
    mon.check('loaded predictor predicts the same', near(got, want, 1e-3), lambda: dict(got=got, want=want, how=how, config=config.to_dict()))
    if fixed is None:
      pos, si, near3, beam = surroundings(rng)
      a, b = [np.asarray(q.predict(gen.doped(pos, si), geometry.Point(tuple(beam.tolist())), pos[si], near3)) for q in (p, other)]
      mon.check('loaded predictor predicts the same', near(a, b, 1e-3), lambda: dict(saved=a, loaded=b))
    else:
      # The packaged context replaces the one given.
      pos, si, near3, beam = surroundings(rng)
      want = expected(p, config, pos, si, near3, beam, 0.2, 80.0)
      for q in (p, other):
        got = np.asarray(q.predict(gen.doped(pos, si), geometry.Point(tuple(beam.tolist())), pos[si], near3))
        mon.check('prediction with a packaged context', near(got, want, 1e-3), lambda: dict(got=got, want=want))
    mon.check('settings survive saving', other.config.to_dict() == config.to_dict() or {k: tuple(v) if isinstance(v, list) else v for k, v in other.config.to_dict().items()} == config.to_dict(), lambda: dict(got=other.config.to_dict(), want=config.to_dict()))
    mon.state('saved', want.tobytes())
  finally:
    shutil.rmtree(directory)


def learning(mon, rng):
  """Rates learned from synthetic data show the rates behind the data."""
  config = settings(rng, use_voltage=False, use_current=True, num_models=2, hidden_dimensions=(32, 32), batch_size=128, epochs=60, batchnorm=False, dropout_rate=0.0)
  train, _ = data_utils.generate_synthetic_data(num_data=3000, data_seed=int(rng.integers(0, 2**31)), context_dim=1, actual_time_range=(0.0, 8.0), mode='prior')
  p = learn_rates.LearnedTransitionRatePredictor(init_key=jax.random.PRNGKey(int(rng.integers(0, 2**31))), config=config)
  metrics = p.train(train, jax.random.PRNGKey(int(rng.integers(0, 2**31))))
  loss = np.asarray(metrics['train_loss']).mean(0)
  mon.check('training lowers the loss', bool(loss[-1] < loss[0]), lambda: dict(loss=loss))
  for k in range(3):
    beam = gen.rotate(np.array([0.85, 0.0]), 2 * np.pi * k / 3)
    r = np.asarray(p.apply_model(np.array([[0.0, *beam]], np.float32)))[0]
    want = np.log(2) / 3
    mon.check('learned rates point to the right neighbour', int(r.argmax()) == k and r[k] > 3 * np.delete(r, k).max() and 0.5 < r[k] / want < 2, lambda: dict(neighbor=k, rates=r, true=want))
  mon.state('learned', loss.tobytes())


KINDS = [Kind('apply', apply, 48, 500), Kind('predict', predict, 32, 400), Kind('saved', saved, 16, 150), Kind('learning', learning, 1, 12)]
