"""C29: losses of rate learning, and what a training run does with the data."""
import functools

import jax
from jax import numpy as jnp
from ml_collections import config_dict
import numpy as np
import optax

from vlib import gen
from vlib.harness import Kind
from putting_dune.rate_learning import learn_rates

PROPERTY = 'C29'
RULE = (
    'Random minibatches (1-40 samples, 3-5 states, states and times of shape'
    ' (n,) and (n, 1), idle and moving samples, any weights) whose loss is'
    ' compared with an independent likelihood; epochs and whole training runs'
    ' of a model with one set of outputs per sample, whose recorded state'
    ' counts the visits of each sample; distillation of ensembles of constant'
    ' and of identical models; ensembles one data set of which is changed.'
    ' Non-trivial: a batch or data set with idle and moving samples.'
)
ASSUMPTIONS = ['Single precision; at least one full batch of data.']
REQUIRED = {
    'loss is the negative log likelihood': 240, 'reported parts of the loss': 240, 'reported rates': 240,
    'each sample at most once per epoch': 18, 'samples learn from their own outcome': 12, 'equal keys, equal training': 6,
    'models do not share data': 4, 'each epoch has its own order': 6, 'distillation compares mean rates': 18, 'a perfect student has no loss': 12,
}


def softmax(x):
  e = np.exp(x - x.max(-1, keepdims=True))
  return e / e.sum(-1, keepdims=True)


def reference(outputs, s, t):
  """Negative log likelihood of the outcome, in the two documented parts."""
  total = outputs[:, -1]
  p_stay = np.minimum(np.exp(-total * t), 1 - 1e-6)
  rate = np.where(s > 0, -np.log(1 - p_stay), total * t)
  logp = np.log(softmax(outputs[:, :-1]))
  pick = np.where(s > 0, -logp[np.arange(len(s)), np.maximum(s, 1) - 1], 0.0)
  return rate, pick


def losses(mon, rng):
  for _ in range(4):
    n, k = int(rng.choice([1, 2, 5, 40])), int(rng.choice([3, 3, 4, 5]))
    outputs = np.log1p(np.exp(rng.normal(0, 2, (n, k + 1)))).astype(np.float32)
    s = rng.integers(0, k + 1, n)
    t = np.array([gen.log_uniform(rng, 1e-2, 10) for _ in range(n)], np.float32)
    column = rng.random() < 0.5
    shaped = (lambda a: a[:, None]) if column else (lambda a: a)
    wc, wr = float(rng.choice([1, 0.1, 0, 3])), float(rng.choice([1, 0.5, 0, 2]))
    seen = {}

    def apply_fn(params, state, key, context, is_training):
      seen.update(training=is_training, context=np.asarray(context).copy())
      return jnp.asarray(outputs) * params, {'n': state['n'] + 1}

    context = rng.normal(size=(n, 2)).astype(np.float32)
    training = bool(rng.random() < 0.5)
    loss, (state, rates, rate_loss, class_loss) = learn_rates.batched_loss_fn(
        jnp.ones(()), {'n': jnp.zeros(())}, apply_fn, jnp.asarray(shaped(s)), jnp.asarray(shaped(t)), jnp.asarray(shaped(s) != 0),
        jnp.asarray(context), jax.random.PRNGKey(0), training, wc, wr)
    a, b = reference(outputs.astype(float), s, t.astype(float))
    want = (wr * a + wc * b).mean()
    mon.check('loss is the negative log likelihood', np.shape(loss) == () and abs(float(loss) - want) <= 1e-3 * (1 + abs(want)), lambda: dict(got=loss, want=want, n=n, column=column, states=s, times=t))
    flat = lambda v: np.asarray(v, float).reshape(-1)
    mon.check('reported parts of the loss', flat(rate_loss).shape == (n,) and flat(class_loss).shape == (n,) and np.allclose(flat(rate_loss), a, rtol=2e-3, atol=2e-3) and np.allclose(flat(class_loss), b, rtol=1e-3, atol=1e-3), lambda: dict(column=column, got=(rate_loss, class_loss), want=(a, b)))
    want = softmax(outputs[:, :-1].astype(float)) * outputs[:, -1:]
    mon.check('reported rates', np.shape(rates) == want.shape and np.allclose(rates, want, rtol=1e-3, atol=1e-4), lambda: dict(got=rates, want=want))
    mon.check('network is given the batch once', float(state['n']) == 1 and np.array_equal(seen['context'], context) and seen['training'] == training, seen)
    if 0 < (s > 0).sum() < n:
      mon.state('batch', outputs.tobytes())


# A model with its own outputs for every sample; its state counts the visits,
# which show in the outputs of evaluations.
DRIFT = 0.1


def table_apply(params, state, key, context, is_training):
  i = context[:, 0].astype(jnp.int32)
  visits = state['visits'].at[i].add(1 if is_training else 1000)
  order = state['order'] * 1.0000001 + (context[:, 0] * (1 + jnp.arange(context.shape[0]))).sum()
  shown = jnp.where(is_training, 0.0, DRIFT * state['visits'][i])
  return jax.nn.softplus(params[i] + shown[:, None]), {'visits': visits, 'order': order}


def table(rng, n, k=3, column=None):
  column = rng.random() < 0.5 if column is None else column
  s = rng.integers(0, k + 1, n)
  t = rng.uniform(0.1, 4, n).astype(np.float32)
  shaped = (lambda a: a[:, None]) if column else (lambda a: a)
  data = dict(next_state=shaped(s), dt=shaped(t), rates=np.zeros((n, k), np.float32), context=np.arange(n, dtype=np.float32)[:, None])
  params = rng.normal(0, 1, (n, k + 1)).astype(np.float32)
  state = {'visits': jnp.zeros(n, jnp.int32), 'order': jnp.zeros(())}
  return {a: jnp.asarray(b) for a, b in data.items()}, jnp.asarray(params), state, s, t


@functools.lru_cache(None)
def sgd(rate):
  return optax.sgd(rate)


def softplus(x):
  return np.log1p(np.exp(-np.abs(x))) + np.maximum(x, 0)


def gradient(p, s, t, wc, wr):
  """Numerical gradient of the loss of single samples."""
  g = np.zeros_like(p)
  h = 1e-5
  for j in range(p.shape[1]):
    e = np.zeros(p.shape[1])
    e[j] = h
    f = []
    for q in (p + e, p - e):
      a, b = reference(softplus(q), s, t)
      f.append(wr * a + wc * b)
    g[:, j] = (f[0] - f[1]) / (2 * h)
  return g


def epochs(mon, rng):
  n = int(rng.choice([8, 13, 24]))
  batch = int(rng.choice([4, 8]))
  data, params, state, s, t = table(rng, n)
  wc, wr = float(rng.choice([1.0, 0.3])), float(rng.choice([1.0, 0.5]))
  config = config_dict.FrozenConfigDict(dict(batch_size=batch, epochs=1, class_loss_weight=wc, rate_loss_weight=wr))
  rate = 0.5
  run = lambda key: learn_rates.train_epoch(params, state, sgd(rate).init(params), sgd(rate), table_apply, batch, key, data, config)
  key = jax.random.PRNGKey(int(rng.integers(0, 2**31)))
  new, after, _, new_key = run(key)
  visits = np.asarray(after['visits'])
  mon.check('each sample at most once per epoch', visits.max() == 1 and visits.sum() == n // batch * batch, lambda: dict(visits=visits, batch=batch))
  p = np.asarray(params, float)
  want = p - visits[:, None] * rate / batch * gradient(p, s, t.astype(float), wc, wr)
  mon.check('samples learn from their own outcome', np.allclose(new, want, rtol=1e-3, atol=1e-3), lambda: dict(worst=np.abs(np.asarray(new) - want).max(), states=s, shape=data['next_state'].shape))
  mon.check('the key moves on', not np.array_equal(key, new_key), None)
  again = run(key)
  mon.check('equal keys, equal training', np.array_equal(again[0], new) and float(again[1]['order']) == float(after['order']), None)
  # Two keys may happen to order a few samples alike, eight keys hardly.
  orders, k = {float(after['order'])}, new_key
  for _ in range(7):
    if len(orders) == 1:
      orders.add(float(run(k)[1]['order']))
      k = jax.random.fold_in(k, 1)
  mon.check('another key, another order', len(orders) > 1, lambda: dict(orders=orders))
  if s.any() and not s.all():
    mon.state('data', s.tobytes() + t.tobytes())
  mon.sample(n=n, batch=batch)


def runs(mon, rng):
  """A whole training run: every epoch, with evaluation on the side."""
  n = int(rng.choice([8, 16]))
  batch, count = 4, int(rng.choice([3, 5]))
  data, params, state, s, t = table(rng, n)
  test = {k: v[: n // 2] for k, v in data.items()}
  config = config_dict.FrozenConfigDict(dict(batch_size=batch, epochs=count, class_loss_weight=1.0, rate_loss_weight=1.0))
  key = jax.random.PRNGKey(int(rng.integers(0, 2**31)))
  run = lambda k: learn_rates.train_model(data, test, k, params, state, sgd(0.2).init(params), table_apply, sgd(0.2), config)
  new, after, _, metrics = run(key)
  visits = np.asarray(after['visits'])
  mon.check('each sample at most once per epoch', np.array_equal(visits, np.full(n, count)), lambda: dict(visits=visits, epochs=count))
  final = lambda d, p=np.asarray(new, float) + DRIFT * count: [v.mean() for v in reference(softplus(p[np.asarray(d['context'])[:, 0].astype(int)]), np.asarray(d['next_state']).reshape(-1), np.asarray(d['dt'], float).reshape(-1))]
  ok = all(np.shape(v) == (count,) for v in metrics.values())
  want = {}
  for name, d in (('train', data), ('test', test)):
    a, b = final(d)
    want.update({f'{name}_loss': a + b, f'{name}_rate_loss': a, f'{name}_class_loss': b})
  ok &= set(want) == set(metrics) and all(np.isclose(metrics[k][-1], v, rtol=2e-3, atol=2e-3) for k, v in want.items())
  mon.check('metrics describe the trained model', bool(ok), lambda: dict(got={k: np.asarray(v)[-1] for k, v in metrics.items()}, want=want))
  mon.check('training lowers the loss', sum(final(data, np.asarray(new, float))) <= sum(final(data, np.asarray(params, float))) + 1e-6, lambda: metrics)
  again = run(key)
  mon.check('equal keys, equal training', np.array_equal(again[0], new), None)
  mon.state('run', s.tobytes() + t.tobytes())


def remainders(mon, rng):
  """The samples that do not fill a batch are others in every epoch."""
  n, batch, count = int(rng.choice([6, 9, 10])), 4, 12
  data, params, state, s, t = table(rng, n)
  config = config_dict.FrozenConfigDict(dict(batch_size=batch, epochs=count, class_loss_weight=1.0, rate_loss_weight=1.0))
  key = jax.random.PRNGKey(int(rng.integers(0, 2**31)))
  _, after, _, _ = learn_rates.train_model(data, data, key, params, state, sgd(0.2).init(params), table_apply, sgd(0.2), config)
  visits = np.asarray(after['visits'])
  mon.check('each sample at most once per epoch', visits.max() <= count and visits.sum() == count * (n // batch) * batch, lambda: dict(visits=visits, epochs=count))
  # By chance the same ones remain in all epochs less than once in 1e10 runs.
  mon.check('each epoch has its own order', not set(visits.tolist()) <= {0, count}, lambda: dict(visits=visits, epochs=count))
  mon.state('remainder', visits.tobytes())


def ensembles(mon, rng):
  m, n, batch = int(rng.choice([2, 3])), 8, 4
  data, *_ = table(rng, n)
  config = config_dict.FrozenConfigDict(dict(batch_size=batch, epochs=2, class_loss_weight=1.0, rate_loss_weight=1.0))

  def init_fn(key, context):
    return jax.random.normal(key, (n, 4)), {'visits': jnp.zeros(n, jnp.int32), 'order': jnp.zeros(())}

  def stacked(change=None):
    out = {k: jnp.stack([v] * m) for k, v in data.items()}
    if change is not None:
      out['next_state'] = out['next_state'].at[change].set((out['next_state'][change] + 1) % 4)
    return out

  key = jax.random.PRNGKey(int(rng.integers(0, 2**31)))
  run = lambda d: learn_rates.train_multiple_models(d, stacked(), key, m, sgd(0.2), table_apply, init_fn, config)
  params, state, _, metrics = run(stacked())
  mon.check('one set of results per model', np.shape(params) == (m, n, 4) and all(np.shape(v) == (m, 2) for v in metrics.values()) and np.array_equal(state['visits'], np.full((m, n), 2)), lambda: dict(params=np.shape(params), visits=state['visits']))
  mon.check('models start differently', len({np.asarray(p).tobytes() for p in params}) == m, None)
  i = int(rng.integers(0, m))
  other = run(stacked(i))[0]
  same = [bool(np.allclose(params[j], other[j], atol=1e-6)) for j in range(m)]
  mon.check('models do not share data', same == [j != i for j in range(m)], lambda: dict(changed=i, same=same))
  mon.state('ensemble', np.asarray(params).tobytes())


def affine_apply(params, state, key, x, is_training):
  return jax.nn.softplus(x @ params['w'] + params['b']), {'seen': state['seen'] + is_training}


def distillation(mon, rng):
  d, k, m, b = int(rng.integers(2, 5)), 3, int(rng.integers(1, 5)), int(rng.choice([16, 64]))
  mean, scale = rng.normal(size=d).astype(np.float32), rng.uniform(0.1, 2, d).astype(np.float32)
  key = jax.random.PRNGKey(int(rng.integers(0, 2**31)))
  state = {'seen': jnp.zeros(())}
  states = {'seen': jnp.zeros(m)}
  # Constant models: the loss is known whatever data is drawn.
  bias = rng.normal(0, 2, (m, k + 1)).astype(np.float32)
  own = rng.normal(0, 2, k + 1).astype(np.float32)
  teachers = {'w': jnp.zeros((m, d, k + 1)), 'b': jnp.asarray(bias)}
  student = {'w': jnp.zeros((d, k + 1)), 'b': jnp.asarray(own)}
  loss, new_state = learn_rates.distill_loss(student, state, teachers, states, key, b, affine_apply, mean, scale)
  rates = lambda v: softmax(softplus(v.astype(float))[..., :-1]) * softplus(v.astype(float))[..., -1:]
  want = ((rates(own) - rates(bias).mean(0)) ** 2).sum()
  mon.check('distillation compares mean rates', np.isclose(loss, want, rtol=1e-3, atol=1e-5), lambda: dict(got=loss, want=want))
  mon.check('the student alone is trained', float(new_state['seen']) == 1, new_state)
  # A student equal to all its teachers.
  w = rng.normal(size=(d, k + 1)).astype(np.float32)
  student = {'w': jnp.asarray(w), 'b': jnp.asarray(own)}
  teachers = {'w': jnp.stack([student['w']] * m), 'b': jnp.stack([student['b']] * m)}
  loss, _ = learn_rates.distill_loss(student, state, teachers, states, key, b, affine_apply, mean, scale)
  mon.check('a perfect student has no loss', abs(float(loss)) < 1e-8, lambda: dict(loss=loss))
  # A linear difference in the first input shows where the data is drawn.
  far = {'w': jnp.asarray(w) * 0 + jnp.eye(d, k + 1) * 0, 'b': jnp.asarray(own) * 0}

  def probe(params, state, key, x, is_training):
    total = jnp.where(params['b'][0] > 0, 0.0, (x - mean) / scale)  # zero for the teachers
    out = jnp.concatenate([jnp.zeros((x.shape[0], 3)), total[:, :1] * params['b'][1]], -1)
    return out, state

  # Student's rates are z/3 each, teachers' are 0: the loss is E[z^2] / 3.
  student = {'w': far['w'], 'b': jnp.asarray([0.0, 1.0, 0, 0])}
  teachers = {'w': jnp.stack([far['w']] * m), 'b': jnp.stack([jnp.asarray([1.0, 1.0, 0, 0])] * m)}
  loss, _ = learn_rates.distill_loss(student, state, teachers, states, key, 4096, probe, mean, scale)
  mon.check('data is drawn around the mean with the given scale', abs(float(loss) * 3 - 1) < 6.5 * np.sqrt(2 / 4096), lambda: dict(second_moment=float(loss) * 3))
  mon.state('distill', bias.tobytes())


KINDS = [Kind('losses', losses, 120, 1500), Kind('epochs', epochs, 32, 400), Kind('runs', runs, 16, 150), Kind('remainders', remainders, 12, 80), Kind('ensembles', ensembles, 10, 80), Kind('distillation', distillation, 32, 300)]
