"""C28: bootstrapped and split data sets hold the samples they should."""
import jax
from jax import numpy as jnp
import numpy as np

from vlib import gen
from vlib.harness import Kind
from putting_dune.rate_learning import data_utils
from putting_dune.rate_learning import learn_rates

PROPERTY = 'C28'
RULE = (
    'Data sets of 1-60 samples, each tagged through its duration, with and'
    ' without context, bootstrapped, split and turned into training and test'
    ' sets of 1-5 models with every combination of bootstrapping, augmentation'
    ' and test fraction; every produced row is traced to the sample it comes'
    ' from. Non-trivial: a data set of which some samples are drawn for'
    ' training and some are not; distinct by the samples drawn.'
)
ASSUMPTIONS = ['Data sets have at least one sample.']
REQUIRED = {
    'samples stay whole': 360, 'test samples are those not trained on': 180, 'as many training samples as asked': 180,
    'equal keys, equal sets': 120, 'every model trains on samples of the data': 120, 'inputs are context and position': 180,
    'models are tested on samples they do not train on': 45, 'drawn uniformly with replacement': 3,
}


def dataset(rng, n, context='maybe', column=None):
  column = rng.random() < 0.5 if column is None else column
  data = dict(
      next_state=rng.integers(0, 4, n).reshape((n, 1) if column else (n,)),
      dt=(np.arange(n) + 1.0).astype(np.float32).reshape((n, 1) if column else (n,)),
      rates=rng.random((n, 3)).astype(np.float32),
      position=rng.normal(0, 2, (n, 2)).astype(np.float32),
  )
  if context == 'yes' or (context == 'maybe' and rng.random() < 0.75):
    data['context'] = rng.normal(size=(n, int(rng.integers(1, 4)))).astype(np.float32)
  elif rng.random() < 0.5 and context == 'maybe':
    data['context'] = None
  return {k: None if v is None else jnp.asarray(v) for k, v in data.items()}


def tags(d):
  return np.rint(np.asarray(d['dt']).reshape(-1)).astype(int) - 1


def whole(d, data):
  i = tags(d)
  return all(np.array_equal(np.asarray(d[k]), np.asarray(data[k])[i]) for k in data)


def draws(mon, rng):
  for _ in range(5):
    n = int(rng.choice([1, 2, 3, 5, 10, 60, 300]))
    data = {k: v for k, v in dataset(rng, n).items() if v is not None}
    key = jax.random.PRNGKey(int(rng.integers(0, 2**31)))
    fraction = float(rng.choice([0.0, 0.1, 0.25, 0.5, 0.9, rng.random()]))
    for name, call in (('bootstrap', lambda: data_utils.bootstrap_dataset(data, key)), ('split', lambda: data_utils.split_dataset(data, key, fraction))):
      train, test = call()
      mon.check('samples stay whole', set(train) == set(test) == set(data) and whole(train, data) and whole(test, data), lambda: dict(function=name, train=tags(train), test=tags(test), n=n))
      a, b = tags(train), tags(test)
      mon.check('test samples are those not trained on', sorted(b.tolist()) == sorted(set(range(n)) - set(a.tolist())), lambda: dict(function=name, train=a, test=b, n=n))
      k = n if name == 'bootstrap' else n - int(n * fraction)
      mon.check('as many training samples as asked', len(a) == k and (name == 'bootstrap' or len(set(a.tolist())) == k), lambda: dict(function=name, train=a, n=n, fraction=fraction))
      if name == 'bootstrap' and n >= 60:
        z = (len(set(a.tolist())) - n * (1 - (1 - 1 / n) ** n)) / np.sqrt(0.0973 * n)
        mon.check('drawn uniformly with replacement', abs(z) < 7, lambda: dict(n=n, distinct=len(set(a.tolist()))))
      again = call()
      mon.check('equal keys, equal sets', np.array_equal(tags(again[0]), a) and np.array_equal(tags(again[1]), b), None)
      if 0 < len(b) < n:
        mon.state(name, (tuple(a), n))
  mon.sample(n=n, fraction=fraction)


def frequencies(mon, rng):
  n = int(rng.choice([4, 7, 12]))
  data = {k: v for k, v in dataset(rng, n).items() if v is not None}
  runs = 250
  keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(0, 2**31))), runs)
  counts, first, tested, pairs = np.zeros(n), np.zeros(n), np.zeros(n), 0
  for key in keys:
    a = tags(data_utils.bootstrap_dataset(data, key)[0])
    counts += np.bincount(a, minlength=n)
    pairs += int(a[0] == a[1])
    tested += np.isin(np.arange(n), tags(data_utils.split_dataset(data, key, 0.5)[1]))
  z = (counts - runs) / np.sqrt(runs * (1 - 1 / n))
  f = int(n * 0.5) / n
  z2 = (tested - runs * f) / np.sqrt(runs * f * (1 - f))
  z3 = (pairs - runs / n) / np.sqrt(runs / n * (1 - 1 / n))
  mon.check('drawn uniformly with replacement', np.abs(z).max() < 6.5 and np.abs(z2).max() < 6.5 and abs(z3) < 6.5, lambda: dict(counts=counts, tested=tested, repeats=pairs, n=n))


def splits(mon, rng):
  n = int(rng.choice([1, 2, 3, 6, 20, 40]))
  data = dataset(rng, n)
  m = int(rng.integers(1, 6))
  bootstrap, augment = bool(rng.random() < 0.5), bool(rng.random() < 0.6)
  fraction = float(rng.choice([0.0, 0.1, 0.3, 0.6]))
  key = jax.random.PRNGKey(int(rng.integers(0, 2**31)))
  kept = {k: None if v is None else np.array(v) for k, v in data.items()}
  call = lambda: learn_rates.create_dataset_splits(data, m, key, bootstrap=bootstrap, augment_data=augment, test_fraction=fraction)
  train, test = call()
  info = dict(n=n, models=m, bootstrap=bootstrap, augment=augment, fraction=fraction)
  mon.check('data left alone', set(kept) == set(data) and all(v is None or np.array_equal(v, np.asarray(data[k])) for k, v in kept.items()), info)
  again = call()
  mon.check('equal keys, equal sets', all(np.array_equal(a[k], b[k]) for a, b in zip((train, test), again) for k in a), info)
  copies = 6 if augment else 1
  held = 0 if bootstrap or not fraction else int(n * fraction)
  context = kept.get('context')
  width = 2 + (0 if context is None else context.shape[1])
  drawn = []
  for i in range(m):
    sets = []
    for name, d in (('train', train), ('test', test)):
      ds = {k: np.asarray(v[i]) for k, v in d.items()}
      t = np.rint(ds['dt'].reshape(-1)).astype(int) - 1
      sets.append(t)
      rows = len(t)
      shapes = ds['context'].shape == (rows, width) and ds['next_state'].reshape(-1).shape == (rows,) and ds['rates'].shape == (rows, 3) and 'position' not in ds
      if not mon.check('inputs are context and position', shapes, lambda: dict(info, got={k: v.shape for k, v in ds.items()})):
        continue
      ok = True
      if context is not None:
        ok = np.array_equal(ds['context'][:, :-2], context[t])
      p, q = ds['context'][:, -2:], kept['position'][t]
      s, s0 = ds['next_state'].reshape(-1), kept['next_state'].reshape(-1)[t]
      if augment:
        ok &= np.allclose(np.hypot(*p.T), np.hypot(*q.T), atol=1e-4) and np.array_equal(s == 0, s0 == 0) and np.allclose(np.sort(ds['rates'], 1), np.sort(kept['rates'][t], 1))
      else:
        ok &= np.array_equal(p, q) and np.array_equal(s, s0) and np.array_equal(ds['rates'], kept['rates'][t])
      mon.check('every model trains on samples of the data', bool(ok), lambda: dict(info, set=name, tags=t))
    a, b = sets
    drawn.append(tuple(a))
    if bootstrap or fraction:
      mon.check('models are tested on samples they do not train on', not set(a.tolist()) & set(b.tolist()), lambda: dict(info, train=a, test=b))
    else:
      mon.check('without a test fraction all data is used', sorted(a.tolist()) == sorted(b.tolist()) == sorted(list(range(n)) * copies), lambda: dict(info, train=a, test=b))
    mon.check('training sets are complete', len(a) == (n - held) * copies and all(v % copies == 0 for v in np.bincount(a)), lambda: dict(info, train=a))
    if not bootstrap and fraction:
      mon.check('test sets are complete', len(b) == held * copies, lambda: dict(info, test=b))
  if bootstrap:
    # Tests are cut to the shortest set, never more.
    distinct = min(n - len(set(a)) for a in drawn)
    mon.check('test sets are complete', np.shape(test['dt'])[1] == distinct * copies, lambda: dict(info, got=np.shape(test['dt']), want=distinct * copies))
  if m > 1 and n >= 20 and (bootstrap or fraction):
    mon.check('models see different samples', len(set(drawn)) == m, info)
    mon.state('splits', tuple(drawn))


KINDS = [Kind('draws', draws, 60, 600), Kind('frequencies', frequencies, 8, 60), Kind('splits', splits, 90, 900)]
