"""C16: agents."""
import tempfile

import dm_env
import numpy as np
import tensorflow as tf

from vlib import gen
from vlib.harness import Kind
from putting_dune.agents import agent_lib
from putting_dune.agents import tf_eval_agent

PROPERTY = 'C16'
RULE = (
    'The random agent with scalar and per-dimension bounds, its pooled actions'
    ' tested for uniformity; the greedy agent on random three-neighbour'
    ' surroundings (any rotation and order, jittered) and goals, with default,'
    ' given and searched aim points, offsets and noise, judged against an'
    ' independent geometric construction; agents around saved models, against'
    ' the model. Non-trivial: the best neighbour is'
    ' unambiguous; distinct by surroundings and goal.'
)
ASSUMPTIONS = [
    'Ties between neighbours (scores within 1e-3 angstroms) are not judged.',
    'Distributional verdicts use p < 1e-9.',
]
REQUIRED = {
    'aims at the neighbour nearest the goal': 480, 'turns with the surroundings': 180,
    'order of neighbours does not matter': 180, 'noise is centred on the aim': 18,
    'searched aim is the best grid point': 12, 'random actions are in bounds': 60,
    'random actions are uniform': 20, 'missing aim is refused': 6,
    'acts as its saved model on the observation': 60, 'default searches': 2,
}


def surroundings(rng, jitter=0.05):
  theta = rng.uniform(0, 2 * np.pi)
  base = np.array([0, 2 * np.pi / 3, 4 * np.pi / 3]) + theta + rng.normal(0, 0.05, 3)
  r = gen.BOND + rng.normal(0, jitter, 3)
  nb = np.stack([r * np.cos(base), r * np.sin(base)], -1)
  return nb[rng.permutation(3)]


def time_step(rng, nb, goal):
  obs = np.concatenate([rng.uniform(-50, 50, 2), nb.reshape(-1), goal]).astype(np.float32)
  return dm_env.transition(0.0, obs, 0.99)


def greedy(mon, rng):
  kw = {}
  aim = np.array([1.42, 0.0])
  if rng.random() < 0.6:
    aim = np.array([rng.uniform(0.3, 3), rng.uniform(-1, 1)])
    kw['argmax'] = aim
  offset = np.zeros(2)
  if rng.random() < 0.4:
    offset = rng.normal(0, 0.5, 2)
    kw['fixed_offset'] = offset
  agent = agent_lib.GreedyAgent(rng=np.random.default_rng(int(rng.integers(2**31))) if rng.random() < 0.8 else None, **kw)
  agent.set_mode(agent_lib.AgentMode.EVAL)
  kept = (np.array(aim), np.array(offset))
  for _ in range(3):
    nb = surroundings(rng)
    goal = gen.rotate(np.array([gen.log_uniform(rng, 0.2, 40), 0.0]), rng.uniform(0, 2 * np.pi))
    score = np.hypot(*(nb - goal).T)
    order = np.argsort(score)
    if score[order[1]] - score[order[0]] < 1e-3:
      continue
    best = nb[order[0]]
    ts = time_step(rng, nb, goal)
    out = agent.step(ts)
    want = gen.rotate(aim + offset, np.arctan2(best[1], best[0]))
    mon.check('aims at the neighbour nearest the goal', gen.close(out, want, 1e-5, 3.0),
              lambda: dict(neighbours=nb, goal=goal, got=out, want=want, aim=aim, offset=offset))
    perm = rng.permutation(3)
    mon.check('order of neighbours does not matter', gen.close(agent.step(time_step(rng, nb[perm], goal)), out, 1e-5, 3.0), None)
    theta = rng.uniform(0, 2 * np.pi)
    turned = agent.step(time_step(rng, gen.rotate(nb, theta), gen.rotate(goal, theta)))
    mon.check('turns with the surroundings', gen.close(turned, gen.rotate(out, theta), 1e-5, 3.0),
              lambda: dict(angle=theta, before=out, after=turned))
    mon.state('greedy', nb.tobytes(), goal.tobytes())
  mon.check('settings are left alone', np.array_equal(kept[0], aim) and np.array_equal(kept[1], offset), None)
  mon.sample(aim=aim, offset=offset, neighbours=nb, goal=goal)


def noise(mon, rng):
  sigma = gen.log_uniform(rng, 0.02, 0.6)
  agent = agent_lib.GreedyAgent(rng=np.random.default_rng(int(rng.integers(2**31))), position_noise_sigma=sigma)
  nb = surroundings(rng)
  goal = nb[0] * 3
  ts = time_step(rng, nb, goal)
  n = 600
  out = np.array([agent.step(ts) for _ in range(n)])
  want = gen.rotate(np.array([1.42, 0.0]), np.arctan2(nb[0][1], nb[0][0]))
  z = np.abs((out - want).mean(0)) / (sigma / np.sqrt(n))
  spread = out.std(0) / sigma
  mon.check('noise is centred on the aim', bool(np.all(z < 6.5) and np.all(np.abs(spread - 1) < 0.2)),
            lambda: dict(z=z, spread=spread, sigma=sigma))
  a = agent_lib.GreedyAgent(rng=np.random.default_rng(5), position_noise_sigma=sigma)
  b = agent_lib.GreedyAgent(rng=np.random.default_rng(5), position_noise_sigma=sigma)
  mon.check('noise is seeded', all(np.array_equal(a.step(ts), b.step(ts)) for _ in range(4)), None)
  try:
    agent_lib.GreedyAgent(argmax=None)
    ok = False
  except ValueError:
    ok = True
  mon.check('missing aim is refused', ok, None)


def search(mon, rng):
  half = float(rng.uniform(1.5, 3))
  resolution = float(rng.uniform(0.1, 0.25))
  settings = dict(argmax_resolution=resolution, low=-half, high=half)
  if rng.random() < 0.2:
    half, resolution, settings = 5.0, 0.05, {}  # The defaults.
    mon.count('default searches')
  peak = rng.uniform(-half * 0.9, half * 0.9, size=2)
  width = rng.uniform(0.4, 2)
  asked = []

  def transition(x):
    x = np.asarray(x, float)
    asked.append(x)
    return np.array([np.exp(-np.sum((x - peak) ** 2) / width), np.exp(-np.sum((x + peak) ** 2)) + 2.0, 3.0])

  agent = agent_lib.GreedyAgent(rng=np.random.default_rng(0), transition_function=transition, argmax=None if rng.random() < 0.5 else np.array([9.0, 9.0]),
                                **settings)
  nb = np.array([[gen.BOND, 0.0], [-0.71, 1.2298], [-0.71, -1.2298]])
  got = np.asarray(agent.step(time_step(rng, nb, np.array([5.0, 0.0]))), float)
  mon.check('searched aim is the best grid point', bool(np.max(np.abs(got - peak)) <= 1.2 * resolution),
            lambda: dict(got=got, peak=peak, resolution=resolution))
  asked = np.array(asked)
  mon.check('the search covers the square', bool(np.allclose(asked.min(0), -half, atol=1e-5) and np.allclose(asked.max(0), half, atol=1e-5)),
            lambda: dict(low=asked.min(0), high=asked.max(0)))
  mon.state('search', tuple(peak))


def uniform(mon, rng):
  dim = int(rng.integers(1, 4))
  if rng.random() < 0.5:
    lo, hi = float(rng.uniform(-3, 0)), float(rng.uniform(0.5, 3))
    low, high = lo, hi
  else:
    low, high = rng.uniform(-3, 0, dim), rng.uniform(0.5, 3, dim)
  agent = agent_lib.UniformRandomAgent(np.random.default_rng(int(rng.integers(2**31))), low, high, (dim,))
  agent.set_mode(agent_lib.AgentMode.TRAIN)
  n = 400
  x = np.array([agent.step(dm_env.restart(np.zeros(3))) for _ in range(n)])
  mon.require('random actions are in bounds', x.shape == (n, dim) and bool(np.all(x >= low) and np.all(x <= high)), lambda: dict(shape=x.shape))
  u = (x - low) / (np.asarray(high) - np.asarray(low))
  from scipy import stats  # pylint: disable=g-import-not-at-top
  p = [stats.kstest(u[:, i], 'uniform').pvalue for i in range(dim)]
  mon.check('random actions are uniform', min(p) > 1e-9, lambda: dict(p=p))
  if dim > 1:
    r = np.corrcoef(u.T)[0, 1]
    mon.check('dimensions are independent', abs(r) < 0.32, dict(r=r))
  mon.state('uniform', x[0].tobytes())


def saved(mon, rng):
  n, dim = int(rng.integers(1, 12)), int(rng.integers(1, 4))
  w, b = rng.normal(size=(n, dim)).astype(np.float32), rng.normal(size=dim).astype(np.float32)
  batched = rng.random() < 0.3
  shape = (1, n) if batched else (n,)
  with tempfile.TemporaryDirectory() as tmp:
    module = tf.Module()
    module.weights, module.calls = tf.Variable(w), tf.Variable(0)
    module.__call__ = tf.function(
        lambda x: tf.tanh(tf.tensordot(x, module.weights, 1)) + b,
        input_signature=[tf.TensorSpec(shape, tf.float32)])
    tf.saved_model.save(module, tmp)
    agent = tf_eval_agent.TfEvalAgent(tmp)
  for k in range(6):
    agent.set_mode(list(agent_lib.AgentMode)[k % len(agent_lib.AgentMode)])
    obs = rng.normal(0, 3, shape).astype(np.float32)
    kept = obs.copy()
    step = [dm_env.restart(obs), dm_env.transition(float(rng.normal()), obs, 0.9), dm_env.termination(1.0, obs)][k % 3]
    out = agent.step(step)
    want = np.tanh(obs @ w) + b
    mon.check('acts as its saved model on the observation',
              isinstance(out, np.ndarray) and out.shape == want.shape and gen.close(out, want, 1e-4, 1.0) and np.array_equal(obs, kept),
              lambda: dict(got=np.asarray(out), want=want))
    mon.state('saved', obs.tobytes())


KINDS = [
    Kind('saved', saved, 12, 100),
    Kind('greedy', greedy, 400, 15000), Kind('noise', noise, 40, 600),
    Kind('search', search, 30, 400), Kind('uniform', uniform, 120, 2000),
]
