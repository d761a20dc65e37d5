"""C12: seeded runs are reproducible and environments do not share state."""
import numpy as np

from vlib import envs
from vlib import gen
from vlib import simtrace
from vlib.harness import Kind
from putting_dune import graphene
from putting_dune import simulator_observers
from putting_dune.agents import agent_lib

PROPERTY = 'C12'
RULE = (
    'Pairs of executions of real environments with equal seed and actions but'
    ' different surroundings: fresh instance against an instance with a random'
    ' earlier history (other seed, stopped mid-episode), alone against'
    ' interleaved call by call with another environment, with and without'
    ' observers, rendering and noise in the global random generator.'
    ' The complete histories (time steps, observations, simulator events) are'
    ' compared by fingerprint. Non-trivial: at least one dopant transition or'
    ' one episode change happened; distinct by the history fingerprint.'
)
ASSUMPTIONS = ['Rate functions given to both sides are equal pure functions.']
REQUIRED = {
    'same seed, same history': 35, 'history does not leak': 35,
    'interleaving does not matter': 35, 'seeds matter': 35,
    'global randomness is neither used nor disturbed': 120,
    'observers do not change the run': 18, 'transitions seen': 180,
}


def config(rng):
  """A recipe from which equal environments can be built repeatedly."""
  recipe_seed = int(rng.integers(2**31))
  fixed = dict(
      adapter_name=str(rng.choice(envs.ADAPTERS)),
      feature_name=str(rng.choice(['pristine', 'material', 'pristine', 'material', 'image']))
      if rng.random() < 0.3 else str(rng.choice(['pristine', 'material'])),
      limit=int(rng.choice([3, 6, 50])),
      goal_range=(0.1, 2.0) if rng.random() < 0.6 else None,
  )

  def make():
    return envs.build(np.random.default_rng(recipe_seed), **fixed)

  return make, fixed


def actions_for(rng, spec, n):
  return [envs.action(rng, spec) for _ in range(n)]


def start(env, seed, log):
  env.seed(seed)
  ts = env.reset()
  log.append(fingerprint(env, ts))


def fingerprint(env, ts):
  return gen.digest((
      int(ts.step_type), ts.reward, ts.discount, ts.observation,
      env.last_microscope_observation,
      np.asarray(env.goal.goal_position_material_frame),
  ))


def events_digest(events):
  return gen.digest([(k, d) for k, d in events])


def roll(env, info, seed, actions):
  log = []
  info['trace'].drain()
  start(env, seed, log)
  for a in actions:
    log.append(fingerprint(env, env.step(a)))
  events = info['trace'].drain()
  return log, events_digest(events), sum(e[0] == 'transition' for e in events)


def first_difference(a, b):
  for i, (x, y) in enumerate(zip(a, b)):
    if x != y:
      return i
  return None if len(a) == len(b) else min(len(a), len(b))


def pairs(mon, rng):
  make, fixed = config(rng)
  seed, other_seed = (int(s) for s in rng.choice(2**31, size=2, replace=False))
  n = int(rng.integers(3, 14)) if fixed['feature_name'] != 'image' else 3
  env, info = make()
  actions = actions_for(rng, env.action_spec(), n)
  log, events, moved = roll(env, info, seed, actions)
  mon.count('transitions seen', moved)

  # Equal seeds on a second instance, with the global generators perturbed.
  np.random.seed(int(rng.integers(2**31)))
  before = np.random.get_state()[1].tobytes()
  env2, info2 = make()
  log2, events2, _ = roll(env2, info2, seed, actions)
  mon.check('same seed, same history', log == log2 and events == events2,
            lambda: dict(config=fixed, step=first_difference(log, log2)))
  mon.check('global randomness is neither used nor disturbed',
            np.random.get_state()[1].tobytes() == before, None)

  # A random earlier history must not matter once the seed is set again.
  if rng.random() < 0.5:
    env2.seed(int(rng.integers(2**31)))
  if rng.random() < 0.7:
    env2.reset()
  for a in actions_for(rng, env2.action_spec(), int(rng.integers(1, 8))):
    env2.step(a)
  log3, events3, _ = roll(env2, info2, seed, actions)
  mon.check('history does not leak', log == log3 and events == events3,
            lambda: dict(config=fixed, step=first_difference(log, log3)))

  # Another seed gives another start.
  log4 = []
  start(env2, other_seed, log4)
  mon.check('seeds matter', log4[0] != log[0], dict(seeds=[seed, other_seed]))
  if moved:
    mon.state(tuple(log))
  mon.sample(config=fixed, seed=seed, actions=actions[:3], steps=n, transitions=moved)


def interleaved(mon, rng):
  makes = [config(rng), config(rng)]
  if rng.random() < 0.5:
    makes[1] = makes[0]
  seeds = [int(s) for s in rng.integers(2**31, size=2)]
  alone, acts = [], []
  for (make, fixed), seed in zip(makes, seeds):
    env, info = make()
    n = int(rng.integers(3, 12)) if fixed['feature_name'] != 'image' else 2
    acts.append(actions_for(rng, env.action_spec(), n))
    alone.append(roll(env, info, seed, acts[-1]))
  built = [make() for make, _ in makes]
  logs = [[], []]
  queue = [
      [lambda i=i: start(built[i][0], seeds[i], logs[i])]
      + [lambda i=i, a=a: logs[i].append(fingerprint(built[i][0], built[i][0].step(a))) for a in acts[i]]
      for i in range(2)
  ]
  order = []
  while queue[0] or queue[1]:
    i = int(rng.integers(2))
    if queue[i]:
      queue[i].pop(0)()
      order.append(i)
  for i in range(2):
    same = logs[i] == alone[i][0] and events_digest(built[i][1]['trace'].drain()) == alone[i][1]
    mon.check('interleaving does not matter', same,
              lambda: dict(config=makes[i][1], step=first_difference(logs[i], alone[i][0]), order=order))
  mon.state('interleaving', tuple(order), tuple(f['adapter_name'] for _, f in makes))


def watched(mon, rng):
  make, fixed = config(rng)
  env, info = make()
  seed = int(rng.integers(2**31))
  actions = actions_for(rng, env.action_spec(), int(rng.integers(2, 8)) if fixed['feature_name'] != 'image' else 2)
  log, events, _ = roll(env, info, seed, actions)
  env2, info2 = make()
  extra = [simulator_observers.EventObserver(), simtrace.TraceObserver()]
  for o in extra:
    env2.sim.add_observer(o)
  render_at = int(rng.integers(0, len(actions))) if rng.random() < 0.2 else -1
  log2 = []
  start(env2, seed, log2)
  for i, a in enumerate(actions):
    if i == render_at:
      frame = env2.render()
      mon.count('frames rendered')
      mon.check('a frame is an image', frame.dtype == np.uint8 and frame.ndim == 3 and frame.shape[2] == 3, None)
    log2.append(fingerprint(env2, env2.step(a)))
    if i == 0:
      env2.sim.remove_observer(extra[1])
  mon.check('observers do not change the run',
            log == log2 and events_digest(info2['trace'].drain()) == events,
            lambda: dict(config=fixed, step=first_difference(log, log2)))


def materials(mon, rng):
  """The same below the environment: materials and simulators."""
  seed = int(rng.integers(2**31))
  columns = int(rng.choice([10, 30, 50]))

  def run(used):
    m = graphene.PristineSingleDopedGraphene(
        rate_function=graphene.PristineSingleSiGrRatePredictor(
            lambda *a: np.array([0.4, 0.7, 1.1], np.float32)),
        grid_columns=columns)
    if used:
      r = np.random.default_rng(seed + 1)
      m.reset(r)
      m.apply_control(r, beam(m))
    r = np.random.default_rng(seed)
    out = []
    m.reset(r)
    out.append(gen.digest(m.grid))
    for _ in range(4):
      m.apply_control(r, beam(m))
      out.append(gen.digest(m.grid))
    return out, r.bit_generator.state['state']

  def beam(m):
    import datetime as dt  # pylint: disable=g-import-not-at-top
    from putting_dune import geometry, microscope_utils as mu  # pylint: disable=g-import-not-at-top,g-multiple-import
    return mu.BeamControl(geometry.Point(m.get_silicon_position()), dt.timedelta(seconds=1.5))

  np.random.seed(int(rng.integers(2**31)))
  before = np.random.get_state()[1].tobytes()
  a, b = run(False), run(True)
  mon.check('same seed, same history', a == b, lambda: dict(first=first_difference(a[0], b[0])))
  mon.check('global randomness is neither used nor disturbed', np.random.get_state()[1].tobytes() == before, None)
  mon.state('material', columns, a[0][-1])

  def agent(s):
    g = agent_lib.UniformRandomAgent(np.random.default_rng(s), -1.0, 1.0, (2,))
    return [g.step(None).tolist() for _ in range(5)]

  mon.check('seeded agents repeat themselves', agent(seed) == agent(seed) and agent(seed) != agent(seed + 1), None)


KINDS = [
    Kind('pairs', pairs, 90, 2500), Kind('interleaved', interleaved, 60, 1500),
    Kind('watched', watched, 50, 1000), Kind('materials', materials, 120, 2000),
]
