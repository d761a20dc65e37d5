"""C33: registered experiments are what their names say, and independent."""
import datetime as dt
import logging
import os
import re
import shutil
import tempfile
import urllib.request

from absl import logging as absl_logging
import dm_env
import numpy as np

from vlib import envs
from vlib import gen
from vlib import simtrace
from vlib.harness import Kind
from putting_dune import eval as eval_main
from putting_dune import eval_lib
from putting_dune import geometry
from putting_dune import graphene
from putting_dune import microscope_agent
from putting_dune import microscope_utils as mu
from putting_dune import run_helpers
from putting_dune.agents import agent_lib
from putting_dune.experiments import experiments
from putting_dune.experiments import registry

PROPERTY = 'C33'
RULE = (
    'Every registered microscope, training and evaluation experiment (agents'
    ' with downloaded weights: on generated models) is created by name,'
    ' run in real environments with extreme and random actions and observed at'
    ' the simulator interface, twice and interleaved; random sequences of'
    ' registrations and look-ups against a dictionary; the evaluation script'
    ' on registered experiments, its report against the results of a recording'
    ' evaluation; agents with downloaded weights on generated models. Non-trivial: at least one control or look-up; distinct by'
    ' experiment and outcome.'
)
ASSUMPTIONS = ['Pretrained weights cannot be downloaded here; generated'
               ' models of the published names take their place; see C32 for their handling.']
REQUIRED = {
    'dwell time of the experiment': 180, 'reach of the experiment': 150, 'both ends of the dwell range': 7,
    'features of the experiment': 35, 'rates of the experiment': 9, 'image duration': 9,
    'environments of an experiment are independent': 9, 'agents of an experiment are independent': 8,
    'objects are fresh': 18, 'agent acts on the environment': 20, 'greedy beam': 20,
    'look-up': 180, 'registration': 35, 'unknown names are refused': 35,
    'report matches the evaluation': 3, 'environment is made of its configuration': 12,
    'learned agent acts as its model says': 60, 'weights of the name': 12,
    'step limit of the configuration': 12, 'microscope agent runs the experiment': 4,
}
BOND = gen.BOND
T15 = (1.5, 1.5)
T5 = (5.0, 5.0)
# name: (dwell range, reach in angstroms of a unit action, frame, features, agent)
MICROSCOPE = {
    'relative_random': (T15, BOND, 'relative', 'pristine', 'random'),
    'relative_random_long': ((1.0, 5.0), 2 * BOND, 'relative', 'pristine', 'random'),
    'relative_random_extra_long': ((1.0, 5.0), 3 * BOND, 'relative', 'pristine', 'random'),
    'greedy_on_neighbor': (T5, None, 'material', 'material', (1.42, 0.0)),
    'greedy_short_of_neighbor': (T5, None, 'material', 'material', (0.58, 0.0)),
    'greedy_on_neighbor_offset_horizontally': (T5, None, 'material', 'material', (1.42, 0.42)),
    'greedy_from_learned_rates_v3': (T5, None, 'material', 'material', (1.8686869, 0.0)),
    'greedy_from_learned_rates_v5': (T5, None, 'material', 'material', (2.1717172, -0.15151516)),
    'ppo_simple_images_tf': (T15, BOND, 'relative', 'image', None),
    'ppo_learned_tf_2s': ((1.0, 10.0), BOND, 'relative', 'pristine', None),
    'ppo_learned_tf_3s': ((1.0, 10.0), BOND, 'relative', 'pristine', None),
    'ppo_learned_tf_4s': ((1.0, 10.0), BOND, 'relative', 'pristine', None),
    'ppo_v3_2s': ((1.5, 20.0), 3 * BOND, 'relative', 'pristine', None),
    'ppo_v3_3s': ((1.5, 20.0), 3 * BOND, 'relative', 'pristine', None),
    'ppo_v3_4s': ((1.5, 20.0), 3 * BOND, 'relative', 'pristine', None),
}
TRAIN = {
    'relative_simple_rates': (T15, BOND, 'relative', 'pristine', 'simple'),
    'relative_prior_rates': (T15, BOND, 'relative', 'pristine', 'prior'),
    'relative_simple_rates_from_images': (T15, BOND, 'relative', 'image', 'simple'),
    'relative_simple_rates_from_images_variable_time': ((1.0, 10.0), BOND, 'relative', 'image', 'simple'),
    'direct_simple_rates_from_images': (T15, None, 'direct', 'image', 'simple'),
}
EVAL = {
    'relative_random_simple': (T15, BOND, 'relative', 'pristine', 'simple', 'random'),
    'relative_random_prior_rates': (T15, BOND, 'relative', 'pristine', 'prior', 'random'),
    'ppo_simple_images_tf': (T15, BOND, 'relative', 'image', 'simple', None),
}
CREATE = dict(
    microscope=registry.create_microscope_experiment, train=registry.create_train_experiment,
    eval=registry.create_eval_experiment)
CLASSES = dict(microscope=experiments.MicroscopeExperiment, train=experiments.TrainExperiment,
               eval=experiments.EvalExperiment)


def rate_function(name):
  fn = (graphene.simple_canonical_rate_function if name == 'simple'
        else graphene.HumanPriorRatePredictor().predict)
  return graphene.PristineSingleSiGrRatePredictor(canonical_rate_prediction_fn=fn)


def simulator_config(name):
  return lambda: experiments.SimulatorConfig(
      material=graphene.PristineSingleDopedGraphene(rate_function=rate_function(name)),
      image_duration=dt.timedelta(seconds=2))


def make_env(experiment, rates, seed, observers=(), limit=600):
  return run_helpers.create_putting_dune_env(
      seed, get_adapters_and_goal=experiment.get_adapters_and_goal,
      get_simulator_config=getattr(experiment, 'get_simulator_config', None) or simulator_config(rates),
      simulator_observers=observers, step_limit=limit)


def actions_for(rng, spec, n):
  lo = np.broadcast_to(np.asarray(spec.minimum, float), spec.shape)
  hi = np.broadcast_to(np.asarray(spec.maximum, float), spec.shape)
  out = [hi, lo]
  for _ in range(n - 2):
    out.append(rng.uniform(lo, hi) if rng.random() < 0.6 else np.where(rng.random(spec.shape) < 0.5, lo, hi))
  return [a.astype(np.float32) for a in out]


def history(env, actions):
  log = []
  ts = env.reset()
  for a in [None] + list(actions):
    if a is not None:
      ts = env.step(a)
    log.append(gen.digest((int(ts.step_type), ts.reward, ts.discount, ts.observation, env.last_microscope_observation)))
  return log


def cases():
  for name, spec in MICROSCOPE.items():
    yield 'microscope', name, spec[:4], 'simple', spec[4]
  for name, spec in TRAIN.items():
    yield 'train', name, spec[:4], spec[4], None
  for name, spec in EVAL.items():
    yield 'eval', name, spec[:4], spec[4], spec[5]


CASES = list(cases())


def for_case(case):
  return lambda mon, rng: one(mon, rng, *case)


def one(mon, rng, kind, name, spec, rates, agent):
  (low, high), reach, frame, features, = spec
  where = dict(kind=kind, name=name)
  exp = CREATE[kind](name)
  mon.require('experiment has its kind', isinstance(exp, CLASSES[kind]), where)
  parts, parts2 = exp.get_adapters_and_goal(), exp.get_adapters_and_goal()
  mon.check('objects are fresh', parts.goal is not parts2.goal
            and parts.action_adapter is not parts2.action_adapter
            and parts.feature_constructor is not parts2.feature_constructor, where)
  if kind != 'microscope':
    configs = exp.get_simulator_config(), exp.get_simulator_config()
    mon.check('objects are fresh', configs[0].material is not configs[1].material, where)
  image = features == 'image'
  seed = int(rng.integers(2**31))
  trace = simtrace.TraceObserver()
  env = make_env(exp, rates, seed, (trace,))
  aspec = env.action_spec()
  n = 4 if image else 24
  actions = actions_for(rng, aspec, n)
  env.reset()
  mon.check('image duration', env.last_microscope_observation.elapsed_time == dt.timedelta(seconds=2), where)
  dwells = []
  for a in actions:
    trace.drain()
    before = env.last_microscope_observation
    ts = env.step(a)
    if ts.first():
      continue
    controls = [e[1]['control'] for e in trace.drain() if e[0] == 'apply']
    mon.require('one control for an action', len(controls) == 1, lambda: dict(where, controls=len(controls)))
    c = controls[0]
    dwell = c.dwell_time.total_seconds()
    dwells.append(dwell)
    want = low if low == high else low + float(np.clip(a[2], 0, 1)) * (high - low)
    mon.check('dwell time of the experiment', abs(dwell - want) < 1e-5, lambda: dict(where, dwell=dwell, want=want))
    box = gen.fov_box(before.fov)
    if frame == 'direct':
      target = gen.to_material(box, np.clip(a, 0, 1).astype(float))
    else:
      si = gen.to_material(box, before.grid.atom_positions[before.grid.atomic_numbers == gen.SILICON][0])
      target = si + (reach if frame == 'relative' else 1.0) * a[:2].astype(float)
    target = np.clip(target, box[0], box[1])
    got = np.asarray(gen.xy(c.position), float)
    mon.check('reach of the experiment', np.abs(got - target).max() < 1e-3,
              lambda: dict(where, beam=got, want=target))
    mon.check('features of the experiment', envs.valid_for(env.observation_spec(), ts.observation)
              and (np.ndim(ts.observation) == 3 or isinstance(ts.observation, dict)) == image
              if features == 'image' else
              envs.valid_for(env.observation_spec(), ts.observation) and np.shape(ts.observation) == (10,),
              lambda: dict(where, shape=np.shape(ts.observation)))
    if features == 'material':
      d = np.asarray(ts.observation)[2:8].reshape(3, 2)
      mon.check('features in angstroms', np.allclose(np.hypot(*d.T), BOND, atol=0.2), lambda: dict(where, deltas=d))
  if low != high:
    mon.check('both ends of the dwell range', abs(max(dwells) - high) < 1e-5 and abs(min(dwells) - low) < 1e-5,
              lambda: dict(where, dwells=dwells))

  # The same history with parts made by hand, and with other instances in use.
  n = 2 if image else 10
  alone = make_env(exp, rates, seed)
  reference = history(alone, actions[:n])
  if kind != 'microscope':
    named = experiments.EvalExperiment(
        get_agent=None, get_adapters_and_goal=exp.get_adapters_and_goal,
        get_simulator_config=simulator_config(rates))
    mon.check('rates of the experiment', history(make_env(named, None, seed), actions[:n]) == reference,
              lambda: dict(where, rates=rates))
  a, b = make_env(exp, rates, seed), make_env(exp, rates, int(rng.integers(2**31)))
  logs = []
  b.reset()
  ts = a.reset()
  for i in range(n + 1):
    if i:
      b.step(actions[-i])
      ts = a.step(actions[i - 1])
    logs.append(gen.digest((int(ts.step_type), ts.reward, ts.discount, ts.observation, a.last_microscope_observation)))
  mon.check('environments of an experiment are independent', logs == reference, where)

  if agent is not None:
    seed_agent = int(rng.integers(2**31))
    runs = []
    for disturb in (False, True):
      ag = exp.get_agent(np.random.default_rng(seed_agent), exp.get_adapters_and_goal())
      if disturb:
        other = exp.get_agent(np.random.default_rng(seed_agent), exp.get_adapters_and_goal())
        other.set_mode(agent_lib.AgentMode.EVAL)
      env = make_env(exp, rates, seed)
      ts = env.reset()
      acts = []
      for _ in range(8):
        if disturb:
          other.step(ts)
          other.step(ts)
        act = ag.step(ts)
        acts.append(np.array(act))
        prev = ts
        before = env.last_microscope_observation
        trace = simtrace.TraceObserver()
        env.sim.add_observer(trace)
        ts = env.step(act)
        env.sim.remove_observer(trace)
        mon.check('agent acts on the environment', act.shape == env.action_spec().shape and np.all(np.isfinite(act)), where)
        if agent != 'random' and not disturb and not prev.last():
          c = [e[1]['control'] for e in trace.drain() if e[0] == 'apply']
          box = gen.fov_box(before.fov)
          si = gen.to_material(box, before.grid.atom_positions[before.grid.atomic_numbers == gen.SILICON][0])
          beam = np.asarray(gen.xy(c[0].position), float)
          inside = bool(np.all(beam > box[0] + 1e-6) and np.all(beam < box[1] - 1e-6))
          if inside:
            # Seen from the neighbour aimed at, the beam is at the named place.
            obs = np.asarray(prev.observation, float)
            deltas, goal = obs[2:8].reshape(3, 2), obs[8:]
            far = np.hypot(*(deltas - goal).T)
            rel = beam - si
            seen = []
            # Lattice places can be equally far from the goal.
            for d in deltas[far < far.min() + 1e-3]:
              u = d / np.hypot(*d)
              seen.append(np.array([rel @ u, u[0] * rel[1] - u[1] * rel[0]]))
            mon.check('greedy beam', any(np.abs(p - np.asarray(agent)).max() < 1e-2 for p in seen),
                      lambda: dict(where, seen=seen, want=agent, observation=obs, beam=rel))
        elif agent == 'random':
          s = env.action_spec()
          mon.check('random actions in bounds', np.all(act >= s.minimum) and np.all(act <= s.maximum), where)
      runs.append(acts)
    mon.check('agents of an experiment are independent', all(np.array_equal(x, y) for x, y in zip(*runs)), where)
    if agent == 'random':
      mon.check('random actions vary', len({a.tobytes() for a in runs[0]}) == len(runs[0]), where)
    if kind == 'microscope':
      # The agent that talks to a microscope, with this experiment.
      mag = microscope_agent.MicroscopeAgent(np.random.default_rng(seed_agent), exp)
      env = make_env(exp, rates, seed)
      env.reset()
      mag.reset(np.random.default_rng(3), env.last_microscope_observation)
      controls = mag.step(env.last_microscope_observation)
      for _ in range(3):
        ok = all(0 <= v <= 1 for c in controls for v in gen.xy(c.position)) and len(controls) == 1
        ok = ok and abs(controls[0].dwell_time.total_seconds() - np.clip(
            controls[0].dwell_time.total_seconds(), low, high)) < 1e-6
        mon.check('microscope agent runs the experiment', ok, lambda: dict(where, controls=controls))
        obs = env.sim.step_and_image(np.random.default_rng(1), controls)
        controls = mag.step(obs)
        if not controls:
          break
  mon.state((kind, name, reference[-1]))
  mon.sample(kind=kind, name=name, dwell=dwells[:4], controls=len(dwells))


TAKEN = {}


def lookups(mon, rng):
  """Registrations and look-ups against a dictionary."""
  model = {n: registry.create_eval_experiment(n) for n in EVAL}
  others = ({n: registry.create_microscope_experiment(n) for n in MICROSCOPE},
            {n: registry.create_train_experiment(n) for n in TRAIN})
  tag = f'{int(rng.integers(2**60)):x}'
  fresh = [f'{tag}-{i}' for i in range(4)] + [tag + '-relative_random', tag + '-é ']
  # Names of other kinds of experiments are free, until an earlier execution in
  # this process took them.
  elsewhere = [str(n) for n in rng.choice(sorted((set(MICROSCOPE) | set(TRAIN)) - set(EVAL)), size=3, replace=False)]
  for n in elsewhere:
    if n in TAKEN:
      model[n] = TAKEN[n]
  for _ in range(int(rng.integers(10, 30))):
    if rng.random() < 0.4:
      name = str(rng.choice(fresh + sorted(EVAL)[:1] + elsewhere))
      entry = experiments.EvalExperiment(
          get_agent=lambda *a: None, get_adapters_and_goal=lambda: None,
          get_simulator_config=simulator_config('simple'))
      registry.register_eval_experiment(name, entry)
      model.setdefault(name, entry)
      if name in elsewhere:
        TAKEN.setdefault(name, entry)
      mon.check('registration', registry.create_eval_experiment(name) is model[name], lambda: dict(name=name))
    else:
      name = str(rng.choice(fresh + elsewhere + sorted(model)))
      if name in model:
        mon.check('look-up', registry.create_eval_experiment(name) is model[name], lambda: dict(name=name))
      else:
        refused(mon, registry.create_eval_experiment, name)
  for name, entry in model.items():
    mon.check('look-up', registry.create_eval_experiment(name) is entry, lambda: dict(name=name))
  for table, create in zip(others, (registry.create_microscope_experiment, registry.create_train_experiment)):
    for name, entry in table.items():
      mon.check('look-up', create(name) is entry, lambda: dict(name=name))
    for name in fresh + ['', 'relative', 'RELATIVE_RANDOM']:
      refused(mon, create, name)
  mon.state((tag, len(model)))
  mon.sample(registered=len(model) - len(EVAL), known=len(model))


def refused(mon, create, name):
  try:
    create(name)
    ok = False
  except ValueError as e:
    ok = name in str(e)
  mon.check('unknown names are refused', ok, lambda: dict(name=name))


class Lines(logging.Handler):

  def __init__(self):
    super().__init__(logging.INFO)
    self.lines = []

  def emit(self, record):
    self.lines.append(record.getMessage())


def main(mon, rng):
  """The evaluation script reports what its evaluation found."""
  suite = tuple(int(s) for s in rng.choice(10_000, size=int(rng.integers(2, 4)), replace=False))
  real = eval_lib.evaluate
  results, given = [], []

  def evaluate(agent, env, eval_suite, **kw):
    given.append((agent, env, eval_suite, kw))
    out = real(agent, env, eval_suite, **kw)
    results.append(out)
    return out

  name = f'main-{int(rng.integers(2**60)):x}'
  rates = str(rng.choice(['simple', 'prior']))
  source = registry.create_microscope_experiment('greedy_on_neighbor' if rng.random() < 0.8 else 'relative_random')
  used = []

  def get_agent(rng_, parts):
    used.append((rng_.bit_generator.state['state']['state'], parts))
    return source.get_agent(rng_, parts)

  registry.register_eval_experiment(name, experiments.EvalExperiment(
      get_agent=get_agent, get_adapters_and_goal=source.get_adapters_and_goal,
      get_simulator_config=simulator_config(rates)))
  suites, label = eval_lib.EVAL_SUITES, 'small sample'
  handler = Lines()
  logger = absl_logging.get_absl_logger()
  level = logger.level
  try:
    eval_lib.EVAL_SUITES = {**suites, label: eval_lib.EvalSuite(suite)}
    eval_lib.evaluate = evaluate
    logger.addHandler(handler)
    logger.setLevel(logging.INFO)
    eval_main.main(eval_main.Args(experiment_name=name, eval_suite=label))
  finally:
    eval_lib.EVAL_SUITES = suites
    eval_lib.evaluate = real
    logger.removeHandler(handler)
    logger.setLevel(level)
  mon.require('evaluated once, with the chosen suite', len(given) == 1 and given[0][2].seeds == suite
              and len(used) == 1, lambda: dict(given=len(given), agents=len(used)))
  res = results[0]
  mon.check('every seed has a result', [r.seed for r in res] == list(suite), None)
  won = [r for r in res if r.reached_goal]
  k = max(len(won), 1)
  want = dict(
      successful=len(won) / len(res),
      taken=sum(r.num_actions_taken for r in won) / k,
      agent=sum(r.agent_seconds_to_goal for r in won) / k,
      environment=sum(r.environment_seconds_to_goal for r in won) / k,
      reward=sum(r.total_reward for r in won) / k)
  want['total'] = want['agent'] + want['environment']
  text = '\n'.join(handler.lines)
  patterns = dict(
      successful=r'successful runs: ([-\d.]+)', taken=r'actions taken: ([-\d.]+)',
      total=r'Average seconds to goal: ([-\d.]+)', agent=r'agent seconds to goal: ([-\d.]+)',
      environment=r'environment seconds to goal: ([-\d.]+)', reward=r'total reward: ([-\d.]+)')
  for key, pattern in patterns.items():
    m = re.search(pattern, text)
    mon.check('report matches the evaluation', m is not None and abs(float(m.group(1)) - want[key]) <= 0.0051,
              lambda: dict(key=key, reported=m and m.group(1), want=want[key], text=text[-800:]))
  mon.check('report names the experiment', name in text, None)
  mon.count('episodes that reached the goal', len(won))
  mon.state((suite, rates, len(won)))
  mon.sample(suite=suite, reached=len(won), seconds=want['environment'])
  # An unknown suite or experiment is an error, not an empty report.
  for args in (dict(experiment_name=name + 'x', eval_suite='tiny_eval'), dict(experiment_name=name, eval_suite='no such suite')):
    try:
      eval_main.main(eval_main.Args(**args))
      ok = False
    except (ValueError, KeyError):
      ok = True
    mon.check('unknown names are refused', ok, lambda: dict(args=args))


def configured(mon, rng):
  """Environments are made of the configuration they are given."""
  kind, name, _, rates, _ = CASES[rng.integers(len(CASES))]
  exp = CREATE[kind](name)
  duration = [dt.timedelta(0), dt.timedelta(seconds=7), dt.timedelta(microseconds=int(rng.integers(1, 9_000_000))), dt.timedelta(hours=2)][rng.integers(0, 4)]
  made = []

  def config():
    made.append(experiments.SimulatorConfig(
        material=graphene.PristineSingleDopedGraphene(rate_function=rate_function('simple'), grid_columns=30), image_duration=duration))
    return made[-1]

  traces = [simtrace.TraceObserver() for _ in range(int(rng.integers(0, 3)))]
  limit = int(rng.integers(1, 5))
  env = run_helpers.create_putting_dune_env(
      int(rng.integers(2**31)), get_adapters_and_goal=exp.get_adapters_and_goal, get_simulator_config=config,
      simulator_observers=traces, step_limit=limit)
  where = dict(kind=kind, name=name, duration=duration, limit=limit)
  env.reset()
  mon.check('environment is made of its configuration', len(made) == 1 and env.sim.material is made[0].material, where)
  mon.check('image duration', env.last_microscope_observation.elapsed_time == duration, lambda: dict(where, got=env.last_microscope_observation.elapsed_time))
  for k in range(limit):
    ts = env.step(env.action_spec().generate_value())
    names = [e[0] for e in traces[0].drain()] if traces else ['apply']
    images = 1 + names[names.index('apply'):].count('fov')
    seen = env.last_microscope_observation
    if traces:
      dwell = sum((c.dwell_time for c in seen.controls), dt.timedelta(0))
      mon.check('image duration', seen.elapsed_time == dwell + images * duration, lambda: dict(where, got=seen.elapsed_time, dwell=dwell, images=images))
    if ts.last():
      break
    mon.check('step limit of the configuration', k + 1 < limit, where)
  mon.check('step limit of the configuration', ts.last(), where)
  for t in traces[1:]:
    mon.check('all observers are told', [e[0] for e in t.drain()][:2] == ['reset', 'fov'], where)
  mon.state('configured', name, repr(duration), limit)


# The published weights of each agent.
MODELS = {
    'ppo_simple_images_tf': 'ppo_simple_images_tf',
    **{f'ppo_learned_tf_{k}': f'230127_from_state_{k}' for k in ('2s', '3s', '4s')},
    **{f'ppo_v3_{k}': f'230422_ppo_v3_{k}' for k in ('2s', '3s', '4s')},
}
LEARNED = [c for c in CASES if c[1] in MODELS]


def save_model(path, observation_spec, shape, seed):
  """A saved model whose actions are a known function of the observation."""
  import tensorflow as tf  # pylint: disable=g-import-not-at-top
  leaves = observation_spec if isinstance(observation_spec, dict) else {'': observation_spec}
  rng = np.random.default_rng(seed)
  weights = {k: rng.normal(size=(int(np.prod(v.shape)),) + tuple(shape)).astype(np.float32) / np.sqrt(np.prod(v.shape)) for k, v in leaves.items()}
  bias = rng.normal(size=shape).astype(np.float32)

  def call(observation):
    parts = observation if isinstance(observation_spec, dict) else {'': observation}
    return tf.math.tanh(sum(tf.linalg.matvec(w, tf.reshape(parts[k], [-1]), transpose_a=True) for k, w in weights.items()) + bias)

  module = tf.Module()
  signature = {k: tf.TensorSpec(v.shape, v.dtype, name=k or 'observation') for k, v in leaves.items()}
  module.__call__ = tf.function(call, input_signature=[signature if isinstance(observation_spec, dict) else signature['']])
  tf.saved_model.save(module, path)

  def expected(observation):
    parts = observation if isinstance(observation_spec, dict) else {'': observation}
    return np.tanh(sum(np.asarray(parts[k], np.float32).reshape(-1) @ w for k, w in weights.items()) + bias)

  return expected


def learned(mon, rng):
  """Agents with downloaded weights act as their model says."""
  kind, name, _, rates, _ = LEARNED[rng.integers(len(LEARNED))]
  exp = CREATE[kind](name)
  root = tempfile.mkdtemp(prefix='c33-')
  module_file, retrieve, opener = registry.__file__, urllib.request.urlretrieve, urllib.request.urlopen
  env = make_env(exp, rates, int(rng.integers(2**31)))
  where = dict(kind=kind, name=name)
  asked, models = [], {}

  def archive(url):
    asked.append(url)
    label = url.rsplit('/', 1)[-1].removesuffix('.zip')
    folder = os.path.join(root, 'made', str(len(asked)), label)
    models[label] = save_model(folder, env.observation_spec(), env.action_spec().shape, len(asked))
    return shutil.make_archive(folder, 'zip', os.path.dirname(folder), label)

  def fake_retrieve(url, filename=None, *a, **k):
    shutil.copyfile(archive(url), filename)
    return filename, None

  def fake_open(url, *a, **k):
    return open(archive(getattr(url, 'full_url', url)), 'rb')

  try:
    os.mkdir(os.path.join(root, 'package'))
    registry.__file__ = os.path.join(root, 'package', 'registry.py')
    urllib.request.urlretrieve, urllib.request.urlopen = fake_retrieve, fake_open
    make = lambda: exp.get_agent(np.random.default_rng(0), exp.get_adapters_and_goal())
    agents = [make(), make()]
    mon.check('weights are downloaded once', len(asked) == 1, lambda: dict(where, asked=asked))
    (label, expected), = models.items()
    where['model'] = label
    mon.check('weights of the name', label == MODELS[name], where)
    ts = env.reset()
    steps = 3 if isinstance(env.observation_spec(), dict) else 8
    for k in range(steps):
      agent = agents[k % 2]
      agent.set_mode([agent_lib.AgentMode.EVAL, agent_lib.AgentMode.TRAIN][rng.integers(0, 2)])
      kept = gen.digest(ts.observation)
      action = agent.step(ts)
      want = expected(ts.observation)
      mon.check('learned agent acts as its model says', isinstance(action, np.ndarray) and action.shape == env.action_spec().shape
                and np.allclose(action, want, atol=1e-4) and gen.digest(ts.observation) == kept, lambda: dict(where, got=action, want=want))
      ts = env.step(action)
    mon.state('learned', name, action)
  finally:
    registry.__file__ = module_file
    urllib.request.urlretrieve, urllib.request.urlopen = retrieve, opener
    shutil.rmtree(root, ignore_errors=True)


# Every experiment is a scenario of its own, so that none is left to chance.
KINDS = [Kind(f'{c[0]}-{c[1]}', for_case(c), 2, 24) for c in CASES] + [
    Kind('lookups', lookups, 24, 200),
    Kind('main', main, 4, 40),
    Kind('learned', learned, 16, 80),
    Kind('configured', configured, 24, 300),
]
