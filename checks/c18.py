"""C18: evaluation and its aggregates."""
import datetime as dt
import math
import os
import shutil
import tempfile
import time

import dm_env
from dm_env import specs
import numpy as np

from vlib import envs
from vlib import gen
from vlib.harness import Kind
from putting_dune import eval_lib
from putting_dune.agents import agent_lib
from putting_dune import graphene

PROPERTY = 'C18'
RULE = (
    'Evaluations of scripted and random agents on real environments (all'
    ' adapters, goals near and far, step limits, image durations) over random'
    ' suites of 1-6 seeds with timeouts that cut before the first action, in'
    ' the middle, or never; every call the evaluation makes on the environment'
    ' and the agent is recorded and each result recomputed from the record.'
    ' Aggregates are recomputed from random result lists. Non-trivial: at'
    ' least one action was taken; distinct by results.'
)
ASSUMPTIONS = [
    'Timeouts are placed 1/16 s away from every reachable simulated time, so'
    ' that the few milliseconds the agents really take do not decide.',
]
REQUIRED = {
    'one result per seed, in order': 90, 'episodes are run as specified': 150,
    'result is the sum of the record': 150, 'stops exactly on timeout': 35,
    'agent time counts': 4, 
    'no observer is left behind': 60, 'aggregates': 120, 'goal reached': 20, 'timed out': 20,
    'truncated': 18, 'videos': 2,
}


class Recorder:
  """Stands between the evaluation and a real environment."""

  def __init__(self, env):
    self._env = env
    self.calls = []

  def __getattr__(self, name):
    return getattr(self._env, name)

  def seed(self, seed):
    self.calls.append(('seed', seed))
    self._env.seed(seed)

  def reset(self):
    ts = self._env.reset()
    self.calls.append(('reset', ts, self._env.last_microscope_observation.elapsed_time))
    return ts

  def step(self, action):
    ts = self._env.step(action)
    self.calls.append(('step', ts, self._env.last_microscope_observation.elapsed_time, action))
    return ts


class Scripted(agent_lib.Agent):
  """Deterministic in the observation; optionally slow."""

  def __init__(self, spec, salt, pause=0.0):
    self.spec, self.salt, self.pause = spec, salt, pause
    self.modes, self.seen, self.spent = [], [], []

  def step(self, time_step):
    start = time.perf_counter()
    obs = time_step.observation
    h = int.from_bytes(bytes.fromhex(gen.digest(obs))[:4], 'big')
    a = envs.action(np.random.default_rng([self.salt, h]), self.spec, hostile=False)
    self.seen.append(time_step)
    if self.pause:
      time.sleep(self.pause)
    self.spent.append(time.perf_counter() - start)
    return a

  def set_mode(self, mode):
    self.modes.append(mode)


def watch_observers(env):
  """The observers attached from now on and not yet removed."""
  attached = []
  add, remove = env.sim.add_observer, env.sim.remove_observer

  def spy_add(observer):
    attached.append(observer)
    return add(observer)

  def spy_remove(observer):
    attached.remove(observer)
    return remove(observer)

  env.sim.add_observer, env.sim.remove_observer = spy_add, spy_remove
  return attached


def quantised(rng):
  """Fixed dwell and image durations in eighths of a second."""
  return str(rng.choice(['relative', 'material', 'direct', 'delta']))


def build(rng):
  quick = rng.random() < 0.6
  env, info = envs.build(
      rng, adapter_name=quantised(rng), feature_name=str(rng.choice(['pristine', 'material'])),
      limit=int(rng.choice([2, 5, 15])) if rng.random() < 0.6 else 60,
      goal_range=(0.1, 2.0) if quick else None,
      rate=('one hop', graphene.PristineSingleSiGrRatePredictor(lambda *a: np.full(3, 0.3, np.float32))) if quick else None,
      spy=False,
  )
  return env, info


def judge(mon, rec, agent, results, seeds, timeout, wall):
  mon.require('one result per seed, in order', isinstance(results, list) and [r.seed for r in results] == list(seeds),
              lambda: dict(seeds=seeds, got=[r.seed for r in results]))
  mon.check('evaluation mode is set', agent.modes == [agent_lib.AgentMode.EVAL], None)
  # Cut the record into episodes.
  episodes = []
  for c in rec.calls:
    if c[0] == 'seed':
      episodes.append([c])
    else:
      episodes[-1].append(c)
  mon.require('episodes are run as specified', [e[0][1] for e in episodes] == list(seeds)
              and all(len(e) >= 2 and e[1][0] == 'reset' and all(c[0] == 'step' for c in e[2:]) for e in episodes),
              lambda: dict(calls=[c[0] for c in rec.calls][:20]))
  at = 0
  for e, r in zip(episodes, results):
    steps = e[2:]
    given = agent.seen[at:at + len(steps)]
    spent = sum(agent.spent[at:at + len(steps)])
    at += len(steps)
    mon.check('episodes are run as specified',
              all(x is y[1] for x, y in zip(given, e[1:]))  # the agent sees each time step
              and not any(c[1].last() for c in steps[:-1]), None)
    clock = [e[1][2]]
    for c in steps:
      clock.append(clock[-1] + c[2])
    mon.check('stops exactly on timeout',
              all(t < timeout for t in clock[:-1] if steps)
              and (bool(steps and steps[-1][1].last()) or clock[-1] + dt.timedelta(seconds=wall) >= timeout),
              lambda: dict(clock=clock[-4:], timeout=timeout, steps=len(steps)))
    last = steps[-1][1] if steps else e[1][1]
    reached = bool(last.last() and last.discount == 0.0)
    reward = sum(c[1].reward for c in steps)
    ok = (r.reached_goal == reached and r.num_actions_taken == len(steps) and abs(r.total_reward - reward) < 1e-9)
    if reached:
      mon.count('goal reached')
      ok = (ok and abs(r.environment_seconds_to_goal - clock[-1].total_seconds()) < 1e-6
            and spent <= r.agent_seconds_to_goal + 1e-4 and r.agent_seconds_to_goal <= wall
            and abs(r.seconds_to_goal - r.agent_seconds_to_goal - r.environment_seconds_to_goal) < 1e-9)
    else:
      mon.count('truncated' if last.last() else 'timed out')
      ok = ok and math.isnan(r.environment_seconds_to_goal) and math.isnan(r.agent_seconds_to_goal) and math.isnan(r.seconds_to_goal)
    mon.check('result is the sum of the record', ok,
              lambda: dict(result=repr(r), reached=reached, steps=len(steps), reward=reward, clock=clock[-1], agent=spent))


def evaluate(mon, rng):
  env, info = build(rng)
  rec = Recorder(env)
  n = int(rng.choice([1, 2, 3, 6]))
  seeds = tuple(int(s) for s in rng.choice(10**6, size=n, replace=bool(rng.random() < 0.15)))
  k = rng.integers(0, 4)
  if k == 0:
    timeout = dt.timedelta(seconds=float(rng.choice([1 / 16, 2 + 1 / 16, 3.5 + 1 / 16])))
  elif k == 1:
    timeout = dt.timedelta(seconds=float(rng.integers(4, 40)) + 1 / 16)
  else:
    timeout = None
  agent = Scripted(env.action_spec(), int(rng.integers(1000)))
  kw = {} if timeout is None else dict(timeout=timeout)
  attached = watch_observers(env)
  start = time.perf_counter()
  results = eval_lib.evaluate(agent, rec, eval_lib.EvalSuite(seeds), **kw)
  wall = time.perf_counter() - start
  if timeout is None:
    timeout = dt.timedelta(minutes=10)
  judge(mon, rec, agent, results, seeds, timeout, wall)
  mon.check('no observer is left behind', attached == [], None)
  # The same seed alone, on the used environment.
  j = int(rng.integers(n))
  repeat = Scripted(agent.spec, agent.salt)
  again = eval_lib.evaluate(repeat, env, eval_lib.EvalSuite((seeds[j],)), timeout=timeout)[0]
  a, b = results[j], again
  same = (a.reached_goal, a.num_actions_taken) == (b.reached_goal, b.num_actions_taken) and abs(a.total_reward - b.total_reward) < 1e-12
  if a.reached_goal and same:
    same = a.environment_seconds_to_goal == b.environment_seconds_to_goal
  # Slow machines: the timeout also counts the real time of the agent.
  if max(sum(agent.spent), sum(repeat.spent)) < 1 / 32 or timeout > dt.timedelta(minutes=5):
    mon.check('result does not depend on the suite', same, lambda: dict(suite=repr(a), alone=repr(b)))
  if agent.seen:
    mon.state(tuple((r.seed, r.reached_goal, r.num_actions_taken) for r in results))
  mon.sample(seeds=seeds, timeout=timeout, results=[repr(r) for r in results][:2])
  check_aggregate(mon, results)


class ScriptedEnv:
  """An environment with arbitrary rewards, discounts, times and endings."""

  def __init__(self, salt):
    self.salt = salt
    self.sim = type('Sim', (), dict(add_observer=lambda self, o: None, remove_observer=lambda self, o: None))()

  def seed(self, seed):
    self.rng = np.random.default_rng([self.salt, seed])

  def observe(self):
    self.last_microscope_observation = type('Observation', (), dict(elapsed_time=dt.timedelta(seconds=int(self.rng.integers(1, 80)) / 8)))()
    return self.rng.normal(size=3).astype(np.float32)

  def reset(self):
    obs = self.observe()
    self.length = int(self.rng.choice([1, 2, 5, 12, 40, 150, 400]))
    self.terminal = bool(self.rng.random() < 0.5)
    return dm_env.restart(obs)

  def step(self, action):
    obs = self.observe()
    reward = float(self.rng.choice([0.0, 0.0, 1.0, -1.0, self.rng.normal()]))
    discount = float(self.rng.choice([1.0, 0.0, self.rng.uniform()]))
    self.length -= 1
    if self.length > 0:
      return dm_env.transition(reward, obs, discount)
    if self.terminal:
      return dm_env.termination(reward, obs)
    return dm_env.truncation(reward, obs, max(discount, 0.01))


def scripted(mon, rng):
  rec = Recorder(ScriptedEnv(int(rng.integers(10**6))))
  seeds = tuple(int(s) for s in rng.choice(10**6, size=int(rng.choice([1, 3, 8]))))
  timeout = dt.timedelta(seconds=float(rng.integers(4, 200)) + 1 / 16) if rng.random() < 0.4 else dt.timedelta(hours=2)
  agent = Scripted(specs.BoundedArray((2,), np.float32, -1.0, 1.0), int(rng.integers(1000)))
  start = time.perf_counter()
  results = eval_lib.evaluate(agent, rec, eval_lib.EvalSuite(seeds), timeout=timeout)
  judge(mon, rec, agent, results, seeds, timeout, time.perf_counter() - start)
  mon.state(tuple((r.seed, r.reached_goal, r.num_actions_taken) for r in results))
  check_aggregate(mon, results)


def slow(mon, rng):
  """An agent that thinks long uses up the time limit."""
  env, info = envs.build(rng, adapter_name='relative', limit=50, goal_range=(5.0, 50.0), spy=False,
                         rate=('still', graphene.PristineSingleSiGrRatePredictor(lambda *a: np.zeros(3, np.float32))))
  pause = 0.3
  rec = Recorder(env)
  agent = Scripted(env.action_spec(), 1, pause)
  env.seed(3)
  env.reset()
  first = env.last_microscope_observation.elapsed_time
  env.step(np.zeros(2, np.float32))
  each = env.last_microscope_observation.elapsed_time
  # Room for two steps of simulated time, but not for a second pause as well.
  timeout = first + each + dt.timedelta(seconds=pause * 0.5)
  results = eval_lib.evaluate(agent, rec, eval_lib.EvalSuite((1,)), timeout=timeout)
  mon.check('agent time counts', results[0].num_actions_taken == 1 and not results[0].reached_goal,
            lambda: dict(result=repr(results[0]), timeout=timeout))


def check_aggregate(mon, results):
  agg = eval_lib.aggregate_results(results)
  hits = [r for r in results if r.reached_goal]
  mean = lambda f: sum(f(r) for r in hits) / len(hits) if hits else 0.0
  want = [
      len(hits) / len(results), mean(lambda r: r.num_actions_taken), mean(lambda r: r.agent_seconds_to_goal),
      mean(lambda r: r.environment_seconds_to_goal), mean(lambda r: r.total_reward),
      mean(lambda r: r.agent_seconds_to_goal) + mean(lambda r: r.environment_seconds_to_goal),
  ]
  got = [
      agg.average_num_times_reached_goal, agg.average_num_actions_taken, agg.average_agent_seconds_to_goal,
      agg.average_environment_seconds_to_goal, agg.average_total_reward, agg.average_seconds_to_goal,
  ]
  mon.check('aggregates', np.allclose(got, want, rtol=1e-9, atol=1e-12), lambda: dict(got=got, want=want, results=[repr(r) for r in results][:4]))


def aggregate(mon, rng):
  results = []
  p = rng.choice([0.0, 0.3, 0.9, 1.0])
  for i in range(int(rng.integers(1, 30))):
    hit = bool(rng.random() < p)
    results.append(eval_lib.EvalResult(
        seed=i, reached_goal=hit, num_actions_taken=int(rng.integers(0, 60)),
        agent_seconds_to_goal=float(rng.uniform(0, 9)) if hit else float('nan'),
        environment_seconds_to_goal=float(rng.uniform(0, 600)) if hit else float('nan'),
        total_reward=float(rng.uniform(0, 1)),
    ))
  check_aggregate(mon, results if rng.random() < 0.5 else tuple(results))


def video(mon, rng):
  import matplotlib.pyplot as plt  # pylint: disable=g-import-not-at-top
  from PIL import Image  # pylint: disable=g-import-not-at-top
  env, info = envs.build(rng, adapter_name='relative', limit=3, spy=False, columns=30)
  root = tempfile.mkdtemp(prefix='c18-')
  target = os.path.join(root, 'a', 'b')
  try:
    attached = watch_observers(env)
    figures = list(plt.get_fignums())
    seeds = tuple(int(s) for s in rng.choice(1000, size=int(rng.integers(1, 3)), replace=False))
    timeout = dt.timedelta(seconds=float(rng.choice([1 / 16, 600])))
    agent = Scripted(env.action_spec(), 3)
    results = eval_lib.evaluate(agent, env, eval_lib.EvalSuite(seeds), timeout=timeout, video_save_dir=target)
    plain = eval_lib.evaluate(Scripted(env.action_spec(), 3), env, eval_lib.EvalSuite(seeds), timeout=timeout)
    mon.check('filming changes no result', [(r.seed, r.reached_goal, r.num_actions_taken) for r in results]
              == [(r.seed, r.reached_goal, r.num_actions_taken) for r in plain], None)
    mon.check('one video per seed', sorted(os.listdir(target)) == sorted(f'{s}.gif' for s in seeds), lambda: dict(files=os.listdir(target)))
    for s in seeds:
      with Image.open(os.path.join(target, f'{s}.gif')) as im:
        mon.check('videos', im.format == 'GIF' and im.n_frames >= 1, None)
    mon.check('no observer is left behind', attached == [], None)
    mon.check('no figure is left open', list(plt.get_fignums()) == figures, lambda: dict(open=plt.get_fignums()))
  finally:
    shutil.rmtree(root, ignore_errors=True)


def suites(mon, rng):
  mon.check('suites are ranges of distinct seeds',
            {k: len(set(v.seeds)) for k, v in eval_lib.EVAL_SUITES.items()} ==
            {'tiny_eval': 10, 'small_eval': 100, 'medium_eval': 1000, 'big_eval': 10000}, None)


KINDS = [
    Kind('evaluate', evaluate, 160, 4000), Kind('scripted', scripted, 150, 3000), Kind('slow', slow, 16, 60), Kind('aggregate', aggregate, 160, 3000),
    Kind('video', video, 4, 24), Kind('suites', suites, 1, 1),
]
