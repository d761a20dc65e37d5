"""C17: the microscope agent and its log."""
import ast
import csv
import datetime as dt
import os
import shutil
import tempfile

import dm_env
from etils import epath
import numpy as np

from vlib import envs
from vlib import gen
from vlib.harness import Kind
from putting_dune import goals
from putting_dune import io as pdio
from putting_dune import microscope_agent
from putting_dune import microscope_utils as mu
from putting_dune.agents import agent_lib
from putting_dune.experiments import experiments

PROPERTY = 'C17'
RULE = (
    'Random histories of reset, step and flush calls (1-5 episodes of 0-8'
    ' steps) on the real microscope agent with every adapter, logged and'
    ' unlogged side by side, with observations that lose the silicon, reach'
    ' the goal or carry images; the three log files are parsed after every'
    ' flush and compared with a model of the history. Non-trivial: at least'
    ' one step was logged; distinct by the sequence of calls and outcomes.'
)
ASSUMPTIONS = [
    'Observations in the log are compared to single precision (see C02).',
    'Flushing is not interrupted.',
]
REQUIRED = {
    'steps are logged exactly once': 150, 'episodes are logged exactly once': 150,
    'trajectories are logged exactly once': 150, 'logging does not change the agent': 360,
    'time step handed to the agent': 360, 'controls come from the adapter': 300,
    'rescans without silicon': 35, 'nothing is written on an exception': 4,
    'flush in mid-episode': 35, 'a reset starts everything afresh': 150, 'the log is written': 150, 'terminal steps': 20, 'truncated steps': 15,
}
GAMMA = 0.9967


class SpyAgent(agent_lib.Agent):

  def __init__(self, rng, spec):
    self.rng = rng
    self.spec = spec
    self.seen = []

  def step(self, time_step):
    a = envs.action(self.rng, self.spec)
    self.seen.append((time_step, a.copy()))
    return a

  def set_mode(self, mode):
    pass


def observation(rng, goal=None, lose=0.12, reach=0.15):
  f = gen.fov(rng, lo=9, hi=20, offset=10.0)
  pos, _ = gen.patch_in_fov(rng, f)
  box = gen.fov_box(f)
  numbers = np.full(len(pos), gen.CARBON)
  i = int(rng.integers(len(pos)))
  if rng.random() >= lose:
    numbers[i] = gen.SILICON
    if goal is not None and rng.random() < reach:
      # Put the silicon on the goal by moving the view.
      shift = np.asarray(goal, float).reshape(2) - pos[i]
      box = box + shift
      f = mu.MicroscopeFieldOfView(gen.geometry.Point(box[0]), gen.geometry.Point(box[1]))
      pos = pos + shift
  return mu.MicroscopeObservation(
      mu.AtomicGrid(gen.to_microscope(box, pos), numbers), f,
      gen.controls(rng, hostile=False), gen.timedelta(rng),
      image=rng.random((6, 5)).astype('f4') if rng.random() < 0.15 else None,
  )


class DenseGoal(goals.SingleSiliconGoalReaching):
  """Rewards every step and asks for truncation, as the interface of goals allows.

  A function of the observation alone: it may be asked any number of times."""

  def calculate_reward_and_terminal(self, observation):
    out = super().calculate_reward_and_terminal(observation)
    return goals.GoalReturn(out.reward + dense(observation), out.is_terminal, not out.is_terminal and cut(observation))


def dense(observation):
  return round(float(observation.fov.lower_left.x) * 0.125, 3)


def cut(observation):
  return int(abs(observation.fov.lower_left.y) * 1000) % 5 == 0


def watch_reset(part, name, log):
  inner = part.reset

  def reset(*args, **kwargs):
    log.append((name, list(args) + list(kwargs.values())))
    return inner(*args, **kwargs)

  part.reset = reset


def experiment(seed, adapter_name, feature_name, rewards):
  parts = {}

  def make_parts():
    r = np.random.default_rng(seed)
    parts['adapter'] = envs.SpyAdapter(envs.adapter(r, adapter_name))
    parts['goal'] = DenseGoal() if rewards else goals.SingleSiliconGoalReaching()
    features = envs.FEATURES[feature_name]()
    parts['resets'] = resets = []
    for name, part in (('adapter', parts['adapter']), ('goal', parts['goal']), ('features', features)):
      watch_reset(part, name, resets)
    return experiments.AdaptersAndGoal(parts['adapter'], features, parts['goal'])

  def make_agent(rng, adapters_and_goal):
    parts['agent'] = SpyAgent(rng, adapters_and_goal.action_adapter.action_spec)
    return parts['agent']

  return experiments.MicroscopeExperiment(make_agent, make_parts), parts


def read_csv(path):
  with open(path, newline='') as fp:
    return list(csv.DictReader(fp))


def same_observation(a, b):
  return (
      np.allclose(a.grid.atom_positions, b.grid.atom_positions, atol=1e-6)
      and np.array_equal(a.grid.atomic_numbers, b.grid.atomic_numbers)
      and np.allclose(gen.fov_box(a.fov), gen.fov_box(b.fov), atol=1e-4)
      and len(a.controls) == len(b.controls)
      and all(abs((x.dwell_time - y.dwell_time).total_seconds()) < 1e-3 for x, y in zip(a.controls, b.controls))
      and abs(a.elapsed_time.total_seconds() - b.elapsed_time.total_seconds()) < 1e-6 + 1e-6 * b.elapsed_time.total_seconds()
      and (a.image is None) == (b.image is None)
      and (a.image is None or np.array_equal(a.image, b.image))
  )


def compare(mon, path, episodes):
  """The files against the model: every episode with steps, in order."""
  want = [e for e in episodes if e['steps']]
  mon.require('the log is written', {'steps.csv', 'episodes.csv', 'trajectories.tfrecords'} <= set(os.listdir(path)),
              lambda: dict(files=sorted(os.listdir(path))))
  rows = read_csv(os.path.join(path, 'steps.csv'))
  flat = [(e, i, s) for e in want for i, s in enumerate(e['steps'])]
  ok = len(rows) == len(flat) and all(
      abs(float(r['reward']) - s['reward']) < 1e-12
      and float(r['elapsed_seconds']) == s['elapsed']
      and r['terminal'] == str(s['terminal'])
      for r, (_, _, s) in zip(rows, flat))
  mon.check('steps are logged exactly once', ok, lambda: dict(logged=len(rows), stepped=len(flat), rows=rows[:6]))
  if len(rows) != len(flat):
    return
  # Step numbers ascend by one within an episode.
  ids = []
  for e in want:
    mine = [r for r, (f, _, _) in zip(rows, flat) if f is e]
    ids.append({r['episode'] for r in mine})
    numbers = [int(r['episode_step']) for r in mine]
    mon.check('step numbers ascend by one', numbers == list(range(numbers[0], numbers[0] + len(numbers))) and numbers[0] in (0, 1), lambda: dict(numbers=numbers))
  mon.check('an episode has one id of its own', all(len(i) == 1 for i in ids) and len(set(map(tuple, ids))) == len(ids), lambda: dict(ids=[sorted(i) for i in ids]))
  rows_e = read_csv(os.path.join(path, 'episodes.csv'))
  ok = len(rows_e) == len(want)
  mon.check('episodes are logged exactly once', ok, lambda: dict(logged=rows_e, played=len(want)))
  if ok:
    for r, e, i in zip(rows_e, want, ids):
      mon.check('episode record', {r['episode']} == i
                and int(r['episode_steps']) == len(e['steps'])
                and abs(float(r['episode_return']) - sum(s['reward'] for s in e['steps'])) < 1e-9,
                lambda: dict(row=r, steps=len(e['steps']), ids=sorted(i)))
      mon.check('goal of the episode', np.allclose(ast.literal_eval(r['episode_goal']), e['goal'], atol=1e-9),
                lambda: dict(row=r, goal=e['goal']))
  got = list(pdio.read_records(epath.Path(path) / 'trajectories.tfrecords', mu.Trajectory))
  ok = len(got) == len(want) and all(
      len(t.observations) == len(e['steps'])
      and all(same_observation(o, s['observation']) for o, s in zip(t.observations, e['steps']))
      for t, e in zip(got, want))
  mon.check('trajectories are logged exactly once', ok,
            lambda: dict(logged=[len(t.observations) for t in got], stepped=[len(e['steps']) for e in want]))


def history(mon, rng):
  adapter_name = str(rng.choice(['relative', 'relative time', 'material', 'direct', 'delta']))
  feature_name = str(rng.choice(['pristine', 'material']))
  seed = int(rng.integers(2**31))
  root = tempfile.mkdtemp(prefix='c17-')
  try:
    rewards = bool(rng.random() < 0.4)
    ex, parts = experiment(seed, adapter_name, feature_name, rewards)
    ex2, parts2 = experiment(seed, adapter_name, feature_name, rewards)
    logged = microscope_agent.MicroscopeAgent(np.random.default_rng(seed), ex)
    plain = microscope_agent.MicroscopeAgent(np.random.default_rng(seed), ex2)
    logdir = root if rng.random() < 0.5 else epath.Path(root)
    fail = rng.random() < 0.15
    episodes, story = [], []
    flushed = False

    class Boom(Exception):
      pass

    try:
      with microscope_agent.MicroscopeAgentLogger(logged, logdir=logdir) as agent:
        for _ in range(int(rng.integers(1, 6))):
          obs = observation(rng, lose=0.0)
          r = int(rng.integers(2**31))
          before = len(parts['resets'])
          agent.reset(np.random.default_rng(r), obs)
          began = parts['resets'][before:]
          mon.check('a reset starts everything afresh',
                    {n for n, _ in began} == {'adapter', 'goal', 'features'}
                    and all(any(a is obs for a in args) for n, args in began if n == 'goal'),
                    lambda: dict(reset=[n for n, _ in began]))
          plain.reset(np.random.default_rng(r), obs)
          goal = np.array(parts['goal'].goal_position_material_frame, float).reshape(2)
          mon.check('logging does not change the agent',
                    np.array_equal(goal, np.asarray(parts2['goal'].goal_position_material_frame).reshape(2)), None)
          episodes.append(dict(goal=goal, steps=[]))
          story.append('R')
          first = True
          for _ in range(int(rng.choice([0, 1, 2, 5, 8]))):
            obs = observation(rng, goal)
            kept = gen.digest(obs)
            seen = len(parts['agent'].seen)
            asked = len(parts['adapter'].calls)
            controls = agent.step(obs)
            other = plain.step(obs)
            mon.check('logging does not change the agent', gen.digest(controls) == gen.digest(other), lambda: dict(logged=controls, plain=other))
            numbers = np.asarray(obs.grid.atomic_numbers)
            here = numbers == gen.SILICON
            elapsed = obs.elapsed_time.total_seconds()
            if not here.any():
              reward, terminal = 0.0, False
              mon.check('rescans without silicon',
                        len(controls) == 1 and controls[0].dwell_time == dt.timedelta(0)
                        and len(parts['agent'].seen) == seen and len(parts['adapter'].calls) == asked, lambda: dict(controls=controls))
              story.append('l')
            else:
              si = gen.to_material(gen.fov_box(obs.fov), obs.grid.atom_positions[here][0])
              terminal = bool(np.hypot(*(si - goal)) < 0.71)
              reward = GAMMA ** elapsed if terminal else 0.0
              truncated = False
              if rewards:
                reward, truncated = reward + dense(obs), not terminal and cut(obs)
                mon.count('truncated steps', truncated)
              want = dm_env.StepType.LAST if terminal or truncated else dm_env.StepType.FIRST if first else dm_env.StepType.MID
              mon.require('time step handed to the agent', len(parts['agent'].seen) == seen + 1, None)
              ts, action = parts['agent'].seen[-1]
              ok = ts.step_type == want
              if want == dm_env.StepType.MID or truncated:
                ok = ok and abs(ts.reward - reward) < 1e-9 and abs(ts.discount - GAMMA ** elapsed) < 1e-9
              elif want == dm_env.StepType.LAST:
                ok = ok and abs(ts.reward - reward) < 1e-9 and ts.discount == 0.0
              features = envs.FEATURES[feature_name]().get_features(obs, parts['goal'])
              mon.check('time step handed to the agent', ok and envs.same_features(ts.observation, features),
                        lambda: dict(got=ts.step_type, want=want, reward=ts.reward, discount=ts.discount, elapsed=elapsed))
              mon.check('controls come from the adapter',
                        len(parts['adapter'].calls) == asked + 1
                        and parts['adapter'].calls[-1][0] is obs
                        and np.array_equal(parts['adapter'].calls[-1][1], action)
                        and gen.digest(list(parts['adapter'].calls[-1][2])) == gen.digest(list(controls)), None)
              first = False
              mon.count('terminal steps', terminal)
              story.append('T' if terminal else 's')
            mon.check('observation is left alone', gen.digest(obs) == kept, None)
            episodes[-1]['steps'].append(dict(reward=reward, terminal=terminal, elapsed=elapsed, observation=obs))
            if rng.random() < 0.15:
              agent.flush()
              flushed = True
              mon.count('flush in mid-episode')
              compare(mon, root, episodes)
              story.append('F')
          if fail and rng.random() < 0.5:
            raise Boom()
        if fail:
          raise Boom()
    except Boom:
      if not flushed:
        mon.check('nothing is written on an exception', os.listdir(root) == [], lambda: dict(files=os.listdir(root)))
    else:
      mon.check('an exception is passed on', not fail, None)
      compare(mon, root, episodes)
      if rng.random() < 0.3:
        agent.flush()
        compare(mon, root, episodes)
    if any(e['steps'] for e in episodes):
      mon.state(adapter_name, tuple(story), seed % 1000)
    mon.sample(adapter=adapter_name, features=feature_name, story=''.join(story))
  finally:
    shutil.rmtree(root, ignore_errors=True)


KINDS = [Kind('history', history, 260, 8000)]
