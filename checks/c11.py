"""C11: the environment follows the reinforcement learning interface protocol."""
import datetime as dt

import dm_env
import numpy as np

from vlib import envs
from vlib import gen
from vlib import simtrace
from vlib.harness import Kind
from putting_dune import goals
from putting_dune import graphene
from putting_dune import putting_dune_environment
from putting_dune import run_helpers

PROPERTY = 'C11'
RULE = (
    'Random call histories (reset and step in any order, 20-45 calls) on real'
    ' environments built by the public constructor with every action adapter'
    ' and feature constructor, several rate models, goals near and far, step'
    ' limits 1-20, goals that ask for truncation, and hostile actions; each'
    ' returned time step checked by a reference state machine fed from the'
    ' simulator trace and the instrumented adapter. Non-trivial: an episode'
    ' ended or at least 5 steps were taken; distinct by the sequence of calls,'
    ' step types and endings.'
)
ASSUMPTIONS = [
    'Discount per second is 0.9967 and the goal radius half a carbon bond'
    ' (0.71 A), as documented.',
    'Reward exactly at the 0.71 A boundary is not decided (1e-6 band).',
]
REQUIRED = {
    'step types follow the protocol': 1500, 'discount decays with elapsed time': 900,
    'reward only at the goal': 900, 'observation matches its spec': 1500,
    'observation is of the current state': 1500, 'the action is applied once': 900,
    'an unseeded environment follows the protocol': 30, 'the step limit ends episodes at the limit and changes nothing else': 900,
    'a wrapper is transparent': 80, 'limit and end coincide': 12,
    'goal reached': 20, 'truncated by the limit': 60, 'truncated by the goal': 6,
    'restarted by a step': 60, 'step before any reset': 12, 'goal reached at the limit': 1,
}
GAMMA = 0.9967


def run(mon, rng, feature_name=None, calls=(20, 46), quick_goals=False):
  goal = None
  if rng.random() < 0.25:
    goal = envs.TruncatingGoal(int(rng.integers(1, 6)))
  near = rng.random() < 0.7
  env, info = envs.build(
      rng, feature_name=feature_name, goal=goal,
      goal_range=(0.1, 2.0) if near or quick_goals else None,
      limit=int(rng.integers(1, 4)) if quick_goals else None if rng.random() < 0.1 else 'random',
      rate=('one hop', graphene.PristineSingleSiGrRatePredictor(
          lambda *a: np.full(3, 0.3, np.float32))) if quick_goals else None,
  )
  trace, adapter, goal, limit = info['trace'], info['adapter'], info['goal'], info['limit']
  obs_spec, act_spec = env.observation_spec(), env.action_spec()
  need_reset, steps = True, 0
  goal_position = None
  story = []
  ended = 0
  n_calls = int(rng.integers(*calls))
  if rng.random() < 0.4:
    mon.count('step before any reset')
    first_call = 'step'
  else:
    first_call = 'reset'
  for c in range(n_calls):
    call = first_call if c == 0 else ('reset' if rng.random() < 0.06 else 'step')
    applied_before = len(adapter.calls)
    resets_before = adapter.resets
    previous = env.last_microscope_observation
    trace.drain()
    if call == 'reset':
      ts = env.reset()
    else:
      action = envs.action(rng, act_spec, previous if not need_reset else None, goal)
      kept = action.copy()
      ts = env.step(action)
      mon.check('the action is left alone', np.array_equal(kept, action), None)
    events = trace.drain()
    obs = env.last_microscope_observation
    elapsed = obs.elapsed_time.total_seconds()
    gamma = GAMMA ** elapsed
    restarted = call == 'reset' or need_reset
    expect_first = restarted
    story.append((call, int(ts.step_type)))
    mon.check('observation matches its spec', envs.valid_for(obs_spec, ts.observation),
              lambda: dict(spec=obs_spec, got=ts.observation))
    mon.check('observation is of the current state',
              envs.same_features(ts.observation, info['features'].inner.get_features(obs, goal)),
              lambda: dict(got=ts.observation))
    if expect_first:
      mon.require('step types follow the protocol', ts.step_type == dm_env.StepType.FIRST,
                  lambda: dict(story=story[-6:], want='FIRST', limit=limit))
      if call == 'step':
        mon.count('restarted by a step')
      mon.check('a new episode resets everything once',
                sum(e[0] == 'reset' for e in events) == 1
                and adapter.resets == resets_before + 1
                and not any(e[0] == 'apply' for e in events)
                and len(adapter.calls) == applied_before,
                lambda: dict(events=[e[0] for e in events]))
      mon.check('first step has no reward', not ts.reward, dict(reward=ts.reward))
      goal_position = np.array(goal.goal_position_material_frame, float).reshape(2)
      sim_grid = [e for e in events if e[0] == 'reset'][0][1]['grid']
      mon.check('the goal is an atom of the new sheet',
                np.min(np.hypot(*(sim_grid.atom_positions - goal_position).T)) < 1e-4, None)
      need_reset, steps = False, 0
      continue
    steps += 1
    # The action reaches the simulator exactly once, through the adapter.
    mon.check('the action is applied once',
              len(adapter.calls) == applied_before + 1
              and np.array_equal(adapter.calls[-1][1], kept)
              and adapter.calls[-1][0] is previous
              and not any(e[0] == 'reset' for e in events),
              lambda: dict(calls=len(adapter.calls) - applied_before))
    wanted = adapter.calls[-1][2] if len(adapter.calls) > applied_before else []
    box = gen.fov_box(previous.fov)
    applied = [e[1]['control'] for e in events if e[0] == 'apply']
    ok = len(applied) == len(wanted) and all(
        np.allclose(gen.xy(a.position), gen.to_material(box, gen.xy(w.position)), atol=1e-5)
        and a.dwell_time == w.dwell_time for a, w in zip(applied, wanted))
    mon.check('the controls are those of the adapter', ok, lambda: dict(applied=applied, wanted=wanted))
    # Goal and reward, judged from the observation alone.
    mon.check('the goal stays put',
              np.array_equal(goal_position, np.asarray(goal.goal_position_material_frame, float).reshape(2)), None)
    numbers = np.asarray(obs.grid.atomic_numbers)
    si = gen.to_material(gen.fov_box(obs.fov), obs.grid.atom_positions[numbers == 14][0])
    distance = float(np.hypot(*(si - goal_position)))
    decided = abs(distance - 0.71) > 1e-5
    at_goal = distance < 0.71
    if not decided:
      break
    if ts.last():
      ended += 1
    limit_hit = limit is not None and steps >= limit
    asked = isinstance(goal, envs.TruncatingGoal) and steps == goal.at and not at_goal
    want_last = at_goal or limit_hit or asked
    mon.require('step types follow the protocol',
                ts.step_type == (dm_env.StepType.LAST if want_last else dm_env.StepType.MID),
                lambda: dict(story=story[-6:], got=ts.step_type, at_goal=at_goal, steps=steps, limit=limit, asked=asked))
    if at_goal:
      mon.count('goal reached')
      if limit_hit:
        mon.count('goal reached at the limit')
      mon.check('reward only at the goal', abs(ts.reward - gamma) < 1e-9, lambda: dict(reward=ts.reward, want=gamma, elapsed=elapsed))
      mon.check('reaching the goal ends for good', ts.discount == 0.0, lambda: dict(discount=ts.discount))
    else:
      mon.check('reward only at the goal', ts.reward == 0.0, lambda: dict(reward=ts.reward, distance=distance))
      mon.check('discount decays with elapsed time', abs(ts.discount - gamma) < 1e-9,
                lambda: dict(discount=ts.discount, want=gamma, elapsed=elapsed, last=ts.last()))
      if limit_hit:
        mon.count('truncated by the limit')
      elif asked:
        mon.count('truncated by the goal')
    took = sum((e[1]['duration'] for e in events if e[0] == 'take'), dt.timedelta(0))
    dwell = sum((w.dwell_time for w in wanted), dt.timedelta(0))
    mon.check('elapsed time is dwell plus imaging', obs.elapsed_time == took + dwell, None)
    need_reset = ts.last()
  if ended or len(story) > 5:
    mon.state(info['adapter_name'], info['feature_name'], limit, tuple(story))
  mon.sample(adapter=info['adapter_name'], features=info['feature_name'], limit=limit,
             rate=info['rate'], story=story[:12])


def histories(mon, rng):
  run(mon, rng)


def endings(mon, rng):
  run(mon, rng, quick_goals=True)


def images(mon, rng):
  run(mon, rng, feature_name='image', calls=(4, 8))


def unseeded(mon, rng):
  """An environment nobody seeded follows the protocol as well."""
  name = str(rng.choice(envs.ADAPTERS))
  adapter = envs.SpyAdapter(envs.adapter(rng, name))
  feature = str(rng.choice(['pristine', 'material']))
  env = putting_dune_environment.PuttingDuneEnvironment(
      graphene.PristineSingleDopedGraphene(rate_function=simtrace.rate_model(rng)[1], grid_columns=30),
      adapter, envs.FEATURES[feature](), goals.SingleSiliconGoalReaching())
  if rng.random() < 0.3:
    env.seed(None)
  expect = dm_env.StepType.FIRST
  for c in range(int(rng.integers(3, 8))):
    asked = len(adapter.calls)
    if c == 0 and rng.random() < 0.5:
      ts = env.reset()
    else:
      ts = env.step(envs.action(rng, env.action_spec()))
    first = expect == dm_env.StepType.FIRST
    mon.check('an unseeded environment follows the protocol',
              ts.first() == first and len(adapter.calls) == asked + (not first)
              and envs.valid_for(env.observation_spec(), ts.observation),
              lambda: dict(call=c, adapter=name, type=ts.step_type))
    expect = dm_env.StepType.FIRST if ts.last() else dm_env.StepType.MID
  mon.state(name, feature, c)


class Scripted(dm_env.Environment):
  """An environment that does what it is told and writes down what it is asked."""

  def __init__(self, rng):
    self.rng, self.fresh, self.calls, self.given = rng, True, [], []
    self.specs = {k: dm_env.specs.Array((i,), np.float32, name=k) for i, k in enumerate(('action', 'discount', 'observation', 'reward'))}

  def _give(self, ts):
    self.given.append(ts)
    self.fresh = ts.last()
    return ts

  def reset(self):
    self.calls.append(('reset', None))
    return self._give(dm_env.restart(self.rng.random(3)))

  def step(self, action):
    self.calls.append(('step', action))
    if self.fresh:
      return self._give(dm_env.restart(self.rng.random(3)))
    u = self.rng.random()
    kind = dm_env.transition if u > 0.2 else dm_env.truncation if u > 0.1 else None
    if kind is None:
      return self._give(dm_env.termination(float(self.rng.random()), self.rng.random(3)))
    return self._give(kind(float(self.rng.random()), self.rng.random(3), float(self.rng.random())))

  def action_spec(self):
    return self.specs['action']

  def discount_spec(self):
    return self.specs['discount']

  def observation_spec(self):
    return self.specs['observation']

  def reward_spec(self):
    return self.specs['reward']

  def close(self):
    self.calls.append(('close', None))

  def anything_else(self, x):
    return ('else', x)


def limits(mon, rng):
  """The step limit around any environment."""
  inner = Scripted(rng)
  limit = None if rng.random() < 0.15 else int(rng.integers(1, 8))
  env = run_helpers.StepLimitWrapper(inner, limit)
  outer = env
  if rng.random() < 0.3:
    outer = run_helpers.EnvironmentWrapper(env)
  mon.check('a wrapper is transparent', all(getattr(outer, f'{k}_spec')() is v for k, v in inner.specs.items())
            and outer.anything_else(3) == ('else', 3) and env.environment is inner and (outer is env or outer.environment is env), None)
  steps, over, story = 0, True, ''
  for call in range(int(rng.integers(5, 60))):
    asked, given = len(inner.calls), len(inner.given)
    action = rng.random(2)
    reset = rng.random() < 0.1
    ts = outer.reset() if reset else outer.step(action)
    mine = inner.given[given:]
    mon.require('the environment is asked once', len(inner.calls) == asked + 1 and len(mine) == 1, lambda: dict(calls=inner.calls[asked:]))
    t = mine[0]
    first = reset or over
    steps = 0 if first else steps + 1
    cut = not first and limit is not None and steps >= limit
    want = dm_env.StepType.FIRST if first else dm_env.StepType.LAST if cut else t.step_type
    same = ts.observation is t.observation and ts.reward == t.reward and ts.discount == t.discount
    passed = first or (inner.calls[-1][0] == 'step' and inner.calls[-1][1] is action)
    mon.check('the step limit ends episodes at the limit and changes nothing else', ts.step_type == want and same and passed,
              lambda: dict(limit=limit, steps=steps, got=ts, given=t, want=want, story=story))
    over = want == dm_env.StepType.LAST
    mon.count('limit and end coincide', cut and t.last())
    story += {0: 'F', 1: '.', 2: 'L'}[int(ts.step_type)]
  outer.close()
  mon.check('a wrapper is transparent', inner.calls[-1][0] == 'close', None)
  mon.state('limits', limit, story)


KINDS = [Kind('limits', limits, 80, 3000), Kind('unseeded', unseeded, 12, 200), Kind('histories', histories, 110, 3500), Kind('endings', endings, 40, 800), Kind('images', images, 8, 100)]
