"""C13: goals."""
import datetime as dt

import numpy as np
from scipy import stats

from vlib import gen
from vlib.harness import Kind
from putting_dune import goals
from putting_dune import graphene
from putting_dune import microscope_utils as mu

PROPERTY = 'C13'
RULE = (
    'Random views (square and elongated) of doped lattice patches with zero,'
    ' one or several silicon atoms; goals drawn hundreds of times per view with'
    ' default and custom distance ranges; reward sequences with the silicon at'
    ' random and near-threshold distances from the goal, seen through other'
    ' views than the one the goal was chosen in, with elapsed times from zero'
    ' to days. Non-trivial: at least two candidate goals, or a reward decision;'
    ' distinct by view and grid fingerprint.'
)
ASSUMPTIONS = [
    'With several silicon atoms the one nearest the centre of the view counts;'
    ' inputs where two are nearly equally near are not generated.',
    'Distances within 1e-4 angstroms of a threshold are not judged.',
    'Uniformity verdicts use p < 1e-9.',
]
REQUIRED = {
    'goal is an atom in range': 2400, 'choice is uniform': 20, 'no candidate is an error': 20,
    'no silicon is an error': 20, 'terminal exactly within half a bond': 600,
    'reward is the elapsed discount at the goal': 600, 'goal reached': 150, 'goal missed': 150,
    'goal stays where it is': 600, 'never truncates': 600,
}
GAMMA = 0.9967


def scene(rng, n_si=1, aspect=None):
  """An observation of a lattice patch through a random view."""
  f = gen.fov(rng, lo=9, hi=30 if rng.random() < 0.9 else 70, offset=gen.log_uniform(rng, 1, 100))
  pos, _ = gen.patch_in_fov(rng, f, jitter=float(rng.choice([0.0, 0.02])))
  box = gen.fov_box(f)
  micro = gen.to_microscope(box, pos)
  numbers = np.full(len(pos), gen.CARBON)
  if n_si:
    ids = rng.choice(len(pos), size=n_si, replace=False)
    numbers[ids] = gen.SILICON
    d = np.hypot(*(micro[ids] - 0.5).T)
    dm = np.hypot(*(pos[ids] - box.mean(0)).T)
    order = np.argsort(d)
    if n_si > 1 and (d[order[1]] - d[order[0]] < 1e-3 or np.argmin(dm) != order[0]):
      # Ambiguous: keep only the one that counts.
      numbers[ids] = gen.CARBON
      numbers[ids[order[0]]] = gen.SILICON
    si = ids[order[0]]
  else:
    si = None
  t = gen.timedelta(rng)
  obs = mu.MicroscopeObservation(mu.AtomicGrid(micro, numbers), f, (), t)
  return obs, pos, numbers, si, box


def choosing(mon, rng):
  n_si = int(rng.choice([0, 1, 1, 1, 1, 2, 3]))
  obs, pos, numbers, si, box = scene(rng, n_si)
  goal = goals.SingleSiliconGoalReaching()
  lo, hi = 0.1, 50.0
  k = rng.integers(0, 5)
  if k == 1:
    lo, hi = 0.1, float(rng.uniform(1.6, 6))
  elif k == 2:
    lo, hi = float(rng.uniform(2, 5)), float(rng.uniform(6, 20))
  elif k == 3:
    lo, hi = 0.2, 1.2  # no atom is that near
  elif k == 4:
    lo, hi = 1e3, 2e3  # nor that far
  if k:
    goal.goal_range_angstroms = (lo, hi)
  before = gen.digest(obs)
  if n_si == 0:
    try:
      goal.reset(rng, obs)
      ok = False
    except graphene.SiliconNotFoundError:
      ok = True
    mon.check('no silicon is an error', ok, None)
    try:
      goal.calculate_reward_and_terminal(obs)
      ok = False
    except graphene.SiliconNotFoundError:
      ok = True
    mon.check('no silicon is an error', ok, None)
    return
  d = np.hypot(*(pos - pos[si]).T)
  if np.any(np.abs(d - lo) < 1e-4) or np.any(np.abs(d - hi) < 1e-4):
    return
  valid = np.flatnonzero((d > lo) & (d < hi))
  if len(valid) == 0:
    try:
      goal.reset(rng, obs)
      ok = False
    except RuntimeError:
      ok = True
    mon.check('no candidate is an error', ok, lambda: dict(range=[lo, hi]))
    return
  draws = 60 if len(valid) > 12 else 240
  hits = np.zeros(len(pos))
  for _ in range(draws):
    goal.reset(rng, obs)
    g = np.asarray(goal.goal_position_material_frame, float).reshape(-1)
    off = np.hypot(*(pos - g).T)
    j = int(np.argmin(off))
    mon.check('goal is an atom in range', off[j] < 1e-5 and j in valid,
              lambda: dict(goal=g, nearest=off[j], distance=d[j], range=[lo, hi], fov=box))
    mon.check('current goal agrees', np.allclose(gen.xy(goal.current_goal), g), None)
    hits[j] += 1
  mon.check('observation is left alone', gen.digest(obs) == before, None)
  if len(valid) >= 2 and draws / len(valid) >= 15:
    p = stats.chisquare(hits[valid]).pvalue
    mon.check('choice is uniform', p > 1e-9, lambda: dict(hits=hits[valid], p=p))
  elif len(valid) >= 2:
    # Coarser: near half against far half.
    order = valid[np.argsort(d[valid])]
    half = order[:len(order) // 2]
    p = stats.binomtest(int(hits[half].sum()), draws, len(half) / len(valid)).pvalue
    left = valid[pos[valid][:, 0] < np.median(pos[valid][:, 0])]
    p2 = stats.binomtest(int(hits[left].sum()), draws, len(left) / len(valid)).pvalue
    mon.check('choice is uniform', min(p, p2) > 1e-9, lambda: dict(p=[p, p2], draws=draws))
    mon.check('choice varies', (hits > 0).sum() > 1, None)
  if len(valid) >= 2:
    mon.state('choose', before, lo, hi)
  mon.sample(fov=box, candidates=len(valid), range=[lo, hi], silicon=pos[si])


def reaching(mon, rng):
  obs, pos, numbers, si, box = scene(rng)
  goal = goals.SingleSiliconGoalReaching()
  try:
    goal.reset(rng, obs)
  except RuntimeError:
    return
  g = np.array(goal.goal_position_material_frame, float).reshape(2)
  for _ in range(int(rng.integers(3, 12))):
    k = rng.integers(0, 5)
    r = [rng.uniform(0, 0.7), rng.uniform(0.72, 3), 0.71 + rng.choice([-1, 1]) * rng.uniform(2e-4, 0.02),
         rng.uniform(0, 40), 0.0][k]
    where = g + r * gen.rotate(np.array([1.0, 0.0]), rng.uniform(0, 2 * np.pi))
    lo, hi = [(9, 30), (9, 30), (1, 9), (30, 300)][int(rng.integers(0, 4))]
    f = gen.fov(rng, lo=lo, hi=hi, offset=0.0)
    # Any view that contains the silicon.
    size = np.array([f.width, f.height])
    corner = where - rng.uniform(0.1, 0.9, 2) * size
    b = np.stack([corner, corner + size])
    f = mu.MicroscopeFieldOfView(gen.geometry.Point(b[0]), gen.geometry.Point(b[1]))
    others = rng.uniform(0, 1, size=(int(rng.integers(0, 8)), 2))
    micro = np.concatenate([gen.to_microscope(b, where)[None], others])
    num = np.array([gen.SILICON] + [gen.CARBON] * len(others))
    perm = rng.permutation(len(num))
    t = gen.timedelta(rng)
    o = mu.MicroscopeObservation(mu.AtomicGrid(micro[perm], num[perm]), f, gen.controls(rng), t)
    out = goal.calculate_reward_and_terminal(o)
    hit = r < 0.71
    mon.count('goal reached' if hit else 'goal missed')
    mon.check('terminal exactly within half a bond', bool(out.is_terminal) == hit,
              lambda: dict(distance=r, terminal=out.is_terminal, fov=b))
    want = GAMMA ** t.total_seconds() if hit else 0.0
    mon.check('reward is the elapsed discount at the goal', abs(out.reward - want) <= 1e-9,
              lambda: dict(reward=out.reward, want=want, elapsed=t))
    mon.check('never truncates', not out.is_truncated, None)
    mon.check('goal stays where it is', np.array_equal(g, np.asarray(goal.goal_position_material_frame, float).reshape(2)), None)
    mon.state('reach', round(r, 6), t)
  mon.sample(goal=g, fov=box)


KINDS = [Kind('choosing', choosing, 700, 12000), Kind('reaching', reaching, 500, 15000)]
