"""C07: the waiting-time and branching law of the beam-driven transitions."""
import datetime as dt

import numpy as np
from scipy import stats

from vlib import gen
from vlib.harness import Kind
from putting_dune import geometry
from putting_dune import graphene
from putting_dune import microscope_utils as mu

PROPERTY = 'C07'
RULE = (
    'Long recorded exposure histories under stand-in rate models with known'
    ' rates (1-5 successors, total rates of one per day to 200 per second, constant,'
    ' state-dependent and beam-dependent, some rates zero), tested against the'
    ' exponential/multinomial law. Non-trivial: at least 300 recorded'
    ' transitions or 300 exposures; distinct by rate table and outcome.'
)
ASSUMPTIONS = [
    'Distributional verdicts use p < 1e-9 per test on fixed seeds; deviations'
    ' that small samples cannot show are not excluded.',
]
REQUIRED = {
    'waiting times are exponential': 18, 'branching follows the rates': 18,
    'count per exposure is Poisson': 18, 'state dependent rates': 9,
    'impossible successors never happen': 18, 'survival probability': 18,
    'beam dependent rates': 6, 'recorded transitions': 18000,
}
ALPHA = 1e-9


class Recorder(mu.SimulatorObserver):

  def __init__(self):
    self.events = []

  def observe_transition(self, time_since_control_was_applied, grid):
    self.events.append((time_since_control_was_applied.total_seconds(), grid))


class Ring:
  """A rate model on m states arranged in a ring: the silicon sits on atom s.

  Successor j of state s is state (s + j + 1) mod m with rate table[s][j],
  optionally scaled by the beam's x coordinate.
  """

  def __init__(self, material, table, beam_scaled=False):
    self.positions = material.grid.atom_positions
    self.table = np.asarray(table, float)
    self.m = len(self.table)
    self.n = len(self.positions)
    self.beam_scaled = beam_scaled
    self.kind = 0

  def grid(self, s):
    numbers = np.full(self.n, gen.CARBON)
    numbers[s % self.m] = gen.SILICON
    return mu.AtomicGrid(self.positions, numbers)

  def state(self, grid):
    return int(np.flatnonzero(grid.atomic_numbers == gen.SILICON)[0])

  def __call__(self, grid, beam_position):
    s = self.state(grid)
    scale = beam_position.x if self.beam_scaled else 1.0
    return graphene.Rates([
        graphene.SuccessorState(self.grid(s + j + 1), np.float32(r * scale))
        for j, r in enumerate(self.table[s])
    ])


def make(rng, table, beam_scaled=False):
  holder = {}

  def fn(grid, beam_position):
    return holder['ring'](grid, beam_position)

  m = graphene.PristineSingleDopedGraphene(rate_function=fn, grid_columns=10)
  m.reset(rng)
  ring = Ring(m, table, beam_scaled)
  holder['ring'] = ring
  m.grid = ring.grid(0)
  return m, ring


def expose(m, rng, seconds, x=0.0):
  rec = Recorder()
  m.apply_control(
      rng,
      mu.BeamControl(geometry.Point((x, 0.0)), dt.timedelta(seconds=seconds)),
      [rec],
  )
  return rec.events


def rates_row(rng, k):
  row = rng.dirichlet(np.ones(k) * 1.5)
  if k > 1 and rng.random() < 0.5:
    row[int(rng.integers(0, k))] = 0.0
    row = row / row.sum()
  return row


def pooled(values, probs):
  """Chi-square p-value with small bins pooled."""
  obs, exp = np.asarray(values, float), np.asarray(probs, float) * np.sum(values)
  order = np.argsort(exp)
  o, e, co, ce = [], [], 0.0, 0.0
  for i in order:
    co, ce = co + obs[i], ce + exp[i]
    if ce >= 8:
      o.append(co)
      e.append(ce)
      co, ce = 0.0, 0.0
  if o:
    o[-1] += co
    e[-1] += ce
  if len(o) < 2:
    return 1.0
  chi = float(np.sum((np.array(o) - np.array(e)) ** 2 / np.array(e)))
  return float(stats.chi2.sf(chi, len(o) - 1))


def constant(mon, rng):
  """One long exposure, then many short ones, at constant rates."""
  k = int(rng.integers(1, 6))
  m_states = k + 1
  row = rates_row(rng, k)
  # From a hop in a day to hundreds in a second.
  total = gen.log_uniform(rng, 0.02, 200) if rng.random() < 0.75 else gen.log_uniform(rng, 1e-5, 0.02)
  mat, ring = make(rng, np.tile(row * total, (m_states, 1)))
  n = 5000
  events = expose(mat, rng, n / total)
  times = np.array([t for t, _ in events])
  gaps = np.diff(np.concatenate([[0.0], times]))
  if len(gaps) > 50:
    p = stats.kstest(gaps * total, 'expon').pvalue
    mon.check('waiting times are exponential', p > ALPHA,
              lambda: dict(total=total, n=len(gaps), mean_over_expected=float(gaps.mean() * total), p=p))
  pc = 2 * min(stats.poisson.cdf(len(events), n), stats.poisson.sf(len(events) - 1, n))
  mon.check('count per exposure is Poisson', pc > ALPHA, lambda: dict(expected=n, got=len(events)))
  states = [0] + [ring.state(g) for _, g in events]
  steps = (np.diff(states) - 1) % m_states
  counts = np.bincount(steps, minlength=m_states)[:m_states]
  mon.check('impossible successors never happen', counts[k:].sum() == 0 and all(counts[j] == 0 for j in range(k) if row[j] == 0),
            lambda: dict(row=row, counts=counts))
  mon.check('branching follows the rates', pooled(counts[:k], row) > ALPHA,
            lambda: dict(rates=row * total, counts=counts))
  mon.count('recorded transitions', len(events))
  # Short exposures.
  mean = float(rng.choice([0.1, 0.5, 1.3]))
  tally, first, reps = [], [], 2500
  for _ in range(reps):
    ev = expose(mat, rng, mean / total)
    tally.append(len(ev))
    if ev:
      first.append(ev[0][0])
  tally = np.array(tally)
  top = 8
  hist = np.bincount(np.minimum(tally, top), minlength=top + 1)
  probs = stats.poisson.pmf(np.arange(top), mean)
  probs = np.append(probs, 1 - probs.sum())
  mon.check('count per exposure is Poisson', pooled(hist, probs) > ALPHA, lambda: dict(mean=mean, hist=hist, expected=probs * reps))
  quiet = int((tally == 0).sum())
  mon.check('survival probability', stats.binomtest(quiet, reps, float(np.exp(-mean))).pvalue > ALPHA,
            lambda: dict(mean=mean, quiet=quiet, of=reps, expected=reps * np.exp(-mean)))
  if len(first) > 30:
    # First transition time, conditioned on being inside the dwell.
    u = (1 - np.exp(-np.array(first) * total)) / (1 - np.exp(-mean))
    mon.check('waiting times are exponential', stats.kstest(u, 'uniform').pvalue > ALPHA,
              lambda: dict(mean=mean, n=len(first), average=float(u.mean())))
  mon.count('recorded transitions', int(tally.sum()))
  mon.count('exposures', reps + 1)
  mon.state(round(total, 6), k, len(events))
  mon.sample(rates=row * total, transitions=len(events), expected=n)


def state_dependent(mon, rng):
  """After each transition the rates of the new state apply."""
  m_states = int(rng.integers(2, 6))
  k = m_states - 1
  table = np.stack([rates_row(rng, k) * gen.log_uniform(rng, 0.2, 50) for _ in range(m_states)])
  mat, ring = make(rng, table)
  slow = table.sum(1).min()
  events = []
  t_total = 0.0
  gaps, at = [], []
  while len(gaps) < 4000 and t_total < 40:
    t_total += 1
    s0 = ring.state(mat.grid)
    ev = expose(mat, rng, 60.0 / slow)
    prev = 0.0
    for t, g in ev:
      gaps.append(t - prev)
      at.append((s0, ring.state(g)))
      prev, s0 = t, ring.state(g)
    events += ev
  gaps, at = np.array(gaps), np.array(at)
  for s in range(m_states):
    sel = at[:, 0] == s
    if sel.sum() < 40:
      continue
    scaled = gaps[sel] * table[s].sum()
    # censoring at the end of an exposure removes less than one gap in sixty
    d = stats.kstest(scaled, 'expon')
    mon.check('state dependent rates', d.pvalue > ALPHA or d.statistic < 0.04,
              lambda: dict(state=s, rate=table[s].sum(), n=int(sel.sum()), mean=float(scaled.mean())))
    steps = (at[sel, 1] - s - 1) % m_states
    mon.check('branching follows the rates', pooled(np.bincount(steps, minlength=k)[:k], table[s] / table[s].sum()) > ALPHA,
              lambda: dict(state=s, rates=table[s], counts=np.bincount(steps, minlength=k)))
    mon.check('impossible successors never happen', all(table[s][j] > 0 for j in set(steps.tolist())), None)
  mon.count('recorded transitions', len(gaps))
  mon.state('table', gen.digest(table))


def beam_dependent(mon, rng):
  """Each exposure uses the rates at its own beam position."""
  total = gen.log_uniform(rng, 0.5, 20)
  mat, _ = make(rng, [[total * 0.7, total * 0.3]] * 3, beam_scaled=True)
  xs = [0.25, 1.0, 3.0]
  tally = {x: [] for x in xs}
  for _ in range(3000):
    x = float(rng.choice(xs))
    tally[x].append(len(expose(mat, rng, 0.8 / total, x)))
  for x in xs:
    n, s = len(tally[x]), int(np.sum(tally[x]))
    mean = 0.8 * x * n
    p = 2 * min(stats.poisson.cdf(s, mean), stats.poisson.sf(s - 1, mean))
    mon.check('beam dependent rates', p > ALPHA, lambda: dict(x=x, expected=mean, got=s))
    mon.count('recorded transitions', s)
  mon.count('exposures', 3000)
  mon.state('beam', round(total, 6))


def split(mon, rng):
  """Cutting an exposure in pieces does not change its law."""
  total = gen.log_uniform(rng, 0.5, 50)
  mat, _ = make(rng, [[total]] * 2)
  pieces = int(rng.integers(2, 12))
  reps, mean = 1200, 1.0
  tally = []
  for _ in range(reps):
    tally.append(sum(len(expose(mat, rng, mean / total / pieces)) for _ in range(pieces)))
  hist = np.bincount(np.minimum(tally, 6), minlength=7)
  probs = stats.poisson.pmf(np.arange(6), mean)
  probs = np.append(probs, 1 - probs.sum())
  mon.check('count per exposure is Poisson', pooled(hist, probs) > ALPHA, lambda: dict(pieces=pieces, hist=hist))
  mon.count('recorded transitions', int(np.sum(tally)))
  mon.count('exposures', reps * pieces)
  mon.state('split', pieces, round(total, 6))


KINDS = [
    Kind('constant', constant, 32, 800),
    Kind('state dependent', state_dependent, 16, 400),
    Kind('beam dependent', beam_dependent, 8, 200),
    Kind('split', split, 12, 200),
]
