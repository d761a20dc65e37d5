"""C06: conservation under irradiation."""
import datetime as dt

import numpy as np

from vlib import gen
from vlib.harness import Kind
from putting_dune import geometry
from putting_dune import graphene
from putting_dune import microscope_utils as mu

PROPERTY = 'C06'
RULE = (
    'Random histories of 1-25 beam exposures on doped sheets of 10-30 columns'
    ' under every rate model (inverse square, human prior, random Gaussian'
    ' mixtures, and stand-ins with zero, tiny and very large rates), dwells'
    ' from zero to hours, observed event by event. Non-trivial: the history'
    ' contains at least one transition; distinct by final state.'
)
ASSUMPTIONS = ['Neighbours are judged by an independent nearest-neighbour search.']
REQUIRED = {
    'positions are conserved': 300, 'exactly one dopant': 300,
    'moves to one of three nearest neighbours': 1200,
    'only possible successors': 1200,
    'transition times ascend within the dwell': 1200,
    'last reported state is the state': 180,
    'every state change is reported': 180, 'states handed out do not change': 60,
    'zero dwell does nothing': 12, 'zero rates do nothing': 12,
}


class Recorder(mu.SimulatorObserver):

  def __init__(self, log, name):
    self.log = log
    self.name = name

  def observe_transition(self, time_since_control_was_applied, grid):
    self.log.append((self.name, time_since_control_was_applied, grid))


def model(rng):
  """A rate function and a bound on its total rate."""
  k = rng.integers(0, 6)
  if k == 0:
    return 'inverse square', graphene.PristineSingleSiGrRatePredictor(graphene.simple_canonical_rate_function), 3.0, 0.0005
  if k == 1 and rng.random() < 0.4:
    return 'human prior', graphene.PristineSingleSiGrRatePredictor(graphene.HumanPriorRatePredictor().predict), 1.0, 0.013
  if k == 2:
    fn = graphene.GaussianMixtureRateFunction.sample_new(rng)
    return 'gaussian mixture', fn, 3.0 * fn.max_rate * len(fn.mixture_weights), 0.002
  scale = gen.log_uniform(rng, 1e-3, 300)
  table = rng.uniform(0, 1, size=(7, 3)) * scale
  table[rng.random(size=table.shape) < 0.35] = 0.0
  if k == 3:
    table[:] = 0.0
    table[:, int(rng.integers(0, 3))] = scale

  def canonical(grid, beam_position, silicon_position, neighbor_indices):
    # depends on the state only, so it is reproducible
    return table[int(np.flatnonzero(grid.atomic_numbers == gen.SILICON)[0]) % 7].astype(
        [np.float32, np.float64][len(table) % 2])

  return f'table', graphene.PristineSingleSiGrRatePredictor(canonical), 3 * scale, 0.0005


def history(mon, rng):
  name, rate_fn, bound, cost = model(rng)
  calls = []

  def spy(grid, beam_position):
    out = rate_fn(grid, beam_position)
    calls.append((grid, beam_position, out))
    return out

  columns = int(rng.choice([10, 14, 20, 30]))
  m = graphene.PristineSingleDopedGraphene(rate_function=spy, grid_columns=columns)
  m.reset(rng)
  pos0 = m.grid.atom_positions.copy()
  handed_out = [(m.grid, gen.digest(m.grid))]
  total_moves = 0
  for _ in range(int(rng.integers(1, 26 if cost < 0.01 else 4))):
    si = m.get_silicon_position()
    beam = si + rng.normal(0, 1.5, size=2) if rng.random() < 0.8 else rng.uniform(-30, 30, size=2)
    k = rng.integers(0, 4)
    if k == 0:
      dwell = dt.timedelta(0)
    elif k == 1:
      dwell = dt.timedelta(seconds=1.5)
    else:
      dwell = dt.timedelta(seconds=float(gen.log_uniform(rng, 1e-4, 60)))
    # keep the expected number of transitions bounded
    dwell = min(dwell, dt.timedelta(seconds=(60 if cost < 0.01 else 8) / bound))
    before = m.grid
    si_before = int(np.flatnonzero(before.atomic_numbers == gen.SILICON)[0])
    log = []
    observers = [Recorder(log, i) for i in range(int(rng.integers(1, 3)))]
    calls.clear()
    beam_point = geometry.Point(tuple(beam))
    m.apply_control(rng, mu.BeamControl(beam_point, dwell, 80.0, 0.3), observers)
    after = m.grid
    mon.check('positions are conserved', np.array_equal(after.atom_positions, pos0),
              lambda: dict(model=name, shape=after.atom_positions.shape))
    num = after.atomic_numbers
    mon.require('exactly one dopant', len(num) == len(pos0) and (num == gen.SILICON).sum() == 1
                and (num == gen.CARBON).sum() == len(num) - 1,
                lambda: dict(model=name, silicon=int((num == gen.SILICON).sum())))
    # All observers see the same events, in the same order.
    streams = [[(t, g) for o, t, g in log if o == ob.name] for ob in observers]
    mon.check('observers agree', all(len(s) == len(streams[0]) and all(a[0] == b[0] and a[1] is b[1] or gen.digest(a) == gen.digest(b) for a, b in zip(s, streams[0])) for s in streams), None)
    chain, last_t, at = streams[0], dt.timedelta(0), si_before
    for t, g in chain:
      mon.check('transition times ascend within the dwell', last_t <= t <= dwell and isinstance(t, dt.timedelta),
                lambda: dict(model=name, previous=last_t, time=t, dwell=dwell))
      last_t = t
      sis = np.flatnonzero(g.atomic_numbers == gen.SILICON)
      mon.require('exactly one dopant', len(sis) == 1 and np.array_equal(g.atom_positions, pos0), dict(model=name))
      to = int(sis[0])
      d = np.hypot(*(pos0 - pos0[at]).T)
      d[at] = np.inf
      third = np.sort(d)[2]
      mon.check('moves to one of three nearest neighbours', to != at and d[to] <= third + 1e-9,
                lambda: dict(model=name, moved=d[to], third=third))
      # The successor is one that the rate model offered, with a positive rate.
      offered = [c for c in calls if int(np.flatnonzero(c[0].atomic_numbers == gen.SILICON)[0]) == at]
      ok = any(
          s.rate > 0 and s.grid.atomic_numbers[to] == gen.SILICON
          for c in offered for s in c[2].successor_states
      )
      mon.check('only possible successors', ok, lambda: dict(model=name, offered=len(offered)))
      at = to
      total_moves += 1
    final_si = int(np.flatnonzero(num == gen.SILICON)[0])
    if chain:
      mon.check('last reported state is the state', final_si == at, lambda: dict(model=name, reported=at, actual=final_si))
    mon.check('every state change is reported', final_si == at, lambda: dict(model=name, from_=si_before, to=final_si, reported=len(chain)))
    if dwell == dt.timedelta(0):
      mon.check('zero dwell does nothing', not chain and gen.digest(after) == gen.digest(before), dict(model=name))
    mon.check('rates are asked for the beam position',
              all(np.allclose(gen.xy(c[1]), beam, atol=1e-9) for c in calls), lambda: dict(model=name, beam=beam))
    handed_out.append((after, gen.digest(after)))
    handed_out += [(g, gen.digest(g)) for _, g in chain[-2:]]
  mon.check('states handed out do not change', all(gen.digest(g) == h for g, h in handed_out), dict(model=name))
  mon.count('transitions', total_moves)
  mon.count('exposures', len(handed_out))
  mon.count('histories: ' + name)
  if total_moves:
    mon.state(gen.digest(m.grid), name)
  mon.sample(model=name, columns=columns, transitions=total_moves)


def silence(mon, rng):
  """No rate, no transition, however long the exposure."""
  k = rng.integers(0, 3)
  if k == 0:
    fn = graphene.PristineSingleSiGrRatePredictor(lambda *a: np.zeros(3))
  elif k == 1:
    fn = graphene.GaussianMixtureRateFunction.sample_new(rng)
  else:
    fn = graphene.PristineSingleSiGrRatePredictor(lambda *a: np.zeros(3, np.float32))
  m = graphene.PristineSingleDopedGraphene(rate_function=fn, grid_columns=10)
  m.reset(rng)
  before = gen.digest(m.grid)
  log = []
  dwell = [dt.timedelta(seconds=1), dt.timedelta(hours=1), dt.timedelta(hours=2), dt.timedelta(days=1, microseconds=1)][rng.integers(0, 4)]
  with np.errstate(all='ignore'):
    m.apply_control(rng, mu.BeamControl(geometry.Point((4000.0, 4000.0)), dwell), [Recorder(log, 0)])
  mon.check('zero rates do nothing', not log and gen.digest(m.grid) == before, dict(dwell=dwell, events=len(log)))
  mon.state('silence', dwell, k)


KINDS = [Kind('history', history, 240, 6000), Kind('silence', silence, 40, 400)]
