"""C09: simulator event history and clock."""
import dataclasses
import datetime as dt

import numpy as np

from vlib import gen
from vlib import simtrace
from vlib.harness import Kind

PROPERTY = 'C09'
RULE = (
    'Multi-episode histories of the real simulator (1-3 episodes, up to 14'
    ' steps, 0-5 controls per step with zero, fractional and repeated dwells'
    ' and varied beam settings, on a slow material also dwells of minutes to'
    ' weeks, image durations from zero to hours, with and'
    ' without rendered images, observers added and removed on the way), each'
    ' returned observation checked against the recorded event trace.'
    ' Non-trivial: at least one control was applied; distinct by trace shape.'
)
ASSUMPTIONS = ['Notifications are recorded at the public observer interface.']
REQUIRED = {
    'event order': 480, 'clock adds up': 480, 'controls applied once, in order': 360,
    'control settings reach the material': 900, 'control position is converted': 900,
    'observation lists its controls': 420, 'transitions follow their control': 360,
    'observers agree': 90, 'detached observers hear nothing': 35,
    'image only on request': 420, 'irradiation at the control position': 180,
    'transition events': 900, 'recentering events': 20, 'views and sheet are reported': 480,
}


def grammar(events, n_controls, reset, rendered):
  """Returns None if the trace is a sentence of the documented order."""
  kinds = [e[0] for e in events]
  i = 0

  def eat(k):
    nonlocal i
    if i < len(kinds) and kinds[i] == k:
      i += 1
      return True
    return False

  if reset:
    if not eat('reset'):
      return 'no reset event first'
    eat('fov')
    if not eat('take'):
      return 'no image after reset'
  else:
    for c in range(n_controls):
      if not eat('apply'):
        return f'control {c} not applied'
      while eat('transition'):
        pass
    if not eat('take'):
      return 'no image after the controls'
    if eat('fov'):
      if not eat('take'):
        return 'no new image after moving the view'
  if rendered and not eat('image'):
    return 'requested image not reported'
  if i != len(kinds):
    return f'unexpected {kinds[i]} at {i}'
  return None


def views(mon, events, material, before, obs):
  """Resets, moves of the view and images are reported with the right views."""
  box = gen.fov_box(obs.fov)
  now, ok = before, True
  for k, data in events:
    if k == 'reset':
      now = gen.fov_box(data['fov'])
      ok &= gen.digest(data['grid']) == gen.digest(material.grid)
    elif k == 'fov':
      now = gen.fov_box(data['fov'])
    elif k == 'take':
      ok &= bool(np.allclose(gen.fov_box(data['fov']), now, atol=1e-9))
  mon.check('views and sheet are reported', ok and np.allclose(now, box, atol=1e-9), lambda: dict(kinds=[e[0] for e in events], before=before, last=now, observed=box))


LONG = [dt.timedelta(minutes=2), dt.timedelta(hours=5), dt.timedelta(days=1),
        dt.timedelta(days=3, hours=7, seconds=1.5), dt.timedelta(days=40)]


def patient(mon, rng):
  """Dwells of minutes up to weeks, which a slow material takes part in."""
  history(mon, rng, simtrace.patient_model())


def history(mon, rng, model=None):
  name, material, sim, trace, duration, beams = simtrace.make(rng, model=model)
  raised = False
  try:
    sim.step_and_image(rng, [])
  except RuntimeError:
    raised = True
  mon.check('use before reset is refused', raised and not trace.drain(), None)
  second = None
  for _ in range(int(rng.integers(1, 4))):
    render = bool(rng.random() < 0.12)
    obs = sim.reset(rng, return_image=render)
    events = trace.drain()
    bad = grammar(events, 0, True, render)
    mon.require('event order', bad is None, lambda: dict(why=bad, kinds=[e[0] for e in events], at='reset'))
    took = sum((e[1]['duration'] for e in events if e[0] == 'take'), dt.timedelta(0))
    mon.check('clock adds up', obs.elapsed_time == took == duration, lambda: dict(elapsed=obs.elapsed_time, images=took, duration=duration))
    mon.check('observation lists its controls', tuple(obs.controls) == (), None)
    views(mon, events, material, None, obs)
    mon.check('image only on request', (obs.image is not None) == render and obs.label_image is None, None)
    if second is not None:
      second.drain()
    for step in range(int(rng.integers(1, 15))):
      n = int(rng.choice([0, 1, 1, 1, 2, 3, 5]))
      controls = [simtrace.beam_near(rng, obs) for _ in range(n)]
      if model is not None:
        controls = [
            dataclasses.replace(c, dwell_time=LONG[rng.integers(0, len(LONG))])
            if rng.random() < 0.6 else c for c in controls
        ]
      if n >= 2 and rng.random() < 0.3:
        controls[1] = controls[0]
      given = list(controls) if rng.random() < 0.7 else tuple(controls)
      fov_before = obs.fov
      box = gen.fov_box(fov_before)
      render = bool(rng.random() < 0.06)
      beams.clear()
      digests = [gen.digest(c) for c in controls]
      previous = obs
      previous_digest = gen.digest(obs)
      if rng.random() < 0.15:
        if second is None:
          second = simtrace.TraceObserver()
          sim.add_observer(second)
        else:
          sim.remove_observer(second)
          gone = second
          second = None
          heard = len(gone.events)
          obs = sim.step_and_image(rng, [])
          trace.drain()
          box = gen.fov_box(obs.fov)
          mon.check('detached observers hear nothing', len(gone.events) == heard, dict(heard=len(gone.events) - heard))
          previous, previous_digest = obs, gen.digest(obs)
          beams.clear()
      obs = sim.step_and_image(rng, given, return_image=render)
      events = trace.drain()
      bad = grammar(events, n, False, render)
      mon.require('event order', bad is None, lambda: dict(model=name, why=bad, kinds=[e[0] for e in events][:40], controls=n))
      applied = [e[1]['control'] for e in events if e[0] == 'apply']
      mon.check('controls applied once, in order', len(applied) == n, lambda: dict(applied=len(applied), given=n))
      for c, a in zip(controls, applied):
        want = gen.to_material(box, gen.xy(c.position))
        mon.check('control position is converted', np.allclose(gen.xy(a.position), want, atol=1e-6),
                  lambda: dict(fov=box, control=gen.xy(c.position), applied=gen.xy(a.position), want=want))
        mon.check('control settings reach the material',
                  a.dwell_time == c.dwell_time and a.voltage_kv == c.voltage_kv and a.current_na == c.current_na,
                  lambda: dict(given=c, applied=a))
      views(mon, events, material, box, obs)
      dwell = sum((c.dwell_time for c in controls), dt.timedelta(0))
      took = [e[1]['duration'] for e in events if e[0] == 'take']
      moved = any(e[0] == 'fov' for e in events)
      mon.check('clock adds up',
                obs.elapsed_time == dwell + sum(took, dt.timedelta(0))
                and all(t == duration for t in took) and len(took) == (2 if moved else 1),
                lambda: dict(elapsed=obs.elapsed_time, dwell=dwell, images=took, duration=duration))
      ok = len(obs.controls) == n and all(
          gen.digest(a) == d for a, d in zip(obs.controls, digests))
      mon.check('observation lists its controls', ok and isinstance(obs.controls, tuple), lambda: dict(given=controls, listed=obs.controls))
      # Transitions belong to the exposure they follow.
      current, last, seen = None, dt.timedelta(0), 0
      for k, data in events:
        if k == 'apply':
          current, last = data['control'], dt.timedelta(0)
        elif k == 'transition':
          seen += 1
          mon.check('transitions follow their control', last <= data['time'] <= current.dwell_time,
                    lambda: dict(time=data['time'], dwell=current.dwell_time))
          last = data['time']
      if controls:
        mon.check('irradiation at the control position',
                  all(min(np.hypot(*(b - gen.to_material(box, gen.xy(c.position)))) for c in controls) < 1e-6 for b in beams),
                  lambda: dict(beams=beams[:4]))
        mon.state(name, tuple(e[0] for e in events), round(took[0].total_seconds(), 6))
      final = [e[1]['grid'] for e in events if e[0] == 'transition']
      if final:
        mon.check('last transition is the material', gen.digest(final[-1]) == gen.digest(material.grid), None)
      mon.check('image only on request', (obs.image is not None) == render, None)
      if render:
        im = [e[1]['image'] for e in events if e[0] == 'image']
        mon.check('reported image is the returned image', len(im) == 1 and np.array_equal(im[0], obs.image), None)
      mon.check('earlier observations do not change', gen.digest(previous) == previous_digest, None)
      if second is not None:
        other = second.drain()
        mon.check('observers agree', [e[0] for e in other] == [e[0] for e in events]
                  and gen.digest([e[1] for e in other]) == gen.digest([e[1] for e in events]),
                  lambda: dict(first=[e[0] for e in events], second=[e[0] for e in other]))
      mon.count('transition events', seen)
      mon.count('recentering events', moved)
      mon.count('controls', n)
      mon.sample(model=name, controls=n, kinds=[e[0] for e in events][:20], elapsed=obs.elapsed_time)
  if second is not None:
    sim.remove_observer(second)


KINDS = [Kind('history', history, 160, 4000), Kind('patient', patient, 12, 300)]
