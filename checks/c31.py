"""C31: event log, replay video and rate plots report what happened."""
import datetime as dt

import matplotlib
matplotlib.use('Agg')
from matplotlib import animation
from matplotlib.backends.backend_agg import FigureCanvasAgg
from matplotlib import colors as mcolors
from matplotlib import pyplot as plt
import numpy as np

from vlib import envs
from vlib import gen
from vlib.harness import Kind
from putting_dune import geometry
from putting_dune import graphene
from putting_dune import microscope_utils as mu
from putting_dune import plotting_utils
from putting_dune import simulator_observers

PROPERTY = 'C31'
RULE = (
    'Event logs of real multi-episode runs (all action adapters, bursts of'
    ' several controls, idle steps, re-centring views, rendered images) against'
    ' an independent trace of the same run; replay videos drawn frame by frame'
    ' through a recording writer from those logs and from hand-made histories'
    ' and read back from the axes; durations to hours; the three rate plots'
    ' over random doped sheets with an instrumented rate function.'
    ' Non-trivial: at least one control was applied.'
)
ASSUMPTIONS = [
    'Frames are read from the drawn artists of the axes at the moment the'
    ' animation hands them to its writer; the rendered pixels are not examined.',
    'In the logs, the grid, view, position and duration are compared by value.',
]
REQUIRED = {
    'log is the history since reset': 35, 'log holds what was reported': 480,
    'one frame per control and one after': 18, 'frame shows the atoms': 70,
    'frame shows the time before its control': 70, 'frame shows the beam': 45,
    'frame shows the view': 70, 'frame in view coordinates': 70,
    'frame shows the goal': 70, 'frame shows the last image': 9,
    'durations': 1800, 'no figure stays open': 18,
    'rates along a neighbour': 7, 'rates along the arc': 7, 'rate contours': 2,
    'no plot without a silicon': 7,
    'a rendered frame shows the view': 40, 'a rendered frame shows the beam': 20,
    'a rendered frame without a beam': 12, 'a rendered frame shows the goal': 40,
}
T = simulator_observers.SimulatorEventType


def grid_key(grid):
  return (np.asarray(grid.atom_positions).tobytes(), np.asarray(grid.atomic_numbers).tobytes())


def log_key(event):
  """Order and payload of one entry of the event log."""
  d = event.event_data
  if event.event_type is T.RESET:
    return ('reset', grid_key(d['grid']), gen.fov_box(d['fov']))
  if event.event_type is T.TRANSITION:
    return ('transition', d['time_since_control_was_applied'], grid_key(d['grid']))
  if event.event_type is T.APPLY_CONTROL:
    return ('apply', d['dwell_time'], tuple(gen.xy(d['position'])))
  if event.event_type is T.TAKE_IMAGE:
    return ('take', d['duration'], gen.fov_box(d['fov']))
  return ('image', np.asarray(d['image']).tobytes())


def trace_key(event):
  kind, d = event
  if kind == 'reset':
    return ('reset', grid_key(d['grid']), gen.fov_box(d['fov']))
  if kind == 'transition':
    return ('transition', d['time'], grid_key(d['grid']))
  if kind == 'apply':
    return ('apply', d['control'].dwell_time, tuple(gen.xy(d['control'].position)))
  if kind == 'take':
    return ('take', d['duration'], gen.fov_box(d['fov']))
  return ('image', np.asarray(d['image']).tobytes())


def same(a, b):
  if isinstance(a, (tuple, list)):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
  if isinstance(a, np.ndarray):
    return np.array_equal(a, b)
  return bool(a == b)


def run(mon, rng, image=False, episodes=None, columns=None, steps=None):
  """Runs a real environment; yields (log, trace) after every call."""
  log = simulator_observers.EventObserver()
  env, info = envs.build(
      rng, feature_name='image' if image else None, observers=(log,),
      limit=int(rng.choice([3, 7, 20])) if steps is None else steps, columns=columns)
  trace = info['trace']
  current = []
  for _ in range(episodes or int(rng.integers(1, 4))):
    ts = env.reset()
    current = trace.drain()
    yield log, current, env, True
    for _ in range(int(rng.integers(1, 8))):
      if ts.last():
        break
      ts = env.step(envs.action(rng, env.action_spec()))
      current = current + trace.drain()
      yield log, current, env, False


def events(mon, rng):
  image = bool(rng.random() < 0.08)
  shape = []
  kept = None
  for log, current, env, fresh in run(mon, rng, image=image):
    if fresh and kept is not None:
      # What was handed out for the previous episode is still that episode.
      mon.check('an earlier log is kept', len(kept[0]) == kept[1] and [id(e) for e in kept[0]] == kept[2], None)
    told = [e for e in current if e[0] != 'fov']
    got = list(log.events)
    mon.require('log is the history since reset',
                [e.event_type.name for e in got] == [
                    dict(reset='RESET', transition='TRANSITION', apply='APPLY_CONTROL',
                         take='TAKE_IMAGE', image='GENERATED_IMAGE')[e[0]] for e in told],
                lambda: dict(log=[e.event_type.name for e in got], told=[e[0] for e in told]))
    for e, t in zip(got, told):
      mon.check('log holds what was reported', same(log_key(e), trace_key(t)),
                lambda: dict(entry=e, told=t))
    kept = (log.events, len(got), [id(e) for e in got])
    shape.append(tuple(e[0][0] for e in told))
  mon.count('events logged', sum(map(len, shape)))
  mon.state(tuple(shape))
  mon.sample(log=''.join(shape[-1])[:60])


class Recorder(animation.AbstractMovieWriter):
  """A movie writer that reads the axes instead of rendering them."""

  def __init__(self):
    super().__init__()
    self.frames = []

  def setup(self, fig, outfile, dpi=None):
    self.fig = fig
    self.outfile = outfile
    self.dpi = dpi or 80

  @property
  def frame_size(self):
    return (8, 8)

  def grab_frame(self, **kw):
    self.frames.append([read(ax) for ax in self.fig.axes])

  def finish(self):
    pass


def read(ax):
  """Everything drawn on an axes, by marker and colour rather than by order."""
  lines = []
  for line in ax.lines:
    lines.append(dict(
        xy=np.stack([np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)], 1),
        marker=line.get_marker(), style=line.get_linestyle(),
        color=mcolors.to_hex(line.get_color())))
  return dict(lines=lines, texts=[t.get_text() for t in ax.texts],
              images=[np.array(im.get_array()) for im in ax.images],
              xlim=ax.get_xlim(), ylim=ax.get_ylim())


def has_points(drawn, points, tol=1e-9):
  """The points drawn with markers include exactly this set in one series."""
  points = np.asarray(points, float).reshape(-1, 2)
  for line in drawn['lines']:
    if line['xy'].shape == points.shape and np.allclose(line['xy'], points, rtol=0, atol=tol):
      return True
  # Possibly drawn in another order.
  key = lambda p: p[np.lexsort((p[:, 1], p[:, 0]))]
  return any(
      line['xy'].shape == points.shape and np.allclose(key(line['xy']), key(points), rtol=0, atol=tol)
      for line in drawn['lines'])


def outline(drawn, box, tol=1e-9):
  """Some connected line visits exactly the corners of the box."""
  x0, y0, x1, y1 = box
  corners = {(x0, y0), (x0, y1), (x1, y0), (x1, y1)}
  for line in drawn['lines']:
    pts = line['xy']
    if len(pts) < 5 or line['style'] in ('None', '', ' '):
      continue
    on = [min(corners, key=lambda c: abs(c[0] - p[0]) + abs(c[1] - p[1])) for p in pts]
    near = all(abs(c[0] - p[0]) <= tol and abs(c[1] - p[1]) <= tol for c, p in zip(on, pts))
    sides = all((a[0] == b[0]) or (a[1] == b[1]) for a, b in zip(on, on[1:]))
    if near and sides and set(on) == corners and on[0] == on[-1]:
      return True
  return False


def expected_frames(trace):
  """The documented frames: each control's state before it, then the end."""
  grid = fov = control = image = None
  elapsed = dt.timedelta(0)
  out = []

  def snap():
    out.append(dict(grid=grid, fov=fov, control=control, image=image, elapsed=elapsed))

  for kind, d in trace:
    if kind == 'reset':
      grid, fov = d['grid'], d['fov']
    elif kind == 'apply':
      control = np.asarray(gen.xy(d['control'].position), float)
      snap()
      elapsed += d['control'].dwell_time
    elif kind == 'transition':
      grid = d['grid']
    elif kind == 'take':
      fov = d['fov']
      elapsed += d['duration']
    elif kind == 'image':
      image = d['image']
  snap()
  return out


def clock(delta):
  hundredths = delta // dt.timedelta(milliseconds=10)
  return f'{hundredths // 6000:02d}:{hundredths // 100 % 60:02d}:{hundredths % 100:02d}'


def synthetic(rng):
  """A history in terms of notifications, with the corresponding log."""
  log = simulator_observers.EventObserver()
  grid = mu.AtomicGridMaterialFrame(mu.AtomicGrid(rng.uniform(-30, 30, size=(40, 2)), rng.choice([gen.CARBON, gen.CARBON, gen.SILICON], size=40)))
  trace = []

  def fov():
    c, h = rng.uniform(-30, 30, 2), rng.uniform(2, 30, 2)
    return mu.MicroscopeFieldOfView(
        geometry.PointMaterialFrame(geometry.Point(tuple(c - h))),
        geometry.PointMaterialFrame(geometry.Point(tuple(c + h))))

  images = rng.random() < 0.6
  f = fov()
  log.observe_reset(grid, f)
  trace.append(('reset', dict(grid=grid, fov=f)))
  for _ in range(int(rng.integers(0, 14))):
    k = rng.integers(0, 5)
    if k <= 1:
      c = mu.BeamControlMaterialFrame(mu.BeamControl(
          geometry.Point(tuple(rng.uniform(-30, 30, 2))),
          dt.timedelta(microseconds=int(rng.integers(0, 10 ** int(rng.integers(1, 10)))))))
      log.observe_apply_control(c)
      trace.append(('apply', dict(control=c)))
    elif k == 2:
      grid = mu.AtomicGridMaterialFrame(mu.AtomicGrid(
          grid.atom_positions + rng.normal(0, 1, size=(40, 2)), rng.choice([gen.CARBON, gen.CARBON, gen.SILICON], size=40)))
      t = dt.timedelta(seconds=float(rng.uniform(0, 2)))
      log.observe_transition(t, grid)
      trace.append(('transition', dict(time=t, grid=grid)))
    elif k == 3:
      f, d = fov(), dt.timedelta(seconds=float(rng.uniform(0, 200)))
      log.observe_take_image(d, f)
      trace.append(('take', dict(duration=d, fov=f)))
    elif images:
      im = rng.random((12, 12))
      log.observe_generated_image(im)
      trace.append(('image', dict(image=im)))
  return log.events, trace


def video(mon, rng):
  if rng.random() < 0.4:
    image = bool(rng.random() < 0.15)
    log = trace = None
    for log, trace, _, _ in run(mon, rng, image=image, episodes=1):
      pass
    log = list(log.events)
    origin = 'run'
  else:
    log, trace = synthetic(rng)
    origin = 'history'
  goal = rng.uniform(-30, 30, size=2)
  before_open = list(plt.get_fignums())
  digest = [gen.digest(log_key(e)) for e in log]
  anim = plotting_utils.generate_video_from_simulator_events(log, goal_position=goal)
  mon.check('no figure stays open', plt.get_fignums() == before_open, lambda: dict(open=plt.get_fignums()))
  rec = Recorder()
  anim.save('recorded', writer=rec)
  mon.check('no figure stays open', plt.get_fignums() == before_open, lambda: dict(open=plt.get_fignums()))
  mon.check('log survives the video', digest == [gen.digest(log_key(e)) for e in log], None)
  want = expected_frames(trace)
  got = rec.frames
  mon.require('one frame per control and one after', len(got) == len(want),
              lambda: dict(frames=len(got), want=len(want), origin=origin))
  any_image = any(e[0] == 'image' for e in trace)
  for i, (w, axes) in enumerate(zip(want, got)):
    where = dict(frame=i, of=len(want), origin=origin)
    mon.require('panels', len(axes) == (3 if any_image else 2), lambda: dict(where, axes=len(axes)))
    whole, view = axes[:2]
    pos, num = np.asarray(w['grid'].atom_positions), np.asarray(w['grid'].atomic_numbers)
    lo, hi = (np.asarray(c, float) for c in gen.fov_box(w['fov']))
    size = hi - lo
    x0, y0, x1, y1 = *lo, *hi
    to_view = lambda p: (np.asarray(p) - lo) / size
    carbon, silicon = pos[num == gen.CARBON], pos[num == gen.SILICON]
    mon.check('frame shows the atoms', has_points(whole, carbon) and has_points(whole, silicon), where)
    mon.check('frame in view coordinates',
              has_points(view, to_view(carbon), 1e-6) and has_points(view, to_view(silicon), 1e-6)
              and np.allclose(view['xlim'], (0, 1)) and np.allclose(view['ylim'], (0, 1)), where)
    mon.check('frame shows the goal', has_points(whole, goal) and has_points(view, to_view(goal), 1e-6), where)
    if w['control'] is not None:
      mon.check('frame shows the beam', has_points(whole, w['control'], 1e-6)
                and has_points(view, to_view(w['control']), 1e-6),
                lambda: dict(where, control=w['control'], lines=[l['xy'] for l in whole['lines'] if len(l['xy']) == 1]))
    else:
      mon.check('no beam before the first control',
                sum(len(l['xy']) for l in view['lines']) == len(carbon) + len(silicon) + 1, where)
    mon.check('frame shows the view', outline(whole, (x0, y0, x1, y1)), where)
    mon.check('frame shows the time before its control', clock(w['elapsed']) in whole['texts'],
              lambda: dict(where, texts=whole['texts'], elapsed=w['elapsed']))
    mon.check('whole sheet in sight', whole['xlim'][0] <= pos[:, 0].min() and whole['xlim'][1] >= pos[:, 0].max()
              and whole['ylim'][0] <= pos[:, 1].min() and whole['ylim'][1] >= pos[:, 1].max(), where)
    if any_image:
      ims = axes[2]['images']
      if w['image'] is None:
        mon.check('no image before there is one', not ims, where)
      else:
        mon.check('frame shows the last image', len(ims) == 1 and np.array_equal(np.squeeze(ims[0]), np.squeeze(w['image'])), where)
  mon.count('frames read', len(got))
  mon.state((origin, len(want), any_image, len(trace)))
  mon.sample(origin=origin, frames=len(got), last=clock(want[-1]['elapsed']), images=any_image)


def durations(mon, rng):
  for _ in range(300):
    us = int(rng.integers(0, 10 ** int(rng.integers(1, 12))))
    if rng.random() < 0.3:
      us = int(rng.integers(0, 10**4)) * 1_000_000 + int(rng.choice([0, 1, 9_999, 10_000, 989_999, 990_000, 994_999, 995_000, 999_999]))
    d = dt.timedelta(microseconds=us)
    got = plotting_utils.format_timedelta(d)
    mon.check('durations', got == clock(d), lambda: dict(duration=d, got=got, want=clock(d)))
    mon.state(clock(d))
  mon.sample(duration=str(d), text=got)


def doped(rng):
  """A doped sheet with the silicon somewhere inside, in the material frame."""
  m = graphene.PristineSingleDopedGraphene(
      rate_function=graphene.PristineSingleSiGrRatePredictor(graphene.simple_canonical_rate_function),
      grid_columns=30)
  m.reset(rng)
  grid = m.get_atoms_in_bounds(
      geometry.PointMaterialFrame(geometry.Point((-1e4, -1e4))),
      geometry.PointMaterialFrame(geometry.Point((1e4, 1e4))))
  pos, num = np.array(grid.atom_positions, float) * 2e4 - 1e4, np.array(grid.atomic_numbers)
  if num.sum() == 0 or (num == gen.SILICON).sum() != 1:
    raise AssertionError('a doped sheet has one silicon')
  if rng.random() < 0.5:
    # Vary which neighbour comes first, and where the sheet lies.
    order = rng.permutation(len(pos))
    pos, num = pos[order], num[order]
  pos = gen.rotate(pos + rng.uniform(-20, 20, 2), rng.uniform(0, 6.28))
  return mu.AtomicGridMaterialFrame(mu.AtomicGrid(pos, num))


class Rates:
  """A smooth rate function with a closed form, recording what it is asked."""

  def __init__(self, rng):
    self.a = rng.uniform(0.2, 3, size=3)
    self.calls = []

  def rate(self, direction, beam, i):
    return float(self.a[i] * np.exp(-0.5 * np.sum((beam - direction) ** 2) / gen.BOND**2))

  def __call__(self, grid, beam_position):
    pos, num = np.asarray(grid.atom_positions), np.asarray(grid.atomic_numbers)
    beam = np.asarray(gen.xy(beam_position), float)
    (si,) = np.nonzero(num == gen.SILICON)[0]
    delta = pos - pos[si]
    order = np.argsort(np.hypot(*delta.T))[1:4]
    # A fixed order of the three neighbours, whatever the order of the atoms.
    order = order[np.argsort(np.arctan2(delta[order, 1], delta[order, 0]))]
    states, rates = [], []
    for i, n in enumerate(order):
      new = num.copy()
      new[si], new[n] = new[n], new[si]
      r = self.rate(delta[n], beam - pos[si], i)
      rates.append(r)
      states.append(graphene.SuccessorState(
          mu.AtomicGridMaterialFrame(mu.AtomicGrid(pos.copy(), new)), r))
    self.calls.append(dict(si=pos[si].copy(), beam=beam, around=delta[order], rates=rates))
    return graphene.Rates(states)


def curves(ax):
  return [l for l in ax.lines if np.size(l.get_xdata()) > 2]


def curve_is(line, x, y):
  lx, ly = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
  return lx.shape == np.shape(x) and np.allclose(lx, x, rtol=1e-6, atol=1e-9) and np.allclose(ly, y, rtol=1e-5, atol=1e-9)


def relative(calls):
  return np.stack([c['beam'] - c['si'] for c in calls])


def rates(mon, rng):
  grid = doped(rng)
  before = gen.digest(grid)
  fig, axes = plt.subplots(1, 3)
  try:
    # Along the vector to one neighbour.
    fn = Rates(rng)
    n = int(rng.integers(5, 30))
    extent = (float(rng.uniform(-5, 0)), float(rng.uniform(1, 10)))
    plotting_utils.plot_rate_along_neighbor_vector3(axes[0], fn, grid, extent=extent, num_points=n)
    x = np.linspace(extent[0], extent[1], n)
    rel = relative(fn.calls)
    around = fn.calls[0]['around']
    which = [i for i in range(3) if len(rel) == n and np.allclose(rel, x[:, None] * around[i], atol=1e-6)]
    mon.require('beam along the neighbour', len(which) == 1, lambda: dict(beams=rel, around=around, extent=extent))
    y = np.array([c['rates'][which[0]] for c in fn.calls])
    mon.check('rates along a neighbour', any(curve_is(l, x, y) for l in curves(axes[0])),
              lambda: dict(want=y, drawn=[l.get_ydata() for l in curves(axes[0])]))

    # Around the silicon.
    fn = Rates(rng)
    radius = float(rng.uniform(0.2, 2.5))
    n = int(rng.integers(5, 40))
    plotting_utils.plot_rate_along_arc3(axes[1], fn, grid, normalized_radius=radius, num_points=n)
    rel = relative(fn.calls)
    mean = np.mean(np.hypot(*fn.calls[0]['around'].T))
    angle = np.unwrap(np.arctan2(rel[:, 1], rel[:, 0]))
    turn = np.diff(angle)
    mon.require('beam on the circle', len(rel) == n and np.allclose(np.hypot(*rel.T), radius * mean, rtol=1e-6)
                and np.allclose(np.abs(turn), 2 * np.pi / (n - 1), atol=1e-6)
                and np.allclose(turn, turn[0], atol=1e-6),
                lambda: dict(beams=rel, radius=radius, mean=mean))
    t = np.linspace(0, 2 * np.pi, n)
    each = np.array([c['rates'] for c in fn.calls])
    drawn = curves(axes[1])
    ok = len(drawn) == 4
    for y in [each.sum(1)] + list(each.T):
      ok = ok and any(curve_is(l, t, y) for l in drawn)
    mon.check('rates along the arc', ok, lambda: dict(want=each, drawn=[l.get_ydata() for l in drawn]))
    legend = axes[1].get_legend()
    if legend is not None and ok:
      for handle, text in zip(legend.legend_handles, legend.get_texts()):
        if text.get_text() == 'Total rate':
          match = [l for l in drawn if mcolors.to_hex(l.get_color()) == mcolors.to_hex(handle.get_color())]
          mon.check('total rate is labelled', len(match) == 1 and curve_is(match[0], t, each.sum(1)), None)

    if rng.random() < 0.4:
      fn = Rates(rng)
      half = float(rng.uniform(2.5, 4)) * gen.BOND
      n = int(rng.integers(12, 20))
      plotting_utils.plot_rate_function3(axes[2], fn, grid, extent=(-half, half), num_raster_points=n)
      raster = np.linspace(-half, half, n)
      want = {(round(a, 6), round(b, 6)) for a in raster for b in raster}
      got = {(round(a, 6), round(b, 6)) for a, b in relative(fn.calls) + 0.0}
      mon.check('beam over the raster', len(got) == n * n and all(
          min(abs(a - r) for r in raster) < 1e-5 and min(abs(b - r) for r in raster) < 1e-5 for a, b in got),
          lambda: dict(n=n, asked=len(got)))
      around = fn.calls[0]['around']
      dots = []  # (offset, colour)
      fields = []  # (centre of the highest level, colour)
      for c in axes[2].collections:
        if type(c).__name__ == 'PathCollection':
          off = np.asarray(c.get_offsets(), float)
          col = c.get_facecolors()
          for i, o in enumerate(off):
            dots.append((o, mcolors.to_hex(col[i % len(col)])))
        else:
          paths = [p for p in c.get_paths() if len(p.vertices) > 3]
          if paths:
            v = paths[-1].vertices
            fields.append(((v.min(0) + v.max(0)) / 2, c.get_cmap().name, mcolors.to_hex(c.get_cmap()(1.0))))
      si = [d for d in dots if np.hypot(*d[0]) < 1e-6 and d[1] == '#000000']
      near = [[d for d in dots if np.hypot(*(d[0] - a)) < 1e-6 and d[1] != '#000000'] for a in around]
      mon.check('silicon in the middle', len(si) >= 1 and np.allclose(axes[2].get_xlim(), (-half, half))
                and np.allclose(axes[2].get_ylim(), (-half, half)), None)
      mon.require('a dot for each neighbour', [len(d) for d in near] == [1, 1, 1],
                  lambda: dict(near=near, around=around))
      mon.require('a field for each neighbour', len(fields) == 3, lambda: dict(fields=fields))
      for a, (dot,) in zip(around, near):
        field = [f for f in fields if f[2] == dot[1]]
        mon.check('rate contours', len(field) == 1 and int(np.argmin(
            [np.hypot(*(b - field[0][0])) for b in around])) == int(np.argmin(
                [np.hypot(*(b - a)) for b in around])),
            lambda: dict(neighbour=a, fields=fields, dots=near))
    if rng.random() < 0.35:
      # The documented defaults: through the silicon and past the neighbour,
      # and the circle through the neighbours.
      fn = Rates(rng)
      plotting_utils.plot_rate_along_neighbor_vector3(axes[0], fn, grid)
      rel = relative(fn.calls)
      spans = []
      for a in fn.calls[0]['around']:
        alpha = rel @ a / (a @ a)
        if np.allclose(rel, alpha[:, None] * a, atol=1e-6):
          spans.append((alpha.min(), alpha.max(), len(alpha)))
      mon.check('beam along the neighbour by default', len(spans) == 1 and np.allclose(spans[0], (-5, 10, 250), atol=1e-6),
                lambda: dict(spans=spans))
      fn = Rates(rng)
      plotting_utils.plot_rate_along_arc3(axes[1], fn, grid)
      mean = np.mean(np.hypot(*fn.calls[0]['around'].T))
      mon.check('beam on the circle by default', np.allclose(np.hypot(*relative(fn.calls).T), mean, rtol=1e-6) and len(fn.calls) == 250,
                None)
    mon.check('the sheet is not moved', gen.digest(grid) == before, None)
    # Without a silicon there is nothing to plot around.
    bare = mu.AtomicGridMaterialFrame(mu.AtomicGrid(
        grid.atom_positions, np.full(len(grid.atomic_numbers), gen.CARBON)))
    for plot in (plotting_utils.plot_rate_along_neighbor_vector3, plotting_utils.plot_rate_along_arc3,
                 plotting_utils.plot_rate_function3):
      fn = Rates(rng)
      try:
        plot(axes[0], fn, bare)
        refused = False
      except ValueError:
        refused = True
      mon.check('no plot without a silicon', refused and not fn.calls, lambda: dict(plot=plot.__name__))
    mon.state((n, round(radius, 2), round(extent[1], 2)))
    mon.sample(points=n, radius=radius)
  finally:
    plt.close(fig)


class Canvas:
  """Watches what is drawn, by any figure, when its canvas is drawn."""

  def __enter__(self):
    self.drawn = []
    self.original = FigureCanvasAgg.draw
    watch = self

    def draw(canvas, *args, **kwargs):
      out = watch.original(canvas, *args, **kwargs)
      watch.drawn.append((
          [read(ax) for ax in canvas.figure.axes],
          np.array(canvas.buffer_rgba())[..., :3]))
      return out

    FigureCanvasAgg.draw = draw
    return self

  def __exit__(self, *unused):
    FigureCanvasAgg.draw = self.original


def rendered(mon, rng):
  """Frames of the environment on request."""
  env, info = envs.build(rng, limit=int(rng.choice([3, 7, 20])))
  goal = info['goal']
  ts = env.reset()
  shape = []
  for _ in range(int(rng.integers(2, 6))):
    if ts is None or rng.random() < 0.1:
      ts = env.reset()
    obs = env.last_microscope_observation
    kept = gen.digest(obs)
    before_open = list(plt.get_fignums())
    with Canvas() as canvas:
      image = env.render()
    mon.check('no figure stays open', plt.get_fignums() == before_open, lambda: dict(open=plt.get_fignums()))
    mon.check('rendering leaves the observation alone',
              env.last_microscope_observation is obs and gen.digest(obs) == kept, None)
    mon.require('a rendered frame is a picture', image.dtype == np.uint8 and image.ndim == 3 and image.shape[2] == 3,
                lambda: dict(shape=image.shape, dtype=image.dtype))
    shown = [axes for axes, pixels in canvas.drawn if pixels.shape == image.shape and np.array_equal(pixels, image)]
    mon.require('a rendered frame is what was drawn', shown and len(shown[-1]) == 1,
                lambda: dict(drawn=[p.shape for _, p in canvas.drawn], got=image.shape))
    ax = shown[-1][0]
    pos, num = np.asarray(obs.grid.atom_positions), np.asarray(obs.grid.atomic_numbers)
    lo, hi = (np.asarray(c, float) for c in gen.fov_box(obs.fov))
    target = (np.asarray(goal.goal_position_material_frame, float).reshape(2) - lo) / (hi - lo)
    mon.check('a rendered frame shows the view',
              has_points(ax, pos[num == gen.CARBON], 1e-6) and has_points(ax, pos[num == gen.SILICON], 1e-6)
              and np.allclose(ax['xlim'], (0, 1)) and np.allclose(ax['ylim'], (0, 1)),
              lambda: dict(lines=[l['xy'].shape for l in ax['lines']]))
    mon.check('a rendered frame shows the goal', has_points(ax, target, 1e-5), lambda: dict(goal=target))
    extra = sum(len(l['xy']) for l in ax['lines']) - len(pos) - 1
    if obs.controls:
      beam = np.asarray(gen.xy(obs.controls[-1].position), float)
      mon.check('a rendered frame shows the beam', has_points(ax, beam, 1e-6) and extra == 1, lambda: dict(beam=beam, extra=extra))
    else:
      mon.check('a rendered frame without a beam', extra == 0, lambda: dict(extra=extra))
    shape.append((len(pos), bool(obs.controls)))
    mon.count('frames rendered')
    ts = env.step(envs.action(rng, env.action_spec()))
    if ts.last():
      ts = None
  mon.state(tuple(shape))
  mon.sample(adapter=info['adapter_name'], frames=shape)


KINDS = [
    Kind('rendered', rendered, 24, 300),
    Kind('events', events, 32, 500),
    Kind('video', video, 48, 400),
    Kind('durations', durations, 16, 200),
    Kind('rates', rates, 16, 200),
]
