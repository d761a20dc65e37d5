"""C01: coordinate frames."""
import numpy as np

from vlib import gen
from vlib.harness import Kind
from putting_dune import geometry
from putting_dune import graphene
from putting_dune import microscope_utils as mu

PROPERTY = 'C01'
RULE = (
    'Random fields of view (square and not, 2-80 angstroms, centres up to 200'
    ' angstroms from the origin, plus exactly representable boxes), random'
    ' points, arrays of every accepted shape, grids (0-300 atoms, float32 and'
    ' float64) and beam controls with extreme settings. Non-trivial: the field'
    ' of view is not the unit square at the origin and the operand is not'
    ' empty; distinct by field of view and operand fingerprint.'
)
ASSUMPTIONS = ['Reference arithmetic is IEEE double; agreement to 1e-9 relative.']
REQUIRED = {
    'point to material': 180, 'point to microscope': 180,
    'array conversion': 360, 'grid conversion': 180, 'control conversion': 180,
    'conversions are inverse': 600, 'operands of one call agree': 180,
    'shift': 360, 'resize keeps centre, sets size': 180, 'zoom': 180,
    'atoms in bounds': 360, 'bounds are inclusive': 60,
}


def _scale(box):
  return max(1.0, float(np.abs(box).max()))


def frames(mon, rng):
  f = gen.fov(rng, lo=0.5, hi=300)
  box = gen.fov_box(f)
  sc = _scale(box)
  tol = 1e-9 * sc
  w, h = box[1] - box[0]
  rel = 1e-9 * sc / min(w, h) + 1e-9

  # Corners and centre land where the documentation says.
  for corner, want in (
      (f.lower_left, (0, 0)), (f.upper_right, (1, 1)), (f.offset, (0.5, 0.5)),
  ):
    got = f.material_frame_to_microscope_frame(corner)
    mon.check('point to microscope', np.allclose(gen.xy(got), want, atol=rel, rtol=0),
              lambda: dict(fov=box, corner=gen.xy(corner), got=gen.xy(got)))
  mon.check('width and height', abs(f.width - w) <= tol and abs(f.height - h) <= tol,
            lambda: dict(fov=box, got=(f.width, f.height)))

  # Points.
  for _ in range(3):
    m = rng.uniform(-1.0, 2.0, size=2)
    p = geometry.Point((float(m[0]), float(m[1])))
    got = f.microscope_frame_to_material_frame(p)
    ref = gen.to_material(box, m)
    mon.check('point to material', isinstance(got, geometry.Point)
              and np.allclose(gen.xy(got), ref, atol=tol * 3, rtol=0),
              lambda: dict(fov=box, point=m, got=gen.xy(got), want=ref))
    back = f.material_frame_to_microscope_frame(got)
    mon.check('conversions are inverse', np.allclose(gen.xy(back), m, atol=rel * 3, rtol=0),
              lambda: dict(fov=box, point=m, back=gen.xy(back)))
    a = rng.uniform(-200, 200, size=2)
    q = geometry.Point((float(a[0]), float(a[1])))
    gotq = f.material_frame_to_microscope_frame(q)
    mon.check('point to microscope', isinstance(gotq, geometry.Point) and
              np.allclose(gen.xy(gotq), gen.to_microscope(box, a), atol=1e-8 * (1 + 400 / min(w, h)), rtol=0),
              lambda: dict(fov=box, point=a, got=gen.xy(gotq)))
    backq = f.microscope_frame_to_material_frame(gotq)
    mon.check('conversions are inverse', np.allclose(gen.xy(backq), a, atol=1e-6, rtol=0),
              lambda: dict(fov=box, point=a, back=gen.xy(backq)))
    # The same location through a point, an array and a control.
    arr = f.microscope_frame_to_material_frame(np.array(m))
    c = f.microscope_frame_to_material_frame(mu.BeamControl(p, gen.timedelta(rng)))
    g = f.microscope_frame_to_material_frame(mu.AtomicGrid(np.array([m]), np.array([6])))
    mon.check('operands of one call agree',
              np.allclose(arr, gen.xy(got), atol=tol, rtol=0)
              and np.allclose(gen.xy(c.position), gen.xy(got), atol=tol, rtol=0)
              and np.allclose(g.atom_positions[0], gen.xy(got), atol=tol, rtol=0),
              lambda: dict(fov=box, point=m, array=arr, control=gen.xy(c.position)))
  mon.state(gen.digest(f))
  mon.sample(fov=box, point=m, material=gen.xy(got))


def arrays(mon, rng):
  f = gen.fov(rng)
  box = gen.fov_box(f)
  for shape in [(2,), (1, 2), (5, 2), (0, 2), (3, 4, 2)]:
    a = rng.uniform(-1.5, 2.5, size=shape)
    k = rng.integers(0, 3)
    if k == 1:
      a = a.astype(np.float32)
    elif k == 2:
      a = rng.integers(-3, 4, size=shape)
    before = gen.digest(a)
    out = f.microscope_frame_to_material_frame(a)
    want = gen.to_material(box, a)
    flat = (2,) if len(shape) == 1 else (int(np.prod(shape[:-1])), 2)
    mon.check('array conversion', out.shape == flat
              and np.allclose(out, want.reshape(flat), atol=1e-9 * _scale(box) * 10, rtol=0),
              lambda: dict(fov=box, shape=shape, dtype=str(a.dtype), got=out, want=want))
    back = f.material_frame_to_microscope_frame(out)
    mon.check('array conversion', back.shape == flat, lambda: dict(shape=shape, got=back.shape))
    mon.check('conversions are inverse',
              np.allclose(back, np.asarray(a, float).reshape(flat), atol=1e-8 * _scale(box), rtol=0),
              lambda: dict(fov=box, array=a, back=back))
    mon.check('operand unchanged', gen.digest(a) == before, dict(shape=shape))
    if a.size:
      mon.state(gen.digest(f), gen.digest(a))


def grids(mon, rng):
  f = gen.fov(rng)
  box = gen.fov_box(f)
  g = gen.grid(rng)
  before = gen.digest(g)
  for fn, ref in (
      (f.microscope_frame_to_material_frame, gen.to_material),
      (f.material_frame_to_microscope_frame, gen.to_microscope),
  ):
    out = fn(g)
    want = ref(box, g.atom_positions)
    ok = (
        isinstance(out, mu.AtomicGrid)
        and out.atom_positions.shape == g.atom_positions.shape
        and np.allclose(out.atom_positions, want, atol=1e-9 * max(1, np.abs(want).max() if want.size else 1), rtol=1e-9)
        and np.array_equal(out.atomic_numbers, g.atomic_numbers)
    )
    mon.check('grid conversion', ok, lambda: dict(fov=box, grid=g, got=out, want=want))
  there = f.material_frame_to_microscope_frame(f.microscope_frame_to_material_frame(g))
  mon.check('conversions are inverse',
            np.allclose(there.atom_positions, g.atom_positions, atol=1e-7 * _scale(box), rtol=1e-9)
            and np.array_equal(there.atomic_numbers, g.atomic_numbers),
            lambda: dict(fov=box, grid=g, back=there))
  s = rng.uniform(-40, 40, size=2)
  s_in = s.reshape([(2,), (1, 2), (2, 1)][rng.integers(0, 3)])
  moved = g.shift(s_in)
  mon.check('shift', moved.atom_positions.shape == g.atom_positions.shape
            and np.allclose(moved.atom_positions, np.asarray(g.atom_positions, float) + s,
                            atol=1e-4 if g.atom_positions.dtype == np.float32 else 1e-9, rtol=1e-6)
            and np.array_equal(moved.atomic_numbers, g.atomic_numbers),
            lambda: dict(grid=g, shift=s, got=moved))
  mon.check('operand unchanged', gen.digest(g) == before, None)
  if len(g.atomic_numbers):
    mon.state(gen.digest(f), before)


def control(mon, rng):
  f = gen.fov(rng)
  box = gen.fov_box(f)
  c = gen.control(rng)
  for fn, ref in (
      (f.microscope_frame_to_material_frame, gen.to_material),
      (f.material_frame_to_microscope_frame, gen.to_microscope),
  ):
    out = fn(c)
    want = ref(box, gen.xy(c.position))
    mon.check('control conversion',
              isinstance(out, mu.BeamControl)
              and np.allclose(gen.xy(out.position), want, atol=1e-9 * max(1, np.abs(want).max()), rtol=1e-9)
              and out.dwell_time == c.dwell_time
              and out.voltage_kv == c.voltage_kv
              and out.current_na == c.current_na,
              lambda: dict(fov=box, control=c, position=gen.xy(c.position), got=out, got_position=gen.xy(out.position), want=want))
  back = f.material_frame_to_microscope_frame(f.microscope_frame_to_material_frame(c))
  mon.check('conversions are inverse', np.allclose(gen.xy(back.position), gen.xy(c.position), atol=1e-7 * _scale(box), rtol=0),
            lambda: dict(fov=box, control=gen.xy(c.position), back=gen.xy(back.position)))
  s = gen.point(rng)
  moved = c.shift(s)
  mon.check('shift', np.allclose(gen.xy(moved.position), gen.xy(c.position) + gen.xy(s), atol=1e-9 * 1000, rtol=0)
            and moved.dwell_time == c.dwell_time and moved.voltage_kv == c.voltage_kv
            and moved.current_na == c.current_na,
            lambda: dict(control=c, shift=gen.xy(s), got=moved))
  mon.state(gen.digest(f), gen.digest(c))


def reshape(mon, rng):
  f = gen.fov(rng)
  box = gen.fov_box(f)
  sc = _scale(box)
  tol = 1e-9 * sc * 4
  center, size = box.mean(0), box[1] - box[0]
  s = gen.point(rng)
  moved = gen.fov_box(f.shift(s))
  mon.check('shift', np.allclose(moved, box + gen.xy(s), atol=1e-6, rtol=1e-9),
            lambda: dict(fov=box, shift=gen.xy(s), got=moved))
  w, h = gen.log_uniform(rng, 0.1, 300), gen.log_uniform(rng, 0.1, 300)
  r = gen.fov_box(f.resize(w, h))
  mon.check('resize keeps centre, sets size',
            np.allclose(r.mean(0), center, atol=tol, rtol=0)
            and np.allclose(r[1] - r[0], (w, h), atol=tol + 1e-6, rtol=1e-9),
            lambda: dict(fov=box, size=(w, h), got=r))
  zf = gen.log_uniform(rng, 0.2, 5)
  z = gen.fov_box(f.zoom(zf))
  mon.check('zoom', np.allclose(z.mean(0), center, atol=tol, rtol=0)
            and np.allclose(z[1] - z[0], size / zf, atol=tol + 1e-9, rtol=1e-9),
            lambda: dict(fov=box, factor=zf, got=z))
  mon.check('offset is the centre', np.allclose(gen.xy(f.offset), center, atol=tol, rtol=0),
            lambda: dict(fov=box, got=gen.xy(f.offset)))
  # A material point does not move when the view around it is changed.
  p = center + rng.uniform(-5, 5, size=2)
  for view in (f, f.resize(w, h), f.zoom(zf), f.shift(s)):
    m = view.material_frame_to_microscope_frame(np.array(p))
    mon.check('conversions are inverse',
              np.allclose(view.microscope_frame_to_material_frame(m), p, atol=1e-5, rtol=0),
              lambda: dict(fov=gen.fov_box(view), point=p))
  mon.state(gen.digest(f), round(w, 6))


def bounds(mon, rng):
  f = gen.fov(rng, lo=4, hi=40)
  box = gen.fov_box(f)
  n = int(rng.choice([0, 1, 10, 200]))
  size = box[1] - box[0]
  pos = rng.uniform(box[0] - size, box[1] + size, size=(n, 2))
  g = mu.AtomicGrid(pos, rng.choice(gen.SPECIES, size=n))
  tolerance = float(rng.choice([0.0, rng.uniform(0, 5), -rng.uniform(0, 1.5)]))
  before = gen.digest(g)
  out = f.get_atoms_in_bounds(g, tolerance)
  keep = ((pos >= box[0] - tolerance) & (pos <= box[1] + tolerance)).all(1)
  mon.check('atoms in bounds',
            np.array_equal(out.atom_positions, pos[keep])
            and np.array_equal(out.atomic_numbers, g.atomic_numbers[keep]),
            lambda: dict(fov=box, tolerance=tolerance, got=len(out.atomic_numbers), want=int(keep.sum())))
  if tolerance == 0.0:
    d = f.get_atoms_in_bounds(g)
    mon.check('atoms in bounds', gen.digest(d) == gen.digest(out), None)
  mon.check('operand unchanged', gen.digest(g) == before, None)
  mon.count('atoms selected', keep.sum())
  mon.count('atoms rejected', (~keep).sum())
  # A material's own view: the same selection, normalised.
  material = graphene.PristineSingleDopedGraphene(grid_columns=20)
  material.reset(rng)
  lattice = material.grid
  fm = gen.fov(rng, lo=3, hi=25, offset=6)
  bm = gen.fov_box(fm)
  seen = material.get_atoms_in_bounds(fm.lower_left, fm.upper_right)
  inside = ((lattice.atom_positions >= bm[0]) & (lattice.atom_positions <= bm[1])).all(1)
  mon.check('atoms in bounds',
            np.array_equal(seen.atomic_numbers, lattice.atomic_numbers[inside])
            and gen.close(seen.atom_positions, gen.to_microscope(bm, lattice.atom_positions[inside]), 1e-8),
            lambda: dict(fov=bm, got=len(seen.atomic_numbers), want=int(inside.sum())))
  if keep.any() or inside.any():
    mon.state(gen.digest(f), before)


def exact_bounds(mon, rng):
  """Boxes and atoms with exactly representable coordinates."""
  ll = rng.integers(-40, 40, size=2) / 4
  size = rng.integers(1, 80, size=2) / 4
  f = mu.MicroscopeFieldOfView(
      geometry.Point(tuple(ll)), geometry.Point(tuple(ll + size))
  )
  t = float(rng.integers(-1, 8) / 4)
  if t < 0 and (size + 2 * t < 0).any():
    t = 0.0
  lo, hi = ll - t, ll + size + t
  e = 1 / 64
  xs = np.array([lo[0] - e, lo[0], lo[0] + e, hi[0] - e, hi[0], hi[0] + e])
  ys = np.array([lo[1] - e, lo[1], lo[1] + e, hi[1] - e, hi[1], hi[1] + e])
  pos = np.stack(np.meshgrid(xs, ys), -1).reshape(-1, 2)
  g = mu.AtomicGrid(pos, np.arange(len(pos)) + 1)
  out = f.get_atoms_in_bounds(g, t)
  keep = ((pos >= lo) & (pos <= hi)).all(1)
  mon.check('bounds are inclusive', np.array_equal(out.atomic_numbers, g.atomic_numbers[keep])
            and np.array_equal(out.atom_positions, pos[keep]),
            lambda: dict(lower_left=ll, size=size, tolerance=t, got=out.atomic_numbers, want=g.atomic_numbers[keep]))
  mon.state(tuple(ll), tuple(size), t)


KINDS = [
    Kind('frames', frames, 400, 20000),
    Kind('arrays', arrays, 200, 8000),
    Kind('grids', grids, 400, 15000),
    Kind('control', control, 300, 15000),
    Kind('reshape', reshape, 300, 15000),
    Kind('bounds', bounds, 300, 8000),
    Kind('exact bounds', exact_bounds, 200, 8000),
]
