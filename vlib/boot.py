"""Process set-up: imports the code under test from the repository's working tree.

The repository is /repo (VERIF_REPO overrides it, for development runs against
scratch copies only).  The protobuf module is not committed in the repository,
so it is generated from the tree's .proto file into a scratch directory and
installed in sys.modules; nothing is written into the repository.
"""
import importlib.util
import os
import pathlib
import subprocess
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = str(pathlib.Path(__file__).resolve().parent.parent)
PYTHON = '/opt/venv/bin/python'


def worker_env(scratch):
  env = dict(os.environ)
  env.update(
      PATH='/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
      LANG='C.UTF-8',
      PYTHONDONTWRITEBYTECODE='1',
      PYTHONHASHSEED='0',
      JAX_PLATFORMS='cpu',
      CUDA_VISIBLE_DEVICES='',
      TF_CPP_MIN_LOG_LEVEL='3',
      MPLBACKEND='Agg',
      MPLCONFIGDIR=os.path.join(scratch, 'mpl'),
      OMP_NUM_THREADS='1',
      OPENBLAS_NUM_THREADS='1',
      TF_NUM_INTRAOP_THREADS='1',
      TF_NUM_INTEROP_THREADS='1',
      XLA_FLAGS=(
          '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1'
      ),
      TMPDIR=os.path.join(scratch, 'tmp'),
      VERIF_SCRATCH=scratch,
      VERIF_REPO=REPO,
  )
  return env


def generate_protos(scratch):
  """Runs protoc on the working tree's .proto files into the scratch dir."""
  out = os.path.join(scratch, 'pb')
  os.makedirs(out, exist_ok=True)
  include = '/opt/venv/lib/python3.12/site-packages/tensorflow/include'
  subprocess.run(
      ['/usr/bin/protoc', '-I=' + include, '-I=.', '--python_out=' + out]
      + sorted(
          str(p.relative_to(REPO))
          for p in pathlib.Path(REPO, 'putting_dune').glob('*.proto')
      ),
      cwd=REPO,
      check=True,
  )


def measure(directory):
  """Development: records which lines and branches an execution reaches."""
  import atexit  # pylint: disable=g-import-not-at-top
  import coverage

  c = coverage.Coverage(
      data_file=os.path.join(directory, f'.coverage.{os.getpid()}'),
      branch=True, include=[os.path.join(REPO, 'putting_dune', '*')])
  c.start()
  atexit.register(lambda: (c.stop(), c.save()))


def install():
  """Makes `import putting_dune` resolve to the working tree."""
  sys.dont_write_bytecode = True
  sys.path.insert(0, REPO)
  sys.path.insert(1, VERIF)
  if os.environ.get('VERIF_COVERAGE'):
    measure(os.environ['VERIF_COVERAGE'])
  import putting_dune  # pylint: disable=g-import-not-at-top

  where = os.path.realpath(os.path.dirname(putting_dune.__file__))
  assert where == os.path.realpath(os.path.join(REPO, 'putting_dune')), where
  name = 'putting_dune.putting_dune_pb2'
  path = os.path.join(
      os.environ['VERIF_SCRATCH'], 'pb', 'putting_dune', 'putting_dune_pb2.py'
  )
  spec = importlib.util.spec_from_file_location(name, path)
  module = importlib.util.module_from_spec(spec)
  sys.modules[name] = module
  spec.loader.exec_module(module)
  putting_dune.putting_dune_pb2 = module


def stub_optional_modules():
  """Stand-ins for the two packages that are not installed (grain, riegeli).

  Only what the repository touches at import time is provided; the stand-ins
  are never part of a verdict.
  """
  if 'grain' not in sys.modules:
    grain = types.ModuleType('grain')
    gtf = types.ModuleType('grain.tensorflow')

    class _Any:  # any attribute, any call

      def __init__(self, *a, **k):
        pass

      def __getattr__(self, n):
        return _Any

    class MapTransform:
      pass

    class RandomMapTransform:
      pass

    gtf.MapTransform = MapTransform
    gtf.RandomMapTransform = RandomMapTransform
    gtf.FilterTransform = MapTransform
    gtf.__getattr__ = lambda n: _Any
    grain.tensorflow = gtf
    sys.modules['grain'] = grain
    sys.modules['grain.tensorflow'] = gtf
  if 'riegeli' not in sys.modules:
    riegeli = types.ModuleType('riegeli')
    sys.modules['riegeli'] = riegeli
