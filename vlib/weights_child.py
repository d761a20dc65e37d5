"""Uses the model cache of a scratch copy of the package, one process per use.

Reads one JSON request per line, serves each in a forked process that may be
killed (or fail) at a chosen point, and answers with one JSON line.  Run with
VERIF_REPO set to the scratch copy, so that nothing outside it is written.
"""
import errno
import hashlib
import http.client
import io
import json
import os
import resource
import shutil
import signal
import sys
import urllib.request
import urllib.response

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot  # pylint: disable=g-import-not-at-top

EVENTS = {
    'os.mkdir', 'os.rename', 'os.remove', 'os.rmdir', 'os.link', 'os.symlink',
    'os.truncate', 'shutil.rmtree', 'shutil.move', 'shutil.copyfile',
    'shutil.copytree', 'tempfile.mkdtemp', 'tempfile.mkstemp',
}


def snapshot(path):
  """Everything below a directory: {relative path: digest}."""
  out = {}
  for base, dirs, files in os.walk(path):
    for d in dirs:
      out[os.path.relpath(os.path.join(base, d), path) + '/'] = ''
    for f in files:
      with open(os.path.join(base, f), 'rb') as fp:
        out[os.path.relpath(os.path.join(base, f), path)] = hashlib.sha1(fp.read()).hexdigest()
  return out


class Cut:
  """A response whose connection breaks after some bytes."""

  def __init__(self, data, whole):
    self.fp = io.BytesIO(data)
    self.whole = whole

  def read(self, n=-1):
    out = self.fp.read(n)
    if (n is None or n < 0) and not self.whole:
      raise http.client.IncompleteRead(out)
    return out

  def readinto(self, b):
    return self.fp.readinto(b)

  def close(self):
    pass

  closed = False

  def readable(self):
    return True

  def flush(self):
    pass


class Server(urllib.request.HTTPSHandler):

  def __init__(self, request):
    super().__init__()
    self.request = request
    self.served = []

  def https_open(self, req):
    self.served.append(req.full_url)
    if self.request.get('offline'):
      raise urllib.error.URLError('no network')
    with open(self.request['zip'], 'rb') as f:
      data = f.read()
    headers = http.client.HTTPMessage()
    headers['Content-Length'] = str(len(data))
    cut = self.request.get('cut')
    body = Cut(data if cut is None else data[:int(cut * len(data))], cut is None)
    answer = urllib.response.addinfourl(body, headers, req.full_url, 200)
    answer.msg = 'OK'
    return answer


def serve(request):
  """In the forked process: one use of the cache."""
  import numpy as np
  import tensorflow as tf
  from etils import epath
  from putting_dune import alignment, atom_detector
  from putting_dune import io as pdio
  from putting_dune.experiments import registry

  loaded = []

  class Model:
    signatures = {}

  def load(path, *a, **k):
    loaded.append(snapshot(os.fspath(path)))
    return Model()

  tf.saved_model.load = load
  server = Server(request)
  urllib.request.install_opener(urllib.request.build_opener(server))
  state = dict(count=0, done=False)

  def audit(event, args):
    if state['done'] or not state.get('armed'):
      return
    if event == 'open':
      flags = args[2] if len(args) > 2 and isinstance(args[2], int) else 0
      if not flags & (os.O_WRONLY | os.O_RDWR):
        return
    elif event not in EVENTS:
      return
    n = state['count']
    state['count'] += 1
    if n == request.get('at', -1):
      if request['mode'] == 'meet':
        # Another process uses the cache, from beginning to end, right here.
        state['done'] = True
        state['other'], _ = forked(request['other'])
        state['done'] = False
        return
      if request['mode'] == 'kill':
        os._exit(137)
      raise OSError(errno.ENOSPC, 'No space left on device')

  sys.addaudithook(audit)
  if request.get('fsize'):
    signal.signal(signal.SIGXFSZ, signal.SIG_DFL if request['mode'] == 'kill' else signal.SIG_IGN)
    _, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (request['fsize'], hard))
  out = dict(error=None)
  target = request['target']
  state['armed'] = True
  try:
    if target == 'extract':
      where = os.path.join(request['workdir'], 'model_weights', request['name'])
      if request['stream']:
        with open(request['zip'], 'rb') as fp:
          pdio.extract_model(io.BytesIO(fp.read()), where)
      else:
        pdio.extract_model(request['zip'], epath.Path(where))
      load(where)
    elif target == 'aligner':
      kw = {} if request.get('default_workdir') else dict(workdir=request['workdir'])
      aligner = alignment.ImageAligner.from_path(
          epath.Path(request['zip']), reload=bool(request.get('reload')), **kw)
      load(aligner.model_path)
    elif target == 'detector':
      load(atom_detector.AtomDetector.from_url().model_path)
    else:
      experiment = registry.create_microscope_experiment(request['experiment'])
      agent = experiment.get_agent(np.random.default_rng(0), experiment.get_adapters_and_goal())
      assert agent is not None
  except Exception as e:  # pylint: disable=broad-except
    out['error'] = type(e).__name__ + ': ' + str(e)[:200]
  state['done'] = True
  resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
  if 'other' in state:
    out['other'] = state['other']
  out.update(loaded=loaded[-1] if loaded else None, steps=state['count'], served=server.served)
  return out


def forked(request):
  """One use of the cache in a process of its own."""
  r, w = os.pipe()
  pid = os.fork()
  if pid == 0:
    code = 0
    try:
      os.close(r)
      data = json.dumps(serve(request)).encode()
      with os.fdopen(w, 'wb') as f:
        f.write(data)
    except BaseException as e:  # pylint: disable=broad-except
      sys.stderr.write(repr(e) + '\n')
      code = 99
    os._exit(code)
  os.close(w)
  with os.fdopen(r, 'rb') as f:
    data = f.read()
  _, status = os.waitpid(pid, 0)
  return (json.loads(data) if data else {}), status


def main():
  boot.install()
  import putting_dune.alignment, putting_dune.atom_detector, putting_dune.io  # pylint: disable=all
  import putting_dune.experiments.registry

  package = os.path.realpath(os.path.join(boot.REPO, 'putting_dune'))
  assert os.path.realpath(os.path.dirname(putting_dune.io.__file__)) == package
  assert package.startswith(os.path.realpath(os.environ['VERIF_SCRATCH']) + os.sep), package
  caches = [os.path.join(package, 'model_weights'), os.path.join(package, 'experiments', 'model_weights')]
  answer = os.fdopen(os.dup(1), 'w')
  os.dup2(2, 1)
  for line in sys.stdin:
    request = json.loads(line)
    if request.get('clear'):
      for c in caches + [request['workdir']]:
        shutil.rmtree(c, ignore_errors=True)
      os.makedirs(request['workdir'])
    out, status = forked(request)
    out['died'] = status != 0
    out['status'] = status
    out['cache'] = {os.path.relpath(c, package): sorted(os.listdir(c)) if os.path.isdir(c) else None for c in caches}
    answer.write(json.dumps(out) + '\n')
    answer.flush()


if __name__ == '__main__':
  main()
