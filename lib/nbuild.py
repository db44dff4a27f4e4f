"""Builds, from the current working tree of the repository, exactly what a check
needs, with the sandbox's stand-in for Bazel (/opt/vp/nis/driver.py), and lays
out a runfiles tree in which the real code runs.

Nothing here looks at how the code is written: the action keys are hashes of
the contents of all inputs, so any edit that can matter leads to a rebuild.
"""

import contextlib
import fcntl
import hashlib
import importlib.util
import io
import os
import shutil
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
BASE = os.environ.get('VERIF_BUILD_BASE', '/opt/nisaba-build')
DRIVER = '/opt/vp/nis/driver.py'
PY = '/opt/venv/bin/python'


class BuildError(Exception):
  pass


_driver = None


def driver():
  global _driver
  if _driver is None:
    sys.dont_write_bytecode = True
    spec = importlib.util.spec_from_file_location('nisaba_driver', DRIVER)
    d = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(d)
    d.REPO = REPO
    d.BASE = BASE
    d.OUT = BASE + '/out'
    d.KEYS = BASE + '/keys'
    d.TREES = BASE + '/trees'
    with open(d.HERE + '/farconvert.py', 'rb') as f:
      d.KEY_SALT = hashlib.sha256(f.read()).digest()
    # make_tree() has TREES as the default of an argument.
    orig = d.make_tree
    d.make_tree = lambda name, inputs, root=None: orig(
        name, inputs, root or d.TREES)
    _driver = d
  return _driver


class Built:
  """A runfiles tree with the requested targets."""

  def __init__(self, tree, env):
    self.tree = tree
    self.ws = os.path.join(tree, 'com_google_nisaba')
    self.env = env

  def close(self):
    shutil.rmtree(os.path.dirname(self.tree), ignore_errors=True)


def load():
  d = driver()
  if not d.TARGETS:
    d.load_all()
    if d.LOAD_ERRORS:
      raise BuildError('cannot load: %s' % (d.LOAD_ERRORS[:2],))
  return d


def tsvs(*dirs):
  """Labels of all table files below these directories."""
  d = load()
  return sorted(o for o in d.OUTPUTS
                if o.endswith('.tsv') and o.startswith(tuple('//' + x
                                                             for x in dirs)))


def prepare(labels, log=sys.stderr):
  """Builds `labels` (targets or files) and returns a Built tree."""
  d = driver()
  for p in (d.OUT, d.KEYS, d.TREES):
    os.makedirs(p, exist_ok=True)
  with open(BASE + '/lock', 'w') as lock:
    fcntl.flock(lock, fcntl.LOCK_EX)
    load()
    actions = d.make_actions()
    producer = {o: a for a in actions for o in a.outs}
    files = set()
    for label in labels:
      got = set()
      if label in d.TARGETS or label in d.OUTPUTS:
        got = d.runfiles(label)
      elif os.path.exists(d.real(label)):
        got = {label}
      if not got:
        raise BuildError('no such target: %s' % label)
      files |= got
    need, todo = {}, [producer[f] for f in files if f in producer]
    while todo:
      a = todo.pop()
      if a.id in need:
        continue
      need[a.id] = a
      todo += [producer[f] for f in a.inputs if f in producer]
    order = [a for a in actions if a.id in need]
    buf = io.StringIO()
    d.TIMES.clear()
    d._hashes.clear()
    with contextlib.redirect_stdout(buf):
      failed = d.run_all(order)
    print(buf.getvalue().strip().split('\n')[-1], file=log)
    if failed:
      raise BuildError('build failed: %s\n%s' % (failed[:5],
                                                 buf.getvalue()[-3000:]))
    missing = [f for f in files if d.file_hash(d.real(f)) is None]
    if missing:
      raise BuildError('not built: %s' % missing[:5])
    root = tempfile.mkdtemp(prefix='nisaba-verif-')
    tree = os.path.join(root, 't')
    # Copies of generated files are not needed: the lock is released, but
    # outputs are replaced by rename, so an open file stays what it was.
    made = d.make_tree('verif', sorted(files), root=root)
    os.rename(made, tree)
  env = d.env_for(tree)
  return Built(tree, env)


def genfile(file_label):
  d = driver()
  return d.real(file_label)
