"""Helper to plant a bug: writes seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}.

plant(id, prop, [(file, old, new)...], needs, breaks, demo) edits a scratch
clone (env BUG_CLONE, default /tmp/bug/repo) and takes the diff.
"""
import json, os, subprocess

CLONE = os.environ.get('BUG_CLONE', '/tmp/bug/repo')
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')

SH = '''#!/bin/bash
# Exits 0 if the behaviour described in meta.json is right.
D=$(cd "$(dirname "$0")" && pwd)
cd /repo || exit 2
exec env PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8 /opt/venv/bin/python -P "$D/demo.py"
'''

PRELUDE = '''import os, sys, tempfile, unicodedata
import pynini
OUT = '/opt/nisaba-build/out/'
BR = OUT + 'nisaba/scripts/brahmic/'
AB = OUT + 'nisaba/scripts/abjad_alphabet/'
NT = OUT + 'nisaba/scripts/natural_translit/'


def load(far, key):
  with pynini.Far(far + '.far') as f:
    return f[key]


def outs(fst, text, tt='byte', n=3):
  with pynini.default_token_type(tt):
    l = pynini.compose(pynini.accep(pynini.escape(text)), fst)
    if l.start() == -1:
      return []
    l = pynini.shortestpath(pynini.project(l, 'output').rmepsilon(),
                            nshortest=n, unique=True)
    return [o for _, o, _ in sorted(l.paths().items(),
                                    key=lambda x: float(x[2]))]


def top(fst, text, tt='byte'):
  r = outs(fst, text, tt, 1)
  return r[0] if r else None


def real_code():
  """A runfiles tree with the repository's Python code and generated files."""
  root = tempfile.mkdtemp()
  ws = root + '/com_google_nisaba'
  import atexit, shutil
  atexit.register(shutil.rmtree, root, True)
  for base in ('/repo/', OUT):
    for d, ds, fs in os.walk(base + 'nisaba'):
      r = ws + '/' + os.path.relpath(d, base)
      os.makedirs(r, exist_ok=True)
      for x in fs:
        if not os.path.lexists(r + '/' + x):
          os.symlink(d + '/' + x, r + '/' + x)
  os.environ.update(RUNFILES_DIR=root, TEST_SRCDIR=root)
  sys.path[:0] = [ws, '/opt/vp/nis/shim', root]
  os.chdir(ws)


def same(what, got, want):
  if got != want:
    print('WRONG %s: %r, not %r' % (what, got, want))
    sys.exit(1)


'''


def git(*a):
  return subprocess.run(('git', '-C', CLONE) + a, check=True,
                        capture_output=True, text=True).stdout


def plant(bug, prop, edits, needs, breaks, demo):
  git('fetch', '-q', 'origin')
  git('checkout', '-q', '-f', 'origin/HEAD')
  for path, old, new in edits:
    p = os.path.join(CLONE, path)
    s = open(p, encoding='utf-8', newline='').read()
    assert s.count(old) == 1, (bug, path, s.count(old))
    open(p, 'w', encoding='utf-8', newline='').write(s.replace(old, new))
  d = os.path.join(SEEDED, bug)
  os.makedirs(d, exist_ok=True)
  open(d + '/patch.diff', 'w').write(git('diff'))
  git('checkout', '-q', '-f', '.')
  open(d + '/demo.sh', 'w').write(SH)
  open(d + '/demo.py', 'w').write(PRELUDE + demo.strip() + '\n')
  json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
            open(d + '/meta.json', 'w'), indent=1)
  open(d + '/meta.json', 'a').write('\n')
