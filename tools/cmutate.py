#!/usr/bin/env python3
"""Mutation test of a check on a C++ file, in a scratch clone of the repository.

  cmutate.py CHECK FILE [--sample N] [--seed S]

One textual mutant per line and pattern; those that do not compile are skipped.
Prints the mutants that the quick tier does not report.
"""
import argparse
import os
import random
import re
import subprocess
import sys
import tempfile

p = argparse.ArgumentParser()
p.add_argument('check')
p.add_argument('file')
p.add_argument('--sample', type=int, default=30)
p.add_argument('--seed', type=int, default=1)
p.add_argument('--repo', default='/repo')
a = p.parse_args()
tmp = tempfile.mkdtemp(prefix='nisaba-verif-cmut-')
repo = os.path.join(tmp, 'repo')
subprocess.check_call(['git', 'clone', '-q', a.repo, repo])
path = os.path.join(repo, a.file)
with open(path) as f:
  lines = f.read().split('\n')
SUBS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '),
        (r' == ', ' != '), (r' != ', ' == '), (r' \+ 1\b', ''), (r' - 1\b', ''),
        (r'\+\+(\w)', r'--\1'), (r' && ', ' || '), (r' \|\| ', ' && '),
        (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\b0\b', '1'),
        (r'\b1\b', '2'), (r' \+= ', ' = '), (r' \+ ', ' - '), (r' - ', ' + '),
        (r'!(\w)', r'\1'), (r'\bcontinue;', ';'), (r'\bbreak;', ';'),
        (r'^\s*[\w.\->\[\]()&* ]+;$', ';'), (r'^\s*\w[\w.\->\[\]]*\(.*\);$', ';'),
        (r'-(\w)', r'\1'), (r'if \((.*)\) \{', r'if (false && (\1)) {')]
mutants = []
comment = False
for i, l in enumerate(lines):
  if l.strip().startswith(('//', '#', 'namespace', 'using ', 'return;')):
    continue
  for pat, rep in SUBS:
    for m in re.finditer(pat, l):
      new = l[:m.start()] + m.expand(rep) + l[m.end():]
      if new != l:
        mutants.append((i, new))
random.Random(a.seed).shuffle(mutants)
seen, kept = set(), 0
env = dict(os.environ, VERIF_REPO=repo)
try:
  for i, new in mutants:
    if kept >= a.sample:
      break
    if (i, new) in seen:
      continue
    seen.add((i, new))
    with open(path, 'w') as f:
      f.write('\n'.join(lines[:i] + [new] + lines[i + 1:]))
    r = subprocess.run([sys.executable, '/verif/run_check.py', a.check],
                       env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    out = r.stdout.decode('utf8', 'replace')
    if 'ERROR property=%s: build' % a.check in out:
      continue
    kept += 1
    if r.returncode != 1:
      print('%s:%d: exit %d: %s -> %s' % (
          os.path.basename(a.file), i + 1, r.returncode, lines[i].strip(),
          new.strip()), flush=True)
  print('%d mutants of %s' % (kept, a.file), flush=True)
finally:
  subprocess.call(['rm', '-rf', tmp])
