"""Runs a check: builds, runs workload shards under monitors, gives a verdict.

A check is a module checks/<id>.py with
  LABELS     build targets it needs (from /repo's current tree),
  shards(tier)       names of independent pieces of the workload,
  work(ctx, shard)   drives the real code and reports what the monitors saw.
and optionally
  REQUIRED   {monitor name: least number of events for a verdict},
  RULE, ASSUMPTIONS  text for the evidence file.

Verdicts: exit 0 held on what was observed; exit 1 violated; exit 2
inconclusive (a monitor was not reached, or the check itself failed).
"""

import hashlib
import importlib
import json
import os
import random
import re
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def show(x):
  """A JSON-friendly, pure ASCII-safe rendering of a value."""
  if isinstance(x, (str, int, float, bool)) or x is None:
    return x
  if isinstance(x, dict):
    return {str(k): show(v) for k, v in x.items()}
  if isinstance(x, (list, tuple, set, frozenset)):
    return [show(v) for v in x]
  return repr(x)


class Enough(BaseException):
  """Ends a shard."""


ENOUGH_S = 400  # Ends a quick check that has found a violation.


class Ctx:
  """What a workload sees: randomness, size, monitors."""

  def __init__(self, pid, shard, tier, seed, ws):
    self.pid, self.shard, self.tier, self.seed = pid, shard, tier, seed
    self.ws = ws
    self.rng = random.Random('%s/%s/%d' % (pid, shard, seed))
    self.thorough = tier == 'thorough'
    self.evaluations = 0
    self.distinct = set()
    self.monitors = {}
    self.samples = []
    self.violations = {}
    self.notes = {}
    self.partial = None
    self._t0 = time.time()
    self.scale = 1  # Of quick checks, relative to the numbers in n().
    self.budget = float(os.environ.get('VERIF_SHARD_S', '1e9'))

  def n(self, quick, thorough):
    if self.thorough:
      return thorough
    return min(thorough, quick * self.scale) if thorough > quick else quick

  def case(self, key, nontrivial=True, sample=None):
    """Counts one evaluated case. `key` identifies it."""
    self.evaluations += 1
    if nontrivial:
      h = hashlib.blake2b(repr(key).encode('utf8', 'surrogatepass'),
                          digest_size=8).digest()
      if h not in self.distinct:
        self.distinct.add(h)
        k = len(self.distinct)
        if k & (k - 1) == 0 and len(self.samples) < 12:
          self.samples.append(show(sample if sample is not None else key))

  def saw(self, monitor, k=1):
    """Counts events a monitor decided on."""
    self.monitors[monitor] = self.monitors.get(monitor, 0) + k

  def violate(self, mech, what, **detail):
    """Reports a violation; `mech` names the failing input class or site."""
    v = self.violations.setdefault(
        mech, {'mech': mech, 'what': what, 'count': 0, 'examples': []})
    v['count'] += 1
    if len(v['examples']) < 5:
      v['examples'].append(show(detail))
    if v['count'] == 1 and self.partial:
      # What is left if the code under test hangs or ends the process later.
      with open(self.partial + '.tmp', 'w') as f:
        json.dump(self.result(), f)
      os.replace(self.partial + '.tmp', self.partial)
    if mech.endswith('hangs'):
      raise Enough()  # Each takes as long as the timeout.

  def expect(self, ok, mech, what, **detail):
    if not ok:
      self.violate(mech, what, **detail)
    return ok

  def left(self):
    return self.budget - (time.time() - self._t0)

  def result(self):
    return {
        'shard': self.shard, 'evaluations': self.evaluations,
        'distinct': len(self.distinct), 'monitors': self.monitors,
        'samples': self.samples, 'violations': list(self.violations.values()),
        'notes': self.notes, 'wall_s': time.time() - self._t0}


def in_repo_code(tb, ws):
  """Whether the innermost frame that is ours or the repository's is theirs."""
  for f in reversed(traceback.extract_tb(tb)):
    name = os.path.abspath(f.filename)
    if name.startswith(VERIF + '/'):
      return False
    if name.startswith(os.path.abspath(ws) + '/nisaba/') or re.search(
        r'/com_google_nisaba/nisaba/|^/repo/nisaba/', name):
      return True
  return False


def worker_main(argv):
  pid, shard, tier, seed, ws, out = argv
  sys.path.insert(0, VERIF)
  mod = importlib.import_module('checks.' + pid.lower())
  ctx = Ctx(pid, shard, tier, int(seed), ws)
  ctx.partial = out + '.part'
  ctx.scale = getattr(mod, 'SCALE', 1)
  try:
    mod.work(ctx, shard)
    r = ctx.result()
  except Enough:
    r = ctx.result()
  except Exception as e:  # pylint: disable=broad-except
    tb = traceback.format_exc()
    if in_repo_code(e.__traceback__, ws):
      ctx.violate('exception:%s' % type(e).__name__,
                  'the code under test raised an exception which no property '
                  'allows here', traceback=tb[-3000:])
      r = ctx.result()
    elif ctx.evaluations and isinstance(
        e, (TypeError, AttributeError, LookupError, ValueError)):
      # The workload is well under way, and got something which is not of the
      # kind that the interface promises (the checks run without exceptions on
      # trees where it is).
      ctx.violate('unusable:%s' % type(e).__name__,
                  'the code under test gave something that is not what its '
                  'interface promises', traceback=tb[-3000:])
      r = ctx.result()
    else:
      r = ctx.result()
      r['error'] = tb
  with open(out, 'w') as f:
    json.dump(r, f)
  # Skips slow destructors of native objects.
  sys.stdout.flush()
  sys.stderr.flush()
  os._exit(0)


def load_known(pid):
  path = os.path.join(VERIF, 'known_findings.json')
  if not os.path.exists(path):
    return []
  with open(path) as f:
    return [k for k in json.load(f)['findings']
            if k['property'] == pid and k['status'] == 'open']


def _kill(p):
  """Kills a worker and the programs it has started."""
  try:
    os.killpg(p.pid, signal.SIGKILL)
  except OSError:
    p.kill()


def run_shards(mod, pid, tier, seed, built, jobs, log):
  shards = list(mod.shards(tier))
  limit = getattr(mod, 'SHARD_LIMIT', {'quick': 780, 'thorough': 5400})[tier]
  tmp = tempfile.mkdtemp(prefix='nisaba-verif-run-')
  env = dict(built.env if built else os.environ)
  env['PYTHONHASHSEED'] = env.get('VERIF_HASHSEED', '0')
  env['VERIF_SEED'] = str(seed)
  env['VERIF_TIER'] = tier
  env['PYTHONDONTWRITEBYTECODE'] = '1'
  env['PYTHONPATH'] = HERE + os.pathsep + env.get('PYTHONPATH', '')
  ws = built.ws if built else VERIF
  known = {m for k in load_known(pid) for m in k['mechanisms']}

  def violates(rs):
    return any(v['mech'] not in known for r in rs for v in r['violations'])

  def parts(running):
    for _, _, out, _, _ in running.values():
      if os.path.exists(out + '.part'):
        with open(out + '.part') as f:
          yield json.load(f)

  start = time.time()
  results, errors, running = [], [], {}
  queue = list(enumerate(shards))
  try:
    while queue or running:
      while queue and len(running) < jobs:
        i, shard = queue.pop(0)
        out = os.path.join(tmp, '%d.json' % i)
        err = open(os.path.join(tmp, '%d.err' % i), 'wb')
        p = subprocess.Popen(
            [sys.executable, '-P', os.path.join(HERE, 'worker.py'), pid, shard,
             tier, str(seed), ws, out],
            cwd=ws, env=env, stdout=err, stderr=err, stdin=subprocess.DEVNULL,
            start_new_session=True)
        running[p] = (i, shard, out, err, time.time())
      done = [p for p in running if p.poll() is not None]
      if not done:
        for p, (_, shard, _, _, t0) in running.items():
          if time.time() - t0 > limit:
            _kill(p)
        if (tier == 'quick' and time.time() - start > ENOUGH_S and
            (violates(results) or violates(parts(running)))):
          # There is a verdict, which the rest cannot change.
          errors.append('stopped after %d s with a violation' % ENOUGH_S)
          results += parts(running)
          return results, errors, len(shards)
        time.sleep(0.02)
        continue
      for p in done:
        i, shard, out, err, t0 = running.pop(p)
        err.close()
        if os.path.exists(out):
          with open(out) as f:
            r = json.load(f)
          if 'error' in r:
            errors.append('%s: %s' % (shard, r['error']))
          results.append(r)
        else:
          if os.path.exists(out + '.part'):
            with open(out + '.part') as f:
              results.append(json.load(f))
          with open(err.name, 'rb') as f:
            tail = f.read()[-2000:].decode('utf8', 'replace')
          errors.append('%s: died with %s after %.0f s: %s' % (
              shard, p.returncode, time.time() - t0, tail))
          # A crash of native code, or of an interpreter, is not a verdict.
  finally:
    for p in running:
      _kill(p)
    subprocess.call(['rm', '-rf', tmp])
  return results, errors, len(shards)


def main(pid, tier, seed):
  sys.path.insert(0, HERE)
  sys.path.insert(0, VERIF)
  import nbuild  # pylint: disable=g-import-not-at-top
  t0 = time.time()
  log = sys.stderr
  mod = importlib.import_module('checks.' + pid.lower())
  built = None
  errors = []
  results = []
  nshards = 0
  try:
    labels = getattr(mod, 'LABELS', None)
    if labels:
      built = nbuild.prepare(labels() if callable(labels) else labels, log)
    t1 = time.time()
    if hasattr(mod, 'prepare'):
      mod.prepare(built, tier)
    results, errors, nshards = run_shards(
        mod, pid, tier, seed, built, int(os.environ.get('VERIF_JOBS', '8')),
        log)
  except nbuild.BuildError as e:
    errors.append('build: %s' % e)
    t1 = time.time()
  finally:
    if built:
      built.close()

  monitors, violations, notes, samples = {}, {}, {}, []
  evaluations = distinct = 0
  for r in sorted(results, key=lambda r: r['shard']):
    evaluations += r['evaluations']
    distinct += r['distinct']
    for k, v in r['monitors'].items():
      monitors[k] = monitors.get(k, 0) + v
    for k, v in r['notes'].items():
      notes.setdefault(k, {})[r['shard']] = v
    samples += [{'shard': r['shard'], 'case': s} for s in r['samples'][-2:]]
    for v in r['violations']:
      w = violations.setdefault(v['mech'], dict(v, count=0, examples=[]))
      w['count'] += v['count']
      w['examples'] += [{'shard': r['shard'], **e} for e in v['examples']]
      w['examples'] = w['examples'][:5]

  known = load_known(pid)
  by_mech = {m: k for k in known for m in k['mechanisms']}
  new = {m: v for m, v in violations.items() if m not in by_mech}
  seen_known = {}
  for m, v in violations.items():
    if m in by_mech:
      seen_known.setdefault(by_mech[m]['id'], []).append(m)

  required = getattr(mod, 'REQUIRED', {})
  if callable(required):
    required = required(tier)
  missing = {m: (monitors.get(m, 0), k) for m, k in required.items()
             if monitors.get(m, 0) < k}

  coverage = {
      'evaluations': evaluations,
      'distinct_nontrivial': distinct,
      'rule': getattr(mod, 'RULE', ''),
      'samples': samples[:40],
      'monitor_events': monitors,
      'shards': nshards,
      'shards_completed': len(results) - sum('error' in r for r in results),
      'build_s': round(t1 - t0, 1),
      'slowest_shards_s': dict(sorted(
          ((r['shard'], round(r['wall_s'])) for r in results),
          key=lambda x: -x[1])[:3]),
      'known_findings_observed': {k: sorted(v) for k, v in
                                  seen_known.items()},
  }
  if notes:
    coverage['notes'] = notes
  evidence = {
      'property': pid, 'tier': tier, 'seed': seed,
      'level': getattr(mod, 'LEVEL', 'exploration'),
      'coverage': coverage,
      'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
      'wall_s': round(time.time() - t0, 1),
      'violations': sum(v['count'] for v in new.values()),
  }
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
    json.dump(evidence, f, indent=1, ensure_ascii=True)
    f.write('\n')

  for k in known:
    if k['id'] in seen_known:
      print('KNOWN-FINDING: property=%s %s: %s' % (pid, k['id'], k['what']))
  print('%s %s seed=%d: %d evaluations, %d distinct non-trivial, monitors %s, '
        '%.0f s (build %.0f s)' % (
            pid, tier, seed, evaluations, distinct, json.dumps(monitors),
            time.time() - t0, t1 - t0))

  for e in errors[:3]:
    print('ERROR property=%s: %s' % (pid, e[-1500:]))
  if new:
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for i, (m, v) in enumerate(sorted(new.items())):
      path = os.path.join(rdir, '%s-%d.json' % (pid, i))
      with open(path, 'w') as f:
        json.dump({'property': pid, 'tier': tier, 'seed': seed, **v,
                   'rerun': 'VERIF_SEED=%d python3 /verif/run_check.py %s '
                            '--tier %s' % (seed, pid, tier)},
                  f, indent=1, ensure_ascii=True)
        f.write('\n')
      if i < 10:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  %s: %s (%d times) e.g. %s' % (
            m, v['what'], v['count'],
            json.dumps(v['examples'][:1], ensure_ascii=True)[:600]))
    return 1
  if errors:
    print('INCONCLUSIVE property=%s: %s' % (pid, errors[0][:3000]))
    return 2
  if missing:
    print('INCONCLUSIVE property=%s: monitors not reached: %s' % (
        pid, missing))
    return 2
  print('HELD property=%s on what was observed' % pid)
  return 0
