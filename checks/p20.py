"""P20: error rates of transliterations, and their earth mover's distances."""

import contextlib
import io
import json
import math
import os
import re
import shutil
import tempfile

import cppbuild

TOOLS = 'nisaba/translit/tools/'
LABELS = ['//nisaba/translit/tools:emd_cer',
          '//nisaba/translit/tools:calculate_emd_cer']
RULE = ('random files of references and of system outputs: with and without '
        'counts and costs, with blank, missing and empty outputs, with all '
        'kinds of whitespace, quotation marks and scripts, in any order, and '
        'with gaps; a case is one example of one file, non-trivial when it '
        'has more than one reference or output and some edit')
ASSUMPTIONS = ['every reference has at least one token; the string <epsilon>, '
               'with which the code marks empty strings, does not occur',
               'Abseil logging and the runfiles library are stand-ins (they '
               'are not installed)',
               'the earth mover\'s distance of pyemd is accurate to 1e-5 of '
               'the largest distance']
REQUIRED = {'files': 200, 'examples': 1500, 'edits': 1000, 'several': 500,
            'empty outputs': 60, 'gaps': 60, 'blanks': 100, 'tool runs': 10,
            'unwritable': 4, 'json lines': 700, 'distances': 2000,
            'escapes': 40, 'huge costs': 40, 'emd': 500, 'emd reports': 20}
# White_Space of Unicode.
SPACES = ''.join(map(chr, [9, 10, 11, 12, 13, 0x20, 0x85, 0xA0, 0x1680]
                     + list(range(0x2000, 0x200B))
                     + [0x2028, 0x2029, 0x202F, 0x205F, 0x3000]))
IN_FIELD = SPACES.replace('\t', '').replace('\n', '')
ALPHABETS = ['ab', 'abc', 'कखग्ि', 'اب\u064e', 'xyz\u200d\u200c', '"\\ab',
             'a\U00011001\U0001F600b', 'éé', "{}[]:,a'", 'a\x1b\x7f/']


def shards(tier):
  return ['rate%d' % i for i in range(5)] + ['emd%d' % i for i in range(2)]


def prepare(built, tier):
  common = [TOOLS + 'calculate_error_rate.cc', 'nisaba/port/file_util.cc',
            'nisaba/port/utf8_util.cc', 'nisaba/port/unicode_properties.cc',
            'nisaba/port/utf8_delimiters.cc']
  flags = cppbuild.ASAN
  cppbuild.build({
      'driver': (['error_rate_driver.cc'] + common, flags, ['-lfst']),
      'tool': ([TOOLS + 'calculate_error_rate_main.cc'] + common, flags,
               ['-lfst'])}, built.env)


def tokens(s, split):
  words = [w for w in re.split('[' + SPACES + ']+', s) if w]
  return list(' '.join(words)) if split else words


def levenshtein(a, b):
  row = list(range(len(b) + 1))
  for i, x in enumerate(a, 1):
    new = [i]
    for j, y in enumerate(b, 1):
      new.append(min(row[j] + 1, new[-1] + 1, row[j - 1] + (x != y)))
    row = new
  return row[-1]


def close(a, b, eps=2e-5):
  return abs(a - b) <= eps * max(1.0, abs(a), abs(b))


class Data:
  """References and outputs of examples."""

  def __init__(self, rng):
    self.rng = rng
    self.alpha = rng.choice(ALPHABETS)
    self.kinds = set()
    n = rng.choice([1, 2, 3, 5, 9])
    self.refs, self.outs = {}, {}
    self.ref_costs, self.out_costs = {}, {}
    gaps = rng.random() < .3
    long = rng.random() < .15
    self.size = 30 if long else rng.choice([3, 6, 10])
    base = rng.choice([0, 0, 0, 3, 800, 5000])
    for i in range(n):
      if gaps and i < n - 1 and rng.random() < .3:
        self.kinds.add('gaps')
        continue
      refs = []
      while not refs or rng.random() < .5:
        r = self.text()
        if tokens(r, False) and len(r) > 0:
          refs.append((r, rng.choice([None, 1, 2, 7, 1000, 0.5])))
      outs = []
      if i == n - 1 or rng.random() < .9:
        while not outs or rng.random() < .6:
          o = self.near(rng.choice(refs)[0]) if rng.random() < .7 else (
              self.text())
          if rng.random() < .06:
            o = ''
          if not o:
            self.kinds.add('empty outputs')
          outs.append((o, None if rng.random() < .25 else
                       round(base + rng.random() * 6, 3)))
        if base > 700 and all((c or 0) > 700 for _, c in outs):
          self.kinds.add('huge costs')
      else:
        self.kinds.add('empty outputs')
      self.refs[i], self.outs[i] = refs, outs
    self.n = n

  def text(self):
    rng = self.rng
    s = ''.join(rng.choice(self.alpha)
                for _ in range(rng.randint(1, self.size)))
    while rng.random() < .4:
      k = rng.randint(0, len(s))
      s = s[:k] + ''.join(rng.choice(IN_FIELD) if rng.random() < .4 else ' '
                          for _ in range(rng.choice([1, 1, 2]))) + s[k:]
    return s

  def near(self, s):
    rng = self.rng
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
      k = rng.randint(0, len(s))
      s = rng.choice([s[:k] + rng.choice(self.alpha) + s[k:], s[:k] + s[k + 1:],
                      s[:k] + rng.choice(self.alpha) + s[k + 1:]])
    return s

  def write(self, table, path):
    """Lines of examples in some order, those of one example in theirs."""
    rng = self.rng
    todo = [(i, list(x)) for i, x in table.items() if x]
    if rng.random() < .5:
      todo = [todo[k] for k in rng.sample(range(len(todo)), len(todo))]
    mixed = rng.random() < .4
    end = '\r\n' if rng.random() < .1 else '\n'
    lines = []
    while todo:
      k = rng.randrange(len(todo)) if mixed else 0
      i, x = todo[k]
      s, c = x.pop(0)
      lines.append('%d\t%s' % (i, s) + ('' if c is None else '\t%r' % c))
      if not x:
        todo.pop(k)
      if rng.random() < .1:
        lines.append('')
        self.kinds.add('blanks')
    # A file may end a field in what looks like a line ending.
    lines = [l + '\t1' if l.endswith('\r') and end == '\n' and l.count('\t') < 2
             and table is self.refs else l for l in lines]
    if table is self.outs:
      lines = [l + '\t0' if l.endswith('\r') and l.count('\t') < 2 else l
               for l in lines]
    text = end.join(lines)
    if rng.random() < .8:
      text += end
    with open(path, 'w', newline='', encoding='utf8') as f:
      f.write(text)

  def examples(self):
    for i in range(self.n):
      if i in self.refs:
        yield i, self.refs[i], self.outs[i] or [('', None)]


def normal(costs):
  low = min(costs)
  total = sum(math.exp(low - c) for c in costs)
  return [math.exp(low - c) / total for c in costs]


LINE = re.compile(r'reference length=(\S+) substitutions=(\S+) deletions=(\S+) '
                  r'insertions=(\S+)$')


def check_rates(ctx, data, split, text, rate, detail):
  """The report on the closest references of the cheapest outputs."""
  lines = text.split('\n')
  examples = list(data.examples())
  name = 'CER' if split else 'WER'
  n = len(examples)
  if not ctx.expect(
      len(lines) == n + 4 and lines[n] == 'Summary ' + name
      and not lines[-1] and all(LINE.match(x) for x in lines[:n]),
      'rate-format', 'the report is a line per example and a summary', **detail):
    return
  edits = length = 0
  totals = [0, 0, 0, 0]
  for (i, refs, outs), line in zip(examples, lines):
    best = min(range(len(outs)), key=lambda k: outs[k][1] or 0.0)
    out = tokens(outs[best][0], split)
    r = [tokens(x, split) for x, _ in refs]
    d = [levenshtein(x, out) for x in r]
    k = min(range(len(r)), key=lambda k: d[k] / len(r[k]))
    ctx.case((split, refs, outs[best]), len(refs) + len(outs) > 2 and d[k])
    ctx.saw('examples')
    if len(refs) > 1 or len(outs) > 1:
      ctx.saw('several')
    got = [float(x) for x in LINE.match(line).groups()]
    totals = [a + b for a, b in zip(totals, got)]
    edits += d[k]
    length += len(r[k])
    ctx.saw('edits', d[k])
    where = dict(detail, example=i, references=[x for x, _ in refs],
                 output=outs[best], got=line)
    ctx.expect(got[0] == len(r[k]), 'rate-length',
               'the reference is the first of those with the least error rate',
               want=len(r[k]), **where)
    ctx.expect(sum(got[1:]) == d[k], 'rate-edits',
               'the edits are the edit distance of the cheapest output to the '
               'closest reference', want=d[k], **where)
    ctx.expect(min(got) >= 0 and got[3] - got[2] == len(out) - len(r[k])
               and got[1] + got[2] <= len(r[k]), 'rate-parts',
               'insertions and deletions make up for the lengths', **where)
  m = LINE.match(lines[n + 1][len('total statistics: '):])
  ctx.expect(lines[n + 1].startswith('total statistics: ') and m
             and [float(x) for x in m.groups()] == totals, 'rate-totals',
             'the summary has the sums', got=lines[n + 1], want=totals, **detail)
  m = re.match('overall %s: (\\S+)$' % name, lines[n + 2])
  ctx.expect(m and close(float(m.group(1)), edits / length), 'rate-overall',
             'the overall rate is of all edits and reference lengths',
             got=lines[n + 2], want=edits / length, **detail)
  if rate is not None:
    ctx.expect(abs(rate - edits / length) < 1e-9, 'rate-overall',
               'the overall rate is of all edits and reference lengths',
               got=rate, want=edits / length, **detail)


def check_pairs(ctx, data, split, text, detail):
  """The JSON line of each example. Returns the parsed lines."""
  examples = list(data.examples())
  parsed = []
  try:
    lines = text.split('\n')
    assert lines.pop() == ''
    for line in lines:
      parsed.append(json.loads(line, object_pairs_hook=lambda p: (
          p if not p or p[0][0] != 'hyp' else dict(p))))
      json.loads(line)
  except (ValueError, AssertionError):
    ctx.violate('json-malformed', 'each line is valid JSON',
                got=text[:2000], **detail)
    return None
  if not ctx.expect(len(parsed) == len(examples), 'json-lines',
                    'there is a line for each example with references',
                    got=len(parsed), want=len(examples), **detail):
    return None
  for (i, refs, outs), j in zip(examples, parsed):
    ctx.case((split, refs, outs), len(refs) + len(outs) > 2)
    ctx.saw('json lines')
    where = dict(detail, example=i, references=refs, outputs=outs, got=j)
    if any(c in x for x, _ in refs + outs for c in '"\\\x1b\x0b'):
      ctx.saw('escapes')
    p1 = normal([c or 0.0 for _, c in outs])
    p2 = normal([-math.log(1 if c is None else c) for _, c in refs])
    o, r = len(outs), len(refs)
    if not ctx.expect(
        isinstance(j, dict) and set(j) == {'hyp', 'ref', 'p1', 'p2', 'D', 'L'}
        and all(len(j[x]) == o + r for x in ('p1', 'p2', 'D', 'L'))
        and all(len(x) == o + r for x in j['D']), 'json-shape',
        'all vectors have an entry for each output and each reference',
        **where):
      continue
    for key, items, p in (('hyp', outs, p1), ('ref', refs, p2)):
      ctx.expect([s for s, _ in j[key]] == [s for s, _ in items], 'json-strings',
                 'the strings are those of the file, in order', **where)
      ctx.expect(all(close(a, b) for (_, a), b in zip(j[key], p)), 'json-probs',
                 'the probabilities are the normalized ones', want=p, **where)
    ctx.expect(all(close(a, b) for a, b in zip(j['p1'], p1 + [0] * r))
               and all(close(a, b) for a, b in zip(j['p2'], [0] * o + p2)),
               'json-probs', 'the probabilities are the normalized ones',
               want=[p1, p2], **where)
    to = [tokens(x, split) for x, _ in outs]
    tr = [tokens(x, split) for x, _ in refs]
    d = [[levenshtein(x, y) for y in tr] for x in to]
    ctx.saw('distances', o * r)
    want = [[0] * o + row for row in d] + [
        [d[a][b] for a in range(o)] + [0] * r for b in range(r)]
    ctx.expect(j['D'] == want, 'json-distances',
               'the distances are edit distances in both directions', want=want,
               **where)
    want = [0] * o + [len(x) for x in tr]
    ctx.expect(j['L'] == want, 'json-lengths',
               'the lengths are those that the distances are relative to',
               want=want, **where)
  return parsed


def work(ctx, shard):
  tmp = tempfile.mkdtemp(prefix='nisaba-verif-p20-')
  try:
    if shard.startswith('rate'):
      rates(ctx, tmp)
    else:
      emds(ctx, tmp)
  finally:
    shutil.rmtree(tmp, True)


def read(path):
  with open(path, newline='', encoding='utf8') as f:
    return f.read()


def rates(ctx, tmp):
  rng = ctx.rng
  server = cppbuild.Server('driver')
  ref, out, res = (os.path.join(tmp, x) for x in ('r.tsv', 'o.tsv', 'x.txt'))
  for k in range(ctx.n(100, 1500)):
    data = Data(rng)
    data.write(data.refs, ref)
    data.write(data.outs, out)
    for kind in data.kinds:
      ctx.saw(kind)
    ctx.saw('files')
    for split in rng.sample([True, False], 2):
      for pairs in rng.sample([True, False], 2):
        detail = dict(files=[read(ref)[:1500], read(out)[:1500]], split=split,
                      pairwise=pairs)
        if k % 25 == 0:
          p = cppbuild.run('tool', [
              '--reference=' + ref, '--testfile=' + out, '--ofile=' + res,
              '--split_chars=%s' % str(split).lower(),
              '--pairwise_edits=%s' % str(pairs).lower()])
          ctx.saw('tool runs')
          rate = None
          if not ctx.expect(p.returncode == 0, 'tool-fails',
                            'the tool deals with proper files',
                            error=p.stderr[-1500:], **detail):
            continue
        else:
          try:
            a = server.ask('%d\t%d\t%s\t%s\t%s' % (split, pairs, ref, out, res))
            rate = None if pairs else float(a.split()[1])
          except cppbuild.Died as e:
            ctx.violate('rate-' + e.kind, 'proper files are dealt with',
                        error=e.text, **detail)
            continue
        if pairs:
          check_pairs(ctx, data, split, read(res), detail)
        else:
          check_rates(ctx, data, split, read(res), rate, detail)
  # Results that cannot be written, or files that cannot be read, are no success.
  for pairs in ('true', 'false'):
    for args in (['--ofile=/dev/full'], ['--ofile=' + tmp + '/no/x'],
                 ['--ofile=' + res, '--testfile=' + tmp + '/no'],
                 ['--ofile=' + res, '--reference=' + tmp + '/no']):
      p = cppbuild.run('tool', [
          '--reference=' + ref, '--testfile=' + out,
          '--pairwise_edits=' + pairs] + args)
      ctx.saw('unwritable')
      ctx.expect(p.returncode == cppbuild.CHECKED, 'tool-silent',
                 'the tool fails when it cannot read or write a file',
                 args=args, code=p.returncode, error=p.stderr[-800:])
  server.close()


def transport(p, q, d):
  """The least cost of moving integer masses p to q (exact)."""
  # Successive shortest paths on the bipartite network.
  n, m = len(p), len(q)
  left, need = list(p), list(q)
  flow = [[0] * m for _ in range(n)]
  total = 0
  while any(left):
    dist = [0 if left[i] else None for i in range(n)] + [None] * m
    prev = [None] * (n + m)
    changed = True
    while changed:
      changed = False
      for i in range(n):
        for j in range(m):
          if dist[i] is not None and (
              dist[n + j] is None or dist[i] + d[i][j] < dist[n + j]):
            dist[n + j], prev[n + j], changed = dist[i] + d[i][j], i, True
          if flow[i][j] and dist[n + j] is not None and (
              dist[i] is None or dist[n + j] - d[i][j] < dist[i]):
            dist[i], prev[i], changed = dist[n + j] - d[i][j], n + j, True
    end = min((j for j in range(m) if need[j]), key=lambda j: dist[n + j])
    path, x = [], n + end
    while prev[x] is not None:
      path.append((prev[x], x))
      x = prev[x]
    f = min(left[x], need[end])
    for a, b in path:
      if a >= n:
        f = min(f, flow[b][a - n])
    for a, b in path:
      if a < n:
        flow[a][b - n] += f
      else:
        flow[b][a - n] -= f
    left[x] -= f
    need[end] -= f
    total += f * dist[n + end]
  return total


def emds(ctx, tmp):
  from absl import flags
  from nisaba.translit.tools import calculate_emd_cer
  from nisaba.translit.tools import emd_cer
  rng = ctx.rng
  flags.FLAGS(['x'])
  path = os.path.join(tmp, 'x.json')
  server = cppbuild.Server('driver')
  for k in range(ctx.n(90, 600)):
    lines, want = [], []
    split = True
    if k % 2:
      data = Data(rng)
      ref, out = os.path.join(tmp, 'r.tsv'), os.path.join(tmp, 'o.tsv')
      data.write(data.refs, ref)
      data.write(data.outs, out)
      split = rng.random() < .7
      try:
        server.ask('%d\t1\t%s\t%s\t%s' % (split, ref, out, path))
      except cppbuild.Died as e:
        ctx.violate('rate-' + e.kind, 'proper files are dealt with',
                    error=e.text, files=[read(ref)[:1500], read(out)[:1500]])
        continue
      unit = 10**7
      for _, refs, outs in data.examples():
        if len(refs) + len(outs) > 14:
          # Keep the exact method cheap.
          pass
        p1 = normal([c or 0.0 for _, c in outs])
        p2 = normal([-math.log(1 if c is None else c) for _, c in refs])
        tr = [tokens(x, split) for x, _ in refs]
        d = [[levenshtein(tokens(x, split), y) for y in tr] for x, _ in outs]
        a = [round(x * unit) for x in p1]
        b = [round(x * unit) for x in p2]
        a[0] += unit - sum(a)
        b[0] += unit - sum(b)
        want.append((transport(a, b, d) / unit,
                     sum(x * len(y) for x, y in zip(p2, tr)),
                     max(map(max, d)) + max(map(len, tr))))
      lines = [json.loads(x) for x in read(path).split('\n') if x]
    else:
      for _ in range(rng.randint(1, 6)):
        n, m = rng.randint(1, 6), rng.randint(1, 6)
        unit = 120
        a = sorted(rng.sample(range(1, unit), n - 1))
        a = [y - x for x, y in zip([0] + a, a + [unit])]
        b = sorted(rng.sample(range(1, unit), m - 1))
        b = [y - x for x, y in zip([0] + b, b + [unit])]
        d = [[rng.randint(0, 12) for _ in range(m)] for _ in range(n)]
        l = [rng.randint(1, 20) for _ in range(m)]
        lines.append({
            'p1': [x / unit for x in a] + [0] * m,
            'p2': [0] * n + [x / unit for x in b],
            'D': [[0] * n + r for r in d] + [
                [d[i][j] for i in range(n)] + [0] * m for j in range(m)],
            'L': [0] * n + l})
        want.append((transport(a, b, d) / unit,
                     sum(x * y for x, y in zip(b, l)) / unit,
                     max(map(max, d)) + max(l)))
      with open(path, 'w', encoding='utf8') as f:
        f.write(''.join(json.dumps(x) + '\n' for x in lines))
    if not ctx.expect(len(lines) == len(want), 'json-lines',
                      'there is a line for each example with references'):
      continue
    tot = [0., 0.]
    eps = 0
    for j, (e, l, scale) in zip(lines, want):
      ctx.case((j['p1'], j['p2'], j['D']), len(j['p1']) > 2)
      ctx.saw('emd')
      got = emd_cer.emd_error_and_length(j)
      ctx.expect(len(got) == 2 and abs(got[0] - e) <= 3e-5 * scale, 'emd-edits',
                 'the edits are the earth mover\'s distance',
                 line=j, got=got, want=e)
      ctx.expect(len(got) == 2 and abs(got[1] - l) <= 3e-5 * scale,
                 'emd-length',
                 'the length is the expected length of the references',
                 line=j, got=got, want=l)
      dist = emd_cer.earth_movers_distance(j)
      n = len(j['p1'])
      rows = [sum(r) for r in dist[1]]
      cols = [sum(dist[1][a][b] for a in range(n)) for b in range(n)]
      ctx.expect(abs(dist[0] - e) <= 3e-5 * scale
                 and min(map(min, dist[1])) >= -1e-6
                 and all(abs(a - b) < 2e-5 for a, b in zip(rows, j['p1']))
                 and all(abs(a - b) < 2e-5 for a, b in zip(cols, j['p2']))
                 and abs(sum(dist[1][a][b] * j['D'][a][b] for a in range(n)
                             for b in range(n)) - e) <= 3e-5 * scale
                 and list(dist[2]) == list(j['L']), 'emd-flow',
                 'the flow moves the one distribution to the other at the least '
                 'cost', line=j, got=[dist[0], [list(r) for r in dist[1]]],
                 want=e)
      tot[0] += e
      tot[1] += l
      eps += 3e-5 * scale
    flags.FLAGS.json_path = path
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
      calculate_emd_cer.main([])
    ctx.saw('emd reports')
    rep = text.getvalue().splitlines()
    ok = len(rep) == len(want) + 3
    for row, (e, l, scale) in zip(rep, want):
      f = row.split('\t')
      ok = ok and len(f) == 5 and abs(float(f[0]) - l) <= 3e-5 * scale and (
          abs(float(f[1]) - e) <= 3e-5 * scale and f[2:4] == ['0', '0']
          and abs(float(f[4]) - e / l) <= 6e-5 * scale * (1 + e) / l)
    ok = ok and all(
        r.startswith(h + ':\t') and abs(float(r.split('\t')[1]) - v) <= x
        for r, h, v, x in zip(rep[-3:], (
            'Total edits', 'Total reference length', 'Overall CER'),
                              tot + [tot[0] / tot[1]],
                              [eps, eps, 2 * eps * (1 + tot[0]) / tot[1]]))
    ctx.expect(ok, 'emd-report', 'the report has the edits, lengths and rates',
               got=rep, want=want)
  server.close()
