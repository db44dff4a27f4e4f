"""P23: n-best lists of whole strings, and segmentation into wordpieces."""

import itertools
import math
import os
import re
import shutil
import tempfile

import cppbuild

TOOLS = 'nisaba/translit/tools/'
LABELS = []
RULE = ('random files of n-best lists and lattices: with costs of all sizes, '
        'ties, repeated candidates, all kinds of whitespace and scripts, one '
        'to many systems, words and parts; and random and greedy vocabularies '
        'of wordpieces with words to segment; a case is one list or one '
        'string, non-trivial when it has more than one candidate or piece')
ASSUMPTIONS = ['the counts of OpenGrm\'s unigram models, which is not '
               'installed, are those of cpp/shim/ngram, up to a factor common '
               'to all strings of a list',
               'OpenFst\'s costs have the precision of its single-precision '
               'floats',
               'the numbers of best strings asked for of the extractor and of '
               'the ensemble are positive; no candidate is blank or the string '
               '<epsilon>; some candidate has the length given for its input',
               'which length the ensemble takes when two are as frequent, and '
               'the order of strings of the same cost, are not decided',
               'the text is well-formed UTF-8',
               'Abseil logging is a stand-in']
REQUIRED = {'files': 1500, 'lattices': 1500, 'ensembles': 1200, 'joined': 900,
            'unsplit': 400, 'cut': 2000, 'ties': 1500, 'large costs': 300,
            'pruned': 400, 'lengths': 150, 'tool runs': 150, 'unwritable': 100,
            'refused': 600, 'vocabularies': 400, 'words': 8000, 'merges': 15000,
            'transducers': 400, 'paths': 1200, 'no unk': 8, 'missing': 15}
SPACES = ''.join(map(chr, [9, 10, 11, 12, 13, 0x20, 0x85, 0xA0, 0x1680]
                     + list(range(0x2000, 0x200B))
                     + [0x2028, 0x2029, 0x202F, 0x205F, 0x3000]))
IN_FIELD = SPACES.replace('\t', '').replace('\n', '')
ALPHABETS = ['ab', 'abc', 'कखग्ि', 'اب\u064e', 'xyz\u200d\u200c', '"\\ab',
             'a\U00011001\U0001F600b', 'e\u0301é', ':,;01', 'aA\u2581']


def shards(tier):
  return ['nbest%d' % i for i in range(5)] + ['pieces%d' % i for i in range(2)]


def prepare(built, tier):
  port = ['nisaba/port/%s.cc' % x for x in (
      'file_util', 'utf8_util', 'unicode_properties', 'utf8_delimiters')]
  util = [TOOLS + 'kbest-full-string-util.cc'] + port
  flags = cppbuild.ASAN + cppbuild.OPENFST18 + ['-include', 'absl/types/span.h']
  programs = {'driver': (['nbest_driver.cc',
                          'nisaba/translit/fst/wordpiece-segmenter.cc'] + util,
                         flags, ['-lfst'])}
  for name in ('ensemble', 'extract-kbest', 'rejoin-kbest'):
    programs[name] = ([TOOLS + name + '-full-string_main.cc'] + util, flags,
                      ['-lfst'])
  cppbuild.build(programs, built and built.env, views=True)


def hx(b):
  return 'x' + (b.encode('utf8') if isinstance(b, str) else b).hex()


def unhx(h):
  return bytes.fromhex(h[1:]).decode('utf8', 'surrogateescape')


def unlist(text):
  return [unhx(h) for h in text.split(',')] if text else []


class Asker:
  """The driver; what it dies of is a violation, unless it is to refuse."""

  def __init__(self, ctx):
    self.ctx = ctx
    self.server = cppbuild.Server('driver')

  def __call__(self, *args, refuse=False):
    try:
      return self.server.ask('\t'.join(map(str, args)))[3:]
    except cppbuild.Died as e:
      if e.kind == 'check-failed' and refuse:
        return None
      self.ctx.violate('%s-%s' % (args[0], e.kind), 'the input is handled',
                       request=args, files=self.files(args), kind=e.kind,
                       text=e.args[-1][-600:] if e.args else '')
      return None

  def files(self, args):
    out = {}
    for a in args:
      for f in str(a).split(':'):
        if f.startswith('/') and os.path.isfile(f):
          with open(f, 'rb') as h:
            out[os.path.basename(f)] = h.read(400)
    return out


def work(ctx, shard):
  ctx.tmp = os.path.realpath(tempfile.mkdtemp(prefix='nisaba-verif-p23-'))
  try:
    if shard.startswith('nbest'):
      nbest(ctx)
    else:
      pieces(ctx)
  finally:
    shutil.rmtree(ctx.tmp, True)


# ---- Numbers and strings.


def log_sum(costs):
  """The cost of all of these together."""
  low = min(costs)
  return low - math.log(sum(math.exp(low - c) for c in costs))


def norm(s):
  return ' '.join(w for w in re.split('[' + SPACES + ']+', s) if w)


class Texts:

  def __init__(self, rng):
    self.rng = rng
    self.pool = [self.fresh() for _ in range(rng.randint(3, 9))]

  def fresh(self):
    letters = self.rng.choice(ALPHABETS)
    return ''.join(self.rng.choice(letters)
                   for _ in range(self.rng.randint(1, 5)))

  def word(self):
    return self.rng.choice(self.pool) if self.rng.random() < 0.8 else (
        self.fresh())

  def spaced(self, words):
    rng = self.rng
    if rng.random() < 0.7:
      return ' '.join(words)
    gap = lambda: ''.join(rng.choice(IN_FIELD)
                          for _ in range(rng.choice([1, 1, 2])))
    return (rng.choice(['', gap()]) + ''.join(
        w + gap() for w in words[:-1]) + words[-1] + rng.choice(['', gap()]))


class Costs:
  """A manner of drawing costs."""

  def __init__(self, ctx):
    rng = ctx.rng
    self.rng = rng
    self.kind = rng.choice(['small', 'small', 'ties', 'wide', 'large', 'zero',
                            'negative'])
    if self.kind == 'large':
      ctx.saw('large costs')
      self.base = rng.choice([650, 740, 800, 1500, 12000])

  def __call__(self):
    rng = self.rng
    c = {'small': lambda: rng.expovariate(0.7),
         'ties': lambda: rng.choice([0.5, 1, 1, 2]),
         'wide': lambda: rng.uniform(0, 60),
         'large': lambda: self.base + rng.uniform(0, 40),
         'zero': lambda: rng.choice([0, 0, 1e-3]),
         'negative': lambda: rng.uniform(-8, 8)}[self.kind]()
    return float(rng.choice(['%.4f', '%.9g', '%g']) % c)


def best(ctx, what, parts, k, got, normalized, detail):
  """`got` are the k best choices of one of each of these lists of (str, cost).
  """
  combos = []
  for c in itertools.product(*parts):
    combos.append((sum(x[1] for x in c), norm(' '.join(x[0] for x in c))))
  combos.sort()
  size = sum(max(abs(x[1]) for x in p) for p in parts)
  tol = 1e-4 + 3e-6 * size
  want = combos[:k]
  if len(want) < len(combos):
    ctx.saw('cut')
  if any(b[0] - a[0] < 1e-9 for a, b in zip(combos, combos[1:])):
    ctx.saw('ties')
  texts = [norm(g[0]) for g in got]
  if not ctx.expect(len(got) == len(want), what + '-number',
                    'as many strings as asked for, if there are',
                    got=len(got), want=len(want), **detail):
    return
  shift = log_sum([c for c, _ in want]) if normalized else 0
  ctx.expect(all(g[0] == t for g, t in zip(got, texts)), what + '-spaces',
             'words are separated by single spaces', got=got, **detail)
  counts = {}
  for _, s in combos:
    counts[s] = counts.get(s, 0) + 1
  unknown = [s for s in texts if texts.count(s) > counts.get(s, 0)]
  if not ctx.expect(not unknown, what + '-strings',
                    'each is a choice of the candidates, and once',
                    got=unknown[:2], **detail):
    return
  wrong = None
  for g, s, (cost, _) in zip(got, texts, want):
    if not any(t == s and abs(c - cost) <= tol for c, t in combos):
      wrong = ('order', s, cost)
      break
    if g[1] is not None and not abs(g[1] - (cost - shift)) <= tol + 2e-6 * abs(
        cost - shift):
      wrong = ('score', s, g[1], cost - shift)
      break
  ctx.expect(wrong is None, what + '-' + (wrong or ' ')[0],
             'the best, in their order, with their costs',
             wrong=wrong, want=want[:5], got=got[:5], **detail)


# ---- The tools.


def nbest(ctx):
  ask = Asker(ctx)
  for i in range(ctx.n(450, 4000)):
    ctx.tool = i % 9 == 0
    [extract, ensemble, rejoin][i % 3](ctx, ask)
    if i % 30 == 5:
      refusals(ctx, ask)


def save(ctx, name, lines, newline='\n'):
  path = os.path.join(ctx.tmp, name)
  with open(path, 'w', encoding='utf8', newline='') as f:
    f.write(newline.join(lines) + (newline if ctx.rng.random() < 0.8 else ''))
  return path


def tool(ctx, name, *args):
  ctx.saw('tool runs')
  p = cppbuild.run(name, args)
  if not ctx.expect(p.returncode == 0, name + '-dies', 'the tool ends well',
                    code=p.returncode, args=args,
                    text=p.stderr.decode('utf8', 'replace')[-600:]):
    return None
  return ''


def output(ctx, path):
  with open(path, encoding='utf8', newline='') as f:
    text = f.read()
  os.unlink(path)
  ctx.expect(text == '' or text.endswith('\n'), 'last-line',
             'each line ends', text=text[-80:])
  return text.split('\n')[:-1]


def fields(ctx, lines, what):
  out = []
  for line in lines:
    f = line.split('\t')
    try:
      out.append((f[0], f[1], float(f[2])))
      ok = len(f) == 3 and math.isfinite(out[-1][2])
    except (IndexError, ValueError):
      ok = False
    if not ctx.expect(ok, what + '-format', 'lines are key, string and cost',
                      line=line):
      return None
  return out


def extract(ctx, ask):
  rng = ctx.rng
  texts, costs = Texts(rng), Costs(ctx)
  examples, lines = [], []
  index = rng.randint(0, 3)
  for _ in range(rng.randint(1, 6)):
    n = rng.randint(1, 5)
    words = [texts.word() for _ in range(n)]
    parts = []
    for pos in range(n):
      part = []
      for _ in range(rng.randint(1, 4)):
        w = texts.word() if rng.random() < 0.95 else (
            texts.word() + ' ' + texts.word())
        part.append((w, costs()))
        lines.append('\t'.join([str(index), str(pos), words[pos], w,
                                repr(part[-1][1])]))
      parts.append(part)
    examples.append((index, words, parts))
    index += rng.choice([1, 1, 1, 2, 7])
  k = rng.choice([1, 2, 3, 5, 20, 200])
  score, full = rng.random() < 0.7, rng.random() < 0.5
  src, out = save(ctx, 'lattice.tsv', lines), os.path.join(ctx.tmp, 'best.tsv')
  ctx.saw('files')
  if ctx.tool:
    args = ['--ifile=' + src, '--ofile=' + out]
    if rng.random() < 0.4:
      k = 20
    else:
      args.append('--kbest=%d' % k)
    args += ['--show_score=true'] if score else rng.choice(
        [[], ['--show_score=false']])
    args += ['--show_full_input_string=true'] if full else []
    done = tool(ctx, 'extract-kbest', *args)
  else:
    done = ask('extract', src, k, int(score), int(full), out)
  if done is None:
    return
  got = output(ctx, out)
  at = 0
  for index, words, parts in examples:
    total = 1
    for p in parts:
      total *= len(p)
    mine = got[at:at + min(k, total)]
    at += len(mine)
    ctx.saw('lattices')
    ctx.case((k, parts), total > 1)
    detail = {'k': k, 'parts': parts, 'output': mine[:4]}
    key = (' '.join(words) if full else str(index),) if k > 1 else ()
    results = []
    for line in mine:
      f = tuple(line.split('\t'))
      if not ctx.expect(
          f[:len(key)] == key and len(f) == len(key) + 1 + score,
          'extract-format', 'lines are the input, if there can be several, the '
          'string and, if asked for, the cost', line=line, key=key, **detail):
        break
      try:
        cost = float(f[-1]) if score else None
      except ValueError:
        cost = math.nan
      results.append((f[len(key)], cost))
    else:
      best(ctx, 'extract', parts, k, results, True, detail)
  ctx.expect(at == len(got), 'extract-lines', 'there are no further lines',
             lines=got[at:at + 3])


def ensemble(ctx, ask):
  rng = ctx.rng
  texts = Texts(rng)
  inputs = rng.randint(1, 5)
  systems = rng.randint(2, 4)
  costs = [Costs(ctx) for _ in range(systems)]
  names = []
  while len(names) < inputs:
    s = texts.word() if rng.random() < 0.5 else str(len(names))
    if not names or names[-1] != s:
      names.append(s)
  lines = [[] for _ in range(systems)]
  wanted, lengths = [], []
  for name in names:
    n = rng.randint(1, 4)
    vary = rng.random() < 0.4
    merged = []
    for j in range(systems):
      one = []
      for _ in range(rng.randint(1, 4)):
        m = max(1, n + rng.choice([-1, 0, 0, 1])) if vary else n
        words = [texts.word() for _ in range(m)]
        one.append((words, costs[j]()))
        lines[j].append('\t'.join([name, texts.spaced(words),
                                   repr(one[-1][1])]))
      total = log_sum([c for _, c in one])
      merged += [(w, c - total) for w, c in one]
    counts = [len(w) for w, _ in merged]
    wanted.append(merged)
    lengths.append(rng.choice(counts))
  given = rng.random() < 0.4
  if given:
    ctx.saw('lengths')
  k = rng.choice([1, 2, 3, 5, 20, 200])
  srcs = ':'.join(save(ctx, 'sys%d.tsv' % j, x) for j, x in enumerate(lines))
  size = save(ctx, 'lengths.txt', map(str, lengths)) if given else '-'
  out = os.path.join(ctx.tmp, 'best.tsv')
  ctx.saw('files')
  if ctx.tool:
    args = ['--ifiles=' + srcs, '--ofile=' + out]
    if given:
      args.append('--input_length_file=' + size)
    if rng.random() < 0.4:
      k = 20
    else:
      args.append('--kbest=%d' % k)
    done = tool(ctx, 'ensemble', *args)
  else:
    done = ask('ensemble', srcs, size, k, out)
  if done is None:
    return
  got = fields(ctx, output(ctx, out), 'ensemble')
  if got is None:
    return
  keys = [g[0] for g in got]
  ctx.expect(keys == sorted(keys, key=int) and set(keys) == set(
      map(str, range(inputs))), 'ensemble-inputs',
             'each input has its lines, in order', keys=keys)
  for j, merged in enumerate(wanted):
    mine = [(s, c) for key, s, c in got if key == str(j)]
    counts = [len(w) for w, _ in merged]
    often = max(map(counts.count, counts))
    options = [lengths[j]] if given else sorted(
        {c for c in counts if counts.count(c) == often})
    if len(set(counts)) > 1:
      ctx.saw('pruned')
    if len(options) > 1 and mine:
      m = len(mine[0][0].split(' '))
      options = [m] if m in options else options
    n = options[0]
    parts = []
    for pos in range(n):
      costs_at = {}
      for w, c in merged:
        if len(w) == n:
          costs_at.setdefault(w[pos], []).append(c)
      parts.append([(w, log_sum(c)) for w, c in sorted(costs_at.items())])
    ctx.saw('ensembles')
    ctx.case((k, merged), len(merged) > 1)
    best(ctx, 'ensemble', parts, k, mine, True,
         {'k': k, 'length': n, 'candidates': merged})


def rejoin(ctx, ask):
  rng = ctx.rng
  texts, costs = Texts(rng), Costs(ctx)
  outputs = []
  lines, splits = [], []
  last = None
  for j in range(rng.randint(1, 5)):
    parts = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
      name = str(len(splits)) if rng.random() < 0.8 else texts.fresh()
      while name == last:
        name = texts.fresh()
      last = name
      part = []
      for _ in range(rng.randint(1, 4)):
        s = texts.spaced([texts.word() for _ in range(rng.randint(1, 3))])
        part.append((s, costs()))
      if rng.random() < 0.7:
        part.sort(key=lambda x: x[1])
      for s, c in part:
        lines.append('\t'.join([name, s, repr(c)]))
      parts.append(part)
      splits.append(str(j))
    outputs.append(parts)
  k = rng.choice([-1, -1, 0, 1, 2, 3, 10, 100])
  src, split = save(ctx, 'parts.tsv', lines), save(ctx, 'split.txt', splits)
  out = os.path.join(ctx.tmp, 'joined.tsv')
  ctx.saw('files')
  by_index = None
  if ctx.tool:
    args = ['--ifile=' + src, '--ofile=' + out, '--split_file=' + split]
    if k != -1 or rng.random() < 0.3:
      args.append('--kbest=%d' % k)
    done = tool(ctx, 'rejoin-kbest', *args)
  else:
    done = by_index = ask('rejoin', src, split, k, out)
  if done is None:
    return
  got = fields(ctx, output(ctx, out), 'rejoin')
  if got is None:
    return
  keys = [g[0] for g in got]
  ctx.expect(keys == sorted(keys, key=int) and set(keys) == set(
      map(str, range(len(outputs)))), 'rejoin-outputs',
             'each output has its lines, in order', keys=keys,
             outputs=len(outputs))
  lists = [[(s, c) for key, s, c in got if key == str(j)]
           for j in range(len(outputs))]
  if by_index is not None:
    want = ' '.join([str(len(outputs))] + [
        ':'.join([str(len(x))] + [hx(s) for s, _ in x]) for x in lists] + ['0'])
    ctx.expect(by_index == want, 'rejoin-by-index',
               'a list asked for is the list written', got=by_index, want=want)
  top = k if k > 0 else max(len(p) for parts in outputs for p in parts)
  for parts, mine in zip(outputs, lists):
    detail = {'k': k, 'parts': parts}
    if len(parts) == 1:
      ctx.saw('unsplit')
      want = [norm(s) for s, _ in parts[0]]
      n = len(mine)
      ctx.case((k, parts), len(want) > 1)
      ctx.expect(
          [s for s, _ in mine] == want[:n] and n >= min(top, len(want))
          and all(abs(a[1] - b[1]) < 1e-5 + 1e-9 * abs(b[1])
                  for a, b in zip(mine, parts[0])), 'rejoin-unsplit',
          'what was not split is as it was', got=mine, **detail)
    else:
      ctx.saw('joined')
      ctx.case((k, parts))
      best(ctx, 'rejoin', parts, top, mine, False, detail)


def refusals(ctx, ask):
  """What cannot be handled is refused, not answered wrongly."""
  rng = ctx.rng
  good = save(ctx, 'good.tsv', ['0\ta b\t1.5', '0\ta c\t2.5', '1\td\t0.5'])
  lattice = save(ctx, 'good2.tsv', ['0\t0\ta\tb\t1'])
  out = os.path.join(ctx.tmp, 'out.tsv')
  none = os.path.join(ctx.tmp, 'none', 'x.tsv')
  split = save(ctx, 'split.txt', ['0', '0'])
  short = save(ctx, 'short.tsv', ['0\ta b\t1.5'])
  cases = [
      ('ensemble', good, '-', 3, out),  # Only one system.
      ('ensemble', good + ':' + short, '-', 3, out),
      ('ensemble', good + ':' + none, '-', 3, out),
      ('ensemble', good + ':' + save(ctx, 'bad.tsv', ['0\ta']), '-', 3, out),
      ('ensemble', good + ':' + good, save(ctx, 'l.txt', ['2']), 3, out),
      ('ensemble', good + ':' + good, save(ctx, 'l2.txt', ['2', '0']), 3, out),
      ('extract', none, 3, 1, 1, out),
      ('extract', save(ctx, 'bad2.tsv', ['0\t0\ta\tb']), 3, 1, 1, out),
      ('extract', save(ctx, 'bad3.tsv', ['0\t1\ta\tb\t1']), 3, 1, 1, out),
      ('extract', save(ctx, 'bad4.tsv', ['0\t0\ta\tb\t1', '0\t2\ta\tb\t1']), 3,
       1, 1, out),
      ('rejoin', none, split, 3, out),
      ('rejoin', good, none, 3, out),
      ('rejoin', good, save(ctx, 's1.txt', ['0', '2']), 3, out),
      ('rejoin', good, save(ctx, 's2.txt', ['1', '0']), 3, out),
      ('rejoin', good, save(ctx, 's3.txt', ['0']), 3, out),
      ('rejoin', save(ctx, 'bad5.tsv', ['0\ta']), split, 3, out)]
  if ctx.thorough or rng.random() < 0.5:
    rng.shuffle(cases)
  for c in cases:
    ctx.saw('refused')
    ctx.expect(ask(*c, refuse=True) is None, 'not-refused',
               'malformed input is refused', request=c, files=ask.files(c))
  for c in (('ensemble', good + ':' + good, '-', 3, none),
            ('extract', lattice, 3, 1, 1, none),
            ('rejoin', good, split, 3, none)):
    ctx.saw('unwritable')
    ctx.expect(ask(*c, refuse=True) is None, 'unwritable',
               'an output that cannot be written is an error', request=c)


# ---- Wordpieces.


def segment(prefix, ranks, text):
  """The pieces of each word: merged pairwise, those of the best rank first."""
  out, merges = [], 0
  for word in re.split('[' + SPACES + ']+', text):
    if not word:
      continue
    p = list(prefix + word)
    while True:
      found = None
      for i in range(len(p) - 1):
        r = ranks.get(p[i] + p[i + 1])
        if r is not None and (found is None or r < found[0]):
          found = (r, i)
      if found is None:
        break
      i = found[1]
      p[i:i + 2] = [p[i] + p[i + 1]]
      merges += 1
    out += p
  return out, merges


def vocabulary(rng, prefix, letters):
  """Pieces in order of priority."""
  words = [prefix + ''.join(rng.choice(letters)
                            for _ in range(rng.randint(1, 7)))
           for _ in range(rng.randint(3, 25))]
  if rng.random() < 0.6:  # As learned from words.
    seqs = [list(w) for w in words]
    out = []
    for _ in range(rng.randint(1, 30)):
      counts = {}
      for s in seqs:
        for a, b in zip(s, s[1:]):
          counts[a + b] = counts.get(a + b, 0) + 1
      if not counts:
        break
      piece = max(sorted(counts), key=counts.get)
      out.append(piece)
      for s in seqs:
        i = 0
        while i < len(s) - 1:
          if s[i] + s[i + 1] == piece:
            s[i:i + 2] = [piece]
          i += 1
    if rng.random() < 0.7:
      out += sorted(set(''.join(words)))
    if rng.random() < 0.3:
      rng.shuffle(out)
  else:
    out = []
    for _ in range(rng.randint(1, 40)):
      w = rng.choice(words)
      i = rng.randrange(len(w))
      out.append(w[i:i + rng.randint(1, 5)])
  if rng.random() < 0.2:
    out += [rng.choice(out) for _ in range(3)]
  return out


def pieces(ctx):
  rng = ctx.rng
  ask = Asker(ctx)
  for i in range(ctx.n(360, 4000)):
    given = rng.choice(['', '', '\u2581', '#', '##', '\u0e5b', '<w>'])
    prefix = given or '\u2581'
    letters = rng.choice(ALPHABETS)
    vocab = [v for v in vocabulary(rng, prefix, letters)]
    fresh = i == 0 or rng.random() < 0.8
    if fresh:
      mine = prefix
    else:
      prefix = mine
      vocab = vocabulary(rng, prefix, letters)
    ctx.saw('vocabularies')
    if rng.random() < 0.5:
      status = ask('pieces', hx(given), ','.join(map(hx, vocab)),
                   'new' if fresh else 'same')
    else:
      lines = []
      for v in vocab:
        lines.append(rng.choice(['', '', '', ' ', '\u3000', '\t']) + v
                     + rng.choice(['', '', '\t-1.5', ' x y', ' ', '\r']))
        if rng.random() < 0.1:
          lines.append(rng.choice(['', ' ', '\t\u2003']))
      path = save(ctx, 'vocab-%d.txt' % i, lines)
      status = ask('file', hx(given), hx(path), 'new' if fresh else 'same')
      os.unlink(path)
    ctx.expect(status in ('', None), 'pieces-init', 'a vocabulary is taken',
               status=status, vocab=vocab)
    if status != '':
      continue
    ranks = {}
    for r, v in enumerate(vocab):
      ranks.setdefault(v, r)
    for _ in range(ctx.n(14, 20)):
      words = []
      for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        if rng.random() < 0.4:
          w = ''.join(rng.choice(vocab) for _ in range(rng.randint(1, 4)))
          w = re.sub('[' + SPACES + ']', '', w)
        else:
          w = ''.join(rng.choice(letters + rng.choice(['', prefix, 'Z']))
                      for _ in range(rng.choice([1, 2, 5, 9, 30])))
        words.append(w)
      text = Texts(rng).spaced(words) if words else rng.choice(['', ' ', '\u3000'])
      want, merges = segment(prefix, ranks, text)
      got = ask('segment', hx(text))
      ctx.saw('words', len(words))
      ctx.saw('merges', merges)
      ctx.case((prefix, tuple(vocab), text), len(want) > 1)
      if got is None:
        continue
      if got == 'error':
        ctx.violate('pieces-error', 'strings can be segmented', text=text,
                    vocab=vocab)
        continue
      a, b, c = got.split(';')
      ctx.expect(unlist(a) == want and unlist(b) == want, 'pieces-wrong',
                 'adjacent pieces whose union is in the vocabulary are merged, '
                 'those of the highest priority first', prefix=prefix,
                 vocab=vocab, text=text, got=unlist(a), view=unlist(b),
                 want=want)
      ctx.expect(unhx(c) == ' '.join(want), 'pieces-joined',
                 'the tokens are joined by spaces', got=unhx(c), want=want)
    transducer(ctx, ask, prefix, letters, vocab, ranks)
    if i % 25 == 0:
      ctx.saw('missing')
      status = ask('file', hx(given), hx(os.path.join(ctx.tmp, 'none')), 'new')
      ctx.expect(status == 'error', 'pieces-missing',
                 'a missing vocabulary is an error', status=status)
      ask('pieces', hx(given), ','.join(map(hx, vocab)), 'new')
      mine = given or '\u2581'


def transducer(ctx, ask, prefix, letters, vocab, ranks):
  rng = ctx.rng
  words = ['<eps>']
  while len(words) < rng.randint(3, 8):
    w = ''.join(rng.choice(letters) for _ in range(rng.randint(1, 8)))
    if w not in words:
      words.append(w)
  syms = ['<eps>', '<unk>'] + sorted(set(vocab) - {'<unk>'})
  for w in words[1:]:
    if rng.random() < 0.8:
      syms += [p for p in segment(prefix, ranks, w)[0] if p not in syms]
  syms = [s for s in dict.fromkeys(syms) if s]
  ids = [rng.randrange(1, len(words)) for _ in range(rng.randint(0, 6))]
  unk = '<unk>' if rng.random() < 0.75 else '<none>'
  got = ask('transduce', ','.join(map(hx, words)), ','.join(map(hx, syms)),
            ','.join(map(str, ids)), hx(unk))
  if got is None:
    return
  spell = {}
  lacking = False
  for i in ids:
    spell[i] = []
    for p in segment(prefix, ranks, words[i])[0]:
      lacking |= p not in syms
      spell[i].append(syms.index(p) if p in syms else
                      syms.index(unk) if unk in syms else None)
  detail = {'prefix': prefix, 'vocab': vocab, 'words': words, 'syms': syms,
            'ids': ids, 'unk': unk, 'got': got[:400]}
  ctx.saw('transducers')
  if lacking and unk not in syms:
    ctx.saw('no unk')
    ctx.expect(got == 'error', 'transducer-unk',
               'a piece without symbol is an error if there is none for the '
               'unknown', **detail)
    return
  if not ctx.expect(got != 'error', 'transducer-error', 'it is made', **detail):
    return
  start, *rest = got.split(' ')
  start = int(start)
  arcs, finals = {}, {}
  for r in rest:
    f = r.split(':')
    if len(f) == 2:
      finals[int(f[0])] = float(f[1])
    else:
      arcs.setdefault(int(f[0]), []).append(
          (int(f[1]), int(f[2]), float(f[3]), int(f[4])))

  def outputs(seq):
    found = {}
    todo = [(start, 0, (), 0.0)]
    for _ in range(20000):
      if not todo:
        return found
      s, at, out, cost = todo.pop()
      if at == len(seq) and s in finals:
        found[out] = min(found.get(out, 1e9), cost + finals[s])
      if len(out) > 200:
        continue
      for i, o, c, t in arcs.get(s, ()):
        if i and (at == len(seq) or seq[at] != i):
          continue
        todo.append((t, at + (i > 0), out + ((o,) if o else ()), cost + c))
    return None

  for _ in range(3):
    seq = [rng.randrange(1, len(words)) if rng.random() < 0.2 or not ids
           else rng.choice(ids) for _ in range(rng.randint(0, 3))]
    want = {}
    if all(i in spell for i in seq):
      want = {tuple(p for i in seq for p in spell[i]): 0.0}
    ctx.saw('paths')
    ctx.case((tuple(vocab), tuple(words), tuple(seq)), bool(want))
    ctx.expect(outputs(seq) == want, 'transducer-wrong',
               'sequences of the words, and no others, become their pieces',
               seq=seq, found=outputs(seq), want=want, **detail)
