"""P24: Transliteration of words and sentences with pair language models."""

import itertools
import math
import os
import re
import shutil
import tempfile

import cppbuild
from checks import p23

FST = 'nisaba/translit/fst/'
LABELS = []
RULE = ('random pair language models with backoff, transducers, language '
        'models of words and of wordpieces, external candidates and '
        'configurations; sentences of words that are covered, partly covered, '
        'external and repeated; alone, in files and from several threads, with '
        'delays at the mutexes; a case is one sentence, non-trivial when some '
        'word has more than one candidate')
ASSUMPTIONS = ['the counts of OpenGrm, which is not installed, are those of '
               'cpp/shim/ngram, and the mutexes are those of cpp/tsan',
               'models are sorted, and the backoff arc of a state is its first; '
               'every sentence has some probability; the language model has '
               'the symbol of the unknown',
               'OpenFst\'s costs have the precision of its single-precision '
               'floats, and sums that of its convergence threshold',
               'the number of candidates asked of one decoder does not change',
               'the order of the candidates of a word, and of those of the '
               'same cost, is not decided; nor is whether candidates beyond '
               'the threshold remain when there is room for them, or those '
               'below the minimum posterior when all are kept',
               'with the language model at the level of words only the '
               'differences of the costs of a word are decided',
               'no word is deleted altogether; mixing weights are between 0 '
               'and 1; the text is well-formed UTF-8',
               'Abseil logging is a stand-in']
REQUIRED = {'model pairs': 1500, 'model transducer': 700, 'model none': 600,
            'decoders': 3000, 'sentences': 12000, 'words': 30000, 'blank': 1300,
            'segmented': 6000, 'unchanged': 10000, 'cut': 7000, 'mixed': 4000,
            'externals': 1500, 'overrides': 450, 'weights': 500,
            'filtered': 5000, 'improbable': 300, 'lm words': 600,
            'lm pieces': 300, 'lm parse': 300, 'closures': 500,
            'lm of single words': 350, 'samples': 4000, 'same seeds': 25,
            'distributions': 40, 'refused': 900, 'files': 450,
            'tool runs': 400, 'flag pairlm_file': 70, 'flag lm_file': 40,
            'blank lines': 45, 'thread runs': 600, 'concurrent': 1700,
            'orders of answers': 800, 'clean exits': 500, 'thresholds': 80}
SPACES = p23.SPACES
FIELD = p23.IN_FIELD
UNREACHED = 9999


def shards(tier):
  return ['words%d' % i for i in range(4)] + ['models%d' % i for i in range(
      4)] + ['threads%d' % i for i in range(3)]


def prepare(built, tier):
  port = ['nisaba/port/%s.cc' % x for x in (
      'file_util', 'utf8_util', 'unicode_properties', 'utf8_delimiters')]
  code = [FST + x + '.cc' for x in (
      'pairlm_decoder', 'pairlm_decoder_runner', 'wordpiece-segmenter')] + [
          FST + 'pairlm_decoder_options.pb.cc'] + port
  flags = cppbuild.OPENFST18 + cppbuild.MUTEX + [
      '-include', 'absl/types/span.h']
  libs = ['-lfst', '-lprotobuf']
  cppbuild.build({
      'driver': (['pairlm_driver.cc'] + code, cppbuild.LEAN + flags, libs),
      'threads': (['pairlm_driver.cc'] + code, cppbuild.TSAN + flags + [
          '-include', cppbuild.CPP + '/watch_symbols.h'], libs),
      'tool': ([FST + 'pairlm_decoder_main.cc'] + code, cppbuild.LEAN + flags,
               libs)}, built and built.env, views=True,
                 protos=[FST + 'pairlm_decoder_options.proto'])


hx, unhx, log_sum, segment = p23.hx, p23.unhx, p23.log_sum, p23.segment


def work(ctx, shard):
  ctx.tmp = os.path.realpath(tempfile.mkdtemp(prefix='nisaba-verif-p24-'))
  try:
    if shard.startswith('threads'):
      threads(ctx)
    else:
      decode(ctx, shard.startswith('models'))
  finally:
    shutil.rmtree(ctx.tmp, True)


# ---- Models.


class Backoff:
  """A model of sequences of labels, with backoff."""

  def __init__(self, rng, labels, closure=False):
    """States are 0, of no context, and contexts; one is the start."""
    cost = lambda: round(rng.expovariate(0.8), 4)
    self.arcs, self.backoff, self.final = [{}], [None], [cost()]
    contexts = {}
    plain = rng.random() < 0.25 and not closure
    if plain:
      self.start = 0
    else:
      self.start = 1
      names = [None] + [l for l in labels if rng.random() < 0.5]
      for i, n in enumerate(names):
        contexts[n] = i + 1
        self.arcs.append({})
        self.backoff.append((cost(), 0))
        self.final.append(cost() if i and rng.random() < 0.5 else None)
      if rng.random() < 0.3 and len(names) > 2:  # A longer history.
        a, b = rng.choice(names[1:]), rng.choice(names[1:])
        contexts[a, b] = len(self.arcs)
        self.arcs.append({})
        self.backoff.append((cost(), contexts[b]))
        self.final.append(cost() if rng.random() < 0.5 else None)
    for l in labels:
      self.arcs[0][l] = (cost(), contexts.get(l, 0))
    for n, s in contexts.items():
      last = n[-1] if isinstance(n, tuple) else n
      for l in labels:
        if rng.random() < 0.5:
          self.arcs[s][l] = (cost(), contexts.get((last, l),
                                                  contexts.get(l, 0)))
    for s, a in enumerate(self.arcs):
      if not a and self.backoff[s] is None:
        raise AssertionError
    self.closure = closure

  def write(self, path, names, rng):
    import pynini
    f = pynini.Fst()
    order = list(range(len(self.arcs)))
    rng.shuffle(order)
    at = {s: i for i, s in enumerate(order)}
    for _ in order:
      f.add_state()
    f.set_start(at[self.start])
    one = lambda c: pynini.Weight('tropical', c)
    for s in order:
      if self.backoff[s]:
        c, t = self.backoff[s]
        f.add_arc(at[s], pynini.Arc(0, 0, one(c), at[t]))
      for l, (c, t) in sorted(self.arcs[s].items()):
        f.add_arc(at[s], pynini.Arc(l, l, one(c), at[t]))
      if self.final[s] is not None:
        f.set_final(at[s], one(self.final[s]))
    syms = pynini.SymbolTable()
    for i, n in names.items():
      syms.add_symbol(n, i)
    f.set_input_symbols(syms)
    if rng.random() < 0.7:
      f.set_output_symbols(syms)
    f.write(path)

  def step(self, state, label):
    cost = 0
    while label not in self.arcs[state]:
      if self.backoff[state] is None:
        return None
      c, state = self.backoff[state]
      cost += c
    c, state = self.arcs[state][label]
    return cost + c, state

  def end(self, state):
    if self.final[state] is not None:
      return self.final[state]
    if self.backoff[state] is None:
      return math.inf
    c, state = self.backoff[state]
    return c + self.end(state)

  def score(self, labels):
    state, cost = self.start, 0
    for l in labels:
      next = self.step(state, l)
      if next is None:
        return math.inf
      cost += next[0]
      state = next[1]
    return cost + self.end(state)

  # Sets of states with the costs of reaching them.

  def consume(self, states, labels):
    for l in labels:
      found = {}
      if self.closure:  # A sequence may end, and another begin.
        restart = [c + self.end(s) for s, c in states.items()
                   if s != self.start]
        states = {s: [c] for s, c in states.items()}
        if restart:
          states.setdefault(self.start, []).extend(restart)
        states = {s: log_sum(c) for s, c in states.items()}
      for s, c in states.items():
        next = self.step(s, l)
        if next is not None and next[0] + c < math.inf:
          found.setdefault(next[1], []).append(c + next[0])
      states = {s: log_sum(c) for s, c in found.items()}
    return states


class Pairs:
  """A pair language model."""

  def __init__(self, rng, inputs, outputs, path):
    self.table = []  # Of input and output characters.
    self.dropped = set()
    for c in inputs:
      for o in rng.sample(outputs, rng.randint(1, min(3, len(outputs)))):
        self.table.append((c, o))
      if c == inputs[-1] and rng.random() < 0.4:
        self.dropped.add(c)
        self.table.append((c, ''))
    rng.shuffle(self.table)
    invert = rng.random() < 0.4
    names = {0: '<epsilon>'}
    code = lambda x: ord(x) if x else 0
    labels = []
    for c, o in self.table:
      a, b = (o, c) if invert else (c, o)
      labels.append(len(names))
      names[len(names)] = '%d;%d' % (code(a), code(b))
    self.labels = labels
    if rng.random() < 0.6:
      names[len(names)] = '<UNK>'
    self.model = Backoff(rng, labels)
    # Not all pairs in all contexts: some words may have no transliteration.
    if rng.random() < 0.3:
      for l in labels:
        if rng.random() < 0.2 and len(self.model.arcs[0]) > 1:
          self.model.arcs[0].pop(l)
    self.model.write(path, names, rng)
    self.covered = {c for c, _ in self.table}
    self.options = 'pairlm_file: "%s"' % path
    if invert:
      self.options += ' invert_pairlm: true'
    elif rng.random() < 0.3:
      self.options += ' invert_pairlm: false pairlm_is_transducer: false'

  def paths(self, word):
    """(output letters, cost) of all sequences of pairs."""
    choice = [[i for i, (a, _) in enumerate(self.table) if a == c]
              for c in word]
    for seq in itertools.product(*choice):
      cost = self.model.score([self.labels[i] for i in seq])
      if cost < math.inf:
        yield tuple(self.table[i][1] for i in seq), cost


class Transducer:

  def __init__(self, rng, inputs, outputs, path):
    import pynini
    n = rng.randint(1, 4)
    cost = lambda: round(rng.expovariate(0.8), 4)
    self.arcs = []
    self.dropped = {inputs[-1]} if rng.random() < 0.4 else set()
    for c in inputs:
      for _ in range(rng.randint(1, 5)):
        o = rng.choice(outputs + [''] if c in self.dropped else outputs)
        self.arcs.append((rng.randrange(n), c, o, cost(), rng.randrange(n)))
    for _ in range(rng.randint(0, 2)):  # Insertions, but not for ever.
      s = rng.randrange(n)
      if s + 1 < n:
        self.arcs.append((s, '', rng.choice(outputs), cost(),
                          rng.randrange(s + 1, n)))
    self.final = {s: cost() for s in range(n) if s == 0 or rng.random() < 0.8}
    invert = rng.random() < 0.4
    f = pynini.Fst()
    for _ in range(n):
      f.add_state()
    f.set_start(0)
    code = lambda x: ord(x) if x else 0
    for s, a, b, c, t in self.arcs:
      x, y = (b, a) if invert else (a, b)
      f.add_arc(s, pynini.Arc(code(x), code(y),
                              pynini.Weight('tropical', c), t))
    for s, c in self.final.items():
      f.set_final(s, pynini.Weight('tropical', c))
    f.arcsort('olabel' if invert else 'ilabel')
    f.write(path)
    self.covered = {a for _, a, _, _, _ in self.arcs if a}
    self.options = 'pairlm_file: "%s" pairlm_is_transducer: true' % path
    if invert:
      self.options += ' invert_pairlm: true'

  def paths(self, word):
    todo = [(0, 0, (), 0.0)]
    while todo:
      s, at, out, cost = todo.pop()
      if at == len(word) and s in self.final:
        yield out, cost + self.final[s]
      for q, a, b, c, t in self.arcs:
        if q == s and (not a or word[at:at + 1] == a):
          todo.append((t, at + len(a), out + (b,), cost + c))


class Lm:
  """A language model of words or pieces."""

  def __init__(self, rng, words, prefix, letters, ctx):
    self.kind = rng.choice(['words', 'words', 'pieces', 'parse'])
    ctx.saw('lm ' + self.kind)
    self.closure = rng.random() < (0.25 if self.kind == 'words' else 0.6)
    self.words_only = rng.random() < 0.3
    self.oov = rng.choice(['<UNK>', '<UNK>', '<oov>'])
    self.oov_cost = rng.choice([None, 0, 2.5, 10, 25])
    self.prefix = prefix
    path = os.path.join(ctx.tmp, 'lm.fst')
    known = [w for w in words if rng.random() < 0.7] or words[:1] or ['b']
    o = ['lm_file: "%s"' % path]
    if self.kind == 'words':
      vocab = known
    elif self.kind == 'pieces':
      pieces = p23.vocabulary(rng, prefix, letters)
      self.ranks = {}
      for r, v in enumerate(pieces):
        self.ranks.setdefault(v, r)
      vocab = []
      for w in known:
        vocab += segment(prefix, self.ranks, w)[0]
      file = p23.save(ctx, 'pieces.txt', pieces)
      o.append('word_piece_model: "%s"' % file)
      if prefix != '\u2581' or rng.random() < 0.5:
        o.append('word_piece_word_initial_prefix: "%s"' % prefix)
    else:
      vocab = []
      for w in known + list(letters):
        i = rng.randint(0, len(w))
        if i:
          vocab.append(w[:i])
        if i < len(w):
          vocab.append(prefix + w[i:])
        if i < len(w) - 1:
          vocab.append(prefix + w[i:-1])
      if not any(v.startswith(prefix) for v in vocab):
        vocab.append(prefix + letters[0])
      o.append('word_piece_internal_prefix: "%s"' % prefix)
    vocab = [v for v in dict.fromkeys(vocab) if v][:40]
    rng.shuffle(vocab)
    names = {0: '<epsilon>'}
    for v in vocab + [self.oov]:
      names[len(names)] = v
    if self.oov != '<UNK>' or rng.random() < 0.2:
      o.append('oov_symbol: "%s"' % self.oov)
    self.ids = {v: k for k, v in names.items()}
    self.model = Backoff(rng, list(names)[1:], self.closure)
    self.model.write(path, names, rng)
    if self.closure:
      ctx.saw('closures')
      o.append('apply_closure_to_lm: true')
    if self.words_only:
      ctx.saw('lm of single words')
      o.append('apply_lm_at_word_level: true')
    if self.oov_cost is None:
      self.oov_cost = 10
    else:
      o.append('oov_cost: %r' % self.oov_cost)
    self.options = ' '.join(o)

  def symbols(self, word):
    """Labels of a candidate, and the cost of what is unknown."""
    if self.kind == 'words':
      parts = [word]
    elif self.kind == 'pieces':
      parts = segment(self.prefix, self.ranks, word)[0]
    else:
      parts, at = [], 0
      while at < len(word):
        before = self.prefix if at else ''
        for n in range(len(word) - at, 0, -1):
          piece = before + word[at:at + n]
          if piece in self.ids and piece not in (self.oov, '<epsilon>'):
            parts.append(piece)
            at += n
            break
        else:
          parts.append(None)
          at += 1
    labels = [self.ids.get(p, self.ids[self.oov]) for p in parts]
    unknown = sum(p not in self.ids for p in parts)
    return labels, unknown * self.oov_cost

  def posteriors(self, lists):
    """Costs of each candidate of each position; None if there is no sentence."""
    m = self.model
    steps = [[(c,) + self.symbols(w) for w, c in part.items()]
             for part in lists]
    if self.words_only:
      costs = [[self.through({m.start: 0.0}, s, lambda st: log_end(m, st))
                for s in part] for part in steps]
    else:
      forward = [{m.start: 0.0}]
      for part in steps:
        forward.append(merge([self.after(forward[-1], s) for s in part]))
      cache = [{} for _ in range(len(lists) + 1)]

      def rest(pos, state):
        if pos == len(lists):
          return m.end(state)
        if state not in cache[pos]:
          cache[pos][state] = total([
              c + rest(pos + 1, t) for s in steps[pos]
              for t, c in self.after({state: 0.0}, s).items()])
        return cache[pos][state]

      costs = [[self.through(forward[i], s, lambda st: total(
          [c + rest(i + 1, t) for t, c in st.items()])) for s in part]
               for i, part in enumerate(steps)]
    out = []
    for part, cost in zip(lists, costs):
      all = total(cost)
      if all == math.inf:
        return None
      out.append({w: c - all if c < math.inf else UNREACHED
                  for w, c in zip(part, cost)})
    return out

  def after(self, states, step):
    c, labels, unknown = step
    found = self.model.consume(states, labels)
    return {s: d + c + unknown for s, d in found.items()}

  def through(self, states, step, end):
    return end(self.after(states, step))


def total(costs):
  costs = [c for c in costs if c < math.inf]
  return log_sum(costs) if costs else math.inf


def merge(sets):
  found = {}
  for states in sets:
    for s, c in states.items():
      found.setdefault(s, []).append(c)
  return {s: log_sum(c) for s, c in found.items()}


def log_end(model, states):
  return total([c + model.end(s) for s, c in states.items()])


# ---- What is right.


class Undecided(Exception):
  """There are several right answers."""


def cut(ctx, found, k):
  """The best k of (cost, string)."""
  found = sorted(found)
  if len(found) > k:
    ctx.saw('cut')
    if found[k][0] - found[k - 1][0] < 1e-3:
      raise Undecided()
  found = found[:k]
  if len({s for _, s in found}) < len(found):
    raise Undecided()
  return [(s, c) for c, s in found]


class Setup:
  """A random decoder: its files, its options, its words, and its answers."""

  def __init__(self, ctx, models, mixed=False):
    rng = self.rng = ctx.rng
    self.ctx = ctx
    alphabet = list(dict.fromkeys(rng.choice(p23.ALPHABETS).replace(
        '"', '').replace('\\', '')))
    target = list(dict.fromkeys(rng.choice(p23.ALPHABETS).replace(
        '"', '').replace('\\', '')))
    alphabet, target = alphabet[:4], target[:4]
    self.alphabet = alphabet
    self.k = rng.choice([1, 1, 2, 3, 5, 20])
    o = []
    path = os.path.join(ctx.tmp, 'd.fst')
    kind = rng.choice(['pairs', 'pairs', 'transducer'] + ['none'] * (not mixed))
    ctx.saw('model ' + kind)
    self.translit = {'pairs': Pairs, 'transducer': Transducer,
                     'none': lambda *a: None}[kind](rng, alphabet, target, path)
    if self.translit:
      o.append(self.translit.options)
    self.covered = self.translit.covered if self.translit else set()
    self.words = [self.word() for _ in range(rng.randint(2, 7))]
    # External candidates.
    self.external, self.override, self.weight = {}, False, 0.0
    if mixed or rng.random() < 0.55:
      self.externals(o, target)
    # Language model.
    self.lm = None
    self.max_cands = 100
    self.thresh = 12
    if models:
      known = []
      for w in self.words:
        known += self.some(w, 6)
      known = [w for w in dict.fromkeys(known) if w]
      prefix = rng.choice(['\u2581', '##', '\u0e5b', '<w>'])
      self.lm = Lm(rng, known, prefix, target, ctx)
      o.append(self.lm.options)
      if rng.random() < 0.6:
        self.max_cands = rng.choice([1, 2, 4, 30])
        o.append('max_word_cands: %d' % self.max_cands)
    self.loose = (not models and not self.external and rng.random() < 0.2
                  and self.translit)
    if self.loose:
      ctx.saw('thresholds')
      self.thresh = rng.choice([0.5, 2, 12])
      if self.thresh != 12 or rng.random() < 0.5:
        o.append('word_cand_thresh: %r' % self.thresh)
    else:
      self.thresh = math.inf
      o.append('word_cand_thresh: 1000')
    self.least = 0
    if rng.random() < 0.3:
      self.least = rng.choice([0.01, 0.1, 0.3, 0.6])
      o.append('min_cand_posterior: %r' % self.least)
    self.cache = rng.random() < 0.7
    if not self.cache or rng.random() < 0.5:
      o.append('add_to_cache: %s' % str(self.cache).lower())
    self.parallel = rng.choice([None, 1, 2, 4, 8])
    if self.parallel:
      o.append('max_parallel_tokens: %d' % self.parallel)
    if rng.random() < 0.2:
      o.append('epsilon_symbol: "%s"' % rng.choice(['<eps>', '<epsilon>']))
    rng.shuffle(o)
    self.options = ' '.join(o)
    self.seen = set()
    self.memo = {}

  def detail(self, line):
    d = {'options': self.options, 'line': line, 'k': self.k}
    if self.translit:
      d['model'] = vars(self.translit).get('table') or self.translit.arcs
    if self.external:
      d['external'] = self.external
    return d

  def word(self):
    rng = self.rng
    w = ''
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
      c = rng.choice(self.alphabet + (['7', '।'] if rng.random() < 0.3 else []))
      if self.translit and c in self.translit.dropped:
        first = [a for a in self.alphabet if a not in self.translit.dropped]
        if not first:
          continue
        c = rng.choice(first) + c
      w += c
    if rng.random() < 0.15:
      w = rng.choice([w + '12', '12' + w, '1' + w + '2', '12', '7'])
    return w or '12'

  def externals(self, o, target):
    rng, ctx = self.rng, self.ctx
    lines = []
    words = [w for w in self.words if rng.random() < 0.6]
    words += [self.word() for _ in range(rng.randint(0, 3))]
    if rng.random() < 0.4:
      words.append('12')
    for w in words:
      for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.4:
          c = rng.choice(self.some(w, 4) or [w])
        else:
          c = ''.join(rng.choice(target) for _ in range(rng.randint(1, 4)))
        if not c:
          continue
        cost = round(rng.choice([rng.uniform(0, 4), rng.uniform(0, 15)]), 4)
        lines.append((w, c, cost))
    if not lines:
      return
    rng.shuffle(lines)
    for w, c, cost in lines:
      self.found(w)[c] = cost
    path = p23.save(ctx, 'cands.tsv', ['\t'.join([w, c, repr(x)])
                                       for w, c, x in lines])
    o.append('translit_cands_file: "%s"' % path)
    ctx.saw('externals')
    if rng.random() < 0.3:
      self.override = True
      ctx.saw('overrides')
      o.append('translit_cands_override: true')
    if rng.random() < 0.6:
      x = rng.choice([0.5, 0.05, 0.2, 0.8, 0.95])
      o.append('pairlm_translit_weight: %r' % x)
      if self.translit:
        self.weight = -math.log(x / (1 - x))
        if x != 0.5:
          ctx.saw('weights')

  def some(self, word, k):
    try:
      return list(self.candidates(word, k))[:k]
    except Undecided:
      return []

  def found(self, w):
    return self.external.setdefault(w, {})

  def pieces(self, word):
    return [''.join(g) for _, g in itertools.groupby(
        word, lambda c: c in self.covered)]

  def best(self, segment, k):
    """Of the model: the best k as (output, cost), which may be repeated."""
    if not self.translit:
      return []
    best = {}
    for out, cost in self.translit.paths(segment):
      best[out] = min(best.get(out, math.inf), cost)
    return cut(self.ctx, [(c, ''.join(o)) for o, c in best.items()], k)

  def segment(self, s, k):
    found = self.best(s, k)
    if found:
      return found
    if s in self.external:
      return list(normal(self.external[s]).items())
    return [(s, 0.0)]

  def candidates(self, word, k):
    """The candidates of a word, and the costs of their probabilities."""
    external = self.external.get(word)
    if external and self.override:
      return normal(external)
    parts = self.pieces(word)
    if len(parts) > 1:
      self.ctx.saw('segmented')
      lists = []
      for p in parts:
        lists.append(self.segment(p, k))
      found = cut(self.ctx, [
          (sum(c for _, c in seq), ''.join(o for o, _ in seq))
          for seq in itertools.product(*lists)], k)
    else:
      found = self.best(word, k)
      if not found and not external:
        self.ctx.saw('unchanged')
        return {word: 0.0}
      if not found:
        return normal(external)
    costs = {}
    for o, c in found:
      costs.setdefault(o, []).append(c + self.weight)
    if external:
      self.ctx.saw('mixed')
      for o, c in normal(external).items():
        costs.setdefault(o, []).append(c)
    return normal({o: log_sum(c) for o, c in costs.items()})

  # ---- Comparison.

  def sentence(self):
    rng = self.rng
    n = rng.choice([0, 1, 1, 2, 3, 4])
    words = []
    for _ in range(n):
      words.append(rng.choice(words) if words and rng.random() < 0.2 else
                   rng.choice(self.words) if rng.random() < 0.85 else
                   self.word())
    if rng.random() < 0.1:
      words.append('12')
    while words and self.wanted(words) is None:
      words.pop()
    gap = lambda: rng.choice(FIELD) if rng.random() < 0.2 else ' '
    line = ''.join(gap() * (i > 0) + w for i, w in enumerate(words))
    if rng.random() < 0.1:
      line = gap() + line + gap()
    return words, line

  def wanted(self, words):
    """For each word its candidates; None if no sentence is possible."""
    key = tuple(words)
    if key not in self.memo:
      k = self.k if self.lm is None else self.max_cands
      try:
        lists = [self.candidates(w, k) for w in words]
      except Undecided:
        self.ctx.saw('undecided')
        self.memo[key] = None
        return None
      if self.lm is not None and words:
        lists = self.lm.posteriors(lists)
      self.memo[key] = lists
    return self.memo[key]

  def tolerance(self, size):
    return 0.012 + 0.002 * size

  def compare(self, words, text, key, line):
    """`text` are the candidates of these words."""
    ctx = self.ctx
    detail = self.detail(line)
    lists = self.wanted(words)
    got = [{} for _ in words]
    ctx.case((self.options, tuple(words), key),
             any(len(l) > 1 for l in lists))
    ctx.saw('sentences')
    for row in text.split('\n'):
      if row == '' and not words:
        continue
      f = row.split('\t')
      ok = len(f) == 4 + (key is not None)
      if ok and key is not None:
        ok = f.pop(0) == key
      if ok:
        try:
          i, cost = int(f[0]), float(f[3])
          ok = 0 <= i < len(words) and words[i] == f[1] and f[2] not in got[i]
        except ValueError:
          ok = False
      if not ctx.expect(ok, 'format', 'lines are those of a candidate',
                        row=row, words=words, got=text, **detail):
        return
      got[i][f[2]] = cost
    for i, (w, want, have) in enumerate(zip(words, lists, got)):
      ctx.saw('words')
      bad = self.word_wrong(want, have, sum(map(len, lists)))
      ctx.expect(bad is None, 'wrong-' + (bad[0] if bad else ''),
                 'each word has its best candidates, and their costs',
                 word=w, position=i, wrong=bad, got=have,
                 want=sorted(want.items(), key=lambda x: x[1])[:8], **detail)
      self.seen.add(w)

  def word_wrong(self, want, have, sizes):
    if self.loose:
      return self.loose_wrong(want, have)
    tol = self.tolerance(len(want) + 2 * len(self.external))
    order = sorted(want.values())
    if not have or not set(have) <= set(want):
      return 'candidates', sorted(set(have) - set(want))[:3]
    limit = -math.log(self.least) if self.least else math.inf
    shift = 0
    if self.lm is not None:
      first = min(have, key=have.get)
      shift = have[first] - want[first]
      if want[first] >= UNREACHED or have[first] >= UNREACHED:
        return None
      if self.lm.words_only:
        limit = math.inf if not self.least else None
      elif abs(shift) > 0.1 + tol + 0.002 * sizes:
        # Sums over many paths leave out what is beyond OpenFst's precision.
        return 'total', shift
      else:
        tol += abs(shift)
    for o, c in have.items():
      if want[o] == UNREACHED or c == UNREACHED:
        # Those may be indistinguishable from what is merely unlikely.
        if min(want[o], c) < 60:
          return 'unlikely', o, c, want[o]
      elif abs(c - shift - want[o]) > tol + 1e-5 * (abs(c) + abs(shift)):
        return 'cost', o, c - shift, want[o]
    if len(want) <= self.k:
      return None if len(have) == len(want) else ('missing', len(have))
    self.ctx.saw('filtered')
    if limit is None:
      return None if len(have) <= self.k else ('too many', len(have))
    kept = order[:self.k]
    sure = max(1, sum(c < limit - tol for c in kept))
    most = max(1, sum(c <= limit + tol for c in kept))
    if limit < math.inf and most < self.k:
      self.ctx.saw('improbable')
    if not sure <= len(have) <= most:
      return 'number', len(have), sure, most
    if max(want[o] for o in have) > order[len(have) - 1] + 2 * tol:
      return 'not the best', sorted(have.items(), key=lambda x: x[1])
    return None

  def loose_wrong(self, want, have):
    """Beyond the threshold there may be others, or not."""
    raw = sorted(want.values())
    low = raw[0]
    if len(have) > self.k or not set(have) <= set(want):
      return 'candidates', have
    first = min(have, key=have.get)
    if abs(want[first] - low) > 1e-3:
      return 'best', first
    for o, c in have.items():
      if abs((c - have[first]) - (want[o] - want[first])) > 2e-3:
        return 'difference', o
    if not self.least or len(want) <= self.k:
      for o, c in want.items():
        if c - low < self.thresh - 1e-3 and o not in have and (
            self.k > 1 and len(have) < self.k):
          return 'missing', o
    return None


def normal(costs):
  shift = log_sum(list(costs.values()))
  return {o: c - shift for o, c in costs.items()}


# ---- Decoding.


def decode(ctx, models):
  ask = p23.Asker(ctx)
  for i in range(ctx.n(600, 6000)):
    s = Setup(ctx, models)
    ctx.saw('decoders')
    if i % 6 == 5:
      runs(ctx, ask, s, tool=i % 12 == 5)
      continue
    if ask('new', hx(s.options)) is None:
      continue
    for _ in range(rng_n(ctx)):
      words, line = s.sentence()
      key = ctx.rng.choice([None, '0', '17', 'x'])
      end = ctx.rng.random() < 0.8
      got = ask('text', hx(line), s.k, hx(key or ''), int(end))
      if got is None:
        break
      got = unhx(got)
      if not words:
        ctx.saw('blank')
        ctx.expect(got == '', 'blank', 'a blank line has no candidates',
                   got=got, **s.detail(line))
        continue
      ctx.expect(got.endswith('\n') == end, 'endline',
                 'the last line ends if asked for', got=got)
      s.compare(words, got.strip('\n'), key, line)
      w = ctx.rng.choice(words + [s.word()])
      known = w in s.external or (s.cache and w in s.seen)
      ctx.expect(ask('cached', hx(w)) == str(int(known)), 'cached',
                 'words are cached once decoded, or if external', word=w,
                 **s.detail(line))
    if i % 10 == 3:
      sampling(ctx, ask, s)
    if i % 13 == 4:
      refusals(ctx, ask, s)


def rng_n(ctx):
  return ctx.rng.randint(2, 6)


def runs(ctx, ask, s, tool):
  """Files of lines, in sequence and in parallel."""
  rng = ctx.rng
  lines, sentences = [], []
  for _ in range(rng.randint(1, 12)):
    words, line = s.sentence()
    if line.startswith('#'):
      continue
    lines.append(line)
    if line not in ('', '\r'):  # Those are not read.
      sentences.append(words)
    if rng.random() < 0.15:
      lines.append('#' + line)
  workers = rng.choice([0, 1, 2, 3, 6])
  ctx.saw('files')
  src = p23.save(ctx, 'in.txt', lines)
  if os.path.getsize(src) == 0:
    return
  out = os.path.join(ctx.tmp, 'out.txt')
  if tool:
    ctx.saw('tool runs')
    args = ['--ifile=' + src, '--ofile=' + out, '--kbest=%d' % s.k]
    if workers != 1 or rng.random() < 0.4:
      args.append('--num_workers=%d' % workers)
    o = s.options
    for field, flag in (('pairlm_file', 'input_pairlm_fst_file'),
                        ('lm_file', 'input_lm_fst_file')):
      m = re.search(r'\b%s: "([^"]*)"' % field, o)
      if m and rng.random() < 0.5:
        ctx.saw('flag ' + field)
        o = o.replace(m.group(), rng.choice(
            ['', '%s: "%s/none"' % (field, ctx.tmp)]))
        args.append('--%s=%s' % (flag, m.group(1)))
    if rng.random() < 0.5:
      args.append('--pairlm_config=' + o)
    else:
      args.append('--pairlm_config_file=' + p23.save(ctx, 'config.txt', [o]))
    if p23.tool(ctx, 'tool', *args) is None:
      return
  elif ask('run', hx(s.options), s.k, workers, src, out) != '':
    return
  check_output(ctx, s, sentences, out)


def check_output(ctx, s, sentences, out):
  rows = p23.output(ctx, out)
  for i, words in enumerate(sentences):
    mine = []
    while rows and rows[0].split('\t')[0] == str(i):
      mine.append(rows.pop(0))
    if words:
      s.compare(words, '\n'.join(mine), str(i), ' '.join(words))
    else:
      ctx.saw('blank lines')
      ctx.expect(not mine, 'blank', 'a blank line has no candidates', got=mine,
                 **s.detail(''))
  ctx.expect(not rows, 'lines', 'there are no lines but of the sentences',
             rows=rows[:3], sentences=sentences)


def sampling(ctx, ask, s):
  rng = ctx.rng
  for _ in range(5):
    words, line = s.sentence()
    if words:
      break
  else:
    return
  lists = s.wanted(words)
  if s.loose or s.least or any(len(l) > s.k for l in lists) or (
      s.lm is not None):
    full = None
  else:
    full = lists
  n = ctx.n(30, 120)
  counts = [{} for _ in words]
  for j in range(n):
    seed = rng.randrange(1, 1 << 62)
    o = s.options + ' sample_from_k_best: true random_seed: %d' % seed
    got = []
    again = j == 0 and len(words) == 1 and not s.external
    for _ in range(1 + again):
      if ask('new', hx(o)) is None:
        return
      a = ask('text', hx(line), s.k, 'x', 1)
      if a is None:
        return
      got.append(unhx(a))
    if again:
      ctx.saw('same seeds')
    ctx.saw('samples')
    rows = [r.split('\t') for r in got[0].split('\n')[:-1]]
    ok = len(set(got)) == 1 and [(r[0], r[1]) for r in rows] == [
        (str(i), w) for i, w in enumerate(words)] and all(
            r[2] in l for r, l in zip(rows, lists))
    if not ctx.expect(ok, 'sample', 'a sample is one candidate for each word, '
                      'and the same for the same seed', got=got,
                      seed=seed, **s.detail(line)):
      return
    for c, r in zip(counts, rows):
      c[r[2]] = c.get(r[2], 0) + 1
  if full is None:
    return
  ctx.saw('distributions')
  for want, have in zip(full, counts):
    for o, c in want.items():
      p = math.exp(-c)
      ctx.expect(abs(have.get(o, 0) - n * p) <= 7 * math.sqrt(
          n * p * (1 - p)) + 5, 'sample-odds',
                 'candidates are drawn with their probabilities', word=o,
                 times=have.get(o, 0), of=n, p=p, **s.detail(line))


def refusals(ctx, ask, s):
  rng = ctx.rng
  none = os.path.join(ctx.tmp, 'none')
  path = os.path.join(ctx.tmp, 'sane.txt')
  lm = os.path.join(ctx.tmp, 'sane.fst')
  Backoff(rng, [1, 2]).write(lm, {0: '<epsilon>', 1: 'a', 2: '<UNK>'}, rng)
  bad = lambda *lines: 'translit_cands_file: "%s"' % p23.save(
      ctx, 'bad%d.tsv' % rng.randrange(1 << 30), lines)
  cases = ['pairlm_file: "%s"' % none, 'lm_file: "%s"' % none,
           'translit_cands_file: "%s"' % none,
           bad('a\tb\t1', 'a\tb'), bad('a\tb\tc'), bad('a\tb\t1\t2'),
           'lm_file: "%s" word_piece_model: "%s"' % (lm, none),
           'lm_file: "%s" word_piece_internal_prefix: "##"' % lm]
  for o in cases if ctx.thorough else rng.sample(cases, 2):
    ctx.saw('refused')
    ctx.expect(ask('new', hx(o), refuse=True) is None, 'not-refused',
               'a model that is missing or malformed is refused', options=o)
  with open(path, 'w') as f:
    f.write('a b\n')
  for src, out in ((none, path + '.out'), (path, none + '/x/y'), ('', path),
                   (path, '')):
    ctx.saw('refused')
    ctx.expect(ask('run', 'x', 1, rng.choice([1, 2]), src, out,
                   refuse=True) in (None, 'error'), 'run-not-refused',
               'files that cannot be used are an error', files=(src, out))


def threads(ctx):
  """Several sentences at once, of several words at once."""
  rng = ctx.rng
  for i in range(ctx.n(220, 2500)):
    name = rng.choice(['threads', 'threads', 'driver'])
    s = Setup(ctx, rng.random() < 0.3, mixed=rng.random() < 0.5)
    ask = p23.Asker(ctx)
    ask.server = cppbuild.Server(name)
    ctx.saw('thread runs')
    delay = rng.choice([0, 50, 400, 3000, 20000])
    n = rng.choice([1, 2, 3, 5])
    sentences, lines = [], []
    for _ in range(rng.randint(1, 5)):
      words, line = s.sentence()
      if words and rng.random() < 0.5 and s.wanted(words * 2) is not None:
        words = words * 2
        line = ' '.join(words)
      if words:
        sentences.append(words)
        lines.append(line)
    if not lines:
      continue
    done = ask('delay', delay) is not None
    if rng.random() < 0.75:
      done = done and ask('new', hx(s.options)) is not None
      got = ask('threads', n, s.k, ','.join(map(hx, lines))) if done else None
      if got is not None:
        answers = got.split(',')
        for j, a in enumerate(answers):
          at = j % len(lines)
          s.compare(sentences[at], unhx(a).strip('\n'), None, lines[at])
        ctx.saw('concurrent', len(answers))
        ctx.saw('orders of answers', len(set(answers)))
    else:
      ctx.saw('files')
      lines = [l.replace('\n', ' ') for l in lines]
      src = p23.save(ctx, 'in.txt', lines)
      out = os.path.join(ctx.tmp, 'out.txt')
      if not any(l.startswith('#') for l in lines):
        if ask('run', hx(s.options), s.k, n, src, out) == '':
          check_output(ctx, s, sentences, out)
    code, text = ask.server.close()
    ctx.saw('clean exits', code == 0)
    ctx.expect(code == 0, 'thread-exit',
               'the sanitizers have nothing to say', code=code, delay=delay,
               program=name, text=text[:2500], **s.detail(lines))
