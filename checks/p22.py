"""P22: the C++ grammar runtime applies the rules of an archive."""

import os
import random
import re
import shutil
import tempfile

import brahmic as B
import cppbuild
import fstio as F
import gen

RULE = ('random archives of weighted byte rules, with deletions, insertions, '
        'ties, generated symbols, loops and brackets, applied to random '
        'strings by every function of the runtime, and all Brahmic archives '
        'applied to random text; a case is one rule (or cascade) and input, '
        'non-trivial when the rule accepts the input')
ASSUMPTIONS = ['inputs have no zero byte, which is the empty label',
               'the installed OpenFst (1.7.9) behaves like the release that '
               'the repository is built with; Abseil logging, the runfiles '
               'library and the string views of the string functors are '
               'stand-ins',
               'no rule inserts endlessly at no cost']
REQUIRED = {'archives': 60, 'rules': 1800, 'ties': 300, 'prefix ties': 80,
            'cascades': 1200, 'rejected': 500, 'endless': 25, 'brackets': 250,
            'machines': 1000, 'dead ends': 150, 'resets': 500, 'symbols': 10,
            'functions': 400, 'brahmic': 700, 'normalized': 200,
            'readings': 25, 'shared': 20, 'threads': 1, 'languages': 11,
            'tester': 40, 'far entries': 20, 'unknown rules': 300,
            'unknown brackets': 20}
BR = 'nisaba/scripts/brahmic/'
GRM = 'nisaba/interim/grm2/'
LABELS = ['//nisaba/scripts/brahmic:%s.far' % x for x in (
    'iso', 'visual_norm', 'wellformed', 'reading_norm', 'nfc', 'fixed')]
LANGUAGES = {'bn': 'Beng', 'gu': 'Gujr', 'hi': 'Deva', 'kn': 'Knda',
             'ml': 'Mlym', 'mr': 'Deva', 'or': 'Orya', 'pa': 'Guru',
             'si': 'Sinh', 'ta': 'Taml', 'te': 'Telu'}


def shards(tier):
  return ['random%d' % i for i in range(5)] + ['tester', 'brahmic', 'normal']


def prepare(built, tier):
  grammar = ['nisaba/scripts/brahmic/grammar.cc',
             'nisaba/scripts/brahmic/far.cc', 'nisaba/scripts/utils/far_base.cc',
             'nisaba/port/file_util.cc']
  flags = cppbuild.OPENFST18
  libs = ['-lfstfar', '-lfst', '-lprotobuf']
  cppbuild.build({
      'driver': (['grammar_driver.cc'] + grammar, cppbuild.LEAN + flags, libs),
      'threads': (['grammar_driver.cc'] + grammar, cppbuild.TSAN + flags, libs),
      'tester': ([GRM + 'thrax/rewrite-tester.cc',
                  GRM + 'thrax/rewrite-tester-main.cc'],
                 cppbuild.LEAN + flags, libs)}, built.env, views=True)


# ---- Machines.


class Machine:

  def __init__(self):
    self.start = 0
    self.arcs = [[]]
    self.finals = {}

  def state(self):
    self.arcs.append([])
    return len(self.arcs) - 1

  def arc(self, s, i, o, w, t):
    self.arcs[s].append((i, o, w, t))

  def fst(self):
    import pynini
    f = pynini.Fst()
    for _ in self.arcs:
      f.add_state()
    if self.start >= 0:
      f.set_start(self.start)
    for s, arcs in enumerate(self.arcs):
      for i, o, w, t in arcs:
        f.add_arc(s, pynini.Arc(i, o, w, t))
    for s, w in self.finals.items():
      f.set_final(s, w)
    return f

  def line(self):
    r = [str(len(self.arcs)), str(self.start)]
    for s, arcs in enumerate(self.arcs):
      for i, o, w, t in arcs:
        r += ['a', s, i, o, w, t]
    for s, w in self.finals.items():
      r += ['f', s, w]
    return ' '.join(map(str, r))

  def paths(self):
    """All paths, in no order: input labels, output labels, weight."""
    r = []
    def go(s, i, o, w):
      if s in self.finals:
        r.append((tuple(i), tuple(o), w + self.finals[s]))
      for a, b, c, t in self.arcs[s]:
        go(t, i + [a], o + [b], w + c)
    if self.start >= 0:
      go(self.start, [], [], 0)
    return r


def parse_machine(text):
  m = Machine()
  parts = text.split(';')
  m.start = int(parts[0][1:])
  m.arcs = []
  def need(s):
    while len(m.arcs) <= s:
      m.arcs.append([])
  need(m.start)
  for p in parts[1:]:
    f = p.split('.', 5 if p[0] == 'a' else 2)
    if f[0] == 'a':
      s, i, o, t = map(int, f[1:5])
      need(max(s, t))
      m.arc(s, i, o, float(f[5]), t)
    else:
      m.finals[int(f[1])] = float(f[2])
      need(int(f[1]))
  return m


LIMIT = 9  # Of the weight, where outputs are endless: their loops cost some.


class TooMany(Exception):
  pass


def apply(rule, inputs, brackets=None, stacks=None, limit=150):
  """{output labels: least weight}, of {input labels: weight} by a rule.

  Brackets are {open: close}; stacks {open: number of its stack}.
  """
  brackets = brackets or {}
  closing = {c: o for o, c in brackets.items()}
  result = {}
  count = [0]
  def go(text, k, s, stack, out, w):
    count[0] += 1
    if count[0] > 200000:
      raise TooMany()
    if w > limit:
      return
    if k == len(text) and s in rule.finals and not any(stack):
      total = w + rule.finals[s]
      if total <= limit and result.get(out, 1e9) > total:
        result[out] = total
    for i, o, c, t in rule.arcs[s]:
      if i in brackets:
        n = stacks[i] if stacks else 0
        new = [list(x) for x in stack]
        new[n].append(i)
        if sum(map(len, new)) < 12:
          go(text, k, t, new, out, w + c)
      elif i in closing:
        n = stacks[closing[i]] if stacks else 0
        if stack[n] and stack[n][-1] == closing[i] and not any(stack[:n]):
          new = [list(x) for x in stack]
          new[n].pop()
          go(text, k, t, new, out, w + c)
      elif i == 0:
        go(text, k, t, stack, out + ((o,) if o else ()), w + c)
      elif k < len(text) and text[k] == i:
        go(text, k + 1, t, stack, out + ((o,) if o else ()), w + c)
  for text, w in inputs.items():
    if rule.start >= 0:
      go(text, 0, rule.start, [[], [], []], (), w)
  return result


def lattice_outputs(m, limit=1e9):
  """{output labels: least weight} of a machine."""
  result = {}
  count = [0]
  def go(s, out, w):
    count[0] += 1
    if count[0] > 400000:
      raise TooMany()
    if w > limit:
      return
    if s in m.finals:
      total = w + m.finals[s]
      if total <= limit and result.get(out, 1e9) > total:
        result[out] = total
    for _, o, c, t in m.arcs[s]:
      go(t, out + ((o,) if o else ()), w + c)
  if m.start >= 0:
    go(m.start, (), 0)
  return result


def endless(rule, text):
  """Whether there are endlessly many outputs."""
  nodes = {}
  todo = [(0, rule.start)]
  while todo:
    k, s = node = todo.pop()
    if node in nodes:
      continue
    nodes[node] = [(k + (i != 0), t) for i, o, _, t in rule.arcs[s]
                   if i == 0 or k < len(text) and text[k] == i]
    todo += nodes[node]
  good = {n for n in nodes if n[0] == len(text) and n[1] in rule.finals}
  while True:
    more = {n for n, to in nodes.items() if n not in good
            and any(t in good for t in to)}
    if not more:
      break
    good |= more
  left = {n: [t for t in to if t in good] for n, to in nodes.items()
          if n in good}
  while True:
    ends = [n for n, to in left.items() if not to]
    if not ends:
      return bool(left)
    for n in ends:
      del left[n]
    left = {n: [t for t in to if t in left] for n, to in left.items()}


def text_of(labels):
  return bytes(x & 255 for x in labels)


class Archive:
  """A random archive of rules."""

  def __init__(self, rng, path):
    import pynini
    self.rng, self.path = rng, path
    self.alphabet = rng.sample(
        [97, 98, 99, 100, 0xe0, 0xa4, 0x80, 0xff, 0x22, 0x20, 1], 3)
    self.symbols = {}
    self.rules = {}
    self.brackets = {}  # Names of rules of brackets: {open: close}.
    self.stacks = {}  # Names of rules of stacks: {open: number}.
    if rng.random() < .5:
      for name in rng.sample(['LONG', 'sym', 'é', 'X_1', '[', 'a'], 3):
        self.symbols[0xF0001 + len(self.symbols)] = name
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
      self.rules[self.name()] = self.rule()
    self.squared = None
    if rng.random() < .4:
      self.bracketed()
    entries = {k: m.fst() for k, m in self.rules.items()}
    for table in (self.brackets, self.stacks):
      for k, pairs in table.items():
        m = Machine()
        end = m.state()
        m.finals[end] = 0
        items = list(pairs.items())
        rng.shuffle(items)
        for a, b in items:
          m.arc(0, a, b, 0, end)
        entries[k] = m.fst()
    if self.symbols:
      t = pynini.SymbolTable()
      t.set_name('generated')
      for label, name in self.symbols.items():
        t.add_symbol(name, label)
      f = pynini.Fst()
      s = f.add_state()
      f.set_start(s)
      f.set_final(s)
      f.set_input_symbols(t)
      f.set_output_symbols(t)
      entries['*StringFstSymbolTable'] = f
    self.keys = sorted(entries, key=lambda k: k.encode('utf8'))
    with pynini.Far(path, 'w') as far:
      for k in self.keys:
        far.add(k, entries[k])

  def name(self):
    rng = self.rng
    while True:
      r = ''.join(rng.choice('ABrule_é1.') for _ in range(rng.randint(1, 6)))
      if r not in self.rules:
        return r

  def rule(self):
    rng = self.rng
    m = Machine()
    n = rng.choice([1, 1, 2, 3, 4])
    for _ in range(n - 1):
      m.state()
    m.start = rng.randrange(n)
    outputs = self.alphabet + [0] + list(self.symbols)[:rng.choice([0, 3])]
    weights = rng.choice([[0], [0, 1], [0, 1, 2, 3], [1, 2]])
    for s in range(n):
      for a in self.alphabet:
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
          o = a if rng.random() < .4 else rng.choice(outputs)
          m.arc(s, a, o, rng.choice(weights), rng.randrange(n))
    for _ in range(rng.choice([0, 0, 1, 2])):  # Insertions, and shortcuts.
      s, t = rng.randrange(n), rng.randrange(n)
      if s < t:
        m.arc(s, 0, rng.choice(outputs), rng.choice(weights), t)
    for _ in range(rng.choice([0, 0, 0, 1])):
      m.arc(rng.randrange(n), 0, rng.choice(self.alphabet), rng.choice([1, 2]),
            rng.randrange(n))
    for s in range(n):
      if rng.random() < .6:
        m.finals[s] = rng.choice(weights)
    rng.shuffle(m.arcs[rng.randrange(n)])
    return m

  def bracketed(self):
    rng = self.rng
    pairs = {1000 + 2 * i: 1001 + 2 * i for i in range(rng.choice([1, 2, 3]))}
    self.brackets['PARENS'] = pairs
    self.stacks['STACKS'] = {a: rng.choice([1, 2]) for a in pairs}
    for name in ('BR1', 'BR2'):
      m = self.rule()
      # No loops which consume nothing: they could be nested endlessly.
      m.arcs = [[x for x in arcs if x[0] or x[3] > s]
                for s, arcs in enumerate(m.arcs)]
      n = len(m.arcs)
      for a, b in pairs.items():
        for _ in range(rng.choice([1, 2])):
          # An opening bracket leads to a new state, which consumes something.
          s, t, u = m.state(), rng.randrange(n), rng.randrange(n)
          x = rng.choice(self.alphabet)
          m.arc(rng.randrange(n), a, a, rng.choice([0, 1]), s)
          m.arc(s, x, rng.choice(self.alphabet + [0]), 0, t)
          v = m.state()
          m.arc(u, x, rng.choice(self.alphabet + [0]), rng.choice([0, 1]), v)
          m.arc(v, b, b, 0, rng.randrange(n))
      self.rules[name] = m

  def text(self, rng):
    return tuple(rng.choice(self.alphabet)
                 for _ in range(rng.choice([0, 1, 2, 3, 4, 5])))


def hexed(b):
  if isinstance(b, str):
    b = b.encode('utf8')
  return b.hex() or '-'


def unhex(h):
  return b'' if h == '-' else bytes.fromhex(h)


def items(text):
  """[x,y,] with nested lists."""
  assert text[0] == '[' and text[-1] == ']', text
  r, depth, cur = [], 0, ''
  for c in text[1:-1]:
    if c == ',' and depth == 0:
      r.append(cur)
      cur = ''
      continue
    depth += (c == '[') - (c == ']')
    cur += c
  return r


def strings(text):
  return [unhex(x) for x in items(text)]


def labels(text):
  assert text[0] == 'L'
  return tuple(int(x) for x in text[1:].split('.') if x)


def weighted(text):
  s, w = text.split('/')
  return unhex(s), float(w)


def answer(line):
  r = {}
  for p in line.split(' '):
    k, v = p.split('=', 1)
    r.setdefault(k, (v[0] == '1', v[2:]))
  return r


class Judge:
  """What each function should give, when the outputs are known."""

  def __init__(self, ctx, outputs, infinite, n, target, symbols, detail):
    self.ctx, self.outputs, self.infinite = ctx, outputs, infinite
    self.n, self.target, self.symbols = n, target, symbols
    self.detail = detail
    low = min(outputs.values()) if outputs else None
    self.low = low
    self.tops = [o for o, w in outputs.items() if w == low]

  def bad(self, name, what, got):
    self.ctx.violate('runtime-' + name.split('.')[-1].rstrip('f'), what,
                     function=name, got=str(got)[:600],
                     want=[(text_of(o), w) for o, w in
                           sorted(self.outputs.items())][:12], **self.detail)

  def debug(self, out):
    if not self.symbols:
      return text_of(out)
    return b''.join(b'[' + self.symbols[x].encode('utf8') + b']'
                    if x in self.symbols else bytes([x & 255]) for x in out)

  def one_of(self, name, got, kind):
    """A single best output."""
    ok, value = got
    want = bool(self.outputs)
    if kind == 'one':
      want = len(self.tops) == 1
    if ok != want:
      return self.bad(name, 'a best output is given exactly if there is one'
                      if kind != 'one' else
                      'the only best output is given exactly if there is one',
                      got)
    return ok

  def string(self, name, got, kind='top'):
    if self.one_of(name, got, kind):
      if unhex(got[1]) not in [text_of(o) for o in self.tops]:
        self.bad(name, 'the output is one of the best', got)

  def string_weight(self, name, got, kind='top'):
    if self.one_of(name, got, kind):
      s, w = weighted(got[1])
      if s not in [text_of(o) for o in self.tops] or w != self.low:
        self.bad(name, 'the output is one of the best, with its weight', got)

  def label_list(self, name, got, kind='top'):
    if self.one_of(name, got, kind):
      if labels(got[1]) not in self.tops:
        self.bad(name, 'the labels are of one of the best outputs', got)

  def string_debug(self, name, got, kind='top'):
    if self.one_of(name, got, kind):
      s, d = strings(got[1])
      if (s, d) not in [(text_of(o), self.debug(o)) for o in self.tops]:
        self.bad(name, 'the output is one of the best, and its debug string '
                 'names the generated symbols', got)

  def machine(self, name, got, kind):
    if kind in ('top', 'one'):
      if not self.one_of(name, got, kind):
        return
    elif got[0] != bool(self.outputs):
      return self.bad(name, 'there is a lattice exactly if the rule accepts',
                      got)
    if not got[0]:
      return
    m = parse_machine(got[1])
    have = lattice_outputs(m, LIMIT if self.infinite else 1e9)
    if kind in ('top', 'one'):
      if len(have) != 1 or not have.items() <= {
          o: self.low for o in self.tops}.items():
        self.bad(name, 'the machine has just one of the best outputs', got)
    elif kind == 'tops':
      if have != {o: self.low for o in self.tops}:
        self.bad(name, 'the machine has the best outputs', got)
    elif kind == 'best':
      self.best(name, got, have.items())
    elif have != self.outputs:
      self.bad(name, 'the machine has the outputs and their weights', got)
    if any(i != o for arcs in m.arcs for i, o, _, _ in arcs):
      self.bad(name, 'the machine is an acceptor', got)
    if kind != 'best' and any(not i for arcs in m.arcs for i, _, _, _ in arcs):
      self.bad(name, 'the machine has no epsilons', got)

  def lattice(self, name, got, fails):
    """Outputs on the output side; fails if there are none."""
    if got[0] != (bool(self.outputs) or not fails):
      return self.bad(name, 'the rewrite succeeds', got)
    if got[0] and lattice_outputs(
        parse_machine(got[1]), LIMIT if self.infinite else 1e9) != self.outputs:
      self.bad(name, 'the machine has the outputs and their weights', got)

  def best(self, name, got, have):
    """The n best distinct outputs."""
    have = list(have)
    count = min(self.n, len(self.outputs))
    weights = sorted(self.outputs.values())
    if self.infinite and len(self.outputs) < self.n:
      return
    if (len(have) != count or len({o for o, _ in have}) != count
        or any(self.outputs.get(o) != w for o, w in have if w is not None)
        or any(o not in self.outputs for o, _ in have)
        or sorted(self.outputs[o] for o, _ in have) != weights[:count]):
      self.bad(name, 'they are the %d best outputs, each once' % self.n, got)

  def some(self, name, got, kind, form):
    """Several outputs: strings, labels, strings with weights or debug."""
    ok, value = got
    if not self.outputs:
      if ok:
        self.bad(name, 'there are no outputs', got)
      return
    if kind == 'all' and self.infinite:
      if ok:
        self.bad(name, 'endlessly many outputs are refused', got)
      return
    if not ok:
      return self.bad(name, 'there are outputs', got)
    key = {'s': lambda o: text_of(o), 'l': lambda o: o,
           'w': lambda o: (text_of(o), float(self.outputs[o])),
           'd': lambda o: (text_of(o), self.debug(o))}[form]
    if form == 's':
      have = strings(value)
    elif form == 'l':
      have = [tuple(x for x in labels(v) if x) for v in items(value)]
    elif form == 'w':
      have = [weighted(x) for x in items(value)]
    else:
      a, b = [strings(x) for x in items(value)]
      have = list(zip(a, b))
      if len(a) != len(b):
        return self.bad(name, 'each output has its debug string', got)
    if kind == 'best':
      # Each must be an output, and the weights the least; as strings may
      # stand for several outputs, they are matched greedily.
      count = min(self.n, len(self.outputs))
      if self.infinite and len(self.outputs) < self.n:
        return
      cut = sorted(self.outputs.values())[count - 1]
      sure = sorted(repr(key(o)) for o, w in self.outputs.items() if w < cut)
      may = sorted(repr(key(o)) for o, w in self.outputs.items() if w == cut)
      left = sorted(map(repr, have))
      fine = len(left) == count
      for x in sure:
        if x in left:
          left.remove(x)
        else:
          fine = False
      for x in left:
        if x in may:
          may.remove(x)
        else:
          fine = False
      if not fine:
        self.bad(name, 'they are the %d best outputs, each once' % self.n, got)
      return
    want = self.tops if kind == 'tops' else list(self.outputs)
    if sorted(map(repr, have)) != sorted(repr(key(o)) for o in want):
      self.bad(name, 'they are all the %soutputs, each once' % (
          'best ' if kind == 'tops' else ''), got)

  def matches(self, name, got):
    if got[0] != (self.target in self.outputs):
      if not (self.infinite and got[0]):
        self.bad(name, 'an output matches exactly if it is one of the rule',
                 got)


def tally(ctx, judge, infinite):
  if infinite:
    ctx.saw('endless')
  if not judge.outputs:
    ctx.saw('rejected')
  if len(judge.tops) > 1:
    ctx.saw('ties')
    if any(a != b and b[:len(a)] == a for a in judge.tops
           for b in judge.tops):
      ctx.saw('prefix ties')


def pick_target(rng, outputs, archive):
  if outputs and rng.random() < .6:
    o = rng.choice(sorted(outputs))
    if all(x < 256 for x in o):
      return o
  return archive.text(rng)


def died(ctx, e, **detail):
  ctx.violate('runtime-' + e.kind, 'the runtime does not end in ' + e.kind,
              text=e.text[:1500], **detail)


def work(ctx, shard):
  tmp = tempfile.mkdtemp(prefix='nisaba-verif-p22-')
  try:
    if shard.startswith('random'):
      randoms(ctx, tmp)
    elif shard == 'tester':
      testers(ctx, tmp)
    elif shard == 'brahmic':
      brahmic(ctx)
    else:
      normal(ctx)
  finally:
    shutil.rmtree(tmp, True)


def randoms(ctx, tmp):
  rng = ctx.rng
  server = cppbuild.Server('driver')
  for _ in range(ctx.n(300, 4000)):
    one_machine(ctx, server)
  for k in range(ctx.n(30, 400)):
    archive = Archive(rng, os.path.join(tmp, 'a.far'))
    ctx.saw('archives')
    try:
      one_archive(ctx, server, archive)
    except cppbuild.Died as e:
      died(ctx, e, keys=archive.keys,
           machines={k: m.line() for k, m in archive.rules.items()})
  server.close()


def one_machine(ctx, server):
  """The paths of an acyclic machine."""
  rng = ctx.rng
  m = Machine()
  n = rng.choice([1, 2, 3, 4, 5, 6])
  for _ in range(n - 1):
    m.state()
  order = rng.sample(range(n), n)
  m.start = order[0] if rng.random() < .97 else -1
  for k, s in enumerate(order[:-1]):
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
      m.arc(s, rng.choice([0, 97, 98, 255]), rng.choice([0, 97, 200, 98]),
            rng.choice([0, 1, 2, 0.5]), rng.choice(order[k + 1:]))
  for s in range(n):
    if rng.random() < .4 or s == order[-1] and rng.random() < .8:
      m.finals[s] = rng.choice([0, 0, 1, 3])
  want = sorted(m.paths())
  reach, todo = set(), [m.start] if m.start >= 0 else []
  while todo:
    s = todo.pop()
    if s not in reach:
      reach.add(s)
      todo += [a[3] for a in m.arcs[s]]
  if any(not m.arcs[s] and s not in m.finals for s in reach):
    ctx.saw('dead ends')
  ctx.saw('machines')
  reset = rng.choice([-1, 0, 1, 2, 5])
  if reset >= 0:
    ctx.saw('resets')
  ctx.case(('machine', m.line(), reset), len(want) > 1)
  try:
    server.ask('fst m ' + m.line())
    line = server.ask('paths m %d %d' % (rng.random() < .5, reset))
  except cppbuild.Died as e:
    return died(ctx, e, machine=m.line(), reset=reset)
  have = []
  if line.startswith('paths '):
    for p in line[6:].split():
      i, o, a, b, w = p.split('|')
      i, o = labels(i), labels(o)
      have.append((i, o, float(w)))
      ctx.expect(unhex(a) == bytes(x for x in i if x)
                 and unhex(b) == bytes(x for x in o if x), 'path-strings',
                 'the strings are those of the labels', got=p)
  ctx.expect(line.startswith('paths ') and sorted(have) == want, 'paths',
             'the iterator gives each path once, with its labels and weight, '
             'also after a reset', machine=m.line(), reset=reset,
             got=line[:800], want=want[:20])


def one_archive(ctx, server, archive):
  rng = ctx.rng
  got = answer(server.ask('load %s %s' % (
      hexed(archive.path), rng.choice(['new', 'old']))))
  detail = dict(keys=archive.keys)
  ctx.expect(got['thrax'][0] and got['manager'][0] and got['cascade'][0]
             and strings(got['keys'][1]) == [k.encode('utf8')
                                             for k in archive.keys],
             'load', 'an archive loads, with the names of its rules',
             got=str(got)[:500], **detail)
  has = bool(archive.symbols)
  if has:
    ctx.saw('symbols')
  ctx.expect([got[k][0] for k in ('symbols', 'msymbols', 'csymbols')]
             == [has] * 3, 'load-symbols',
             'generated symbols are there if they are in the archive',
             got=str(got)[:500], **detail)
  machines = {k: m.line() for k, m in archive.rules.items()}
  names = sorted(archive.rules)
  for name in rng.sample(names, min(2, len(names))) + ['nonesuch', '']:
    got = answer(server.ask('get ' + hexed(name)))
    want = archive.rules.get(name)
    for k, (ok, value) in got.items():
      if not ctx.expect(ok == (want is not None), 'get',
                        'a rule is found exactly if it is in the archive',
                        function=k, name=name, **detail):
        continue
      if want is not None:
        m = parse_machine(unhex(value).decode())
        have = [sorted(a) for a in m.arcs]
        exp = [sorted(a) for a in want.arcs]
        while len(have) < len(exp):
          have.append([])
        ctx.expect(have == exp and m.finals == want.finals
                   and m.start == want.start
                   and all(a == sorted(a, key=lambda x: x[0]) for a in m.arcs),
                   'get-machine', 'the rule is the one of the archive, with '
                   'its arcs sorted', function=k, name=name, got=value[:300],
                   want=want.line(), **detail)
      else:
        ctx.saw('unknown rules')
  for name in names:
    m = archive.rules[name]
    for _ in range(ctx.n(5, 5)):
      try:
        one_rule(ctx, server, archive, name, m, machines)
      except TooMany:
        ctx.saw('too many')
  for _ in range(ctx.n(8, 8)):
    try:
      one_cascade(ctx, server, archive, names, machines)
    except TooMany:
      ctx.saw('too many')
  if rng.random() < .3:
    name = rng.choice(names + ['nonesuch'])
    m = archive.rule()
    m.arcs = [sorted(a) for a in m.arcs]
    server.ask('fst s ' + m.line())
    got = answer(server.ask('set %s s' % hexed(name)))
    ctx.expect([got['set'][0], got['mset'][0]] == [name in names] * 2, 'set',
               'a rule is replaced exactly if it is there', name=name, **detail)
    if name in names:
      try:
        one_rule(ctx, server, archive, name, m, dict(machines, new=m.line()),
                 replaced=True)
      except TooMany:
        ctx.saw('too many')


def one_rule(ctx, server, archive, name, m, machines, replaced=False):
  rng = ctx.rng
  text = archive.text(rng)
  n = rng.choice([1, 2, 3, 10])
  brackets = stacks = None
  pdt = mpdt = ''
  if name.startswith('BR') and archive.brackets and not replaced:
    pdt = 'PARENS'
    brackets = archive.brackets[pdt]
    if rng.random() < .4:
      mpdt = 'STACKS'
      stacks = archive.stacks[mpdt]
    ctx.saw('brackets')
  infinite = brackets is None and endless(m, text)
  outputs = apply(m, {text: 0}, brackets, stacks, LIMIT if infinite else 150)
  if infinite:
    n = 1  # Others need machines which can be made deterministic.
  if infinite and not outputs or infinite and min(outputs.values()) > LIMIT - 4:
    return
  if len(outputs) > 40:
    return
  target = pick_target(rng, outputs, archive)
  detail = dict(rule=name, machine=m.line(), input=text, n=n,
                brackets=brackets, stacks=stacks)
  ctx.saw('rules')
  ctx.case(('rule', m.line(), text, n), bool(outputs))
  got = answer(server.ask('rule %s %s %s %d %s %s' % (
      hexed(name), hexed(bytes(text)), hexed(bytes(target)), n, hexed(pdt),
      hexed(mpdt))))
  j = Judge(ctx, outputs, infinite, n, target, archive.symbols, detail)
  tally(ctx, j, infinite)
  for k in ('t.bytes', 't.bytesf', 'top'):
    j.string(k, got[k])
  j.string('one', got['one'], 'one')
  for k in ('t.rewrite', 't.rewritef'):
    j.lattice(k, got[k], False)
  for k in ('tops', 'best', 'all'):
    j.some(k, got[k], k, 's')
    j.some(k + 'p', got[k + 'p'], k, 's')
  j.matches('matches', got['matches'])
  for k in ('lattice', 'latticef'):
    j.machine(k, got[k], 'all')
  if rng.random() < .05:
    got = answer(server.ask('rule %s %s %s %d - -' % (
        hexed('no' + name), hexed(bytes(text)), '-', n)))
    ctx.saw('unknown rules')
    ctx.expect(not any(ok for ok, _ in got.values()), 'unknown-rule',
               'a rule which is not there fails', got=str(got)[:500], **detail)
  if rng.random() < .05:
    pair, stack = (('noPARENS', '') if brackets is None or rng.random() < .5
                   else ('PARENS', 'noSTACKS'))
    got = answer(server.ask('rule %s %s %s %d %s %s' % (
        hexed(name), hexed(bytes(text)), '-', n, hexed(pair), hexed(stack))))
    ctx.saw('unknown brackets')
    ctx.expect(not any(ok for ok, _ in got.values()), 'unknown-brackets',
               'brackets or stacks which are not there fail',
               asked=pair + ' ' + stack, got=str(got)[:500], **detail)
  if brackets is None and rng.random() < .4:
    functions(ctx, server, m, text, n, target, outputs, infinite, detail)


def functions(ctx, server, m, text, n, target, outputs, infinite, detail):
  """The functions which take machines; several inputs at once."""
  rng = ctx.rng
  acceptor = Machine()
  # The input has two alternatives at times.
  inputs = {text: 0}
  s = 0
  for x in text:
    t = acceptor.state()
    acceptor.arc(s, x, x, 0, t)
    s = t
  acceptor.finals[s] = 0
  if rng.random() < .3 and not infinite and text:
    w = rng.choice([0, 1])
    if s not in (0,):
      acceptor.arcs[0].append((text[0], text[0], w + 0.25, 1))
      # The same string again, but dearer: nothing changes.
  sorted_rule = Machine()
  sorted_rule.start, sorted_rule.finals = m.start, m.finals
  sorted_rule.arcs = [sorted(a) for a in m.arcs]
  out = Machine()
  s = 0
  for x in target:
    t = out.state()
    out.arc(s, x, x, 0, t)
    s = t
  out.finals[s] = 0
  server.ask('fst i ' + acceptor.line())
  server.ask('fst r ' + sorted_rule.line())
  server.ask('fst o ' + out.line())
  got = answer(server.ask('functions i r o %d' % n))
  ctx.saw('functions')
  j = Judge(ctx, outputs, infinite, n, target, {},
            dict(detail, functions='of machines'))
  j.string('top', got['top'])
  j.string('one', got['one'], 'one')
  j.string_weight('topw', got['topw'])
  j.string_weight('onew', got['onew'], 'one')
  for k in ('tops', 'best', 'all'):
    j.some(k, got[k], k, 's')
    j.some(k + 'p', got[k + 'p'], k, 's')
    j.some(k + 'w', got[k + 'w'], k, 'w')
  j.matches('matches', got['matches'])


def one_cascade(ctx, server, archive, names, machines):
  rng = ctx.rng
  sequence = [rng.choice(names) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
  defs, plan = [], []
  for name in sequence:
    d, brackets, stacks = name, None, None
    sep = rng.choice('$:')
    if name.startswith('BR') and archive.brackets:
      d += sep + 'PARENS'
      brackets = archive.brackets['PARENS']
      if rng.random() < .4:
        d += sep + 'STACKS'
        stacks = archive.stacks['STACKS']
    defs.append(d)
    plan.append((archive.rules[name], brackets, stacks))
  detail = dict(rules=defs, machines={k: machines[k] for k in sequence})
  bad = rng.random() < .06
  if bad:
    defs.insert(rng.randint(0, len(defs)), rng.choice(
        ['nonesuch', sequence[0] + '$nonesuch', sequence[0] + '$%s$none' % (
            sequence[0])]))
  got = answer(server.ask('rules %s %s' % (
      rng.choice(['new', 'old']), ' '.join(hexed(d) for d in defs))))
  if not ctx.expect(all(ok == (not bad) for ok, _ in got.values()),
                    'cascade-rules', 'a cascade is set up exactly if all its '
                    'rules are there', got=str(got), **detail) or bad:
    return
  for _ in range(3):
    text = archive.text(rng)
    n = rng.choice([1, 2, 3, 10])
    outputs = {text: 0}
    for m, brackets, stacks in plan:
      if any(brackets is None and endless(m, x) for x in outputs):
        outputs = None
        break
      outputs = apply(m, outputs, brackets, stacks)
      if len(outputs) > 150:
        outputs = None
        break
    if outputs is None:
      continue
    target = pick_target(rng, outputs, archive)
    where = dict(detail, input=text, n=n)
    ctx.saw('cascades')
    ctx.case(('cascade', tuple(machines[s] for s in sequence), text, n),
             bool(outputs))
    got = answer(server.ask('cascade %s %s %d' % (
        hexed(bytes(text)), hexed(bytes(target)), n)))
    j = Judge(ctx, outputs, False, n, target, archive.symbols, where)
    tally(ctx, j, False)
    j.string('t.bytes', got['t.bytes'])
    j.lattice('t.rewrite', got['t.rewrite'], False)
    j.lattice('t.rewritef', got['t.rewritef'], False)
    j.lattice('rewrite', got['rewrite'], True)
    j.lattice('rewrites', got['rewrites'], True)
    for k in ('top', 'one'):
      j.machine(k + 'f', got[k + 'f'], k)
      j.label_list(k + 'l', got[k + 'l'], k)
      j.string(k, got[k], k)
      j.string_debug(k + 'd', got[k + 'd'], k)
    for k in ('tops', 'best', 'all'):
      j.machine(k + 'f', got[k + 'f'], k)
      j.some(k + 'l', got[k + 'l'], k, 'l')
      j.some(k, got[k], k, 's')
      j.some(k + 'd', got[k + 'd'], k, 'd')
      j.some(k + 'p', got[k + 'p'], k, 's')
    j.matches('matches', got['matches'])


SEPARATORS = [None, None, '+', '--', '\t']


def testers(ctx, tmp):
  for k in range(ctx.n(70, 900)):
    archive = Archive(ctx.rng, os.path.join(tmp, 'a.far'))
    try:
      one_tester(ctx, tmp, archive)
    except TooMany:
      ctx.saw('too many')


def cost(w):
  return ' <cost=%g>' % w if w else ''


def one_tester(ctx, tmp, archive):
  """The interactive program."""
  rng = ctx.rng
  names = sorted(n for n in archive.rules if ',' not in n)
  sequence = [rng.choice(names) for _ in range(rng.choice([1, 1, 2, 3]))]
  defs, plan = [], []
  for name in sequence:
    d, brackets, stacks = name, None, None
    if name.startswith('BR') and archive.brackets:
      sep = rng.choice('$:')
      d += sep + 'PARENS'
      brackets = archive.brackets['PARENS']
      if rng.random() < .4:
        d += sep + 'STACKS'
        stacks = archive.stacks['STACKS']
    defs.append(d)
    plan.append((archive.rules[name], brackets, stacks))
  n = rng.choice([None, 1, 2, 5, 50])
  details = rng.random() < .4
  modes = [rng.choice(['byte', 'utf8', 'table', None]) for _ in range(2)]
  separator = rng.choice(SEPARATORS)
  table = {}
  for x in archive.alphabet:
    table[x] = rng.choice(['x', 'long', 'é', 'ab']) + '%d' % x
  path = os.path.join(tmp, 'table')
  with open(path, 'w') as f:
    f.write('<eps>\t0\n')
    for x, name in table.items():
      f.write('%s\t%d\n' % (name, x))
  args = ['--far=' + archive.path, '--rules=' + ','.join(defs)]
  for side, m in zip(('input', 'output'), modes):
    if m:
      args.append('--%s_mode=%s' % (side, path if m == 'table' else m))
  if n is not None:
    args.append('--noutput=%d' % n)
  if details:
    args.append('--show_details')
  if separator is not None:
    args.append('--field_separator=' + separator)
  n = n or 1
  sep = '\t ' if separator is None else separator

  def encode(text):
    if modes[0] == 'table':
      return ' '.join(table[x] for x in text).encode('utf8')
    if modes[0] == 'utf8':
      return ''.join(map(chr, text)).encode('utf8')
    return bytes(text)

  def render(out):
    r = b''
    for x in out:
      if x in archive.symbols:
        r += b'[' + archive.symbols[x].encode('utf8') + b']'
      elif modes[1] == 'table':
        if x not in table:
          return None
        r += (sep.encode('utf8') if r else b'') + table[x].encode('utf8')
      elif modes[1] == 'utf8':
        r += chr(x).encode('utf8')
      else:
        r += bytes([x & 255])
    return r

  lines, wants = [], []
  for _ in range(6):
    text = archive.text(rng)
    line = encode(text)
    steps, outputs = [], {text: 0}
    for m, brackets, stacks in plan:
      if any(brackets is None and endless(m, x) for x in outputs):
        outputs = None
        break
      outputs = apply(m, outputs, brackets, stacks)
      if len(outputs) > 60:
        outputs = None
        break
      steps.append(outputs)
      if not outputs:
        break
    if outputs is None:
      continue
    lines.append(line)
    wants.append((text, steps))
  if not lines:
    return
  # A line whose bytes are not in the table, or no UTF-8, is not applied.
  broken = None
  if modes[0] == 'table':
    broken = b'nonesuch'
  elif modes[0] == 'utf8':
    broken = b'a\xff'
  if broken and rng.random() < .5:
    lines.append(broken)
  else:
    broken = None
  r = cppbuild.run('tester', args, input=b'\n'.join(lines) + b'\n')
  detail = dict(args=args[1:], lines=lines, modes=modes,
                machines={k: archive.rules[k].line() for k in sequence})
  if not ctx.expect(r.returncode == 0, 'tester-ends',
                    'the program ends well', code=r.returncode,
                    err=r.stderr[-1500:].decode('utf8', 'replace'), **detail):
    return
  ctx.saw('tester')
  rest = r.stdout
  prompt = b'Input string: '
  if not ctx.expect(rest.startswith(prompt) and rest.endswith(prompt),
                    'tester-form', 'each line is asked for',
                    got=rest[:500], **detail):
    return
  answers = rest[len(prompt):-len(prompt)].split(prompt)
  if not ctx.expect(len(answers) == len(lines), 'tester-form',
                    'each line has an answer', got=rest[:500], **detail):
    return
  if broken:
    # Whether a broken line is parsed in part is up to OpenFst.
    answers.pop()
  for (text, steps), line, got in zip(wants, lines, answers):
    ctx.case(('tester', tuple(defs), archive.rules[sequence[0]].line(), text,
              n), bool(steps[-1]))
    fail = b'Rewrite failed for "' + line + b'"\n'
    if not steps[-1] or len(steps) < len(plan):
      # With details, the failing answer does not show the steps.
      ctx.expect(got == fail, 'tester-fails',
                 'what no rule accepts fails', got=got, input=text, **detail)
      continue

    def shown(outputs, prefix, costs):
      """Groups of lines any of which may be shown, and how many of each."""
      count = min(n, len(outputs))
      cut = sorted(outputs.values())[count - 1]
      form = lambda o, w: (render(o), w)
      sure = [form(o, w) for o, w in outputs.items() if w < cut]
      may = [form(o, w) for o, w in outputs.items() if w == cut]
      return sure, may, count

    blocks = []
    if details and len(plan) > 1:
      for name, outputs in zip(sequence, steps):
        blocks.append((b'output of rule[' + name.encode('utf8') + b'] is: ',
                       False) + shown(outputs, None, False))
    blocks.append((b'Output string: ', n != 1) + shown(steps[-1], None, True))
    if any(None in (x[0] for x in sure + may)
           for _, _, sure, may, _ in blocks):
      # Without a symbol in the table the answer is an error.
      ctx.saw('unprintable')
      continue
    text_left = got
    fine = True
    for prefix, costs, sure, may, count in blocks:
      left = [prefix + a + (cost(w).encode() if costs else b'') + b'\n'
              for a, w in sure]
      maybe = [prefix + a + (cost(w).encode() if costs else b'') + b'\n'
               for a, w in may]
      for _ in range(count):
        # The longest first: one may be the beginning of another.
        for pool in sorted(left + maybe, key=len, reverse=True):
          if text_left.startswith(pool):
            (left if pool in left else maybe).remove(pool)
            text_left = text_left[len(pool):]
            break
        else:
          fine = False
      fine = fine and not left
    ctx.expect(fine and text_left == b'\n', 'tester',
               'the best outputs are shown, with their costs', got=got,
               input=text, n=n,
               want=[{render(o): w for o, w in x.items()} for x in steps],
               **detail)


def choose(f, text):
  """The best outputs, as bytes."""
  import pynini
  l = pynini.compose(pynini.accep(''.join('[%d]' % b for b in text)), f)
  if l.start() == -1:
    return []
  l = pynini.project(l, 'output').rmepsilon()
  l = pynini.shortestpath(l, nshortest=6, unique=True)
  r = []
  it = l.paths()
  while not it.done():
    r.append((bytes(x & 255 for x in it.olabels() if x), float(it.weight())))
    it.next()
  low = min(w for _, w in r)
  return [o for o, w in r if w == low]


def tree():
  return dict(SHIM_RUNFILES=os.path.dirname(os.getcwd()))


def case_of(rng, name):
  return rng.choice([name, name.upper(), name.lower(), name.title()])


def script_of(key):
  m = re.fullmatch('(FROM_)?([A-Z]{4})(_TO_LATN)?', key)
  if key in ('AS', 'BN'):
    return 'Beng'
  if key in ('HI', 'MR'):
    return 'Deva'
  for s in B.BRAHMIC:
    if s.upper() in key:
      return s
  return LANGUAGES.get(key.lower())


def keys_of(path):
  import pynini
  with pynini.Far(path + '.far') as f:
    r = []
    while not f.done():
      r.append(f.get_key())
      f.next()
  return r


def texts_of(key, far):
  s = script_of(key)
  s = s if s in B.BRAHMIC else 'Deva'
  return gen.Texts(s, ('visual_rewrite',))


FARS = ['iso', 'visual_norm', 'wellformed', 'reading_norm', 'nfc', 'fixed']


def brahmic(ctx):
  rng = ctx.rng
  server = cppbuild.Server('driver', **tree())
  for far in FARS:
    keys = keys_of(F.BR + far)
    if ctx.tier == 'quick' and len(keys) > 12:
      keys = rng.sample(keys, 12)
    for key in keys:
      try:
        one_grammar(ctx, server, far, key)
      except cppbuild.Died as e:
        died(ctx, e, far=far, key=key)
  for far in rng.sample(FARS, 4):
    keys = keys_of(F.BR + far)
    for key in rng.sample(keys, min(9, len(keys))) + ['nonesuch', '']:
      f = F.fst(F.BR + far, key) if key in keys else None
      got = answer(server.ask('far %s %s' % (
          hexed(rng.choice([far, far.upper()])) if key else hexed(far),
          hexed(case_of(rng, key)))))
      ctx.saw('far entries')
      if 'load' in got:
        ctx.expect(got['load'][0], 'far-load',
                   'an archive loads', far=far)
        if not got['load'][0]:
          continue
      if not ctx.expect(got['fst'][0] == (f is not None), 'far-fst',
                        'an FST is found exactly if it is there, in either '
                        'case', far=far, key=key, got=str(got)):
        continue
      if f is not None:
        n = f.num_states()
        a = sum(f.num_arcs(s) for s in f.states())
        ctx.expect(unhex(got['fst'][1]).decode() == '%d %d' % (n, a),
                   'far-fst', 'the FST is the one of the archive', far=far,
                   key=key, got=str(got), want=[n, a])
  server.close()


def one_grammar(ctx, server, far, key):
  rng = ctx.rng
  f = F.fst(F.BR + far, key)
  name = case_of(rng, key)
  got = answer(server.ask('grammar g %s %s' % (
      hexed(rng.choice([far, far.upper()])), hexed(name))))
  if not ctx.expect(got['load'][0] and got['verify'][0], 'grammar-load',
                    'a grammar loads', far=far, key=name, got=str(got)):
    return
  t = texts_of(key, far)
  latin = key.startswith('TO_') or far == 'fixed'
  iso = F.fst(F.BR + 'iso', 'FROM_' + key[3:]) if key.startswith(
      'TO_') and far == 'iso' else None
  for _ in range(ctx.n(20, 150)):
    w = t.any(rng, 3)
    if rng.random() < .1:
      w = rng.choice(['', 'a', 'क', w + 'x', w[:1] * 2, ' '])
    if iso is not None:
      w = F.best(iso, w) or w
    text = w.encode('utf8')
    if rng.random() < .05 and len(text) > 1:
      text = text[:-1]  # Ill-formed.
    outs = choose(f, text)
    got = answer(server.ask('apply g %s' % hexed(text)))
    ctx.saw('brahmic')
    ctx.case((far, key, w), bool(outs))
    ctx.expect(got['rewrite'][0] == bool(outs) == got['accept'][0]
               and (not outs or unhex(got['rewrite'][1]) in outs),
               'grammar', 'a grammar gives what its FST gives, or fails if it '
               'does not accept', far=far, key=key, text=text, got=str(got),
               want=outs[:4])


def want_normal(ctx, vn, wf, text):
  """The possible answers of a Normalizer: (rewrite, only)."""
  outs = choose(vn, text)
  if not outs:
    return [((False, None), (False, None))]
  return [((bool(choose(wf, o)), o), (True, o)) for o in outs]


def agrees(got, want):
  """Of the answers of Normal() in the driver."""
  return any(
      got['rewrite'][0] == a[0] and (not a[0] or unhex(
          got['rewrite'][1]) == a[1]) and got['only'][0] == b[0]
      and (not b[0] or unhex(got['only'][1]) == b[1]) for a, b in want)


def resolve(name, keys):
  if name.upper() in keys:
    return name.upper()
  s = LANGUAGES.get(name.lower(), '').upper()
  return s if s in keys else None


def normal(ctx):
  rng = ctx.rng
  server = cppbuild.Server('driver', **tree())
  V, W, R = [keys_of(F.BR + x) for x in (
      'visual_norm', 'wellformed', 'reading_norm')]
  names = sorted(set(V + W + R) | set(LANGUAGES)) + [
      'xx', '', 'Deva ', 'de', 'FROM_DEVA']
  if ctx.tier == 'quick':
    names = sorted(LANGUAGES) + ['xx', ''] + rng.sample(names, 10)
  for name in names:
    if name.lower() in LANGUAGES:
      ctx.saw('languages')
    try:
      one_normal(ctx, server, name, V, W, R)
    except cppbuild.Died as e:
      died(ctx, e, name=name)
  for script in rng.sample(B.BRAHMIC, 4 if ctx.tier == 'quick' else 12):
    t = gen.Texts(script)
    words = [t.wellish(rng, 2) for _ in range(6)]
    line = ' '.join(hexed(w) for w in words)
    vn, wf = [F.fst(F.BR + x, script) for x in ('visual_norm', 'wellformed')]
    try:
      got = server.ask('shared %s %s' % (hexed(script), line))
      parts = [x.split('=', 1) for x in got.split(' ')]
      ctx.saw('shared')
      flags = {k: v[0] for k, v in parts if v and k in (
          'one', 'two', 'three', 'four', 'alive')}
      ctx.expect(list(flags.values()) == ['1'] * 5, 'shared-load',
                 'grammars may share managers', script=script, got=got[:300])
      for kind, f in (('visual', vn), ('wellformed', wf)):
        for w, g in zip(words, [v for k, v in parts if k == kind]):
          ctx.saw('shared')
          outs = choose(f, w.encode('utf8'))
          a = answer(unhex(g[2:]).decode())['rewrite']
          ctx.expect(a[0] == bool(outs) and (
              not outs or unhex(a[1]) in outs), 'shared',
                     'a grammar which shares a manager gives what its FST '
                     'gives', script=script, text=w, kind=kind, got=str(a))
      for w, g in zip(words, [v for k, v in parts if k == 'normal']):
        a = answer(unhex(g[2:]).decode())
        ctx.expect(agrees(a, want_normal(ctx, vn, wf, w.encode('utf8'))),
                   'shared-normal', 'so does a normalizer', script=script,
                   text=w, got=str(a))
    except cppbuild.Died as e:
      died(ctx, e, script=script, shared=True)
  server.close()
  # The same in parallel, with the race detector.
  server = cppbuild.Server('threads', **tree())
  for script in rng.sample(B.BRAHMIC, 2 if ctx.tier == 'quick' else 6):
    t = gen.Texts(script)
    words = [t.wellish(rng, 2) for _ in range(ctx.n(12, 60))]
    try:
      server.ask('normalizer t ' + hexed(script))
      got = server.ask('threads t 6 ' + ' '.join(hexed(w) for w in words))
      ctx.saw('threads')
      ctx.expect(got == 'same', 'threads', 'threads get what one gets',
                 script=script, got=got)
    except cppbuild.Died as e:
      died(ctx, e, script=script, threads=True)
  code, text = server.close()
  ctx.expect(code == 0, 'runtime-race', 'no data races', code=code,
             text=text[:2500])


def one_normal(ctx, server, name, V, W, R):
  rng = ctx.rng
  v, w, r = [resolve(name, k) for k in (V, W, R)]
  called = case_of(rng, name)
  got = answer(server.ask('normalizer n ' + hexed(called)))
  want = v is not None and w is not None
  if not ctx.expect([got[k][0] for k in ('load', 'again', 'verify', 'supports')]
                    == [want] * 4, 'normalizer-load',
                    'a script or language is supported exactly if the archives '
                    'have it, or its script', name=called, got=str(got)):
    return
  script = script_of(v or r or w or 'DEVA')
  t = gen.Texts(script if script in B.BRAHMIC else 'Deva')
  words = [t.wellish(rng, 3) if rng.random() < .6 else t.any(rng, 3)
           for _ in range(ctx.n(18, 120))]
  if want:
    vn, wf = F.fst(F.BR + 'visual_norm', v), F.fst(F.BR + 'wellformed', w)
    for x in words:
      text = x.encode('utf8')
      got = answer(server.ask('normal n ' + hexed(text)))
      ctx.saw('normalized')
      ctx.case(('normal', v, x), got['rewrite'][0])
      ctx.expect(agrees(got, want_normal(ctx, vn, wf, text)), 'normalizer',
                 'a normalizer gives the visual norm of text, and accepts what '
                 'is then well-formed', name=name, text=x, got=str(got))
  got = answer(server.ask('reading r ' + hexed(called)))
  want = v is not None and r is not None
  if not ctx.expect(got['load'][0] == want, 'reading-load',
                    'a script or language is supported exactly if the archives '
                    'have it, or its script', name=called, got=str(got)):
    return
  if want:
    vn, rn = F.fst(F.BR + 'visual_norm', v), F.fst(F.BR + 'reading_norm', r)
    for x in words:
      outs = [o for m in choose(vn, x.encode('utf8')) for o in choose(rn, m)]
      got = answer(server.ask('read r ' + hexed(x)))['rewrite']
      ctx.saw('readings')
      ctx.case(('reading', r, x), got[0])
      ctx.expect(got[0] == bool(outs) and (not got[0] or unhex(got[1]) in outs),
                 'reading', 'a reading norm is that of the visual norm',
                 name=name, text=x, got=str(got))
