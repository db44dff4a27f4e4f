"""P12: the rewrite rule engine does what its documentation says."""

import itertools
import os
import subprocess
import tempfile

import refmodel as R

U = '//nisaba/scripts/utils:'
LABELS = [U + 'rule', U + 'rewrite', U + 'file', U + 'char', U + 'func']
RULE = ('random rule files of 0-7 rules over 3-6 symbols (letters of one to '
        'four bytes, digits, quotes, brackets, backslashes, #, blanks), and '
        'all texts of up to 4 symbols with random ones of up to 12; a case is '
        '(engine, rules, text), non-trivial when a rule applies')
ASSUMPTIONS = ['pynini and OpenFst are right',
               'symbols that pynini reads as syntax are written escaped, as '
               'its string files demand']
SCALE = 3  # Of the quick tier.
REQUIRED = {'texts': 250000, 'unordered': 300, 'cascading': 200,
            'contexts': 150, 'compose': 200, 'files': 800, 'contradictory': 20,
            'closures': 200, 'sigma': 200, 'far': 600, 'layers': 350,
            'feeding': 3000, 'functions': 400}
LETTERS = list('abxyz') + ['é', 'क', 'ि', '्', 'ب', '𑀓', '😀', '\u200d']
ODD = ['1', '0', '7', '"', "'", '#', '\\', '[', ']', ' ', ',', '-', '.', '^',
       'N', 'A']


def shards(tier):
  return (['unordered%d' % i for i in range(4)] +
          ['cascading%d' % i for i in range(2)] +
          ['xcontext0', 'xcontext1', 'parts'])


def work(ctx, shard):
  {'u': unordered, 'c': cascading, 'x': contexts, 'p': parts}[shard[0]](ctx)


def esc(s):
  """As string files and rule files need it, in one go."""
  return ''.join('\\' + c if c in '[]\\#' else c for c in s)


class Tables:

  def __init__(self):
    self.dir = tempfile.mkdtemp(prefix='nisaba-verif-p12-')
    self.n = 0

  def write(self, rows, rng=None, header=True):
    self.n += 1
    path = '%s/%d.tsv' % (self.dir, self.n)
    out = ['# Auto-generated'] if header else []
    for r in rows:
      out.append('\t'.join(r))
      if rng and rng.random() < .1:
        out.append(rng.choice(['', '# x\ty', '#']))
    with open(path, 'w', encoding='utf8', newline='') as f:
      f.write('\n'.join(out) + ('\n' if out else ''))
    return path

  def close(self):
    subprocess.call(['/bin/rm', '-rf', self.dir])


def alphabet(rng):
  r = rng.random()
  if r < .5:
    a = rng.sample(LETTERS, rng.randint(3, 5))
  elif r < .6:
    a = rng.sample(list('0123456789'), 4)
  else:
    a = rng.sample(LETTERS, 2) + rng.sample(ODD, rng.randint(2, 4))
  return a


def word(rng, a, lo, hi):
  return ''.join(rng.choice(a) for _ in range(rng.randint(lo, hi)))


def rule_set(rng, a, contradict=False):
  """Rules with many substring relations and overlaps."""
  lhs, rules = [], []
  for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 7])):
    if lhs and rng.random() < .45:
      base = rng.choice(lhs)
      l = rng.choice([base + rng.choice(a), rng.choice(a) + base, base[:-1],
                      base[1:], base[-1:] + rng.choice(a)])
    else:
      l = word(rng, a, 1, 3)
    if not l or len(l) > 5 or (l in lhs and not contradict):
      continue
    lhs.append(l)
    r = rng.random()
    if r < .12:
      rules.append((l, ''))
    elif lhs and r < .3:
      rules.append((l, rng.choice(lhs)))
    else:
      rules.append((l, word(rng, a, 0, 3)))
  return rules


def texts(rng, a, rules, full, more):
  for n in range(full + 1):
    for t in itertools.product(a, repeat=n):
      yield ''.join(t)
  bits = a + [l for l, _ in rules] * 2 + [r for _, r in rules if r]
  for _ in range(more):
    yield ''.join(rng.choice(bits) for _ in range(rng.randint(2, 8)))


def sigma(a, tt):
  import pynini
  with pynini.default_token_type(tt):
    return pynini.union(*(pynini.escape(c) for c in a)).optimize()


def run(fst, text, tt):
  """All results of a text: a set of strings, and whether all were free."""
  import pynini
  with pynini.default_token_type(tt):
    l = pynini.compose(pynini.accep(pynini.escape(text)), fst)
    if l.start() == -1:
      return set(), True
    l = pynini.project(l, 'output').rmepsilon()
    l = pynini.shortestpath(l, nshortest=3, unique=True)
    r = [(o, float(w)) for _, o, w in l.paths().items()]
  return {o for o, _ in r}, all(w == 0 for _, w in r)


def judge(ctx, what, fst, rules, model, a, tt, n):
  rng = ctx.rng
  fired = 0
  for t in texts(rng, a, rules, *n):
    exp = model(t)
    got, free = run(fst, t, tt)
    if exp != t:
      fired += 1
    ctx.case((what, tuple(rules), t), exp != t, sample=[what, rules, t, exp])
    ctx.saw('texts')
    ctx.expect(got == {exp} and free, what, 'the rules give something else '
               'than documented', rules=rules, text=t, expected=exp,
               got=sorted(got), token_type=tt)
  return fired


def write_rules(tables, rng, rules):
  rows = []
  for l, r in rules:
    # A line of blanks alone is an empty line.
    if r or not l.strip() or rng.random() < .5:
      rows.append((esc(l), esc(r)))
    else:
      rows.append((esc(l),))
  return tables.write(rows, rng)


def reader(ctx, path, rules):
  from nisaba.scripts.utils import rule
  got = [tuple(x) for x in rule.rules_from_string_path(path)]
  ctx.saw('files')
  return ctx.expect(
      got == rules, 'rule-file', 'rules read from a file are not those in it',
      expected=rules, got=got)


def pre(rules):
  """What string_map reads: a rule's text with pynini's escapes."""
  q = lambda s: ''.join('\\' + c if c in '[]\\' else c for c in s)
  return [(q(l), q(r)) for l, r in rules]


def unordered(ctx):
  import pynini
  from nisaba.scripts.utils import rule
  rng = ctx.rng
  tables = Tables()
  try:
    for _ in range(ctx.n(200, 3000)):
      a = alphabet(rng)
      contradict = rng.random() < .1
      rules = rule_set(rng, a, contradict)
      if rules and rng.random() < .12:
        rules.append((rng.choice(rules)[0], word(rng, a, 1, 3)))
      path = write_rules(tables, rng, rules)
      if not reader(ctx, path, rules):
        continue
      os.unlink(path)
      tt = rng.choice(['byte', 'utf8'])
      # Brackets and backslashes reach pynini as syntax: escape them.
      given = [rule.Rule(*x) for x in pre(rules)]
      rng.shuffle(given)
      contra = any(p[0] == q[0] and p != q for p in rules for q in rules)
      try:
        parts = [list(p) for p in rule.partition_unordered(given)]
      except ValueError:
        ctx.saw('contradictory')
        ctx.expect(contra, 'refused', 'rules without contradiction were '
                   'refused', rules=rules)
        continue
      if contra:
        ctx.violate('contradiction', 'two results for the same text were '
                    'accepted in unordered rules', rules=rules)
        continue
      # Every rule once, longer contexts strictly before shorter ones.
      where = {r: i for i, p in enumerate(parts) for r in p}
      ctx.saw('layers')
      ctx.expect(
          sorted(r for p in parts for r in p) == sorted(set(given)) and
          all(parts) and
          all(where[p] > where[q] for p in where for q in where
              if p != q and p.lhs in q.lhs),
          'partition', 'the partition of unordered rules is not an ordered '
          'partition in which containing rules come first', rules=rules,
          parts=parts)
      with pynini.default_token_type(tt):
        fst = rule.fst_from_rules(given, sigma(a, tt))
      ls = R.layers(rules)
      if judge(ctx, 'unordered', fst, rules,
               lambda t: R.unordered_pre(ls, t), a, tt,
               (3, 120) if len(a) > 4 else (4, 100)):
        ctx.saw('unordered')
  finally:
    tables.close()


def cascading(ctx):
  import pynini
  from nisaba.scripts.utils import rule
  from nisaba.scripts.utils import file as uf
  rng = ctx.rng
  tables = Tables()
  # Rule files by resource name, as grammars give them.
  orig = uf.AsResourcePath
  uf.AsResourcePath = lambda p: p if str(p).startswith(tables.dir) else orig(p)
  try:
    for _ in range(ctx.n(250, 3000)):
      a = alphabet(rng)
      rules = [(l, r) for l, r in rule_set(rng, a, True)]
      tt = rng.choice(['byte', 'utf8'])
      plain = not any(c in '[]\\' for c in ''.join(a))
      path = write_rules(tables, rng, rules)
      if not reader(ctx, path, rules):
        continue
      with pynini.default_token_type(tt):
        if plain:
          fst = rule.fst_from_cascading_rule_file(path, sigma(a, tt))
        else:
          fst = rule._fst_from_cascading_rules(
              [rule.Rule(*x) for x in pre(rules)], sigma(a, tt))
      os.unlink(path)
      feeding = 0
      if judge(ctx, 'cascading', fst, rules,
               lambda t: R.cascade(rules, t), a, tt, (3, 150)):
        ctx.saw('cascading')
      for t in texts(rng, a, rules, 0, 30):
        feeding += R.cascade(rules, t) != R.cascade(rules[::-1], t)
      ctx.saw('feeding', feeding)
  finally:
    uf.AsResourcePath = orig
    tables.close()


def contexts(ctx):
  import pynini
  from nisaba.scripts.utils import rewrite
  rng = ctx.rng
  for _ in range(ctx.n(250, 3000)):
    a = [c for c in alphabet(rng)]
    rules = [x for x in rule_set(rng, a)]
    # One layer: no left side inside another.
    rules = [x for x in rules if not any(x != y and x[0] in y[0]
                                         for y in rules)]
    if not rules:
      continue
    lefts = rng.sample(a, rng.randint(1, 2)) if rng.random() < .7 else []
    rights = rng.sample(a, rng.randint(1, 2)) if rng.random() < .7 else []
    bos, eos = rng.random() < .3, rng.random() < .3
    tt = rng.choice(['byte', 'utf8'])
    q = lambda xs, edge: pynini.union(*([pynini.escape(x) for x in xs] +
                                        ([edge] if edge else [])))
    with pynini.default_token_type(tt):
      left = q(lefts, '[BOS]' if bos else '') if lefts or bos else ''
      right = q(rights, '[EOS]' if eos else '') if rights or eos else ''
      fst = rewrite.Rewrite(pynini.string_map(pre(rules)), sigma(a, tt), left,
                            right)
    lfun = (lambda done: done.endswith(tuple(lefts)) and bool(lefts) or
            bos and not done) if lefts or bos else None
    rfun = (lambda rest: rest.startswith(tuple(rights)) and bool(rights) or
            eos and not rest) if rights or eos else None
    # "At the start" means the start of the text, not of what is left of it:
    # a deletion at the start keeps the next symbol there.
    if bos and any(not r for _, r in rules):
      continue
    if judge(ctx, 'context', fst, rules,
             lambda t: R.scan(rules, t, lfun, rfun), a, tt, (3, 100)):
      ctx.saw('contexts')


def parts(ctx):
  import functools
  import pynini
  from nisaba.scripts.utils import char
  from nisaba.scripts.utils import file as uf
  from nisaba.scripts.utils import func
  from nisaba.scripts.utils import rewrite
  rng = ctx.rng
  tables = Tables()
  orig = uf.AsResourcePath
  uf.AsResourcePath = lambda p: p if str(p).startswith(tables.dir) else orig(p)
  try:
    for _ in range(ctx.n(400, 5000)):
      # A composition is its parts in order, whatever their sizes.
      a = rng.sample(LETTERS[:9], 4)
      tt = rng.choice(['byte', 'utf8'])
      steps = []
      for _ in range(rng.randint(0, 6)):
        rs = rule_set(rng, a)
        rs = [x for x in rs if not any(x != y and x[0] in y[0] for y in rs)]
        if rs:
          steps.append(rs)
      with pynini.default_token_type(tt):
        sg = sigma(a, tt)
        fsts = [rewrite.Rewrite(pynini.string_map(rs), sg) for rs in steps]
        one = rewrite.ComposeFsts(iter(fsts), sg.star.optimize())
        two = rewrite.RewriteAndComposeFsts(
            [pynini.string_map(rs) for rs in steps], sg)
        none = rewrite.ComposeFsts([])
      ctx.expect(none.start() == -1, 'compose-none', 'a composition of nothing '
                 'is not the empty relation by default')
      def model(t):
        for rs in steps:
          t = R.scan(rs, t)
        return t
      flat = [r for rs in steps for r in rs]
      for t in texts(rng, a, flat, 1, 60):
        exp = model(t)
        for name, f in (('compose', one), ('rewrite-and-compose', two)):
          got, free = run(f, t, tt)
          ctx.case((name, repr(steps), t), exp != t)
          ctx.saw('texts')
          ctx.expect(got == {exp} and free, name, 'a composition is not its '
                     'parts, in order', steps=steps, text=t, expected=exp,
                     got=sorted(got))
      ctx.saw('compose')

      # String files and closures.
      a = alphabet(rng)
      rows = [x for x in rule_set(rng, a) if x[1]]
      single = rng.random() < .4
      path = tables.write([(esc(l),) if single else (esc(l), esc(r))
                           for l, r in rows], rng, rng.random() < .8)
      dflt = rng.choice([None, 'eps'])
      with pynini.default_token_type(tt):
        f = uf.StringFile(path, uf.EPSILON) if dflt else uf.StringFile(path)
        pairs = {(i, o) for i, o, _ in f.paths().items()} if (
            f.start() != -1) else set()
      exp = {(l, l) if single else (l, r) for l, r in rows} or (
          {('', '')} if dflt else set())
      ctx.saw('files')
      ctx.expect(pairs == exp, 'string-file', 'a string file does not give '
                 'the pairs in it', rows=rows, got=sorted(pairs))
      with pynini.default_token_type(tt):
        g = uf.StringFile(path)
        ques, star = uf.QuesSafe(g), uf.StarSafe(g)
        for t in texts(rng, a[:4], rows, 2, 20):
          acc = lambda f: pynini.compose(pynini.accep(pynini.escape(t)),
                                         f).start() != -1
          dom = {l for l, _ in rows}
          ctx.expect(acc(ques) == (t == '' or t in dom), 'ques',
                     'optional is not "none or one"', rows=rows, text=t)
          ctx.expect(acc(star) == words(t, dom), 'star',
                     'repetition is not "any number of"', rows=rows, text=t)
      ctx.saw('closures')

      # Characters of files, and the alphabet made of them.
      plain = [c for c in a if c not in '#\\[] ']
      if plain:
        rows2 = [(word(rng, plain, 1, 3), word(rng, plain, 1, 3))
                 for _ in range(rng.randint(0, 4))]
        p2 = tables.write(rows2, rng)
        both, inp = rng.choice([([path], [p2]), ([p2], []), ([], [p2]),
                                ([p2], [p2]), ([], [])])
        if path in both and any(c in '#\\[] ' for c in a):
          both = [p2]
        cols = {path: [x[:1] if single else x for x in rows], p2: rows2}
        exp = {c for p in both for r in cols[p] for s in r for c in s}
        exp |= {c for p in inp for r in cols[p] for c in r[0]}
        got = char.derive_chars(both_sides=both, input_side=inp)
        ctx.expect(got == exp, 'chars', 'the characters of files are not '
                   'those in them', expected=sorted(exp), got=sorted(got))
        ctx.saw('sigma')
        if exp:
          with pynini.default_token_type(tt):
            sg = char.derive_sigma(got)
            lang = set(sg.paths().ostrings())
          ctx.expect(lang == exp | {'\u200b', '\u200c', '\u200d'}, 'sigma',
                     'the alphabet is not the characters and the joiners',
                     expected=sorted(exp), got=sorted(lang))
          os.unlink(p2)
      os.unlink(path)

      # Archives.
      if rng.random() < .5:
        far(ctx, uf, tables, tt)
      # Functions.
      fs = [rng.choice([lambda v: v + 'a', lambda v: v[::-1],
                        lambda v: v + v[:1], str.upper]) for _ in
            range(rng.randint(0, 5))]
      v = word(rng, list('xyz'), 0, 4)
      exp = v
      for f in fs:
        exp = f(exp)
      ctx.saw('functions', 2)
      ctx.expect(func.ComposeFn1(*fs)(v) == exp, 'functions',
                 'a composition of functions is not its parts in order')
  finally:
    uf.AsResourcePath = orig
    tables.close()


def words(t, dom):
  ok = [True] + [False] * len(t)
  for i in range(len(t)):
    if ok[i]:
      for w in dom:
        if w and t.startswith(w, i):
          ok[i + len(w)] = True
  return ok[len(t)]


def far(ctx, uf, tables, tt):
  import pathlib
  import pynini
  rng = ctx.rng
  d = pathlib.Path(tables.dir)
  name = rng.choice(['iso', 'nfc'])
  keys = rng.sample(['DEVA', 'BENG', 'FROM_ARAB', 'X1'], rng.randint(1, 3))
  held = {}
  for t in ('byte', 'utf8'):
    path = str(d / (name + {'byte': '', 'utf8': '_utf8'}[t] + '.far'))
    with pynini.Far(path, 'w') as f:
      for k in sorted(keys):
        held[t, k] = pynini.accep(k + t)
        f.add(k, held[t, k])
  paths = [str(d / (name + s + '.far')) for s in ('', '_utf8')]
  try:
    for k in keys + ['NONE']:
      for ask in (k, k.lower()):
        dflt = pynini.accep('default')
        got = uf.OpenFstFromFarSafe(d, name, tt, ask, dflt)
        exp = held.get((tt, k), dflt)
        ctx.expect(pynini.equal(got, exp), 'far-safe', 'an FST read from an '
                   'archive is not the one asked for, or the default',
                   key=ask, token_type=tt)
        if k != 'NONE':
          ctx.expect(pynini.equal(uf.OpenFstFromFar(d, name, tt, ask), exp),
                     'far', 'an FST read from an archive is not the one asked '
                     'for', key=ask, token_type=tt)
        ctx.saw('far')
    ctx.expect(uf.IsFileExist(paths[0]) and not uf.IsFileExist(d / 'none.far')
               and not uf.IsFileExist(d), 'exists', 'IsFileExist is wrong')
    got = uf.OpenFstFromFarSafe(d, 'none', tt, 'X', pynini.accep('default'))
    ctx.expect(pynini.equal(got, pynini.accep('default')), 'far-missing',
               'a missing archive does not give the default')
  finally:
    for p in paths:
      os.unlink(p)
